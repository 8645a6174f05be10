P='pkg/print/print.go'
S='pkg/print/schema.go'
def p(*x): return [(P,a,b) for a,b in zip(x[::2],x[1::2])]
def s(*x): return [(S,a,b) for a,b in zip(x[::2],x[1::2])]
src=open('/repo/'+S).read()
def part(a,b):
    i=src.index(a); return src[i:src.index(b,i)]
IDX=part('func SchemaIndexes','// SchemaForeingKeys')
KEYS=src[src.index('func SchemaForeingKeys'):]
COLROW=part('		// TODO: select','	}\n\n	_ = table.Render()\n\n	if')
HELP='''
func printTable(w io.Writer, header []string, rows [][]string) {
	table := tablewriter.NewTable(w)
	table.Header(header)
	for _, row := range rows {
		_ = table.Append(row)
	}
	_ = table.Render()
}
'''
JSON=open('/repo/'+P).read(); JSON=JSON[JSON.index('	json, err := json.Marsh'):JSON.index('// Yaml prints')]
EDITS={
'print-bulk': s(IDX,'''func SchemaIndexes(w io.Writer, r schema.Indexes) {
	rows := make([][]string, 0, len(r))
	for _, c := range r {
		rows = append(rows, []string{c.Name, yes(c.IsPrimary), yes(c.IsUnique), strings.Join(c.ColumnNames, ", ")})
	}
	table := tablewriter.NewTable(w)
	table.Header([]string{"Name", "Primary", "Unique", "Columns"})
	_ = table.Bulk(rows)
	_ = table.Render()
	_, _ = fmt.Fprintln(w)
}

func yes(b bool) string {
	if b {
		return "YES"
	}
	return ""
}

'''),
'print-helper': s(IDX,'''func SchemaIndexes(w io.Writer, r schema.Indexes) {
	var rows [][]string
	for _, c := range r {
		rows = append(rows, []string{c.Name, values.Select(c.IsPrimary, "YES", ""), values.Select(c.IsUnique, "YES", ""), strings.Join(c.ColumnNames, ", ")})
	}
	printTable(w, []string{"Name", "Primary", "Unique", "Columns"}, rows)
	_, _ = fmt.Fprintln(w)
}
'''+HELP,KEYS,'''func SchemaForeingKeys(w io.Writer, r schema.ForeignKeys) {
	rows := make([][]string, len(r))
	for i, c := range r {
		rows[i] = []string{c.Name, c.Schema, c.Table, c.Column, c.RefSchema, c.RefTable, c.RefColumn}
	}
	printTable(w, []string{"Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column"}, rows)
	_, _ = fmt.Fprintln(w)
}
'''),
'print-colhelper': s(COLROW,'		_ = table.Append(columnRow(c))\n','// SchemaIndexes prints','''func columnRow(c *schema.Column) []string {
	row := make([]string, 0, 8)
	row = append(row, strconv.Itoa(int(c.Position)), c.Name, c.Type, c.UdtType)
	row = append(row, flag(c.Nullable))
	if c.MaxLength > 0 {
		row = append(row, fmt.Sprint(c.MaxLength))
	} else {
		row = append(row, "")
	}
	row = append(row, flag(len(c.Indexes) > 0))
	return append(row, c.Ref.RefColumnSchemaName())
}

func flag(b bool) string {
	if !b {
		return ""
	}
	return "YES"
}

// SchemaIndexes prints''','	"io"\n','	"io"\n	"strconv"\n'),
'print-colrow2': s(COLROW,'''		row := [8]string{1: c.Name, 2: c.Type, 3: c.UdtType}
		row[0] = fmt.Sprint(c.Position)
		if c.Nullable {
			row[4] = "YES"
		}
		if c.MaxLength != 0 {
			row[5] = fmt.Sprint(c.MaxLength)
		}
		if c.IsIndex() {
			row[6] = "YES"
		}
		if ref := c.Ref; ref != nil {
			row[7] = ref.RefSchema + "." + ref.RefTable + "." + ref.RefColumn
		}
		_ = table.Append(row[:])
'''),
'print-anyrow': s('''_ = table.Append([]string{
			c.Name,
			c.Schema,
			c.Table,
			c.Column,
			c.RefSchema,
			c.RefTable,
			c.RefColumn,
		})''','_ = table.Append(c.Name, c.Schema, c.Table, c.Column, c.RefSchema, c.RefTable, c.RefColumn)','table.Header([]string{"Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column"})','table.Header("Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column")'),
'print-index-loop': s('	for _, t := range r {\n		SchemaTable(w, t)','	for i := 0; i < len(r); i++ {\n		SchemaTable(w, r[i])'),
'print-io': s('_, _ = fmt.Fprintf(w, "Schema: %s\\nTable: %s\\n\\n", r.Schema, r.Name)','_, _ = fmt.Fprintln(w, "Schema:", r.Schema)\n	_, _ = io.WriteString(w, "Table: "+r.Name+"\\n\\n")','_, _ = fmt.Fprintf(w, "\\nIndexes:\\n")','_, _ = fmt.Fprint(w, "\\nIndexes:\\n")'),
'print-early': s('''	if len(r.Indexes) > 0 {
		_, _ = fmt.Fprintf(w, "\\nIndexes:\\n")
		SchemaIndexes(w, r.Indexes)
	} else {
		_, _ = fmt.Fprintln(w)
	}''','''	_, _ = fmt.Fprintln(w)
	if len(r.Indexes) == 0 {
		return
	}
	_, _ = fmt.Fprintln(w, "Indexes:")
	SchemaIndexes(w, r.Indexes)'''),
'print-newtable': s('table := tablewriter.NewTable(w)\n	table.Header([]string{"Ord", "Name", "Type", "UDT", "NULL", "Max", "Index", "Ref"})','table := newTable(w, "Ord", "Name", "Type", "UDT", "NULL", "Max", "Index", "Ref")','table := tablewriter.NewTable(w)\n	table.Header([]string{"Name", "Primary", "Unique", "Columns"})','table := newTable(w, "Name", "Primary", "Unique", "Columns")','table := tablewriter.NewTable(w)\n	table.Header([]string{"Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column"})','table := newTable(w, "Name", "Schema", "Table", "Column", "FK Schema", "FK Table", "FK Column")','func SchemaTables','''func newTable(w io.Writer, header ...string) *tablewriter.Table {
	table := tablewriter.NewTable(w)
	table.Header(header)
	return table
}

func SchemaTables'''),
'print-finish': s('''	_ = table.Render()
	_, _ = fmt.Fprintln(w)
}

// SchemaForeing''','''	finish(w, table)
}

func finish(w io.Writer, table *tablewriter.Table) {
	defer fmt.Fprintln(w)
	_ = table.Render()
}

// SchemaForeing'''),
'print-encoder': p(JSON,'''	enc := json.NewEncoder(w)
	enc.SetIndent("", "  ")
	if err := enc.Encode(value); err != nil {
		return errors.WithMessage(err, "failed to encode")
	}
	return nil
}

'''),
'print-twowrites': p("	_, err = w.Write(append(json, '\\n'))\n	return errors.WithStack(err)","""	if _, err = w.Write(json); err != nil {
		return errors.WithStack(err)
	}
	_, err = io.WriteString(w, "\\n")
	return errors.WithStack(err)"""),
'print-fprintf': p("	_, err = w.Write(append(json, '\\n'))","""	_, err = fmt.Fprintf(w, "%s\\n", json)""",'	"io"\n','	"fmt"\n	"io"\n'),
'print-switch': p('''	if format == "yaml" {
		return Yaml(w, value)
	}
	if format == "json" {
		return JSON(w, value)
	}
	Print(w, value)
	return nil''','''	switch format {
	case "json":
		return JSON(w, value)
	case "yaml":
		return Yaml(w, value)
	default:
		Print(w, value)
	}
	return nil'''),
'print-map': p('''	if format == "yaml" {
		return Yaml(w, value)
	}
	if format == "json" {
		return JSON(w, value)
	}
''','''	if enc, ok := encoders[format]; ok {
		return enc(w, value)
	}
''','// Object prints','''var encoders = map[string]func(io.Writer, any) error{
	"json": JSON,
	"yaml": Yaml,
}

// Object prints'''),
'print-write': p('''	_, err = w.Write(y)
	return errors.WithStack(err)''','	return write(w, y)',"	_, err = w.Write(append(json, '\\n'))\n	return errors.WithStack(err)","	return write(w, append(json, '\\n'))",'// Object prints','''func write(w io.Writer, b []byte) error {
	_, err := w.Write(b)
	return errors.WithStack(err)
}

// Object prints'''),
'print-ifs': p('''	switch t := value.(type) {
	case *schema.Table:
		SchemaTable(w, t)
	case schema.Tables:
		SchemaTables(w, t)
	case schema.ForeignKeys:''','''	if t, ok := value.(*schema.Table); ok {
		SchemaTable(w, t)
		return
	}
	switch t := value.(type) {
	case schema.Tables:
		for _, x := range t {
			Print(w, x)
		}
	case schema.ForeignKeys:'''),
'print-buffer': p("	_, err = w.Write(append(json, '\\n'))","""	var buf bytes.Buffer
	buf.Write(json)
	buf.WriteByte('\\n')
	_, err = w.Write(buf.Bytes())""",'import (\n','import (\n	"bytes"\n'),
}
