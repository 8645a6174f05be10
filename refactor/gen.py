T='internal/cli/schema/template.go'
S='internal/cli/schema/schema.go'
C='schema/schema.go'
def t(*p): return [(T,a,b) for a,b in zip(p[::2],p[1::2])]
def s(*p): return [(S,a,b) for a,b in zip(p[::2],p[1::2])]
def c(*p): return [(C,a,b) for a,b in zip(p[::2],p[1::2])]
src=open('/repo/'+S).read()
def part(a,b):
    i=src.index(a); return src[i:src.index(b,i)]
INFO=part("			tableInfos = append(tableInfos, &schema.TableInfo{","			prefix := ")
TD=part("			td := &tableDefinition{","			err = codeModelTemplate")
MODELS=part("		buf := &bytes.Buffer{}\n","		fn := \"model.gen.go\"")
DESC=part("		buf.Reset()\n",'		fn = "schema.gen.go"')
OVER=part("		for k, v := range defs.Types","	schemas := map")
DIALECT=part("	var dialect string\n","	dropColumnsMap := map")
EDITS={
'gen-info-helper': s(INFO,"			tableInfos = append(tableInfos, newTableInfo(t, dropColumnsMap))\n","// writeCode writes","""func newTableInfo(t *schema.Table, drop map[string]bool) *schema.TableInfo {
	ti := new(schema.TableInfo)
	ti.Schema, ti.Name, ti.SchemaName = t.Schema, t.Name, t.SchemaName
	ti.Indexes = t.Indexes.Names()
	ti.Columns = filterColumns(t.Columns, drop).Names()
	ti.PrimaryKey = t.PrimaryKeyName()
	return ti
}

// writeCode writes"""),
'gen-info-loop': s(INFO,"","		sName := strcase","		for _, t := range tables {\n"+INFO+"		}\n		sName := strcase"),
'gen-td-helper': s(TD,"			td := a.tableDef(t, dbName, modelPkg, schemaPkg, dialect, imports, prefix+structName, dropColumnsMap)\n\n","// writeCode writes","""func (a *GenerateCmd) tableDef(t *schema.Table, dbName, modelPkg, schemaPkg, dialect string, imports []string, name string, dropColumnsMap map[string]bool) *tableDefinition {
"""+TD.replace("prefix + structName","name")+"""
	return td
}

// writeCode writes"""),
'gen-models-helper': s(MODELS,"		code, tableInfos, tableDefs, err := a.models(schemaName, dbName, modelPkg, schemaPkg, dialect, imports, tables, dropColumnsMap)\n		if err != nil {\n			return err\n		}\n		buf := &bytes.Buffer{}\n","""		var tableInfos []*schema.TableInfo
		var tableDefs []*tableDefinition

""","","	var codeHeaderTemplate = template.Must(template.New(\"header\").Funcs(templateFuncMap).Parse(codeHeaderTemplateText))\n	var codeModelTemplate = template.Must(template.New(\"codeModelTemplate\").Funcs(templateFuncMap).Parse(codeModelTemplateText))\n","","		data = buf.Bytes()","		data := buf.Bytes()","	var err error\n\n","",
"// writeCode writes","""func (a *GenerateCmd) models(schemaName, dbName, modelPkg, schemaPkg, dialect string, imports []string, tables schema.Tables, dropColumnsMap map[string]bool) ([]byte, []*schema.TableInfo, []*tableDefinition, error) {
	var codeHeaderTemplate = template.Must(template.New("header").Funcs(templateFuncMap).Parse(codeHeaderTemplateText))
	var codeModelTemplate = template.Must(template.New("codeModelTemplate").Funcs(templateFuncMap).Parse(codeModelTemplateText))
	var tableInfos []*schema.TableInfo
	var tableDefs []*tableDefinition
	var err error
"""+MODELS.replace("return errors","return nil, nil, nil, errors")+"""
	return code, tableInfos, tableDefs, nil
}

// writeCode writes"""),
'gen-format-helper': s("""		data := buf.Bytes()
		code, err := format.Source(data)
		if err != nil {
			return errors.WithMessagef(err, "failed to format models: %s", string(data))
		}
""","""		code, err := formatCode(buf, "models")
		if err != nil {
			return err
		}
""","""		data = buf.Bytes()
		code, err = format.Source(data)
		if err != nil {
			return errors.WithMessagef(err, "failed to format schema: %s", string(data))
		}
""","""		if code, err = formatCode(buf, "schema"); err != nil {
			return err
		}
""","// writeCode writes","""func formatCode(buf *bytes.Buffer, what string) ([]byte, error) {
	code, err := format.Source(buf.Bytes())
	if err != nil {
		return nil, errors.WithMessagef(err, "failed to format %s: %s", what, buf.String())
	}
	return code, nil
}

// writeCode writes"""),
'gen-two-buffers': s("		buf.Reset()\n","		out := &bytes.Buffer{}\n","schemaHeaderCodeTemplate.Execute(buf, td)","schemaHeaderCodeTemplate.Execute(out, td)","schemaCodeTemplate.Execute(buf, ctd)","schemaCodeTemplate.Execute(out, ctd)","data = buf.Bytes()","data = out.Bytes()"),
'gen-value-buffer': s("		buf := &bytes.Buffer{}\n","		var b bytes.Buffer\n		buf := &b\n"),
'gen-filename': s("""		fn := "model.gen.go"
		if len(schemas) > 1 {
			fn = schemaName + "_model.gen.go"
		}
""","""		fn := fileName(schemaName, "model", len(schemas) > 1)
""","""		fn = "schema.gen.go"
		if len(schemas) > 1 {
			fn = schemaName + "_schema.gen.go"
		}
""","""		fn = fileName(schemaName, "schema", len(schemas) > 1)
""","// writeCode writes","""func fileName(schemaName, kind string, many bool) string {
	if many {
		return fmt.Sprintf("%s_%s.gen.go", schemaName, kind)
	}
	return kind + ".gen.go"
}

// writeCode writes"""),
'gen-overrides-helper': s(OVER,"		applyOverrides(&defs, dropColumnsMap)\n	}\n\n","// writeCode writes","""func applyOverrides(defs *override, dropColumnsMap map[string]bool) {
"""+OVER.rstrip()[:-1].rstrip()+"""
}

// writeCode writes"""),
'gen-overrides-copy': s("		for k, v := range defs.Types {\n			typesMap[k] = v\n		}\n","		gomaps.Copy(typesMap, defs.Types)\n",'	"fmt"\n','	"fmt"\n	gomaps "maps"\n'),
'gen-index-loop': s("		for _, t := range tables {\n","		for i := range tables {\n			t := tables[i]\n","	for _, t := range res {\n		schemas","	for i := 0; i < len(res); i++ {\n		t := res[i]\n		schemas","for _, ctd := range tableDefs {","for i := 0; i < len(tableDefs); i++ {\n			ctd := tableDefs[i]"),
'gen-prealloc': s("		var tableInfos []*schema.TableInfo\n		var tableDefs []*tableDefinition\n","		tableInfos := make([]*schema.TableInfo, 0, len(tables))\n		tableDefs := make([]*tableDefinition, 0, len(tables))\n"),
'gen-assign': s("		var tableInfos []*schema.TableInfo\n","		tableInfos := make([]*schema.TableInfo, len(tables))\n","		for _, t := range tables {\n","		for i, t := range tables {\n","tableInfos = append(tableInfos, &schema.TableInfo{","tableInfos[i] = &schema.TableInfo{","				PrimaryKey: t.PrimaryKeyName(),\n			})","				PrimaryKey: t.PrimaryKeyName(),\n			}"),
'gen-globals': s("	var codeHeaderTemplate = template.Must(template.New(\"header\").Funcs(templateFuncMap).Parse(codeHeaderTemplateText))\n	var codeModelTemplate = template.Must(template.New(\"codeModelTemplate\").Funcs(templateFuncMap).Parse(codeModelTemplateText))\n","",'type override struct','var codeHeaderTemplate = template.Must(template.New("header").Funcs(templateFuncMap).Parse(codeHeaderTemplateText))\nvar codeModelTemplate = template.Must(template.New("codeModelTemplate").Funcs(templateFuncMap).Parse(codeModelTemplateText))\n\ntype override struct'),
'gen-parse-helper': s('template.Must(template.New("header").Funcs(templateFuncMap).Parse(codeHeaderTemplateText))','parseTemplate("header", codeHeaderTemplateText)','template.Must(template.New("codeModelTemplate").Funcs(templateFuncMap).Parse(codeModelTemplateText))','parseTemplate("model", codeModelTemplateText)',"// writeCode writes","func parseTemplate(name, text string) *template.Template {\n	return template.Must(template.New(name).Funcs(templateFuncMap).Parse(text))\n}\n\n// writeCode writes"),
'gen-hoist': s("""		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
""","","	modelPkg := values","""		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
	modelPkg := values"""),
'gen-dialect-helper': s(DIALECT,"""	dialect := dialectName(provider)
	imports := a.Imports
	if provider == "postgres" {
		imports = append(imports, "github.com/lib/pq")
	}
""","// writeCode writes","""func dialectName(provider string) string {
	if provider == "postgres" {
		return "xsql.Postgres"
	}
	if provider == "sqlserver" {
		return "xsql.SQLServer"
	}
	return "xsql.NoDialect"
}

// writeCode writes"""),
'gen-group-helper': s("""	schemas := map[string]schema.Tables{}
	for _, t := range res {
		schemas[t.Schema] = append(schemas[t.Schema], t)
	}
""","	schemas := bySchema(res)\n","// writeCode writes","""func bySchema(res schema.Tables) map[string]schema.Tables {
	schemas := make(map[string]schema.Tables)
	for _, t := range res {
		list := schemas[t.Schema]
		list = append(list, t)
		schemas[t.Schema] = list
	}
	return schemas
}

// writeCode writes"""),
'gen-filter-continue': s("""		if !dropColumnsMap[c.Name] {
			result = append(result, c)
		}
""","""		if _, drop := dropColumnsMap[c.Name]; drop {
			continue
		}
		result = append(result, c)
""") if False else s("""		if !dropColumnsMap[c.Name] {
			result = append(result, c)
		}
""","""		if dropColumnsMap[c.Name] {
			continue
		}
		result = append(result, c)
"""),
'gen-filter-prealloc': s("	var result schema.Columns\n","	result := make(schema.Columns, 0, len(columns))\n"),
'gen-tmpl-with': t("{{- if .WithCache }}\n\n	// cachedProps","{{- with .WithCache }}\n\n	// cachedProps"),
'gen-tmpl-order': t('	SchemaName : "{{ .SchemaName }}",\n	Schema     : "{{ .Schema }}",\n','	Schema     : "{{ .Schema }}",\n	SchemaName : "{{ .SchemaName }}",\n'),
'gen-tmpl-join': t('''	if hasNextPage && len(rows) > 0 {
		p.Cursor = cursor(rows[len(rows)-1])
    }
''','''	n := len(rows)
	if n == 0 || !hasNextPage {
		return
	}
	p.Cursor = cursor(rows[n-1])
'''),
'gen-tmpl-scan': t('''	err := rows.Scan(
''','''	if err := rows.Scan(
''','''	)
	if err != nil {
		return errors.WithStack(err)
	}
	return nil
''','''	); err != nil {
		return errors.WithStack(err)
	}
	return nil
'''),
'gen-tmpl-scan2': t('''	if err != nil {
		return errors.WithStack(err)
	}
	return nil
}

type''','''	return errors.WithStack(err)
}

type'''),
'gen-tmpl-recv': t('ScanRow(rows xdb.Row) error {\n	err := rows.Scan(','ScanRow(row xdb.Row) error {\n	err := row.Scan('),
'gen-tmpl-define': t('''{{- range .Columns }}
	{{columnStructName .}} xdbschema.Column // {{.Name}} {{.Type}}
{{- end }}''','''{{- define "col" }}
	{{columnStructName .}} xdbschema.Column // {{.Name}} {{.Type}}
{{- end }}
{{- range .Columns }}{{ template "col" . }}
{{- end }}'''),
'gen-tag-parts': c("""	ops := ""

	if c.UdtType != "" {
		ops += fmt.Sprintf(",%s", c.UdtType)
	} else {
		ops += fmt.Sprintf(",%s", c.Type)
	}
	if c.MaxLength > 0 {
		ops += fmt.Sprintf(",max:%d", c.MaxLength)
	}
	if c.Nullable {
		ops += ",null"
	}

	if len(c.Indexes) > 0 {
		ops += ",index"
		if c.IsPrimary() {
			ops += ",primary"
		}
	}
	if c.Ref != nil {
		ops += ",fk:" + c.Ref.RefColumnSchemaName()
	}
	return fmt.Sprintf("db:\\"%s%s\\" json:\\",omitempty\\"", c.Name, ops)
""","""	typ := c.UdtType
	if typ == "" {
		typ = c.Type
	}
	parts := []string{c.Name, typ}
	if c.MaxLength > 0 {
		parts = append(parts, fmt.Sprintf("max:%d", c.MaxLength))
	}
	if c.Nullable {
		parts = append(parts, "null")
	}
	if c.IsIndex() {
		parts = append(parts, "index")
		if c.IsPrimary() {
			parts = append(parts, "primary")
		}
	}
	if c.Ref != nil {
		parts = append(parts, "fk:"+c.Ref.RefColumnSchemaName())
	}
	return fmt.Sprintf("db:\\"%s\\" json:\\",omitempty\\"", strings.Join(parts, ","))
"""),
'gen-tag-builder': c("""	ops := ""

	if c.UdtType != "" {
		ops += fmt.Sprintf(",%s", c.UdtType)
	} else {
		ops += fmt.Sprintf(",%s", c.Type)
	}
	if c.MaxLength > 0 {
		ops += fmt.Sprintf(",max:%d", c.MaxLength)
	}
	if c.Nullable {
		ops += ",null"
	}

	if len(c.Indexes) > 0 {
		ops += ",index"
		if c.IsPrimary() {
			ops += ",primary"
		}
	}
	if c.Ref != nil {
		ops += ",fk:" + c.Ref.RefColumnSchemaName()
	}
	return fmt.Sprintf("db:\\"%s%s\\" json:\\",omitempty\\"", c.Name, ops)
""","""	var b strings.Builder
	fmt.Fprintf(&b, "db:\\"%s,", c.Name)
	if c.UdtType != "" {
		b.WriteString(c.UdtType)
	} else {
		b.WriteString(c.Type)
	}
	if c.MaxLength > 0 {
		fmt.Fprintf(&b, ",max:%d", c.MaxLength)
	}
	if c.Nullable {
		b.WriteString(",null")
	}
	if len(c.Indexes) > 0 {
		b.WriteString(",index")
		if c.IsPrimary() {
			b.WriteString(",primary")
		}
	}
	if c.Ref != nil {
		b.WriteString(",fk:" + c.Ref.RefColumnSchemaName())
	}
	b.WriteString("\\" json:\\",omitempty\\"")
	return b.String()
"""),
'gen-tag-helper': c("""	if len(c.Indexes) > 0 {
		ops += ",index"
		if c.IsPrimary() {
			ops += ",primary"
		}
	}
	if c.Ref""","""	ops += c.indexTag()
	if c.Ref""","// Columns defines","""func (c *Column) indexTag() string {
	switch {
	case !c.IsIndex():
		return ""
	case c.IsPrimary():
		return ",index,primary"
	}
	return ",index"
}

// Columns defines"""),
'gen-struct-q': c('''fmt.Sprintf(`{ Name: "%s", Position: %d, Type: "%s", UdtType: "%s", Nullable: %t %s}`''','''fmt.Sprintf(`{ Name: %q, Position: %d, Type: "%s", UdtType: "%s", Nullable: %v %s}`'''),
'gen-struct-branch': c('''	ml := ""
	if c.MaxLength > 0 {
		ml = fmt.Sprintf(", MaxLength: %d ", c.MaxLength)
	}
	return''','''	if c.MaxLength == 0 {
		return fmt.Sprintf(`{ Name: "%s", Position: %d, Type: "%s", UdtType: "%s", Nullable: %t }`, c.Name, c.Position, c.Type, c.UdtType, c.Nullable)
	}
	ml := ", MaxLength: " + fmt.Sprint(c.MaxLength) + " "
	return'''),
'gen-primary-index': c("	for _, idx := range c.Indexes {\n		if idx.IsPrimary {","	for i := range c.Indexes {\n		if c.Indexes[i].IsPrimary {"),
'gen-names-prealloc': c('''	var list []string
	for _, col := range c {
		list = append(list, col.Name)
	}
	return list
}

// ForeignKey''','''	list := make([]string, len(c))
	for i, col := range c {
		list[i] = col.Name
	}
	return list
}

// ForeignKey'''),
'gen-write': s('''	if folder == "" {
		_, err := w.Write(code)
		return errors.WithStack(err)
	}
	if err := os.MkdirAll(folder, 0777); err != nil {
		return errors.WithStack(err)
	}
	return errors.WithStack(os.WriteFile(filepath.Join(folder, name), code, 0666))
''','''	if folder != "" {
		err := os.MkdirAll(folder, 0777)
		if err == nil {
			err = os.WriteFile(filepath.Join(folder, name), code, 0666)
		}
		return errors.WithStack(err)
	}
	if _, err := w.Write(code); err != nil {
		return errors.WithStack(err)
	}
	return nil
'''),
}

_S = 'internal/cli/schema/schema.go'
_C = '			if a.UseSchema && !slices.ContainsStringEqualFold([]string{"dbo", "public"}, schemaName) {\n				prefix = sName\n			}\n'
_K = '	"github.com/effective-security/x/slices"\n'
EDITS.update({
'H02:fold': [(_S, _C, '			if a.UseSchema && !strings.EqualFold(schemaName, "dbo") && !strings.EqualFold(schemaName, "public") {\n				prefix = sName\n			}\n'), (_S, _K, '')],
'H02:lowerswitch': [(_S, _C, '			if a.UseSchema {\n				switch strings.ToLower(schemaName) {\n				case "dbo", "public":\n				default:\n					prefix = sName\n				}\n			}\n'), (_S, _K, '')],
'H02:hoistprefix': [(_S, _C, ''), (_S, '		sName := strcase.ToGoPascal(schemaName)\n', '		prefix := ""\n		if a.UseSchema && !slices.ContainsStringEqualFold([]string{"dbo", "public"}, schemaName) {\n			prefix = strcase.ToGoPascal(schemaName)\n		}\n'), (_S, '			prefix := ""\n			td', '			td'), (_S, '			prefix := ""\n', '')],
'H02:helperprefix': [(_S, _C, '			if a.UseSchema && !defaultSchema(schemaName) {\n				prefix = sName\n			}\n'), (_S, 'func goName(', 'func defaultSchema(n string) bool {\n	return slices.ContainsStringEqualFold([]string{"dbo", "public"}, n)\n}\n\nfunc goName(')],
'H02:elsename': [(_S, '			if res, ok := tableNamesMap[t.SchemaName]; ok {\n				td.StructName = res\n			}\n', '			if res := tableNamesMap[t.SchemaName]; res != "" {\n				td.StructName = res\n			}\n')],
'H02:pkgif': [(_S, '	modelPkg := values.StringsCoalesce(a.PkgModel, packageName(a.OutModel))\n', '	modelPkg := a.PkgModel\n	if modelPkg == "" {\n		modelPkg = packageName(a.OutModel)\n	}\n')],
'H02:colname': [(_S, '	name := c.Name\n	if res, ok := fieldNamesMap[c.SchemaName]; ok {\n		return res\n	}\n\n	return goName(name)\n', '	res, ok := fieldNamesMap[c.SchemaName]\n	if !ok {\n		res = goName(c.Name)\n	}\n	return res\n')],
})
EDITS['H02:hoistprefix'].pop(2)
