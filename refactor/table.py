F='schema/schema.go'
LOOP='''	prefixed := make([]string, len(t.Columns))
	for i, c := range t.Columns {
		if nullColumns[c] {
			prefixed[i] = "NULL"
		} else {
			if prefix == "" {
				prefixed[i] = c
			} else {
				prefixed[i] = prefix + "." + c
			}
		}
	}
	return strings.Join(prefixed, ", ")
'''
EDITS={
'table-append': [(F,LOOP,'''	var cols []string
	for i := 0; i < len(t.Columns); i++ {
		c := t.Columns[i]
		switch {
		case nullColumns[c]:
			cols = append(cols, "NULL")
		case prefix == "":
			cols = append(cols, c)
		default:
			cols = append(cols, prefix+"."+c)
		}
	}
	return strings.Join(cols, ", ")
''')],
'table-prealloc': [(F,LOOP,'''	if prefix != "" {
		prefix += "."
	}
	cols := make([]string, 0, len(t.Columns))
	for _, c := range t.Columns {
		if nullColumns[c] {
			c = "NULL"
		} else {
			c = prefix + c
		}
		cols = append(cols, c)
	}
	return strings.Join(cols, ", ")
''')],
'table-helper': [(F,LOOP,'''	prefixed := make([]string, len(t.Columns))
	for i, c := range t.Columns {
		prefixed[i] = aliasedColumn(c, prefix, nullColumns[c])
	}
	return strings.Join(prefixed, ", ")
'''),(F,'// Table definition\n','''func aliasedColumn(c, prefix string, null bool) string {
	if null {
		return "NULL"
	}
	if prefix == "" {
		return c
	}
	return fmt.Sprintf("%s.%s", prefix, c)
}

// Table definition
''')],
'table-shortcut': [(F,'	prefixed := make([]','	if prefix == "" && len(nullColumns) == 0 {\n		return t.AllColumns()\n	}\n	prefixed := make([]')],
'table-select': [(F,'''	var expr string
	if len(cols) > 0 {
		expr = strings.Join(cols, ",")
	} else {
		expr = t.AllColumns()
	}
	return t.Dialect.From(t.SchemaName).Select(expr)
''','''	if len(cols) == 0 {
		cols = t.Columns
	}
	return t.From().Select(strings.Join(cols, ", "))
''')],
'table-select2': [(F,'''	var expr string
	if len(cols) > 0 {
		expr = strings.Join(cols, ",")
	} else {
		expr = t.AllColumns()
	}
''','''	expr := t.AllColumns()
	if len(cols) != 0 {
		expr = strings.Join(cols, ",")
	}
''')],
'table-aliased': [(F,'''	tn := t.SchemaName
	if prefix != "" {
		tn = tn + " " + prefix
	}
	return t.Dialect.From(tn).Select(t.AliasedColumns(prefix, nullColumns))
''','''	cols := t.AliasedColumns(prefix, nullColumns)
	if prefix == "" {
		return t.From().Select(cols)
	}
	return t.Dialect.From(fmt.Sprintf("%s %s", t.SchemaName, prefix)).Select(cols)
''')],
'table-builder': [(F,LOOP,'''	var sb strings.Builder
	for i, c := range t.Columns {
		if i > 0 {
			sb.WriteString(", ")
		}
		if nullColumns[c] {
			sb.WriteString("NULL")
			continue
		}
		if prefix != "" {
			sb.WriteString(prefix)
			sb.WriteString(".")
		}
		sb.WriteString(c)
	}
	return sb.String()
''')],
}
