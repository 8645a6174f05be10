F='internal/cli/schema/types.go'
LOOP='''	for _, typ := range typs {
		if c.Nullable {
			if res := typeByColumnType[typ+" NULL"]; res != "" {
				return res
			}
		}
		if res := typeByColumnType[typ]; res != "" {
			return res
		}
	}
'''
EDITS={
'gotypes-helper': [(F,LOOP,'''	for i := 0; i < len(typs); i++ {
		if res := lookupType(typs[i], c.Nullable); res != "" {
			return res
		}
	}
'''),(F,'func toGoType(','''func lookupType(typ string, nullable bool) string {
	if nullable {
		if res, ok := typeByColumnType[typ+" NULL"]; ok {
			return res
		}
	}
	return typeByColumnType[typ]
}

func toGoType(''')],
'gotypes-keys': [(F,LOOP,'''	for _, typ := range typs {
		keys := []string{typ}
		if c.Nullable {
			keys = []string{typ + " NULL", typ}
		}
		for _, k := range keys {
			if res, ok := typeByColumnType[k]; ok {
				return res
			}
		}
	}
''')],
'gotypes-straight': [(F,LOOP,'''	if isID(c) {
		if c.Nullable {
			if res := typeByColumnType["id "+typ+" NULL"]; res != "" {
				return res
			}
		}
		if res := typeByColumnType["id "+typ]; res != "" {
			return res
		}
	}
	if c.Nullable {
		if res := typeByColumnType[typ+" NULL"]; res != "" {
			return res
		}
	}
	if res := typeByColumnType[typ]; res != "" {
		return res
	}
'''),(F,'''	typs := []string{typ}

	if isID(c) {
		typs = []string{"id " + typ, typ}
	}

''','')],
'gotypes-append': [(F,'''	typs := []string{typ}

	if isID(c) {
		typs = []string{"id " + typ, typ}
	}
''','''	var typs []string
	if isID(c) {
		typs = append(typs, "id "+typ)
	}
	typs = append(typs, typ)
''')],
'gotypes-array': [(F,'''		typeName := "[]"
		switch c.UdtType {
		case "_int8":
			if strings.HasSuffix(c.Name, "_ids") {
				typeName = "xdb.IDArray"
			} else {
				typeName = "pq.Int64Array"
			}
		case "_text", "_varchar":
			typeName = "pq.StringArray"
		default:
			panic(fmt.Sprintf("don't know how to convert ARRAY: %s [%s]", c.UdtType, c.Name))
		}
		return typeName
''','''		return arrayType(c)
'''),(F,'func toGoType(','''func arrayType(c *schema.Column) string {
	switch udt := c.UdtType; {
	case udt == "_int8" && strings.HasSuffix(c.Name, "_ids"):
		return "xdb.IDArray"
	case udt == "_int8":
		return "pq.Int64Array"
	case udt == "_text" || udt == "_varchar":
		return "pq.StringArray"
	}
	panic(fmt.Sprintf("don't know how to convert ARRAY: %s [%s]", c.UdtType, c.Name))
}

func toGoType(''')],
'gotypes-isid': [(F,'''	return strings.EqualFold(c.Name, "id") ||
		strings.HasSuffix(c.Name, "_id") ||
		strings.HasSuffix(c.Name, "Id") ||
		strings.HasSuffix(c.Name, "ID")
''','''	if strings.ToLower(c.Name) == "id" {
		return true
	}
	for _, s := range []string{"ID", "Id", "_id"} {
		if strings.HasSuffix(c.Name, s) {
			return true
		}
	}
	return false
''')],
'gotypes-coalesce': [(F,'	typ := values.StringsCoalesce(c.UdtType, c.Type)\n','	typ := c.UdtType\n	if typ == "" {\n		typ = c.Type\n	}\n')],
'gotypes-overrides': [(F,'''	if res, ok := typesMap[c.Name]; ok {
		return res
	}
	if res, ok := typesMap[c.SchemaName]; ok {
		return res
	}
''','''	for _, k := range []string{c.Name, c.SchemaName} {
		if res, ok := typesMap[k]; ok {
			return res
		}
	}
''')],
'gotypes-more': [(F,'	"decimal": "float64",\n','	"varbinary": "[]byte",\n	"xml": "string",\n	"xml NULL": "xdb.NULLString",\n	"decimal": "float64",\n')],
}
