P, PG, MS, S = 'schema/provider.go', 'schema/postgres.go', 'schema/sqlserver.go', 'schema/schema.go'
FT = '''		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, t.Schema) {
			continue
		}

		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, t.Name) {
			continue
		}

		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
		tt = append(tt, t)
'''
FK = '''		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, k.Schema) {
			continue
		}
		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, k.Table) {
			continue
		}
'''
FV = '''		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, schemaName) {
			continue
		}

		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, tableName) {
			continue
		}
'''
RC = '''		c := &Column{}
		var nullable string
		var maxLen *int
		var ordinal int
		if err := rows.Scan(&c.Name, &c.Type, &c.UdtType, &nullable, &maxLen, &ordinal); err != nil {
			return nil, errors.WithStack(err)
		}
		c.Position = uint32(ordinal)
		c.Nullable = slices.ContainsStringEqualFold(nullableVals, nullable)
		c.MaxLength = maxLength(maxLen)
		c.Name = columnName(c.Name)
		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
'''
HELP = 'func maxLength('
IDX = '''	for _, idx := range ii {
		for _, cn := range idx.ColumnNames {
			colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
			col := r.columns[colShemaName]
			if col == nil {
				// not a column that is listed for the table
				continue
			}
			col.Indexes = append(col.Indexes, idx)
			if idx.IsPrimary && len(idx.ColumnNames) == 1 {
				t.PrimaryKey = col
			}
		}
	}
'''
EDITS = {
'schema-accepts': [(P, FT, '''		if !accepts(schemas, t.Schema) || !accepts(tables, t.Name) {
			continue
		}
		t.SchemaName = t.Schema + "." + t.Name
		tt = append(tt, t)
'''), (P, FK, '''		if !accepts(schemas, k.Schema) || !accepts(tables, k.Table) {
			continue
		}
'''), (P, FV, '''		if !(accepts(schemas, schemaName) && accepts(tables, tableName)) {
			continue
		}
'''), (P, HELP, '''func accepts(filter []string, name string) bool {
	return len(filter) == 0 || slices.ContainsStringEqualFold(filter, name)
}

func maxLength(''')],
'schema-accepts-if': [(P, FT, '''		if accepts(schemas, t.Schema) && accepts(tables, t.Name) {
			t.SchemaName = strings.Join([]string{t.Schema, t.Name}, ".")
			tt = append(tt, t)
		}
'''), (P, HELP, '''func accepts(filter []string, name string) bool {
	if len(filter) == 0 {
		return true
	}
	return slices.ContainsStringEqualFold(filter, name)
}

func maxLength(''')],
'schema-accepts-loop': [(P, FT, '''		if !accepts(schemas, t.Schema) || !accepts(tables, t.Name) {
			continue
		}
		t.SchemaName = fqn(t.Schema, t.Name)
		tt = append(tt, t)
'''), (P, HELP, '''func fqn(a, b string) string { return a + "." + b }

func accepts(filter []string, name string) bool {
	if len(filter) == 0 {
		return true
	}
	for _, f := range filter {
		if strings.EqualFold(f, name) {
			return true
		}
	}
	return false
}

func maxLength(''')],
'schema-scan-column': [(P, RC, '''		c, err := scanColumn(rows, schema, table)
		if err != nil {
			return nil, err
		}
'''), (P, HELP, '''func scanColumn(rows *sql.Rows, schema, table string) (*Column, error) {
	var c Column
	var nullable string
	var maxLen *int
	var ordinal int
	if err := rows.Scan(&c.Name, &c.Type, &c.UdtType, &nullable, &maxLen, &ordinal); err != nil {
		return nil, errors.WithStack(err)
	}
	c.Position = uint32(ordinal)
	c.Nullable = isNullable(nullable)
	c.MaxLength = maxLength(maxLen)
	c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
	return &c, nil
}

func isNullable(s string) bool {
	return slices.ContainsStringEqualFold(nullableVals, s)
}

func maxLength(''')],
'schema-locals': [(P, RC, '''		var name, typ, udt, nullable string
		var maxLen *int
		var ordinal int
		if err := rows.Scan(&name, &typ, &udt, &nullable, &maxLen, &ordinal); err != nil {
			return nil, errors.WithStack(err)
		}
		c := &Column{
			Name:       columnName(name),
			Type:       typ,
			UdtType:    udt,
			Nullable:   slices.ContainsStringEqualFold(nullableVals, nullable),
			Position:   uint32(ordinal),
			MaxLength:  maxLength(maxLen),
			SchemaName: schema + "." + table + "." + name,
		}
''')],
'schema-maxlen': [(P, '''	if v == nil || *v < 0 {
		// not limited: SQL Server reports -1 for varchar(max)
		return 0
	}
	return uint32(*v)
''', '''	var n int
	if v != nil {
		n = max(*v, 0)
	}
	return uint32(n)
''')],
'schema-maxlen2': [(P, '''	if v == nil || *v < 0 {
		// not limited: SQL Server reports -1 for varchar(max)
		return 0
	}
	return uint32(*v)
''', '''	if v != nil && *v > 0 {
		return uint32(*v)
	}
	return 0
''')],
'schema-sortfunc': [(P, '''	sort.Slice(cc, func(i int, j int) bool {
		return cc[i].Position < cc[j].Position
	})
''', '''	sortColumns(cc)
'''), (P, '''		sort.Slice(c.Columns, func(i int, j int) bool {
			return c.Columns[i].Position < c.Columns[j].Position
		})
''', '''		sortColumns(c.Columns)
'''), (P, HELP, '''func sortColumns(cc Columns) {
	sort.SliceStable(cc, func(i, j int) bool {
		a, b := cc[i], cc[j]
		return b.Position > a.Position
	})
}

func maxLength(''')],
'schema-sortfunc2': [(P, '''	sort.Slice(tt, func(i int, j int) bool {
		return tt[i].SchemaName < tt[j].SchemaName
	})

	return tt, nil
''', '''	gslices.SortFunc(tt, func(a, b *Table) int {
		return strings.Compare(a.SchemaName, b.SchemaName)
	})

	return tt, nil
'''), (P, '	"sort"\n', '	gslices "slices"\n	"sort"\n')],
'schema-sortfunc3': [(P, '''	sort.Slice(tt, func(i int, j int) bool {
		return tt[i].SchemaName < tt[j].SchemaName
	})

	return tt, nil
''', '''	sortTables(tt)
	return tt, nil
'''), (P, HELP, '''func sortTables(tt Tables) {
	gslices.SortFunc(tt, func(a, b *Table) int {
		return cmp.Compare(a.SchemaName, b.SchemaName)
	})
}

func maxLength('''), (P, '	"sort"\n', '	"cmp"\n	gslices "slices"\n	"sort"\n')],
'schema-split': [(P, '''		for _, cn := range strings.Split(columnNames, ",") {
			cn = columnName(cn)
			c.ColumnNames = append(c.ColumnNames, cn)
		}
''', '''		c.ColumnNames = strings.Split(columnNames, ",")
''')],
'schema-nil-list': [(P, '	keys := ForeignKeys{}\n', '	keys := make(ForeignKeys, 0, 8)\n'), (P, '	tt := Tables{}\n	for rows.Next() {', '	tt := make(Tables, 0)\n	for rows.Next() {')],
'schema-for': [(P, '	keys := ForeignKeys{}\n	for rows.Next() {\n', '	keys := ForeignKeys{}\n	for {\n		if !rows.Next() {\n			break\n		}\n')],
'schema-index-loop': [(P, IDX, '''	for i := range ii {
		r.linkIndex(t, ii[i])
	}
'''), (P, HELP, '''func (r *SQLServerProvider) linkIndex(t *Table, idx *Index) {
	single := len(idx.ColumnNames) == 1
	for _, cn := range idx.ColumnNames {
		col, ok := r.columns[t.SchemaName+"."+cn]
		if !ok || col == nil {
			continue
		}
		col.Indexes = append(col.Indexes, idx)
		if single && idx.IsPrimary {
			t.PrimaryKey = col
		}
	}
}

func maxLength(''')],
'schema-index-loop2': [(P, IDX, '''	for _, idx := range ii {
		for _, cn := range idx.ColumnNames {
			if col := r.columns[fmt.Sprintf("%s.%s.%s", t.Schema, t.Name, cn)]; col != nil {
				col.Indexes = append(col.Indexes, idx)
				if len(idx.ColumnNames) == 1 && idx.IsPrimary {
					t.PrimaryKey = col
				}
			}
		}
	}
''')],
'schema-link': [(P, '''		fk := r.fkeys[n]
		if fk == nil {
			continue
		}
		c.Ref = fk

		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
		if err != nil {
			return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, c.Ref.RefTable)
		}
''', '''		if err = r.link(ctx, n, c); err != nil {
			return nil, errors.WithMessagef(err, "failed to discover: %s", n)
		}
'''), (P, '''	for _, c := range t.Columns {
		fk := r.fkeys[c.SchemaName]
		if fk == nil {
			continue
		}
		c.Ref = fk

		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
		if err != nil {
			return err
		}
	}
''', '''	for _, c := range t.Columns {
		if err := r.link(ctx, c.SchemaName, c); err != nil {
			return err
		}
	}
'''), (P, HELP, '''func (r *SQLServerProvider) link(ctx context.Context, name string, c *Column) error {
	fk := r.fkeys[name]
	if fk == nil {
		return nil
	}
	c.Ref = fk
	return r.discoverTable(ctx, fk.RefSchema, fk.RefTable)
}

func maxLength(''')],
'schema-has-table': [(P, '''	if r.tables[tref] != nil {
		return nil
	}

	t := &Table{
		Name:       table,
		Schema:     schema,
		SchemaName: fmt.Sprintf("%s.%s", schema, table),
	}
''', '''	if _, ok := r.tables[tref]; ok {
		return nil
	}

	t := &Table{
		Name:       table,
		Schema:     schema,
		SchemaName: tref,
	}
''')],
'schema-fields': [(P, '''	clear(r.tables)
	clear(r.columns)
''', '''	r.tables = map[string]*Table{}
	r.columns = map[string]*Column{}
''')],
'schema-values': [(P, '''	for _, t := range r.tables {
		res = append(res, t)
	}
''', '''	for n := range r.tables {
		res = append(res, r.tables[n])
	}
''')],
'schema-query': [(PG, 'return p.db.QueryContext(ctx, postgresTableNamesWithSchema)', '''rows, err := p.db.QueryContext(ctx, postgresTableNamesWithSchema)
	if err != nil {
		return nil, err
	}
	return rows, nil'''), (MS, '''	return p.db.QueryContext(ctx, mssqlQueryIndexKeys, sql.Named("schema", schema), sql.Named("table", table))''', '''	args := tableArgs(schema, table)
	return p.db.QueryContext(ctx, mssqlQueryIndexKeys, args...)'''), (MS, 'const mssqlQueryForeignKeys', '''func tableArgs(schema, table string) []any {
	return []any{sql.NamedArg{Name: "table", Value: table}, sql.NamedArg{Name: "schema", Value: schema}}
}

const mssqlQueryForeignKeys''')],
'schema-sql': [(PG, '''	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
  	FROM information_schema.columns
 	WHERE table_schema = $1
   	AND table_name = $2;
''', '''	SELECT c.column_name, c.data_type, c.udt_name, c.is_nullable, c.character_maximum_length, c.ordinal_position
  	FROM information_schema.columns AS c
 	WHERE c.table_name = $2 AND c.table_schema = $1
	ORDER BY c.ordinal_position;
'''), (PG, 'tc.constraint_name, \n	tc.table_schema,', 'tc.constraint_name AS name,\n	kcu.table_schema,'), (MS, 't.name,\n		t.type_desc\n	FROM', 't.[name] AS table_name,\n		t.type_desc\n	FROM')],
'schema-provider': [(P, '''	case "mssql", "sqlserver":
		dialect = &sqlserver{db: db}
	case "postgres":
		dialect = &postgres{db: db}
	}
''', '''	case "postgres":
		dialect = postgres{db: db}
	case "mssql", "sqlserver":
		dialect = sqlserver{db}
	}
''')],
'schema-provider2': [(P, '''	var dialect Dialect
	switch provider {
	case "mssql", "sqlserver":
		dialect = &sqlserver{db: db}
	case "postgres":
		dialect = &postgres{db: db}
	}

''', '''	dialect := newDialect(db, provider)
'''), (P, HELP, '''func newDialect(db xdb.DB, provider string) Dialect {
	if provider == "postgres" {
		return &postgres{db: db}
	}
	if provider == "mssql" || provider == "sqlserver" {
		return &sqlserver{db: db}
	}
	return nil
}

func maxLength(''')],
'schema-views-table': [(P, '''		t := tablesMap[tSchemaName]
		if t == nil {
			t = &Table{
				Name:       tableName,
				Schema:     schemaName,
				SchemaName: tSchemaName,
				IsView:     true,
			}
			tablesMap[tSchemaName] = t
		}
		t.Columns = append(t.Columns, c)
''', '''		t, ok := tablesMap[tSchemaName]
		if !ok {
			t = &Table{IsView: true}
			t.Name, t.Schema, t.SchemaName = tableName, schemaName, tSchemaName
			tablesMap[tSchemaName] = t
		}
		t.Columns = append(t.Columns, c)
''')],
}
