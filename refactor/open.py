F='db.go'; V='prov.go'
OLD='''	q := u.Query()
	switch driver {
	case "sqlserver":
		// the path is the name of the instance
		q.Set("database", database)
	case "postgres":
		u.Path, u.RawPath = "/", ""
		q.Set("dbname", database)
	default:
		return dataSource, errors.Errorf("unsuppoprted driver %q", driver)
	}
	u.RawQuery = q.Encode()
	return u.String(), nil
'''
EDITS={
'open-inline': [(F,'''		ds, err = withDatabase(ds, source.Driver, database)
		if err != nil {
			return nil, source.Driver, ds, err
		}
''','''		u, err := url.Parse(ds)
		if err != nil {
			return nil, source.Driver, ds, errors.WithStack(err)
		}
		param := "database"
		if source.Driver == "postgres" {
			param = "dbname"
			u.Path, u.RawPath = "/", ""
		} else if source.Driver != "sqlserver" {
			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
		}
		params := u.Query()
		params.Set(param, database)
		u.RawQuery = params.Encode()
		ds = u.String()
''')],
'open-del-add': [(F,'q.Set("dbname", database)','q.Del("dbname")\n		q.Add("dbname", database)')],
'open-index': [(F,'q.Set("dbname", database)','q["dbname"] = []string{database}')],
'open-table': [(F,OLD,'''	if driver != "postgres" && driver != "sqlserver" {
		return dataSource, errors.Errorf("unsuppoprted driver %q", driver)
	}
	q := u.Query()
	if driver == "postgres" {
		u.Path = "/" + database
		u.RawPath = ""
		q.Del("dbname")
	} else {
		q.Set("database", database)
	}
	u.RawQuery = q.Encode()
	return u.String(), nil
''')],
'open-early': [(F,'	if database != "" {\n		ds, err = ','	{\n		ds, err = '),(F,'	u, err := url.Parse(dataSource)\n','	if database == "" {\n		return dataSource, nil\n	}\n	u, err := url.Parse(dataSource)\n')],
'open-ping-helper': [(F,'	err = d.Ping()\n','	err = check(d)\n'),(F,'// withDatabase ','func check(d *sql.DB) error {\n	return d.Ping()\n}\n\n// withDatabase ')],
'open-parse-loop': [(F,'	for k := range q {\n		s.Params[k] = q.Get(k)\n','	for k, v := range q {\n		s.Params[k] = v[0]\n')],
'open-parse-fields': [(F,'''		Database: values.StringsCoalesce(q.Get("dbname"), q.Get("database")),
''',''),(F,'	if pwd, ok :=','''	_ = values.StringsCoalesce("")
	s.Database = q.Get("dbname")
	if s.Database == "" {
		s.Database = q.Get("database")
	}
	if pwd, ok :=''')],
'open-parse-pwd': [(F,'''	if pwd, ok := u.User.Password(); ok {
		s.Password = pwd
	}
''','''	s.Password, _ = u.User.Password()
''')],
'open-provider-direct': [(F,'''	p.WithConnectionString(connstr)
	return p, nil
''','''	return p.WithConnectionString(connstr), nil
''')],
'open-parse-helper': [(F,'	for k := range q {\n		s.Params[k] = q.Get(k)\n	}\n','	s.Params = params(q)\n'),(F,'func isWindows','func params(q url.Values) map[string]string {\n	m := make(map[string]string, len(q))\n	for k := range q {\n		m[k] = q.Get(k)\n	}\n	return m\n}\n\nfunc isWindows')],
}
