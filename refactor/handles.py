EDITS = {
 'handles-defer': [('db.go', '''	err = d.Ping()
	if err != nil {
		_ = d.Close()
		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
	}

	return d, source.Driver, ds, nil''', '''	ok := false
	defer func() {
		if !ok {
			_ = d.Close()
		}
	}()
	if err = d.Ping(); err != nil {
		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
	}

	ok = true
	return d, source.Driver, ds, nil''')],
 'handles-helper': [('db.go', '''	err = d.Ping()
	if err != nil {
		_ = d.Close()
		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
	}

	return d''', '''	err = ping(d)
	if err != nil {
		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
	}

	return d'''), ('db.go', '''// withDatabase returns''', '''func ping(d *sql.DB) error {
	err := d.Ping()
	if err != nil {
		_ = d.Close()
	}
	return err
}

// withDatabase returns''')],
 'handles-prov-helper': [('db.go', '''		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
		if err != nil {
			_ = d.Close()
			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
		}
	}
	p, err := New(provider, d, idGen)
	if err != nil {
		_ = d.Close()
		return nil, errors.WithMessagef(err, "unable to create provider")
	}
	p.WithConnectionString(connstr)
	return p, nil
}''', '''		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
		if err != nil {
			return nil, failed(d, err, "unable to migrate Orgs DB")
		}
	}
	p, err := New(provider, d, idGen)
	if err != nil {
		return nil, failed(d, err, "unable to create provider")
	}
	return p.WithConnectionString(connstr), nil
}

func failed(d *sql.DB, err error, msg string) error {
	_ = d.Close()
	return errors.WithMessage(err, msg)
}''')],
 'handles-tx': [('prov.go', '''	txProv := &SQLProvider{
		name:    p.name,
		conn:    p.conn,
		connstr: p.connstr,
		db:      tx,
		idGen:   p.idGen,
		tx:      tx,
	}
	return txProv, nil
}''', '''	return p.withTx(tx), nil
}

func (p *SQLProvider) withTx(tx *sql.Tx) *SQLProvider {
	res := new(SQLProvider)
	res.name, res.conn, res.connstr, res.idGen = p.name, p.conn, p.connstr, p.idGen
	res.db, res.tx = tx, tx
	return res
}''')],
}
