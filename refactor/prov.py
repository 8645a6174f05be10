V, D, MG, L = 'prov.go', 'db.go', 'migrate/migrate.go', 'pkg/notifier/listener.go'
C, C0 = 'internal/cli/schema/schema.go', 'internal/cli/cli.go'
EDITS = {
'prov-helper-close': [(D, '''		if err != nil {
			_ = d.Close()
			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
		}
''', '''		if err != nil {
			closeQuietly(d)
			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
		}
'''), (D, '''	err = d.Ping()
	if err != nil {
		_ = d.Close()
''', '''	if err = d.Ping(); err != nil {
		closeQuietly(d)
'''), (D, 'func isWindows() bool', '''func closeQuietly(d *sql.DB) {
	_ = d.Close()
}

func isWindows() bool''')],
'prov-defer-close': [(D, '''	if migrateCfg != nil && migrateCfg.Source != "" {
''', '''	ok := false
	defer func() {
		if !ok {
			_ = d.Close()
		}
	}()
	if migrateCfg != nil && migrateCfg.Source != "" {
'''), (D, '''		if err != nil {
			_ = d.Close()
			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
		}
''', '''		if err != nil {
			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
		}
'''), (D, '''	if err != nil {
		_ = d.Close()
		return nil, errors.WithMessagef(err, "unable to create provider")
	}
	p.WithConnectionString(connstr)
''', '''	if err != nil {
		return nil, errors.WithMessagef(err, "unable to create provider")
	}
	p.WithConnectionString(connstr)
	ok = true
''')],
'prov-routing': [(V, '	return p.db.QueryContext(ctx, query, args...)', '	rows, err := p.handle().QueryContext(ctx, query, args...)\n	return rows, err'),
 (V, '	return p.db.ExecContext(ctx, query, args...)', '	if p.tx != nil {\n		return p.tx.ExecContext(ctx, query, args...)\n	}\n	return p.conn.ExecContext(ctx, query, args...)'),
 (V, '	return p.db.QueryRowContext(ctx, query, args...)\n}', '	h := p.handle()\n	row := h.QueryRowContext(ctx, query, args...)\n	return row\n}\n\nfunc (p *SQLProvider) handle() DB {\n	return p.db\n}')],
'prov-begin': [(V, '''	txProv := &SQLProvider{
		name:    p.name,
		conn:    p.conn,
		connstr: p.connstr,
		db:      tx,
		idGen:   p.idGen,
		tx:      tx,
	}
	return txProv, nil
''', '''	return p.withTx(tx), nil
'''), (V, '// Close connection and release resources\nfunc', '''func (p *SQLProvider) withTx(tx Tx) *SQLProvider {
	txProv := *p
	txProv.db = tx
	txProv.tx = tx
	txProv.ticker = nil
	txProv.done = nil
	return &txProv
}

// Close connection and release resources
func''')],
'prov-begin-inv': [(V, '''	if p.tx != nil {
		return nil, errors.New("transaction already started")
	}
	tx, err := p.conn.BeginTx(ctx, opts)
	if err != nil {
		return nil, errors.WithStack(err)
	}
''', '''	if p.inTransaction() {
		return nil, errors.New("transaction already started")
	}
	var tx *sql.Tx
	var err error
	if tx, err = p.conn.BeginTx(ctx, opts); err != nil {
		logger.KV(xlog.DEBUG, "reason", "begin", "err", err.Error())
		return nil, errors.WithStack(err)
	}
'''), (V, '// DB returns underlying', '''func (p *SQLProvider) inTransaction() bool {
	return p.tx != nil
}

// DB returns underlying''')],
'prov-rollback-is': [(V, '''	if err := p.tx.Rollback(); err != nil && err != sql.ErrTxDone {
		return errors.WithStack(err)
	}
	return nil
''', '''	err := p.tx.Rollback()
	if err == nil || errors.Is(err, sql.ErrTxDone) {
		return nil
	}
	return errors.WithStack(err)
''')],
'prov-commit': [(V, '	return p.tx.Commit()\n', '	err := p.tx.Commit()\n	if err != nil {\n		return err\n	}\n	return nil\n')],
'prov-close': [(V, '''	if p.ticker != nil {
		p.ticker.Stop()
		p.ticker = nil
		close(p.done)
	}
	if p.conn == nil {
		return nil
	}
	if p.tx != nil {
		return p.Rollback()
	}

	if err = p.conn.Close(); err != nil {
		logger.KV(xlog.ERROR, "err", err)
	} else {
		p.conn = nil
	}
	logger.KV(xlog.TRACE, "status", "closed")
	return
''', '''	p.stopKeepAlive()
	switch {
	case p.conn == nil:
		return nil
	case p.tx != nil:
		return p.Rollback()
	}

	err = p.conn.Close()
	if err == nil {
		p.conn = nil
	} else {
		logger.KV(xlog.ERROR, "err", err)
	}
	logger.KV(xlog.TRACE, "status", "closed")
	return err
'''), (V, '// DB returns underlying', '''func (p *SQLProvider) stopKeepAlive() {
	if t := p.ticker; t != nil {
		p.ticker = nil
		close(p.done)
		t.Stop()
	}
}

// DB returns underlying''')],
'prov-loop-method': [(V, '''	// Go function
	go func() {
		// Using for loop
		for {
			select {
			case <-done:
				logger.KV(xlog.TRACE, "status", "stopped")
				return
			case <-ch:
			}
			err := conn.Ping()
			if err != nil {
				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
				continue
			}
		}
	}()
}
''', '''	go pingUntil(conn, ch, done)
}

func pingUntil(conn *sql.DB, ch <-chan time.Time, done <-chan struct{}) {
	for {
		select {
		case <-ch:
			if err := conn.Ping(); err != nil {
				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
			}
		case <-done:
			logger.KV(xlog.TRACE, "status", "stopped")
			return
		}
	}
}
''')],
'prov-loop-flag': [(V, '''		for {
			select {
			case <-done:
				logger.KV(xlog.TRACE, "status", "stopped")
				return
			case <-ch:
			}
''', '''		for running := true; running; {
			select {
			case <-done:
				logger.KV(xlog.TRACE, "status", "stopped")
				running = false
				continue
			case <-ch:
			}
''')],
'prov-new': [(V, '''	p := &SQLProvider{
		name:  name,
		conn:  db,
		db:    db,
		idGen: idGen,
	}

	p.keepAlive(60 * time.Second)

	return p, nil
''', '''	p := new(SQLProvider)
	p.name = name
	p.conn, p.db = db, db
	p.idGen = idGen
	p.keepAlive(time.Minute)
	return p, nil
''')],
'notify-method': [(L, '''	go func() {
		for {
			select {
			case <-ctx.Done():
				logger.KV(xlog.INFO,
					"reason", "context_done",
					"channel", topic)
				err = l.listener.Unlisten(topic)
				if err != nil {
					logger.KV(xlog.ERROR,
						"reason", "unlisten",
						"channel", topic,
						"error", err.Error())
				}
				return
			case n, ok := <-l.listener.Notify:
				if !ok {
					logger.KV(xlog.INFO,
						"reason", "listener_closed",
						"channel", topic)
					return
				}
				if n != nil {
					callback(parsePayload(n))
				}
''', '''	go l.loop(ctx, topic, callback)
	return nil
}

func (l *listener) unlisten(topic string) {
	if err := l.listener.Unlisten(topic); err != nil {
		logger.KV(xlog.ERROR,
			"reason", "unlisten",
			"channel", topic,
			"error", err.Error())
	}
}

func deliver(n *pq.Notification, callback func(n *Notification)) {
	if n == nil {
		return
	}
	callback(parsePayload(n))
}

func (l *listener) loop(ctx context.Context, topic string, callback func(n *Notification)) {
		for {
			select {
			case <-ctx.Done():
				logger.KV(xlog.INFO,
					"reason", "context_done",
					"channel", topic)
				l.unlisten(topic)
				return
			case n, ok := <-l.listener.Notify:
				if !ok {
					logger.KV(xlog.INFO,
						"reason", "listener_closed",
						"channel", topic)
					return
				}
				deliver(n, callback)
'''), (L, '''					"channel", topic)
			}
		}
	}()
	return nil
}
''', '''					"channel", topic)
			}
		}
}
''')],
'notify-parse': [(L, '''	n := &Notification{
		Channel:    in.Channel,
		RawPayload: in.Extra,
	}
	s := in.Extra
	if s != "" && s != "{}" && s != "[]" {
		err := json.Unmarshal([]byte(s), &n.Payload)
		if err != nil {
			logger.KV(xlog.DEBUG,
				"reason", "unmarshal",
				"val", s,
				"err", err.Error())
		}
	}
	return n
''', '''	var payload values.MapAny
	switch s := in.Extra; s {
	case "", "{}", "[]":
	default:
		if err := json.Unmarshal([]byte(s), &payload); err != nil {
			logger.KV(xlog.DEBUG,
				"reason", "unmarshal",
				"val", s,
				"err", err.Error())
		}
	}
	return &Notification{Channel: in.Channel, Payload: payload, RawPayload: in.Extra}
''')],
'migrate-helpers': [(MG, '''	var driver database.Driver
	var err error
	switch provider {
	case "postgres", "pgsql":
		driver, err = postgres.WithInstance(db, &postgres.Config{})
		if err != nil {
			return errors.WithStack(err)
		}
	case "sqlserver":
		driver, err = sqlserver.WithInstance(db, &sqlserver.Config{})
		if err != nil {
			return errors.WithStack(err)
		}
	default:
		return errors.Errorf("unsupported provider: %s", provider)
	}
''', '''	driver, err := driverFor(provider, db)
	if err != nil {
		return err
	}
'''), (MG, 'type migrateLog struct{}', '''func driverFor(provider string, db *sql.DB) (driver database.Driver, err error) {
	if provider == "postgres" || provider == "pgsql" {
		driver, err = postgres.WithInstance(db, &postgres.Config{})
	} else if provider == "sqlserver" {
		driver, err = sqlserver.WithInstance(db, &sqlserver.Config{})
	} else {
		err = errors.Errorf("unsupported provider: %s", provider)
	}
	return driver, errors.WithStack(err)
}

func apply(m *migrate.Migrate, version int) error {
	if version < 1 {
		return m.Up()
	}
	return m.Migrate(uint(version))
}

type migrateLog struct{}'''), (MG, '''	if migrateVersion > 0 {
		logger.KV(xlog.NOTICE, "db", dbName, "migrateVersion", migrateVersion)
		err = m.Migrate(uint(migrateVersion))
	} else {
		err = m.Up()
	}
''', '''	err = apply(m, migrateVersion)
'''), (MG, '		fmt.Sprintf("file://%s", migrationsDir),', '		"file://"+migrationsDir,'), (MG, '	"fmt"\n', '')],
'migrate-nochange': [(MG, '''	if err != nil {
		if errors.Is(err, migrate.ErrNoChange) {
			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
			return nil
		}
		return errors.WithStack(err)
	}
''', '''	switch {
	case err == nil:
	case errors.Is(err, migrate.ErrNoChange):
		logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
		return nil
	default:
		return errors.WithStack(err)
	}
''')],
'newprov-migrate': [(D, '''	if migrateCfg != nil && migrateCfg.Source != "" {
		migrationsDir := migrateCfg.Source
		if isWindows() {
			migrationsDir = strings.ReplaceAll(migrationsDir, "\\\\", "/")
		}

		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
		if err != nil {
''', '''	if migrateCfg != nil {
		err = migrateCfg.run(provider, dbName, d)
		if err != nil {
'''), (D, '// Source describes connection info', '''func (c *MigrationConfig) run(provider, dbName string, d *sql.DB) error {
	dir := c.Source
	if dir == "" {
		return nil
	}
	if isWindows() {
		dir = strings.ReplaceAll(dir, "\\\\", "/")
	}
	return migrate.Migrate(provider, dbName, dir, c.ForceVersion, c.MigrateVersion, d)
}

// Source describes connection info''')],
}
