C='internal/cli/cli.go'
S='internal/cli/schema/schema.go'
M='cmd/xdbcli/main.go'
def c(*p): return [(C,a,b) for a,b in zip(p[::2],p[1::2])]
def s(*p): return [(S,a,b) for a,b in zip(p[::2],p[1::2])]
def m(*p): return [(M,a,b) for a,b in zip(p[::2],p[1::2])]
src=open('/repo/'+S).read()
def part(a,b):
    i=src.index(a); return src[i:src.index(b,i)]
COL=part('func (a *PrintColumnsCmd) Run','// PrintTablesCmd prints')
TAB=part('func (a *PrintTablesCmd) Run','// PrintViewsCmd prints')
VIEW=part('func (a *PrintViewsCmd) Run','// PrintFKCmd prints')
FK=part('func (a *PrintFKCmd) Run','// GenerateCmd generates')
GEN=part('func (a *GenerateCmd) Run','func packageName')
NAMES='''	w := ctx.Writer()

	if ctx.O == "json" || ctx.O == "yaml" {
		return ctx.Print(res)
	}
	for _, t := range res {
		_, _ = fmt.Fprintf(w, "%s.%s\\n", t.Schema, t.Name)
	}

	return nil
'''
def within(P,*p):
    t=P
    for a,b in zip(p[::2],p[1::2]):
        assert a in t,a
        t=t.replace(a,b)
    return s(P,t)
EDITS={
'cli-names-helper': s(TAB,TAB.replace(NAMES,'	return printNames(ctx, res)\n'),VIEW,VIEW.replace(NAMES,'	return printNames(ctx, res)\n')+'''func printNames(ctx *cli.Cli, list schema.Tables) error {
	switch ctx.O {
	case "json", "yaml":
		return ctx.Print(list)
	}
	out := ctx.Writer()
	for i := range list {
		_, _ = fmt.Fprint(out, list[i].Schema, ".", list[i].Name, "\\n")
	}
	return nil
}

'''),
'cli-list-helper': s(TAB,TAB.replace('''	r, err := ctx.SchemaProvider(a.DB)
	if err != nil {
		return err
	}
	res, err := r.ListTables(ctx.Context(), a.Schema, a.Table, true)
	if err != nil {
		return err
	}

	if a.Views {
		vres, err := r.ListViews(ctx.Context(), a.Schema, a.Table)
		if err != nil {
			return err
		}
		res = append(res, vres...)
	}
''','''	res, err := a.list(ctx)
	if err != nil {
		return err
	}
''')+'''func (a *PrintTablesCmd) list(ctx *cli.Cli) (schema.Tables, error) {
	r, err := ctx.SchemaProvider(a.DB)
	if err != nil {
		return nil, err
	}
	tables, err := r.ListTables(ctx.Context(), a.Schema, a.Table, true)
	if err != nil || !a.Views {
		return tables, err
	}
	views, err := r.ListViews(ctx.Context(), a.Schema, a.Table)
	if err != nil {
		return nil, err
	}
	return append(tables, views...), nil
}

'''),
'cli-col-loop': within(COL,'''	if a.Views {
		res, err = r.ListViews(ctx.Context(), a.Schema, a.Table)
		if err != nil {
			return err
		}
		if len(res) > 0 {
			err = ctx.Print(res)
			if err != nil {
				return err
			}
		}
	}
	return nil
''','''	if !a.Views {
		return nil
	}
	views, err := r.ListViews(ctx.Context(), a.Schema, a.Table)
	if err != nil || len(views) == 0 {
		return err
	}
	return ctx.Print(views)
'''),
'cli-col-views': within(COL,'	err = ctx.Print(res)\n	if err','	if err = ctx.Print(res); err','		res, err = r.ListViews','		var views schema.Tables\n		views, err = r.ListViews','		if len(res) > 0 {\n			if err = ctx.Print(res)','		if len(views) > 0 {\n			if err = ctx.Print(views)') if False else within(COL,'		if len(res) > 0 {','		if n := len(res); n != 0 {'),
'cli-tab-copy': within(TAB,'		res = append(res, vres...)','		all := make(schema.Tables, 0, len(res)+len(vres))\n		all = append(all, res...)\n		res = append(all, vres...)'),
'cli-tab-twoloops': within(TAB,'''		res = append(res, vres...)
	}
''','''		views = vres
	}
''','	if a.Views {','	var views schema.Tables\n	if a.Views {','''		return ctx.Print(res)
	}
''','''		return ctx.Print(append(res, views...))
	}
	for _, t := range res {
		_, _ = fmt.Fprintf(w, "%s.%s\\n", t.Schema, t.Name)
	}
''','''	for _, t := range res {
		_, _ = fmt.Fprintf(w, "%s.%s\\n", t.Schema, t.Name)
	}

''','''	for _, t := range views {
		_, _ = fmt.Fprintf(w, "%s.%s\\n", t.Schema, t.Name)
	}

''') if False else within(TAB,'''		res = append(res, vres...)
	}
''','''		views = vres
	}
''','	if a.Views {','	var views schema.Tables\n	if a.Views {','''		return ctx.Print(res)
''','''		return ctx.Print(append(res, views...))
''','''	return nil
''','''	for _, t := range views {
		_, _ = fmt.Fprintln(w, t.Schema+"."+t.Name)
	}
	return nil
'''),
'cli-tab-slices': s(TAB,TAB.replace('res = append(res, vres...)','res = stdslices.Concat(res, vres)'),'	"bytes"\n','	"bytes"\n	stdslices "slices"\n'),
'cli-fk-two': within(FK,'	return ctx.Print(res)','	err = ctx.Print(res)\n	if err != nil {\n		return errors.WithStack(err)\n	}\n	return nil'),
'cli-gen-views': within(GEN,'''	if len(a.View) > 0 {
		res2, err := r.ListViews(ctx.Context(), a.Schema, a.View)
		if err != nil {
			return err
		}
		res = append(res, res2...)
	}
''','''	if len(a.View) != 0 {
		views, err := r.ListViews(ctx.Context(), a.Schema, a.View)
		if err != nil {
			return errors.Wrap(err, "views")
		}
		for _, v := range views {
			res = append(res, v)
		}
	}
'''),
'cli-gen-ctx': within(GEN,'	res, err := r.ListTables(ctx.Context()','	c := ctx.Context()\n	provider := r.Name()\n	res, err := r.ListTables(c','r.ListViews(ctx.Context()','r.ListViews(c','r.Name(), a.DB','provider, a.DB'),
'cli-source': c('''	c.SQLSource = values.StringsCoalesce(c.SQLSource, os.Getenv("XDB_DATASOURCE"))
	if c.SQLSource == "" {
		return errors''','''	if c.SQLSource == "" {
		c.SQLSource = os.Getenv("XDB_DATASOURCE")
	}
	if len(c.SQLSource) == 0 {
		return errors''','	"github.com/effective-security/x/values"\n',''),
'cli-source-const': c('''	c.SQLSource = values.StringsCoalesce(c.SQLSource, os.Getenv("XDB_DATASOURCE"))
	if c.SQLSource == "" {
		return errors.Errorf("use --sql-source or set XDB_DATASOURCE")
	}

	return nil''','''	return c.resolveSource()
}

const envDataSource = "XDB_DATASOURCE"

func (c *Cli) resolveSource() error {
	src := values.StringsCoalesce(c.SQLSource, os.Getenv(envDataSource))
	if src != "" {
		c.SQLSource = src
		return nil
	}
	return errors.Errorf("use --sql-source or set %s", envDataSource)''','	"github.com/effective-security/x/values"\n','	"github.com/effective-security/x/values"\n'),
'cli-level': c('''	if c.Debug {
		xlog.SetGlobalLogLevel(xlog.DEBUG)
	} else {
		xlog.SetGlobalLogLevel(xlog.ERROR)
	}''','''	level := xlog.ERROR
	if c.Debug {
		level = xlog.DEBUG
	}
	xlog.SetGlobalLogLevel(level)'''),
'cli-db': c('''	if c.db == nil {
		d, err := xdb.NewProvider(c.SQLSource, dbname, nil, nil)
		if err != nil {
			return nil, err
		}
		c.db = d
	}
	return c.db, nil''','''	if c.db != nil {
		return c.db, nil
	}
	db, err := xdb.NewProvider(c.SQLSource, dbname, nil, nil)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	c.db = db
	return db, nil'''),
'cli-db-direct': c('''		d, err := xdb.NewProvider(c.SQLSource, dbname, nil, nil)
		if err != nil {
			return nil, err
		}
		c.db = d
''','''		var err error
		if c.db, err = xdb.NewProvider(c.SQLSource, dbname, nil, nil); err != nil {
			return nil, err
		}
'''),
'cli-schema': c('''	if c.schema == nil {
		prov, err := c.DB(dbname)
		if err != nil {
			return nil, err
		}

		c.schema = schema.NewProvider(prov, prov.Name())
	}

	return c.schema, nil''','''	if p := c.schema; p != nil {
		return p, nil
	}
	prov, err := c.DB(dbname)
	if err == nil {
		name := prov.Name()
		c.schema = schema.NewProvider(prov, name)
	}
	return c.schema, err'''),
'cli-writer': c('''	if c.output != nil {
		return c.output
	}
	return os.Stdout''','''	return or(c.output, os.Stdout)''','''	if c.errOutput != nil {
		return c.errOutput
	}
	return os.Stderr''','''	return or(c.errOutput, os.Stderr)''','// Writer returns','''func or(w, def io.Writer) io.Writer {
	if w == nil {
		return def
	}
	return w
}

// Writer returns'''),
'cli-print': c('return print.Object(c.Writer(), c.O, value)','w := c.Writer()\n	if err := print.Object(w, c.O, value); err != nil {\n		return errors.WithStack(err)\n	}\n	return nil'),
'cli-close': c('''	if c.db != nil {
		_ = c.db.Close()
		c.db = nil
	}''','''	db := c.db
	if db == nil {
		return
	}
	c.db = nil
	if err := db.Close(); err != nil {
		return
	}'''),
'cli-main-early': m('''	if ctx != nil {
		err = ctx.Run(&cl.Cli)
		ctx.FatalIfErrorf(err)
	}''','''	if ctx == nil {
		return
	}
	ctx.FatalIfErrorf(ctx.Run(&cl.Cli))'''),
'cli-main-helper': m('''	ctx, err := parser.Parse(args[1:])
	parser.FatalIfErrorf(err)

	if ctx != nil {
		err = ctx.Run(&cl.Cli)
		ctx.FatalIfErrorf(err)
	}
''','''	run(parser, &cl, args[1:])
''','func main()','''func run(parser *kong.Kong, cl *app, args []string) {
	ctx, err := parser.Parse(args)
	if err != nil {
		parser.FatalIfErrorf(err)
	}
	if ctx != nil {
		if err := ctx.Run(&cl.Cli); err != nil {
			ctx.FatalIfErrorf(err)
		}
	}
}

func main()'''),
}
