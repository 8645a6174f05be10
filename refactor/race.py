F='pkg/flake/flake.go'; P='prov.go'; D='xsql/dialect.go'; C='xsql/cache.go'; I='id.go'; T='schema/schema.go'; L='pkg/notifier/listener.go'
LAST='''		fl.mutex.Lock()
		defer fl.mutex.Unlock()
		return fl.lastID
'''
STR='''	v.lock.Lock()
	defer v.lock.Unlock()
	if v.id != 0 && v.str == "" {
		v.str = IDString(v.id)
	}
	return v.str
'''
EDITS={
'race-flake-rw': [(F,'	mutex       sync.Mutex','	mutex       sync.RWMutex'),(F,LAST,'''		fl.mutex.RLock()
		defer fl.mutex.RUnlock()
		return fl.lastID
''')],
'race-flake-helper': [(F,LAST,'		return fl.last()\n'),(F,'// LastID returns','''func (sf *Flake) last() uint64 {
	sf.mutex.Lock()
	id := sf.lastID
	sf.mutex.Unlock()
	return id
}

// LastID returns'''),(F,'''	sf.mutex.Lock()
	defer sf.mutex.Unlock()

	current''','''	sf.lock()
	defer sf.mutex.Unlock()

	current'''),(F,'func toFlakeTime','func (sf *Flake) lock() { sf.mutex.Lock() }\n\nfunc toFlakeTime')],
'race-flake-atomic': [(F,'	sf.lastID = sf.toID()\n	return sf.lastID','	id := sf.toID()\n	atomic.StoreUint64(&sf.lastID, id)\n	return id'),(F,LAST,'		return atomic.LoadUint64(&fl.lastID)\n'),(F,'	"sync"\n','	"sync"\n	"sync/atomic"\n')],
'race-flake-init': [(F,'	sf.firstID = sf.NextID()\n','	sf.start()\n'),(F,'func toFlakeTime','func (sf *Flake) start() { sf.firstID = sf.NextID() }\n\nfunc toFlakeTime')],
'race-id-helper': [(I,STR,'''	v.lock.Lock()
	s := v.cached()
	v.lock.Unlock()
	return s
'''),(I,'// QuotedString returns string\nfunc (v *idptr)','''func (v *idptr) cached() string {
	if v.str == "" && v.id != 0 {
		v.str = IDString(v.id)
	}
	return v.str
}

// QuotedString returns string
func (v *idptr)''')],
'race-id-rw': [(I,'	lock sync.Mutex //','	lock sync.RWMutex //'),(I,STR,'''	v.lock.RLock()
	s := v.str
	v.lock.RUnlock()
	if v.id == 0 || s != "" {
		return s
	}
	v.lock.Lock()
	defer v.lock.Unlock()
	v.str = IDString(v.id)
	return v.str
''')],
'race-id-nocache': [(I,STR,'''	if v.id == 0 {
		return ""
	}
	if v.str != "" {
		return v.str
	}
	return IDString(v.id)
'''),(I,'''	str string

	lock sync.Mutex // protects str, as copies of an ID share idptr
''','	str string\n'),(I,'	"sync"\n','')],
'race-cache-rw': [(D,'	cache       sync.Map','	lock sync.RWMutex\n	cache       map[string]string'),(D,'&Dialect{provider: provider}','&Dialect{provider: provider, cache: map[string]string{}}'),(C,'''	res, ok := d.cache.Load(name)
	if ok {
		return res.(string), ok
	}

	return "", ok
''','''	d.lock.RLock()
	defer d.lock.RUnlock()
	res, ok := d.cache[name]
	return res, ok
'''),(C,'	d.cache.Store(name, sql)\n','	d.lock.Lock()\n	defer d.lock.Unlock()\n	d.cache[name] = sql\n')],
'race-ping-func': [(P,'	go func() {\n		// Using for loop\n		for {\n','	go ping(ch, done, conn)\n}\n\nfunc ping(ch <-chan time.Time, done chan struct{}, conn *sql.DB) {\n		for {\n'),(P,'''				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
				continue
			}
		}
	}()
}''','''				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
				continue
			}
		}
}''')],
'race-prov-new': [(P,'''	p := &SQLProvider{
		name:  name,
		conn:  db,
		db:    db,
		idGen: idGen,
	}
''','''	p := &SQLProvider{name: name}
	p.conn = db
	p.db = db
	p.idGen = idGen
''')],
'race-listen-var': [(L,'				err = l.listener.Unlisten(topic)','				err := l.listener.Unlisten(topic)')],
'race-once': [(F,'func machineIDFromProgram() uint16 {\n','''var progOnce sync.Once
var progID uint16

func machineIDFromProgram() uint16 {
	progOnce.Do(func() { progID = machineIDFromProgram1() })
	return progID
}

func machineIDFromProgram1() uint16 {
''')],
'race-aliased-append': [(T,'prefixed := make([]string, len(t.Columns))','prefixed := make([]string, 0, len(t.Columns))'),(T,'			prefixed[i] = "NULL"','			prefixed = append(prefixed, "NULL")'),(T,'				prefixed[i] = c\n','				prefixed = append(prefixed, c)\n'),(T,'				prefixed[i] = prefix + "." + c','				prefixed = append(prefixed, prefix + "." + c)'),(T,'for i, c := range t.Columns','for _, c := range t.Columns')],
'race-allcolumns-copy': [(T,'''	return strings.Join(t.Columns, ", ")
''','''	cols := append([]string(nil), t.Columns...)
	return strings.Join(cols, ", ")
''')],
}
