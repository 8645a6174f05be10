L='pkg/notifier/listener.go'
A='''	minReconnectInterval = values.NumbersCoalesce(minReconnectInterval, DefaultMinReconnectInterval)
	maxReconnectInterval = values.NumbersCoalesce(maxReconnectInterval, DefaultMaxReconnectInterval)

	lp := pq.NewListener(p.ConnectionString(), minReconnectInterval, maxReconnectInterval, eventCallBack)
'''
H='func NewListener('
EDITS = {
 'listener-if': [(L,A,'''	if minReconnectInterval == 0 {
		minReconnectInterval = DefaultMinReconnectInterval
	}
	if maxReconnectInterval == 0 {
		maxReconnectInterval = DefaultMaxReconnectInterval
	}
	lp := pq.NewListener(p.ConnectionString(), minReconnectInterval, maxReconnectInterval, eventCallBack)
''')],
 'listener-helper': [(L,A,'''	connstr := p.ConnectionString()
	lp := pq.NewListener(connstr, orDefault(minReconnectInterval, DefaultMinReconnectInterval), orDefault(maxReconnectInterval, DefaultMaxReconnectInterval), eventCallBack)
'''),(L,H,'''func orDefault(d, def time.Duration) time.Duration {
	if d == 0 {
		return def
	}
	return d
}

'''+H)],
 'listener-connect': [(L,A,'''	lp := connect(p, values.NumbersCoalesce(minReconnectInterval, DefaultMinReconnectInterval), values.NumbersCoalesce(maxReconnectInterval, DefaultMaxReconnectInterval))
'''),(L,H,'''func connect(p xdb.Provider, min, max time.Duration) *pq.Listener {
	return pq.NewListener(p.ConnectionString(), min, max, eventCallBack)
}

'''+H)],
}
