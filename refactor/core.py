I, T, M, G, K, P, Q, V, S, R = 'id.go', 'types.go', 'time.go', 'merge.go', 'pkg/flake/flake.go', 'params.go', 'query.go', 'prov.go', 'schema/provider.go', 'migrate/migrate.go'
EDITS = {
# id.go
'id-fromany': [(I, '''	var id uint64
	switch vid := value.(type) {
	case uint64:
		id = vid
	case int64:
		id = uint64(vid)
	case int:
		id = uint64(vid)
	case uint:
		id = uint64(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	*v = NewID(id)

	return nil
}
''', '''	id, err := anyToUint64(value)
	if err != nil {
		return err
	}
	*v = NewID(id)
	return nil
}

func anyToUint64(value any) (uint64, error) {
	switch vid := value.(type) {
	case uint64:
		return vid, nil
	case int64:
		return uint64(vid), nil
	case int:
		return uint64(vid), nil
	case uint:
		return uint64(vid), nil
	}
	return 0, errors.Errorf("unsupported scan type: %T", value)
}
'''), (I, '''	var id uint64
	switch vid := value.(type) {
	case uint64:
		id = vid
	case int64:
		id = uint64(vid)
	case int:
		id = uint64(vid)
	case uint:
		id = uint64(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	if uint64(uint32(id)) != id {
		return''', '''	id, err := anyToUint64(value)
	if err != nil {
		return err
	}

	if id > 0xFFFFFFFF {
		return''')],
'id-newid': [(I, '''	var v ID
	if id > 0 {
		v.id = &idptr{id: id}
	}
	return v
''', '''	if id == 0 {
		return ID{}
	}
	return ID{id: &idptr{id: id}}
''')],
'id-set': [(I, '''	id, err := ParseUint(val)
	if err != nil || id == 0 {
		return errors.Errorf("invalid ID: '%s'", val)
	}
	// allocate a new value: the current one can be shared with copies of this ID
	v.id = &idptr{id: id}

	return nil
''', '''	num, err := strconv.ParseUint(val, 10, 64)
	switch {
	case err != nil:
		return errors.Errorf("invalid ID: '%s'", val)
	case num == 0:
		return errors.Errorf("invalid ID: '%s'", val)
	}
	p := new(idptr)
	p.id = num
	v.id = p
	return nil
''')],
'id-unmarshal': [(I, '''	if s == "" || s == "0" || s == "null" {
		*v = NewID(0)
		return nil
	}

	f, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		return errors.Errorf("expected number value to unmarshal ID: %s", s)
	}
	*v = ID{id: &idptr{id: f, str: IDString(f)}}
	return nil
''', '''	switch s {
	case "", "0", "null":
		*v = ID{}
		return nil
	default:
		f, err := ParseUint(s)
		if err != nil {
			return errors.Errorf("expected number value to unmarshal ID: %s", s)
		}
		*v = NewID(f)
		return nil
	}
''')],
'id-value': [(I, '''	if v.id.val() == 0 {
		return nil, nil
	}

	// driver.Value support only int64
	return int64(v.id.id), nil
''', '''	if n := v.UInt64(); n != 0 {
		// driver.Value support only int64
		return int64(n), nil
	}
	return nil, nil
''')],
'ids-value': [(I, '''	ids := make([]int64, len(n))
	for i, id := range n {
		ids[i] = int64(id.UInt64())
	}

	int64Array, err := pq.Int64Array(ids).Value()
''', '''	int64Array, err := n.Int64Array().Value()
''')],
'ids-strings': [(I, '''	var list []string
	for _, id := range n {
		list = append(list, id.String())
	}
	return list
''', '''	if len(n) == 0 {
		return nil
	}
	list := make([]string, 0, len(n))
	for i := 0; i < len(n); i++ {
		list = append(list, n[i].String())
	}
	return list
''')],
'ids-list': [(I, '''	var list []uint64
	for _, id := range n {
		list = append(list, id.UInt64())
	}
	return list
''', '''	if len(n) == 0 {
		return nil
	}
	list := make([]uint64, len(n))
	for i := range n {
		list[i] = n[i].UInt64()
	}
	return list
''')],
'ids-contains': [(I, '''	for _, v := range n {
		if v.UInt64() == id.UInt64() {
			return n
		}
	}
	// limit''', '''	if n.Contains(id) {
		return n
	}
	// limit'''), (I, '''	for _, v := range n {
		if v.UInt64() == id.UInt64() {
			return true
		}
	}
	return false
''', '''	want := id.UInt64()
	for i := range n {
		if n[i].UInt64() == want {
			return true
		}
	}
	return false
''')],
'ids-add-copy': [(I, '	return append(n[:len(n):len(n)], id)\n', '	res := make(IDArray, len(n), len(n)+1)\n	copy(res, n)\n	return append(res, id)\n')],
'ids-concat': [(I, '''	if len(other) < len(n) {
		return other.Concat(n)
	}
	for _, id := range other {
		n = n.Add(id)
	}
	return n
''', '''	a, b := n, other
	if len(b) < len(a) {
		a, b = b, a
	}
	for i := range b {
		a = a.Add(b[i])
	}
	return a
''')],
'ids-overlaps': [(I, '''	for _, v := range n {
		if other.Contains(v) {
			return true
		}
	}
	return false
''', '''	found := false
	for i := 0; i < len(n) && !found; i++ {
		found = other.Contains(n[i])
	}
	return found
''')],
'ids-scan': [(I, '''	count := len(int64Array)
	if count > 0 {
		ids := make([]ID, count)
		for i, id := range int64Array {
			ids[i] = NewID(uint64(id))
		}
		*n = ids
	}

	return nil
''', '''	if len(int64Array) == 0 {
		return nil
	}
	ids := make(IDArray, 0, len(int64Array))
	for _, id := range int64Array {
		ids = append(ids, NewID(uint64(id)))
	}
	*n = ids
	return nil
''')],
'idptr-string': [(I, '''	if v.id != 0 && v.str == "" {
		v.str = IDString(v.id)
	}
	return v.str
''', '''	if v.str != "" || v.id == 0 {
		return v.str
	}
	v.str = strconv.FormatUint(v.id, 10)
	return v.str
''')],
# types.go
't-jsonscan': [(T, '''	var s []byte
	switch vid := value.(type) {
	case []byte:
		s = vid
	case string:
		s = []byte(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	if len(s) == 0 {
		*n = Metadata{}
		return nil
	}
	var res Metadata
	if err := json.Unmarshal(s, &res); err != nil {
		return errors.WithStack(err)
	}
	*n = res
	return nil
''', '''	s, err := scanBytes(value)
	if err != nil {
		return err
	}

	res := Metadata{}
	if len(s) > 0 {
		res = nil
		if err := json.Unmarshal(s, &res); err != nil {
			return errors.WithStack(err)
		}
	}
	*n = res
	return nil
'''), (T, '''	var s []byte
	switch vid := value.(type) {
	case []byte:
		s = vid
	case string:
		s = []byte(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	if len(s) == 0 {
		*n = KVSet{}
		return nil
	}
''', '''	s, err := scanBytes(value)
	if err != nil {
		return err
	}

	if len(s) == 0 {
		*n = KVSet{}
		return nil
	}
'''), (T, '// NULLString de/encodes', '''func scanBytes(value any) ([]byte, error) {
	switch vid := value.(type) {
	case []byte:
		return vid, nil
	case string:
		return []byte(vid), nil
	}
	return nil, errors.Errorf("unsupported scan type: %T", value)
}

// NULLString de/encodes''')],
't-jsonvalue': [(T, '''func (n Metadata) Value() (driver.Value, error) {
	if len(n) == 0 {
		return nil, nil
	}
	value, err := json.Marshal(n)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	return string(value), nil
}
''', '''func (n Metadata) Value() (driver.Value, error) {
	return jsonValue(len(n) == 0, n)
}

func jsonValue(empty bool, v any) (driver.Value, error) {
	if empty {
		return nil, nil
	}
	value, err := json.Marshal(v)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	return string(value), nil
}
'''), (T, '''func (n KVSet) Value() (driver.Value, error) {
	if len(n) == 0 {
		return nil, nil
	}
	value, err := json.Marshal(n)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	return string(value), nil
}
''', '''func (n KVSet) Value() (driver.Value, error) {
	return jsonValue(len(n) == 0, n)
}
''')],
't-int64scan': [(T, '''	var id int64
	switch vid := value.(type) {
	case uint64:
		if vid > math.MaxInt64 {
			return errors.Errorf("value out of range for Int64: %d", vid)
		}
		id = int64(vid)
	case int64:
		id = int64(vid)
	case int:
		id = int64(vid)
	case uint:
		if uint64(vid) > math.MaxInt64 {
			return errors.Errorf("value out of range for Int64: %d", vid)
		}
		id = int64(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	*v = Int64(id)
	return nil
''', '''	id, err := toInt64(value, "Int64")
	if err != nil {
		return err
	}
	*v = Int64(id)
	return nil
'''), (T, '''	var id int64
	switch vid := value.(type) {
	case uint64:
		if vid > math.MaxInt64 {
			return errors.Errorf("value out of range for Int32: %d", vid)
		}
		id = int64(vid)
	case int64:
		id = int64(vid)
	case int:
		id = int64(vid)
	case uint:
		if uint64(vid) > math.MaxInt64 {
			return errors.Errorf("value out of range for Int32: %d", vid)
		}
		id = int64(vid)
	default:
		return errors.Errorf("unsupported scan type: %T", value)
	}

	if int64(int32(id)) != id {
		return errors.Errorf("value out of range for Int32: %d", id)
	}
''', '''	id, err := toInt64(value, "Int32")
	if err != nil {
		return err
	}
	if id < math.MinInt32 || id > math.MaxInt32 {
		return errors.Errorf("value out of range for Int32: %d", id)
	}
'''), (T, '// Int32 represents SQL', '''func toInt64(value any, name string) (int64, error) {
	var u uint64
	switch vid := value.(type) {
	case int64:
		return vid, nil
	case int:
		return int64(vid), nil
	case uint64:
		u = vid
	case uint:
		u = uint64(vid)
	default:
		return 0, errors.Errorf("unsupported scan type: %T", value)
	}
	if u > math.MaxInt64 {
		return 0, errors.Errorf("value out of range for %s: %d", name, u)
	}
	return int64(u), nil
}

// Int32 represents SQL''')],
't-uuid': [(T, '''		if len(vid) == 36 {
			// text form, as returned by Postgres driver
			s = string(vid)
			break
		}
		if len(vid) != 16 {
			return errors.Errorf("failed to parse UUID: %v", vid)
		}
		s = fmt.Sprintf(''', '''		switch len(vid) {
		case 16:
		case 36:
			// text form, as returned by Postgres driver
			*ns = UUID(vid)
			return nil
		default:
			return errors.Errorf("failed to parse UUID: %v", vid)
		}
		s = fmt.Sprintf(''')],
't-float': [(T, '''	var f float64
	var err error
	switch vid := value.(type) {
	case []byte:
		sf := string(vid)
		if f, err = strconv.ParseFloat(sf, 64); err != nil {
			return errors.WithMessagef(err, "failed to parse float: %v", sf)
		}
''', '''	var f float64
	switch vid := value.(type) {
	case []byte:
		pf, err := strconv.ParseFloat(string(vid), 64)
		if err != nil {
			return errors.WithMessagef(err, "failed to parse float: %v", string(vid))
		}
		f = pf
''')],
't-bool': [(T, '''	if !v {
		return nil, nil
	}
	return bool(v), nil
''', '''	if v {
		return true, nil
	}
	return nil, nil
'''), (T, '''	if s == "true" || s == "1" || s == "TRUE" {
		*v = true
	} else {
		*v = false
	}
	return nil
''', '''	*v = s == "true" || s == "1" || s == "TRUE"
	return nil
''')],
't-nullstr': [(T, '''	if v.Valid {
		*ns = NULLString(v.String)
	} else {
		*ns = ""
	}

	return nil
''', '''	*ns = ""
	if v.Valid {
		*ns = NULLString(v.String)
	}
	return nil
''')],
't-notfound': [(T, '''	// Check for direct sql.ErrNoRows
	if err == sql.ErrNoRows {
		return true
	}

	// Check for wrapped sql.ErrNoRows
	if errors.Is(err, sql.ErrNoRows) {
		return true
	}

	// Check for ErrorNotFound type
	var notFound *ErrorNotFound
	if errors.As(err, &notFound) {
		return true
	}

	// Check for "no rows" message
	return strings.Contains(err.Error(), "no rows in result set")
''', '''	var notFound *ErrorNotFound
	return isNoRows(err) || errors.As(err, &notFound)
'''), (T, '''	if err != nil &&
		(err == sql.ErrNoRows || errors.Is(err, sql.ErrNoRows) || strings.Contains(err.Error(), "no rows in result set")) {
		return errors.WithStack(NewErrorNotFound(err, table, id))
	}
	return errors.WithStack(err)
''', '''	if err == nil {
		return nil
	}
	if isNoRows(err) {
		return errors.WithStack(NewErrorNotFound(err, table, id))
	}
	return errors.WithStack(err)
}

func isNoRows(err error) bool {
	return errors.Is(err, sql.ErrNoRows) || strings.Contains(err.Error(), "no rows in result set")
''')],
't-idstr': [(T, '''	var idStr string
	switch v := id.(type) {
	case fmt.Stringer:
		idStr = v.String()
	case string:
		idStr = v
	default:
		idStr = fmt.Sprintf("%v", id)
	}
	return &ErrorNotFound{
		ID:    idStr,
		Table: table,
		Err:   err,
	}
''', '''	nf := &ErrorNotFound{Table: table, Err: err}
	if s, ok := id.(fmt.Stringer); ok {
		nf.ID = s.String()
	} else {
		nf.ID = fmt.Sprint(id)
	}
	return nf
''')],
# time.go
'm-scan': [(M, '''	var v sql.NullTime

	if str, ok := value.(string); ok {
		t, err := parseTime(str)
		if err != nil {
			return errors.WithStack(err)
		}
		*ns = t
		return nil
	}

	if err := (&v).Scan(value); err != nil {
		return errors.WithStack(err)
	}
	var zero Time
	if v.Valid {
		zero = Time(v.Time.UTC())
	}
	*ns = zero

	return nil
''', '''	switch val := value.(type) {
	case string:
		t, err := parseTime(val)
		if err != nil {
			return errors.WithStack(err)
		}
		*ns = t
	default:
		var v sql.NullTime
		if err := v.Scan(value); err != nil {
			return errors.WithStack(err)
		}
		if !v.Valid {
			*ns = Time{}
			return nil
		}
		*ns = Time(v.Time.UTC())
	}
	return nil
''')],
'm-value': [(M, '''	nst := time.Time(ns)
	return sql.NullTime{
		Valid: !nst.IsZero(),
		Time:  nst.UTC(),
	}.Value()
''', '''	if ns.IsZero() {
		return nil, nil
	}
	return ns.UTC(), nil
''')],
'm-trunc': [(M, 'return Time(time.Now().Truncate(DefaultTrucate).UTC())', 'return UTC(time.Now())'), (M, 'return Time(time.Now().Add(after).Truncate(DefaultTrucate).UTC())', 'return UTC(time.Now().Add(after))'), (M, 'return Time(time.Time(ns).Add(after).Truncate(DefaultTrucate).UTC())', 'return UTC(time.Time(ns).Add(after))'), (M, 'return Time(t.Truncate(DefaultTrucate).UTC()), nil', 'return UTC(t), nil'), (M, 'return Time(t.Truncate(DefaultTrucate).UTC())\n}', 'return Time(t.UTC().Truncate(DefaultTrucate))\n}')],
'm-milli': [(M, '''	sec := tm / 1000
	msec := tm % 1000
	return Time(time.Unix(sec, msec*int64(time.Millisecond)).UTC())
''', '''	return Time(time.UnixMilli(tm).UTC())
''')],
'm-layout': [(M, '''	var t time.Time
	var err error
	switch len(val) {
	case len(DefaultTimeFormat):
		t, err = time.Parse(DefaultTimeFormat, val)
	case len(time.RFC3339):
		t, err = time.Parse(time.RFC3339, val)
	case len(time.DateTime):
		t, err = time.Parse(time.DateTime, val)
	case len(time.DateOnly):
		t, err = time.Parse(time.DateOnly, val)
	default:
		t, err = time.Parse(time.RFC3339Nano, val)
	}
	if err != nil {
''', '''	t, err := time.Parse(layoutOf(val), val)
	if err != nil {
'''), (M, '// UnixMilli returns t as', '''func layoutOf(val string) string {
	switch len(val) {
	case len(DefaultTimeFormat):
		return DefaultTimeFormat
	case len(time.RFC3339):
		return time.RFC3339
	case len(time.DateTime):
		return time.DateTime
	case len(time.DateOnly):
		return time.DateOnly
	}
	return time.RFC3339Nano
}

// UnixMilli returns t as''')],
'm-json': [(M, '''	t := ns.UTC()
	if t.IsZero() {
		return []byte(`""`), nil
	}
	return t.MarshalJSON()
''', '''	if ns.IsZero() {
		return []byte(`""`), nil
	}
	return json.Marshal(ns.UTC())
'''), (M, '''	if len(data) == 0 || bytes.Equal([]byte(`""`), data) {
''', '''	if len(data) == 0 || string(data) == `""` {
'''), (M, '	"bytes"\n', '')],
'm-string': [(M, '''	t := ns.UTC()
	if t.IsZero() {
		return ""
	}
	return t.Format(DefaultTimeFormat)
''', '''	if !ns.IsZero() {
		return ns.UTC().Format(DefaultTimeFormat)
	}
	return ""
''')],
# merge.go
'g-map': [(G, '''				if !val.IsZero() {
					dst.Set(src)
				}
''', '''				if val.IsZero() {
					return nil
				}
				dst.Set(src)
'''), (G, '''			if dst.CanSet() {
				val := src.Interface().(ID)
				if val.Valid() {
					dst.Set(src)
				}
			}
			return nil
''', '''			if !dst.CanSet() {
				return nil
			}
			if id := src.Interface().(ID); id.UInt64() != 0 {
				dst.Set(src)
			}
			return nil
''')],
'g-named': [(G, '''		return func(dst, src reflect.Value) error {
			if dst.CanSet() {
				val := src.String()
				if val != "" {
					dst.Set(src)
				}
			}
			return nil
		}
	default:
''', '''		return mergeString
	default:
'''), (G, '// MergeOpts is a', '''func mergeString(dst, src reflect.Value) error {
	if dst.CanSet() && src.Len() > 0 {
		dst.Set(src)
	}
	return nil
}

// MergeOpts is a''')],
'g-if': [(G, '''	switch typ {
	case typeOfDate:
		return func''', '''	if typ == typeOfDate {
		return func'''), (G, '''	case typeOfID:
''', '''	}
	switch typ {
	case typeOfID:
''')],
# flake.go
'k-advance': [(K, '''	current := currentElapsedTime(sf.startTime)
	if sf.elapsedTime < current {
		sf.elapsedTime = current
		sf.sequence = 0
	} else { // sf.elapsedTime >= current
		sf.sequence = (sf.sequence + 1) & MaskSequence16
		if sf.sequence > sf.maxSequence {
			sf.maxSequence = sf.sequence
		}

		if sf.sequence == 0 {
			sf.elapsedTime++
			overtime := sf.elapsedTime - current
			sleep := sleepTime((overtime))
			//logger.Noticef("sleep_overtime=%v", sleep)
			time.Sleep(sleep)
		}
	}

	sf.lastID = sf.toID()
	return sf.lastID
}
''', '''	sf.advance(currentElapsedTime(sf.startTime))

	id := sf.toID()
	sf.lastID = id
	return id
}

// advance moves to the next time and sequence
func (sf *Flake) advance(current int64) {
	if current > sf.elapsedTime {
		sf.elapsedTime, sf.sequence = current, 0
		return
	}
	sf.sequence = (sf.sequence + 1) & MaskSequence16
	if sf.sequence > sf.maxSequence {
		sf.maxSequence = sf.sequence
	}
	if sf.sequence != 0 {
		return
	}
	sf.elapsedTime++
	time.Sleep(sleepTime(sf.elapsedTime - current))
}
''')],
'k-toid': [(K, '''	return uint64(sf.elapsedTime)<<(BitLenSequence+BitLenMachineID) |
		uint64(sf.sequence)<<BitLenMachineID |
		uint64(sf.machineID)
''', '''	id := uint64(sf.elapsedTime) << (BitLenSequence + BitLenMachineID)
	id |= uint64(sf.sequence) << BitLenMachineID
	id |= uint64(sf.machineID)
	return id
''')],
'k-mod': [(K, 'sf.sequence = (sf.sequence + 1) & MaskSequence16', 'sf.sequence = (sf.sequence + 1) % (1 << BitLenSequence)')],
'k-decompose': [(K, '''	msb := id >> 63
	time := id >> (BitLenSequence + BitLenMachineID)
	sequence := (id & MaskSequence) >> BitLenMachineID
	machineID := id & MaskMachineID
	return map[string]uint64{
		"id":         id,
		"msb":        msb,
		"time":       time,
		"sequence":   sequence,
		"machine_id": machineID,
	}
''', '''	parts := make(map[string]uint64, 5)
	parts["id"] = id
	parts["msb"] = id >> 63
	parts["time"] = timePart(id)
	parts["sequence"] = (id >> BitLenMachineID) & uint64(MaskSequence16)
	parts["machine_id"] = id & MaskMachineID
	return parts
'''), (K, '''	return fromFlakeTime(start + int64(id>>(BitLenSequence+BitLenMachineID)))
}
''', '''	return fromFlakeTime(start + int64(timePart(id)))
}

func timePart(id uint64) uint64 { return id >> (BitLenSequence + BitLenMachineID) }
''')],
'k-first': [(K, '''	if fl, ok := g.(*Flake); ok {
		return fl.firstID
	}
	return 0
''', '''	fl, ok := g.(*Flake)
	if !ok {
		return 0
	}
	return fl.firstID
'''), (K, '''	if fl, ok := g.(*Flake); ok {
		fl.mutex.Lock()
		defer fl.mutex.Unlock()
		return fl.lastID
	}
	return 0
''', '''	fl, ok := g.(*Flake)
	if !ok {
		return 0
	}
	fl.mutex.Lock()
	last := fl.lastID
	fl.mutex.Unlock()
	return last
''')],
'k-unlock': [(K, '''	sf.mutex.Lock()
	defer sf.mutex.Unlock()

	current :=''', '''	sf.mutex.Lock()
	defer func() { sf.mutex.Unlock() }()

	current :=''')],
'k-new': [(K, '''	sf := new(Flake)
	sf.sequence = MaskSequence16

	now := NowFunc()
	if st.StartTime.IsZero() {
		st.StartTime = DefaultStartTime
	}
''', '''	sf := &Flake{sequence: MaskSequence16}

	if st.StartTime.IsZero() {
		st.StartTime = DefaultStartTime
	}
	now := NowFunc()
'''), (K, '''	var err error
	if st.MachineID == nil {
		sf.machineID, err = defaultMachineID()
	} else {
		sf.machineID, err = st.MachineID()
	}
	if err != nil {
''', '''	machineID := st.MachineID
	if machineID == nil {
		machineID = defaultMachineID
	}
	var err error
	if sf.machineID, err = machineID(); err != nil {
''')],
# params.go
'p-writename': [(P, '''	if b.hash == "" {
		var n strings.Builder
''', '''	if b.hash != "" {
		return b.hash
	}
	b.hash = b.makeName()
	return b.hash
}

func (b *QueryParamsBuilder) makeName() string {
	{
		var n strings.Builder
'''), (P, '''		b.hash = n.String()
	}
	return b.hash
}
''', '''		return n.String()
	}
}
''')],
'p-sprintf': [(P, '''			n.WriteRune('_')
			n.WriteString(strconv.FormatUint(uint64(e.position), 10))
			n.WriteRune('x')
			n.WriteString(strconv.FormatUint(uint64(e.value), 16))
''', '''			n.WriteString("_" + strconv.FormatUint(uint64(e.position), 10) + "x" + strconv.FormatUint(uint64(e.value), 16))
'''), (P, '''		n.WriteString(b.queryName)
		n.WriteRune('_')
		n.WriteRune('x')
''', '''		n.WriteString(b.queryName)
		n.WriteString("_x")
''')],
'p-cursor': [(P, '''		if b.cursor != nil {
			n.WriteString("_c")
		} else if b.offset > 0 {
			n.WriteString("_o")
		}
''', '''		switch {
		case b.cursor != nil:
			n.WriteString("_c")
		case b.offset > 0:
			n.WriteString("_o")
		}
''')],
'p-mark': [(P, '''	if pos > 63 {
		panic("enum position is out of range")
	}
	b.checkPage()
	b.positions |= 1 << pos
	b.hash = ""
	b.args = append(b.args, v)
	return b
}
''', '''	b.mark(pos)
	b.args = append(b.args, v)
	return b
}

func (b *QueryParamsBuilder) mark(pos uint32) {
	if pos > 63 {
		panic("enum position is out of range")
	}
	b.checkPage()
	b.positions |= uint64(1) << pos
	b.hash = ""
}
'''), (P, '''	if pos > 63 {
		panic("enum position is out of range")
	}
	b.checkPage()
	b.positions |= 1 << pos
	b.hash = ""
	b.enums =''', '''	b.mark(pos)
	b.enums =''')],
'p-reset': [(P, '''	b.positions = 0
	b.flags = nil
	b.enums = nil
	b.args = nil
	b.hash = ""
	b.limit = 0
	b.offset = 0
	b.cursor = nil
	b.nullColumns = nil
''', '''	*b = QueryParamsBuilder{queryName: b.queryName}
''')],
'p-enum': [(P, '''	for _, e := range b.enums {
		if e.position == pos {
			return e.value, true
		}
	}
	return 0, false
''', '''	for i := range b.enums {
		if e := &b.enums[i]; e.position == pos {
			return e.value, true
		}
	}
	return 0, false
''')],
'p-limit': [(P, '''	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
	b.offset = offset
	b.hash = ""
''', '''	if limit == 0 {
		limit = DefaultPageSize
	}
	b.limit = limit
	b.offset = offset
	b.hash = ""
''')],
'p-isset': [(P, 'return b.positions&(1<<pos) != 0', 'return (b.positions>>pos)&1 == 1')],
'p-pageparam': [(P, '''	switch p := p.(type) {
	case int:
		return uint32(p)
	case uint32:
		return p
	case sql.NamedArg:
		return PageParam(p.Value)
	default:
		panic("invalid parameter type: expected int, uint32, sql.NamedArg")
	}
''', '''	for {
		switch v := p.(type) {
		case int:
			return uint32(v)
		case uint32:
			return v
		case sql.NamedArg:
			p = v.Value
		default:
			panic("invalid parameter type: expected int, uint32, sql.NamedArg")
		}
	}
''')],
'p-get': [(P, '''		if p, ok := h.(HasQueryParams); ok {
			return p.QueryParams()
		}
		if p, ok := h.(QueryParams); ok {
			return p
		}
''', '''		switch p := h.(type) {
		case HasQueryParams:
			return p.QueryParams()
		case QueryParams:
			return p
		}
''')],
# query.go
'q-scanall': [(Q, '''	defer func() {
		_ = rows.Close()
	}()

	list := make([]TPointer, 0, DefaultPageSize)

	for rows.Next() {
		var m TPointer = new(T)
		err = m.ScanRow(rows)
		if err != nil {
			return nil, errors.WithStack(err)
		}
		list = append(list, m)
	}
	if err = rows.Err(); err != nil {
		return nil, errors.WithStack(err)
	}
	return list, nil
}
''', '''	defer rows.Close()

	return scanAll[T, TPointer](rows)
}

func scanAll[T any, TPointer RowPointer[T]](rows *sql.Rows) ([]TPointer, error) {
	list := make([]TPointer, 0, DefaultPageSize)
	for rows.Next() {
		m := TPointer(new(T))
		if err := m.ScanRow(rows); err != nil {
			return nil, errors.WithStack(err)
		}
		list = append(list, m)
	}
	if err := rows.Err(); err != nil {
		return nil, errors.WithStack(err)
	}
	return list, nil
}
'''), (Q, '	"context"\n', '	"context"\n	"database/sql"\n'), (Q, 'func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB, query', 'func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, db DB, query'), (Q, '	rows, err := sql.QueryContext(', '	rows, err := db.QueryContext(')],
'q-next': [(Q, '''	count := uint32(len(list))
	hasNextPage := limit > 0 && count >= limit
	nextOffset := values.Select(hasNextPage, offset+count, 0)

	res.SetResult(list, hasNextPage, nextOffset)
''', '''	var nextOffset uint32
	count := uint32(len(list))
	more := hasNext(limit, count)
	if more {
		nextOffset = offset + count
	}
	res.SetResult(list, more, nextOffset)
'''), (Q, '''	count := uint32(len(list))
	hasNextPage := limit > 0 && count >= limit

	res.SetResultWithCursor(list, hasNextPage, cursor)

	return nil
}
''', '''	res.SetResultWithCursor(list, hasNext(limit, uint32(len(list))), cursor)
	return nil
}

func hasNext(limit, count uint32) bool {
	return limit > 0 && count >= limit
}
''')],
'q-pageargs': [(Q, '''	var (
		limit  uint32
		offset uint32
	)
	if len(args) == 1 {
		if qp, ok := args[0].(QueryParams); ok {
			limit, offset = qp.Page()
			args = qp.Args()
		}
	} else if len(args) >= 2 {
		clen := len(args)
		// Limit and Offset are the last two arguments
		limit = PageParam(args[clen-2])
		offset = PageParam(args[clen-1])
	}

	list,''', '''	limit, offset, args := pageArgs(args)

	list,'''), (Q, '// ExecuteQueryWithCursor runs', '''func pageArgs(args []any) (limit, offset uint32, list []any) {
	switch n := len(args); {
	case n == 1:
		if qp, ok := args[0].(QueryParams); ok {
			limit, offset = qp.Page()
			return limit, offset, qp.Args()
		}
	case n > 1:
		// Limit and Offset are the last two arguments
		limit, offset = PageParam(args[n-2]), PageParam(args[n-1])
	}
	return limit, offset, args
}

// ExecuteQueryWithCursor runs''')],
'q-row': [(Q, '''	row := sql.QueryRowContext(ctx, query, args...)
	var m TPointer = new(T)
	err := m.ScanRow(row)
	if err != nil {
		return nil, errors.WithStack(err)
	}
	return m, nil
''', '''	m := TPointer(new(T))
	if err := m.ScanRow(sql.QueryRowContext(ctx, query, args...)); err != nil {
		return nil, errors.WithStack(err)
	}
	return m, nil
''')],
'q-cursor': [(Q, '	return base64.RawURLEncoding.EncodeToString([]byte(val.JSON()))\n', '	js := []byte(val.JSON())\n	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(js)))\n	base64.RawURLEncoding.Encode(buf, js)\n	return string(buf)\n')],
'q-encoding': [(Q, 'return base64.RawURLEncoding.EncodeToString', 'return cursorEncoding.EncodeToString'), (Q, 'base64.RawURLEncoding.DecodeString(cursor)', 'cursorEncoding.DecodeString(cursor)'), (Q, '// EncodeCursor encodes', 'var cursorEncoding = base64.RawURLEncoding\n\n// EncodeCursor encodes')],
'q-decode': [(Q, '''	var m values.MapAny
	err = json.Unmarshal(js, &m)
	if err != nil {
''', '''	m := values.MapAny{}
	if err = json.Unmarshal(js, &m); err != nil {
''')],
# schema/provider.go
's-closer': [(S, '''	rows, err := r.dialect.QueryTables(ctx)
	if err != nil {
		return nil, errors.WithMessagef(err, "failed to query tables")
	}
	defer func() {
		_ = rows.Close()
	}()

	tt := Tables{}
	for rows.Next() {
		t := new(Table)
		if err := rows.Scan(&t.Schema, &t.Name, &t.Type); err != nil {
			return nil, errors.WithMessagef(err, "failed to scan")
		}

		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, t.Schema) {
			continue
		}

		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, t.Name) {
			continue
		}

		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
		tt = append(tt, t)
	}

	if rows.Err() != nil {
		return nil, rows.Err()
	}

	// the connection of a transaction can't be used while the rows are open
	_ = rows.Close()

''', '''	tt, err := r.listTables(ctx, schemas, tables)
	if err != nil {
		return nil, err
	}

'''), (S, '// readTable reads', '''func (r *SQLServerProvider) listTables(ctx context.Context, schemas []string, tables []string) (Tables, error) {
	rows, err := r.dialect.QueryTables(ctx)
	if err != nil {
		return nil, errors.WithMessagef(err, "failed to query tables")
	}
	defer func() {
		_ = rows.Close()
	}()

	tt := Tables{}
	for rows.Next() {
		t := new(Table)
		if err := rows.Scan(&t.Schema, &t.Name, &t.Type); err != nil {
			return nil, errors.WithMessagef(err, "failed to scan")
		}
		if !selected(schemas, t.Schema) || !selected(tables, t.Name) {
			continue
		}
		t.SchemaName = t.Schema + "." + t.Name
		tt = append(tt, t)
	}
	if err := rows.Err(); err != nil {
		return nil, err
	}
	return tt, nil
}

func selected(list []string, val string) bool {
	return len(list) == 0 || slices.ContainsStringEqualFold(list, val)
}

// readTable reads''')],
's-err': [(S, '''	if rows.Err() != nil {
		return nil, nil, rows.Err()
	}
''', '''	if err = rows.Err(); err != nil {
		return nil, nil, errors.WithStack(err)
	}
''')],
's-fk': [(S, '''		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, k.Schema) {
			continue
		}
		if len(tables) > 0 && !slices.ContainsStringEqualFold(tables, k.Table) {
			continue
		}

		k.Column = columnName(k.Column)
		k.RefColumn = columnName(k.RefColumn)
		k.SchemaName = fmt.Sprintf("%s.%s.%s", k.Schema, k.Table, k.Name)
		r.fkeys[k.ColumnSchemaName()] = k

		keys = append(keys, k)
''', '''		skip := len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, k.Schema) ||
			len(tables) > 0 && !slices.ContainsStringEqualFold(tables, k.Table)
		if !skip {
			k.Column = columnName(k.Column)
			k.RefColumn = columnName(k.RefColumn)
			k.SchemaName = strings.Join([]string{k.Schema, k.Table, k.Name}, ".")
			keys = append(keys, k)
			r.fkeys[k.ColumnSchemaName()] = k
		}
''')],
's-link': [(S, '''	for n, c := range r.columns {
		fk := r.fkeys[n]
		if fk == nil {
			continue
		}
		c.Ref = fk

		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
		if err != nil {
			return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, c.Ref.RefTable)
		}
	}
''', '''	for n, c := range r.columns {
		if fk, ok := r.fkeys[n]; ok && fk != nil {
			c.Ref = fk
			if err = r.discoverTable(ctx, fk.RefSchema, fk.RefTable); err != nil {
				return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, fk.RefTable)
			}
		}
	}
''')],
# migrate
'r-driver': [(R, '''	var driver database.Driver
	var err error
	switch provider {
	case "postgres", "pgsql":
		driver, err = postgres.WithInstance(db, &postgres.Config{})
		if err != nil {
			return errors.WithStack(err)
		}
	case "sqlserver":
		driver, err = sqlserver.WithInstance(db, &sqlserver.Config{})
		if err != nil {
			return errors.WithStack(err)
		}
	default:
		return errors.Errorf("unsupported provider: %s", provider)
	}
''', '''	driver, err := newDriver(provider, db)
	if err != nil {
		return errors.WithStack(err)
	}
'''), (R, 'type migrateLog struct{}', '''func newDriver(provider string, db *sql.DB) (database.Driver, error) {
	switch provider {
	case "postgres", "pgsql":
		return postgres.WithInstance(db, &postgres.Config{})
	case "sqlserver":
		return sqlserver.WithInstance(db, &sqlserver.Config{})
	}
	return nil, errors.Errorf("unsupported provider: %s", provider)
}

type migrateLog struct{}''')],
'r-nil': [(R, '''	version, _, err := m.Version()
	if err != nil && err != migrate.ErrNilVersion {
		return errors.WithStack(err)
	}
	if err == migrate.ErrNilVersion {
		logger.KV(xlog.INFO, "db", dbName, "reason", "initial_state", "version", "nil")
	} else {
		logger.KV(xlog.INFO, "db", dbName, "reason", "initial_state", "version", version)
	}
''', '''	version, _, err := m.Version()
	switch {
	case err == nil:
		logger.KV(xlog.INFO, "db", dbName, "reason", "initial_state", "version", version)
	case errors.Is(err, migrate.ErrNilVersion):
		logger.KV(xlog.INFO, "db", dbName, "reason", "initial_state", "version", "nil")
	default:
		return errors.WithStack(err)
	}
''')],
'r-run': [(R, '''	if migrateVersion > 0 {
		logger.KV(xlog.NOTICE, "db", dbName, "migrateVersion", migrateVersion)
		err = m.Migrate(uint(migrateVersion))
	} else {
		err = m.Up()
	}

	if err != nil {
		if errors.Is(err, migrate.ErrNoChange) {
			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
			return nil
		}
		return errors.WithStack(err)
	}
''', '''	run := m.Up
	if migrateVersion > 0 {
		logger.KV(xlog.NOTICE, "db", dbName, "migrateVersion", migrateVersion)
		run = func() error { return m.Migrate(uint(migrateVersion)) }
	}

	err = run()
	if errors.Is(err, migrate.ErrNoChange) {
		logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
		return nil
	}
	if err != nil {
		return errors.WithStack(err)
	}
''')],
# prov.go
'v-rollback': [(V, '''	if err := p.tx.Rollback(); err != nil && err != sql.ErrTxDone {
		return errors.WithStack(err)
	}
	return nil
''', '''	err := p.tx.Rollback()
	if err == nil || errors.Is(err, sql.ErrTxDone) {
		return nil
	}
	return errors.WithStack(err)
''')],
'v-close': [(V, '''	if err = p.conn.Close(); err != nil {
		logger.KV(xlog.ERROR, "err", err)
	} else {
		p.conn = nil
	}
	logger.KV(xlog.TRACE, "status", "closed")
	return
''', '''	err = p.conn.Close()
	if err == nil {
		p.conn = nil
	} else {
		logger.KV(xlog.ERROR, "err", err)
	}
	logger.KV(xlog.TRACE, "status", "closed")
	return err
''')],
'v-idtime': [(V, '''	if g, ok := p.idGen.(*xflake.Flake); ok {
		return xflake.IDTime(g, id)
	}
	return flake.IDTime(p.idGen, id)
''', '''	switch g := p.idGen.(type) {
	case *xflake.Flake:
		return xflake.IDTime(g, id)
	default:
		return flake.IDTime(g, id)
	}
''')],
'v-next': [(V, '	return NewID(p.idGen.NextID())\n', '	id := p.idGen.NextID()\n	return NewID(id)\n')],
'v-ping': [(V, '''	go func() {
		// Using for loop
		for {
			select {
			case <-done:
				logger.KV(xlog.TRACE, "status", "stopped")
				return
			case <-ch:
			}
			err := conn.Ping()
			if err != nil {
				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
				continue
			}
		}
	}()
''', '''	go func() {
		for {
			select {
			case <-done:
				logger.KV(xlog.TRACE, "status", "stopped")
				return
			case <-ch:
				if err := conn.Ping(); err != nil {
					logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
				}
			}
		}
	}()
''')],
}

EDITS.update({
'B03:boolexpr': [('types.go', """	if s == "true" || s == "1" || s == "TRUE" {
		*v = true
	} else {
		*v = false
	}
	return nil
""", """	*v = Bool(s == "true" || s == "1" || s == "TRUE")
	return nil
""")],
'B03:boolswitch': [('types.go', """	if s == "true" || s == "1" || s == "TRUE" {
		*v = true
	} else {
		*v = false
	}
	return nil
""", """	*v = false
	switch s {
	case "true", "TRUE", "1":
		*v = true
	}
	return nil
""")],
'B03:floatswitch': [('types.go', """	if s == "" || s == "0" || s == "NULL" || s == "null" {
		*v = 0
		return nil
	}

	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return errors.Errorf("expected number value to unmarshal ID: %s", s)
	}
	*v = Float(f)
""", """	var f float64
	switch {
	case len(s) == 0, strings.EqualFold(s, "null"):
	default:
		var err error
		f, err = strconv.ParseFloat(s, 64)
		if err != nil {
			return errors.Errorf("expected number value to unmarshal ID: %s", s)
		}
	}
	*v = Float(f)
""")],
'B03:setclean': [('id.go', """	if val == "" || val == "0" {
		return errors.Errorf("invalid ID: empty value")
	}

	id, err := ParseUint(val)
	if err != nil || id == 0 {
		return errors.Errorf("invalid ID: '%s'", val)
	}
""", """	id, err := ParseUint(val)
	switch {
	case err != nil:
		return errors.Errorf("invalid ID: '%s'", val)
	case id == 0:
		return errors.Errorf("invalid ID: zero")
	}
""")],
})
