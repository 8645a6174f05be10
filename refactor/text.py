S = 'xsql/stmt.go'; D = 'xsql/dialect.go'; P = 'xsql/pool.go'; C = 'xsql/cache.go'; X = 'xsql/executor.go'; U = 'xsql/util.go'
EDITS = {
'text-pg-loop': [(D, '''	for pos, r := range s {
		if start > pos {
			continue
		}
		switch r {
		case '\\\\':
			if pos < len(s)-1 && s[pos+1] == '?' {
				_, err = buf.Write(s[start:pos])
				if err == nil {
					err = buf.WriteByte('?')
				}
				start = pos + 2
			}
		case '?':
			_, err = buf.Write(s[start:pos])
			start = pos + 1
			if err == nil {
				err = buf.WriteByte('$')
				if err == nil {
					buf.WriteString(strconv.Itoa(argNo))
					argNo++
				}
			}
		}
		if err != nil {
			break
		}
	}
''', '''	for pos := 0; pos < len(s); pos++ {
		c := s[pos]
		if start > pos || c != '?' && c != '\\\\' {
			continue
		}
		if c == '?' {
			buf.Write(s[start:pos])
			start = pos + 1
			buf.WriteByte('$')
			buf.WriteString(strconv.Itoa(argNo))
			argNo++
			continue
		}
		if pos+1 < len(s) && s[pos+1] == '?' {
			buf.Write(s[start:pos])
			buf.WriteByte('?')
			start = pos + 2
		}
	}
''')],
'text-pg-noerr': [(D, '''			_, err = buf.Write(s[start:pos])
			start = pos + 1
			if err == nil {
				err = buf.WriteByte('$')
				if err == nil {
					buf.WriteString(strconv.Itoa(argNo))
					argNo++
				}
			}
''', '''			start = writeNumber(buf, s[start:pos], argNo, pos)
			argNo++
'''), (D, '// writePg function', '''func writeNumber(buf *strings.Builder, text []byte, no, pos int) int {
	buf.Write(text)
	buf.WriteString("$" + strconv.Itoa(no))
	return pos + 1
}

// writePg function''')],
'text-string-early': [(S, '''	if q.sql == "" {
		// Calculate''', '''	if len(q.sql) > 0 {
		return q.sql
	}
	{
		// Calculate''')],
'text-string-build': [(S, '''			// Build a query
			var argNo = 1
			buf := strings.Builder{}

			pos := chunkPos(0)
			for n, chunk := range q.chunks {
				// Separate clauses with spaces
				if n > 0 && chunk.pos > pos {
					buf.Write(space)
				}
				s := q.buf.B[chunk.bufLow:chunk.bufHigh]
				if chunk.argLen > 0 && q.dialect.Provider() == "postgres" {
					argNo, _ = writePg(argNo, s, &buf)
				} else {
					buf.Write(s)
				}
				pos = chunk.pos
			}
			bstr := buf.String()
			q.sql = strings.Trim(bstr, "\\n\\r\\t ")
''', '''			q.sql = strings.Trim(q.build(), "\\n\\r\\t ")
'''), (S, '// cacheKey returns a key', '''func (q *Stmt) build() string {
	var buf strings.Builder
	no := 1
	numbered := q.dialect.Provider() == "postgres"
	for i := range q.chunks {
		chunk := &q.chunks[i]
		if i > 0 && q.chunks[i-1].pos < chunk.pos {
			buf.WriteByte(' ')
		}
		text := q.buf.B[chunk.bufLow:chunk.bufHigh]
		if !numbered || chunk.argLen == 0 {
			buf.Write(text)
			continue
		}
		no, _ = writePg(no, text, &buf)
	}
	return buf.String()
}

// cacheKey returns a key''')],
'text-key-sprintf': [(S, '''		key = append(key, 0)
		for _, v := range []int{int(chunk.pos), chunk.bufLow, chunk.bufHigh, chunk.argLen} {
			key = strconv.AppendInt(key, int64(v), 10)
			key = append(key, ',')
		}
''', '''		key = append(key, fmt.Sprintf("\\x00%d,%d,%d,%d", chunk.pos, chunk.bufLow, chunk.bufHigh, chunk.argLen)...)
'''), (S, '	"strconv"\n', '	"fmt"\n')],
'text-key-builder': [(S, '''	key := append(make([]byte, 0, len(q.buf.B)+16*len(q.chunks)), q.buf.B...)
	for _, chunk := range q.chunks {
		key = append(key, 0)
		for _, v := range []int{int(chunk.pos), chunk.bufLow, chunk.bufHigh, chunk.argLen} {
			key = strconv.AppendInt(key, int64(v), 10)
			key = append(key, ',')
		}
	}
	return string(key)''', '''	var sb strings.Builder
	sb.Write(q.buf.B)
	for i := range q.chunks {
		c := &q.chunks[i]
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(int(c.pos)))
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(c.bufLow))
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(c.bufHigh))
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(c.argLen))
	}
	return sb.String()''')],
'text-key-inline': [(S, 'bufStrKey := values.StringsCoalesce(q.name, q.cacheKey())', 'bufStrKey := q.name\n		if bufStrKey == "" {\n			bufStrKey = q.cacheKey()\n		}'), (S, '	"github.com/effective-security/x/values"\n', '')],
'text-clone-append': [(S, '''	if cap(stmt.chunks) < len(q.chunks) {
		stmt.chunks = make(stmtChunks, len(q.chunks), len(q.chunks)+2)
		copy(stmt.chunks, q.chunks)
	} else {
		stmt.chunks = append(stmt.chunks, q.chunks...)
	}
	stmt.args = insertAt(stmt.args, q.args, 0)
	stmt.dest = insertAt(stmt.dest, q.dest, 0)
	_, _ = stmt.buf.Write(q.buf.B)
''', '''	_, _ = stmt.buf.Write(q.buf.B)
	stmt.dest = append(stmt.dest, q.dest...)
	stmt.args = append(stmt.args, q.args...)
	stmt.chunks = append(stmt.chunks, q.chunks...)
''')],
'text-clone-make': [(S, '''	stmt.args = insertAt(stmt.args, q.args, 0)
''', '''	if n := len(q.args); n > 0 {
		stmt.args = make([]any, n)
		copy(stmt.args, q.args)
	}
''')],
'text-close-clear': [(P, '''	if len(q.args) > 0 {
		for n := range q.args {
			q.args[n] = nil
		}
		q.args = q.args[:0]
	}
	if len(q.dest) > 0 {
		for n := range q.dest {
			q.dest[n] = nil
		}
		q.dest = q.dest[:0]
	}
''', '''	q.args = emptied(q.args)
	q.dest = emptied(q.dest)
'''), (P, 'func getBuffer()', '''func emptied(l []any) []any {
	for i := len(l) - 1; i >= 0; i-- {
		l[i] = nil
	}
	return l[:0]
}

func getBuffer()''')],
'text-close-order': [(P, '''	putBuffer(q.buf)

	q.buf = nil
	q.sql = ""
	q.name = ""
	q.pos = 0

''', '''	buf := q.buf
	q.buf, q.sql, q.name, q.pos = nil, "", "", 0
	putBuffer(buf)
''')],
'text-close-builtin': [(P, '''		for n := range q.args {
			q.args[n] = nil
		}
		q.args''', '''		clear(q.args)
		q.args''')],
'text-get-order': [(P, '''	stmt := stmtPool.Get().(*Stmt)
	stmt.dialect = b
	stmt.buf = getBuffer()
	stmt.name = ""
	stmt.sql = ""
	stmt.useNewLines = b.useNewLines.Load()
	return stmt
''', '''	newLines := b.useNewLines.Load()
	stmt, _ := stmtPool.Get().(*Stmt)
	stmt.useNewLines = newLines
	stmt.sql = ""
	stmt.name = ""
	stmt.buf = bytebufferpool.Get()
	stmt.dialect = b
	stmt.pos = 0
	return stmt
''')],
'text-new': [(P, '''	stmtPool = sync.Pool{New: newStmt}
''', '''	stmtPool = sync.Pool{New: func() any { return newStmt() }}
'''), (P, '''func newStmt() any {
	return &Stmt{
		chunks: make(stmtChunks, 0, 8),
	}
''', '''func newStmt() *Stmt {
	q := new(Stmt)
	q.chunks = make(stmtChunks, 0, 16)
	return q
''')],
'text-cache': [(C, '''	res, ok := d.cache.Load(name)
	if ok {
		return res.(string), ok
	}

	return "", ok
''', '''	res, ok := d.cache.Load(name)
	if !ok {
		return "", false
	}
	text := res.(string)
	return text, true
''')],
'text-goc': [(C, '''	if qstr, ok := d.GetCachedQuery(name); ok {
		return qstr, name
	}
	q := create(name)
	// will store query in cache
	return q.SetName(name).String(), name
''', '''	text, ok := d.GetCachedQuery(name)
	if !ok {
		q := create(name)
		q.SetName(name)
		text = q.String()
	}
	return text, name
''')],
'text-exec-close': [(X, '''	res, err := q.Exec(ctx, db)
	q.Close()
	return res, err
''', '''	defer q.Close()
	return q.Exec(ctx, db)
''')],
'text-exec-inline': [(X, '''	err := q.QueryRow(ctx, db)
	q.Close()
	return err
''', '''	err := db.QueryRowContext(ctx, q.String(), q.Args()...).Scan(q.Dest()...)
	q.Close()
	return err
''')],
'text-query-loop': [(X, '''		if len(q.dest) > 0 {
			err = rows.Scan(q.dest...)
			if err != nil {
				break
			}
		}
		// Call a callback function
		if handler != nil {
			handler(rows)
		}
''', '''		if err = q.scanRow(rows); err != nil {
			break
		}
		// Call a callback function
		if handler == nil {
			continue
		}
		handler(rows)
'''), (X, '// QueryAndClose executes', '''func (q *Stmt) scanRow(rows *sql.Rows) error {
	if len(q.dest) == 0 {
		return nil
	}
	return rows.Scan(q.dest...)
}

// QueryAndClose executes''')],
'text-query-errs': [(X, '''	if closeErr := rows.Close(); closeErr != nil {
		return closeErr
	}

	// Check for row scan error.
	if err != nil {
		return err
	}

	// Check for errors during row iteration.
	return rows.Err()
''', '''	closeErr := rows.Close()
	if closeErr == nil {
		if err == nil {
			err = rows.Err()
		}
		return err
	}
	return closeErr
''')],
'text-insertat': [(U, '''	srcLen := len(src)
	if srcLen > 0 {
		oldLen := len(dest)
		dest = append(dest, src...)
		if index < oldLen {
			copy(dest[index+srcLen:], dest[index:])
			copy(dest[index:], src)
		}
	}

	return dest
''', '''	n := len(src)
	if n == 0 {
		return dest
	}
	old := len(dest)
	dest = append(dest, src...)
	if index >= old {
		return dest
	}
	copy(dest[index+n:], dest[index:old])
	copy(dest[index:index+n], src)
	return dest
''')],
}
