F = 'xsql/stmt.go'
LOOP = open('/repo/' + F).read()
a = LOOP.index("	argLen := len(args)\n	bufLow := len(q.buf.B)")
b = LOOP.index("	if addNew {\n		// Insert a new chunk")
HEAD = LOOP[a:b]
c = LOOP.index("	// Insert query arguments\n	if argLen > 0")
NEW = LOOP[b:c]
EDITS = {
'stmt-findplace': [(F, HEAD, '''	argLen := len(args)
	bufLow := len(q.buf.B)
	at, argTail := q.findPlace(pos)
	index = at + 1
	addNew := true
	addClause := clause != ""
	if at >= 0 && q.chunks[at].pos == pos {
		chunk := &q.chunks[at]
		if expr == "" {
			if argLen > 0 {
				copy(q.args[len(q.args)-argTail-chunk.argLen:], args)
			}
			return at
		}
		if chunk.hasExpr {
			q.WriteString(sep)
		} else {
			q.WriteString(" ")
		}
		if chunk.bufHigh == bufLow {
			addNew = false
			q.WriteString(expr)
			chunk.argLen += argLen
			chunk.bufHigh = len(q.buf.B)
			chunk.hasExpr = true
			index = at
		} else {
			addClause = false
		}
	}

'''), (F, '// addChunk adds a clause or', '''// findPlace returns the last chunk that is not behind the position, and the number of arguments behind it
func (q *Stmt) findPlace(pos chunkPos) (int, int) {
	tail := 0
	i := len(q.chunks) - 1
	for ; i >= 0; i-- {
		if q.chunks[i].pos <= pos {
			break
		}
		tail += q.chunks[i].argLen
	}
	return i, tail
}

// addChunk adds a clause or''')],
'stmt-while': [(F, '''loop:
	for i := index - 1; i >= 0; i-- {
		chunk := &q.chunks[i]
		index = i
''', '''loop:
	for index > 0 {
		i := index - 1
		chunk := &q.chunks[i]
		index = i
''')],
'stmt-if': [(F, '''		case chunk.pos < pos:
			index = i + 1
			break loop
		default:
			argTail += chunk.argLen
		}
	}

	if addNew {''', '''		case chunk.pos > pos:
			argTail += chunk.argLen
		default:
			index = i + 1
			break loop
		}
	}

	if addNew {''')],
'stmt-insert': [(F, '''		q.chunks = append(q.chunks, chunk)
		if index < len(q.chunks)-1 {
			copy(q.chunks[index+1:], q.chunks[index:])
			q.chunks[index] = chunk
		}
''', '''		q.chunks = append(q.chunks, stmtChunk{})
		copy(q.chunks[index+1:], q.chunks[index:])
		q.chunks[index] = chunk
'''), (F, '''		if cap(q.chunks) == len(q.chunks) {
			chunks := make(stmtChunks, len(q.chunks), cap(q.chunks)*2)
			copy(chunks, q.chunks)
			q.chunks = chunks
		}

''', '')],
'stmt-slices': [(F, '''		q.chunks = append(q.chunks, chunk)
		if index < len(q.chunks)-1 {
			copy(q.chunks[index+1:], q.chunks[index:])
			q.chunks[index] = chunk
		}
''', '''		q.chunks = slices.Insert(q.chunks, index, chunk)
'''), (F, '	"reflect"\n', '	"reflect"\n	"slices"\n')],
'stmt-argpos': [(F, '	argTail := 0\n', '	argPos := len(q.args)\n'), (F, 'copy(q.args[len(q.args)-argTail-chunk.argLen:], args)', 'copy(q.args[argPos-chunk.argLen:], args)'),
  (F, '			argTail += chunk.argLen\n', '			argPos -= chunk.argLen\n'), (F, 'insertAt(q.args, args, len(q.args)-argTail)', 'insertAt(q.args, args, argPos)')],
'stmt-helper': [(F, NEW, '''	if addNew {
		q.insertChunk(index, stmtChunk{pos: pos, argLen: argLen}, bufLow, clause, expr, addClause)
	}

'''), (F, '// addChunk adds a clause or', '''func (q *Stmt) insertChunk(index int, chunk stmtChunk, low int, clause, expr string, addClause bool) {
	if addClause {
		if q.useNewLines {
			q.WriteString("\\n")
		}
		q.WriteString(clause)
		if expr != "" {
			q.WriteString(" ")
		}
	}
	q.WriteString(expr)
	chunk.hasExpr = expr != ""
	chunk.bufLow, chunk.bufHigh = low, q.buf.Len()
	q.chunks = append(q.chunks, chunk)
	if n := len(q.chunks) - 1; index < n {
		copy(q.chunks[index+1:], q.chunks[index:])
		q.chunks[index] = chunk
	}
}

// addChunk adds a clause or''')],
'stmt-order': [(F, '''	// Insert query arguments
	if argLen > 0 {
		q.args = insertAt(q.args, args, len(q.args)-argTail)
	}
	q.Invalidate()

	return index''', '''	q.Invalidate()
	if argLen > 0 {
		at := len(q.args) - argTail
		q.args = insertAt(q.args, args, at)
	}
	return index''')],
'stmt-with': [(F, '''	q.addChunk(posWith, "WITH", "", nil, "")
	return q.SubQuery(queryName+" AS (", ")", query)''', '''	q.addChunk(posWith, "WITH", "", nil, "")
	q.SubQuery(queryName+" AS (", ")", query)
	return q''')],
'stmt-subquery': [(F, '''	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
	chunk := &q.chunks[index]
	// Make sure subquery is not dialect-specific.
	if query.dialect != NoDialect {
		query.dialect = NoDialect
		query.Invalidate()
	}
	q.WriteString(query.String())
	q.WriteString(suffix)
	chunk.bufHigh = q.buf.Len()
	// Close the subquery
	query.Close()

	return q
''', '''	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
	q.appendQuery(index, query, suffix)
	return q
'''), (F, '''	chunk := &q.chunks[index]
	// Make sure subquery is not dialect-specific.
	if query.dialect != NoDialect {
		query.dialect = NoDialect
		query.Invalidate()
	}
	q.WriteString(query.String())
	chunk.bufHigh = q.buf.Len()
	// Close the subquery
	query.Close()

	return q
''', '''	q.appendQuery(index, query, "")
	return q
}

func (q *Stmt) appendQuery(index int, query *Stmt, suffix string) {
	if query.dialect != NoDialect {
		query.dialect = NoDialect
		query.Invalidate()
	}
	text := query.String()
	query.Close()
	q.WriteString(text)
	q.WriteString(suffix)
	q.chunks[index].bufHigh = len(q.buf.B)
''')],
'stmt-union': [(F, '''	var index int
	if all {
		index = q.addChunk(p, "UNION ALL ", "", query.args, "")
	} else {
		index = q.addChunk(p, "UNION ", "", query.args, "")
	}
''', '''	verb := "UNION "
	if all {
		verb = "UNION ALL "
	}
	index := q.addChunk(p, verb, "", query.args, "")
''')],
'stmt-in': [(F, '''	l := len(args) - 1
	for i := range args {
		if i < l {
			_, _ = buf.Write(placeholderComma)
		} else {
			_, _ = buf.Write(placeholder)
		}
	}
	_, _ = buf.WriteString(")")
''', '''	for i := range args {
		if i > 0 {
			_, _ = buf.WriteString(",")
		}
		_, _ = buf.Write(placeholder)
	}
	_, _ = buf.WriteString(")")
''')],
'stmt-in2': [(F, '''	buf := getBuffer()
	_, _ = buf.WriteString("IN (")
	l := len(args) - 1
	for i := range args {
		if i < l {
			_, _ = buf.Write(placeholderComma)
		} else {
			_, _ = buf.Write(placeholder)
		}
	}
	_, _ = buf.WriteString(")")
	chunkStr := bufToString(buf)
	q.addChunk(posWhere, "", chunkStr, args, " ")

	putBuffer(buf)
	return q
''', '''	marks := make([]string, len(args))
	for i := range marks {
		marks[i] = "?"
	}
	q.addChunk(posWhere, "", "IN ("+strings.Join(marks, ",")+")", args, " ")
	return q
''')],
'stmt-setexpr': [(F, '''	p := chunkPos(0)
	for _, chunk := range q.chunks {
		if chunk.pos == posInsert || chunk.pos == posUpdate {
			p = chunk.pos
			break
		}
	}

	switch p {
	case posInsert:
		q.addChunk(posInsertFields, "", field, nil, ", ")
		q.addChunk(posValues, "", expr, args, ", ")
	case posUpdate:
		q.addChunk(posSet, "SET", field+"="+expr, args, ", ")
	}
	return q
''', '''	for i := range q.chunks {
		switch q.chunks[i].pos {
		case posInsert:
			q.addChunk(posInsertFields, "", field, nil, ", ")
			q.addChunk(posValues, "", expr, args, ", ")
			return q
		case posUpdate:
			q.addChunk(posSet, "SET", field+"="+expr, args, ", ")
			return q
		}
	}
	return q
''')],
'stmt-newrow': [(F, '''	first := true
	// Check if there are values
loop:
	for i := len(q.chunks) - 1; i >= 0; i-- {
		chunk := q.chunks[i]
		switch {
		// See if an existing chunk can be extended
		case chunk.pos == posValues:
			// Values section is there, prepend
			first = false
			break loop
		case chunk.pos < posValues:
			break loop
		}
	}
''', '''	first := !q.has(posValues)
'''), (F, '// join adds a join', '''func (q *Stmt) has(pos chunkPos) bool {
	for i := range q.chunks {
		if q.chunks[i].pos == pos {
			return true
		}
	}
	return false
}

// join adds a join''')],
'stmt-join': [(F, '''	buf := getBuffer()
	_, _ = buf.WriteString(joinType)
	_, _ = buf.WriteString(table)
	_, _ = buf.Write(joinOn)
	_, _ = buf.WriteString(on)
	_ = buf.WriteByte(')')

	chunkStr := bufToString(buf)
	index = q.addChunk(posFrom, "", chunkStr, nil, " ")

	putBuffer(buf)

	return index
''', '''	return q.addChunk(posFrom, "", joinType+table+" ON ("+on+")", nil, " ")
''')],
'stmt-paginate': [(F, '''	if page < 1 {
		page = 1
	}
	if pageSize < 1 {
		pageSize = 1
	}
	if page > 1 {
		q.Offset((page - 1) * pageSize)
	}
	q.Limit(pageSize)
	return q
''', '''	page, pageSize = max(page, 1), max(pageSize, 1)
	q.Limit(pageSize)
	if page > 1 {
		return q.Offset(pageSize * (page - 1))
	}
	return q
''')],
'stmt-string': [(F, '''	if q.sql == "" {
		// Calculate the buffer hash and check for available queries
		// NOTE: can't use bufToString here as it returns Raw pointer
		bufStrKey := values.StringsCoalesce(q.name, q.cacheKey())
		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
		if ok {
			q.sql = sql
		} else {
			// Build a query
			var argNo = 1
			buf := strings.Builder{}

			pos := chunkPos(0)
			for n, chunk := range q.chunks {
				// Separate clauses with spaces
				if n > 0 && chunk.pos > pos {
					buf.Write(space)
				}
				s := q.buf.B[chunk.bufLow:chunk.bufHigh]
				if chunk.argLen > 0 && q.dialect.Provider() == "postgres" {
					argNo, _ = writePg(argNo, s, &buf)
				} else {
					buf.Write(s)
				}
				pos = chunk.pos
			}
			bstr := buf.String()
			q.sql = strings.Trim(bstr, "\\n\\r\\t ")
			// Save it for reuse
			q.dialect.PutCachedQuery(bufStrKey, q.sql)
		}
	}
	return q.sql
''', '''	if q.sql != "" {
		return q.sql
	}
	key := q.name
	if key == "" {
		key = q.cacheKey()
	}
	if sql, ok := q.dialect.GetCachedQuery(key); ok {
		q.sql = sql
		return sql
	}
	text := q.build()
	q.dialect.PutCachedQuery(key, text)
	q.sql = text
	return text
}

// build assembles the text
func (q *Stmt) build() string {
	var b strings.Builder
	postgres := q.dialect.Provider() == "postgres"
	argNo := 1
	last := chunkPos(0)
	for i := 0; i < len(q.chunks); i++ {
		c := &q.chunks[i]
		if i > 0 && c.pos > last {
			b.WriteByte(' ')
		}
		last = c.pos
		text := q.buf.B[c.bufLow:c.bufHigh]
		if postgres && c.argLen > 0 {
			argNo, _ = writePg(argNo, text, &b)
			continue
		}
		b.Write(text)
	}
	return strings.Trim(b.String(), "\\n\\r\\t ")
'''), (F, '	"github.com/effective-security/x/values"\n', '')],
'stmt-key': [(F, '''		for _, v := range []int{int(chunk.pos), chunk.bufLow, chunk.bufHigh, chunk.argLen} {
			key = strconv.AppendInt(key, int64(v), 10)
			key = append(key, ',')
		}
''', '''		key = append(key, fmt.Sprintf("%d,%d,%d,%d,", chunk.pos, chunk.bufLow, chunk.bufHigh, chunk.argLen)...)
'''), (F, '	"database/sql"\n', '	"database/sql"\n	"fmt"\n'), (F, '	"strconv"\n', '')],
'stmt-clone': [(F, '''	if cap(stmt.chunks) < len(q.chunks) {
		stmt.chunks = make(stmtChunks, len(q.chunks), len(q.chunks)+2)
		copy(stmt.chunks, q.chunks)
	} else {
		stmt.chunks = append(stmt.chunks, q.chunks...)
	}
	stmt.args = insertAt(stmt.args, q.args, 0)
	stmt.dest = insertAt(stmt.dest, q.dest, 0)
''', '''	stmt.chunks = append(stmt.chunks[:0], q.chunks...)
	stmt.args = append(stmt.args, q.args...)
	stmt.dest = append(stmt.dest, q.dest...)
''')],
}
