D,S,U,I,T,F,M,C='xsql/dialect.go','xsql/stmt.go','xsql/util.go','id.go','schema/schema.go','pkg/flake/flake.go','types.go','internal/cli/schema/schema.go'
EDITS = {
 'bounds-scan': [(I,"""		for i, id := range int64Array {
			ids[i] = NewID(uint64(id))
		}
		*n = ids""","""		for i := 0; i < count; i++ {
			ids[i] = NewID(uint64(int64Array[i]))
		}
		*n = ids""")],
 'bounds-scan-range': [(I,"""		for i, id := range int64Array {
			ids[i] = NewID(uint64(id))
		}
		*n = ids""","""		for i := range count {
			ids[i] = NewID(uint64(int64Array[i]))
		}
		*n = ids""")],
 'bounds-scan-append': [(I,"""		ids := make([]ID, count)
		for i, id := range int64Array {
			ids[i] = NewID(uint64(id))
		}
		*n = ids""","""		ids := make([]ID, 0, count)
		for _, id := range int64Array {
			ids = append(ids, NewID(uint64(id)))
		}
		*n = ids""")],
 'bounds-list': [(I,"""	ids := make(pq.Int64Array, len(list))
	for i, id := range list {
		ids[i] = int64(id)
	}
	return ids""","""	n := len(list)
	ids := make(pq.Int64Array, n)
	for i := n - 1; i >= 0; i-- {
		ids[i] = int64(list[i])
	}
	return ids""")],
 'bounds-aliased': [(T,"""		if nullColumns[c] {
			prefixed[i] = "NULL"
		} else {
			if prefix == "" {
				prefixed[i] = c
			} else {
				prefixed[i] = prefix + "." + c
			}
		}""","""		switch {
		case nullColumns[c]:
			prefixed[i] = "NULL"
		case prefix == "":
			prefixed[i] = c
		default:
			prefixed[i] = prefix + "." + c
		}""")],
 'bounds-insert': [(U,"""	srcLen := len(src)
	if srcLen > 0 {
		oldLen := len(dest)
		dest = append(dest, src...)
		if index < oldLen {
			copy(dest[index+srcLen:], dest[index:])
			copy(dest[index:], src)
		}
	}

	return dest""","""	n := len(src)
	if n == 0 {
		return dest
	}
	atEnd := index >= len(dest)
	dest = append(dest, src...)
	if atEnd {
		return dest
	}
	copy(dest[index+n:], dest[index:])
	copy(dest[index:], src)
	return dest""")],
 'bounds-escape': [(D,"if pos < len(s)-1 && s[pos+1] == '?' {","if next := pos + 1; next < len(s) && s[next] == '?' {")],
 'bounds-escape-prefix': [(D,"if pos < len(s)-1 && s[pos+1] == '?' {","if len(s)-pos >= 2 && s[pos+1] == '?' {")],
 'bounds-write-bytes': [(D,"""	for pos, r := range s {
		if start > pos {
			continue
		}
		switch r {""","""	for pos := 0; pos < len(s); pos++ {
		if start > pos {
			continue
		}
		switch s[pos] {""")],
 'bounds-chunk': [(S,"""		if index < len(q.chunks)-1 {
			copy(q.chunks[index+1:], q.chunks[index:])
			q.chunks[index] = chunk
		}""","""		if last := len(q.chunks) - 1; index < last {
			copy(q.chunks[index+1:], q.chunks[index:last])
			q.chunks[index] = chunk
		}""")],
 'bounds-machine': [(F,"""		last := len(ip)
		id := (uint16(ip[last-2])<<8 + uint16(ip[last-1]))""","""		id := (uint16(ip[14])<<8 + uint16(ip[15]))""")],
 'bounds-machine-tail': [(F,"""		last := len(ip)
		id := (uint16(ip[last-2])<<8 + uint16(ip[last-1]))""","""		tail := ip[len(ip)-2:]
		id := (uint16(tail[0])<<8 + uint16(tail[1]))""")],
 'bounds-goname': [(C,"""		a := []rune(s)
		a[0] = 'X'
		s = string(a)""","""		s = "X" + s[1:]""")],
 'bounds-goname-trim': [(C,"""		a := []rune(s)
		a[0] = 'X'
		s = string(a)""","""		s = "X" + strings.TrimPrefix(s, "_")""")],
 'bounds-values-loop': [(S,"""loop:
	for i := len(q.chunks) - 1; i >= 0; i-- {
		chunk := q.chunks[i]
		switch {
		// See if an existing chunk can be extended
		case chunk.pos == posValues:
			// Values section is there, prepend
			first = false
			break loop
		case chunk.pos < posValues:
			break loop
		}
	}
	if !first {""","""	for _, chunk := range q.chunks {
		if chunk.pos == posValues {
			first = false
		}
	}
	if !first {""")],
 'bounds-values-while': [(S,"""loop:
	for i := len(q.chunks) - 1; i >= 0; i-- {
		chunk := q.chunks[i]
		switch {
		// See if an existing chunk can be extended
		case chunk.pos == posValues:
			// Values section is there, prepend
			first = false
			break loop
		case chunk.pos < posValues:
			break loop
		}
	}
	if !first {""","""	for i := len(q.chunks); i > 0 && q.chunks[i-1].pos >= posValues; i-- {
		if q.chunks[i-1].pos == posValues {
			first = false
			break
		}
	}
	if !first {""")],
}
