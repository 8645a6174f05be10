EDITS = {
 "ids2:sortfunc": [("id.go", "	sort.Slice(n, func(i, j int) bool {\n		return n[i].UInt64() < n[j].UInt64()\n	})", "	slices.SortFunc(n, func(a, b ID) int {\n		return cmp.Compare(a.UInt64(), b.UInt64())\n	})"), ("id.go", '	"sort"\n', '	"cmp"\n	"slices"\n')],
 "ids2:sorttype": [("id.go", "	sort.Slice(n, func(i, j int) bool {\n		return n[i].UInt64() < n[j].UInt64()\n	})\n	return n\n}", "	sort.Sort(byNumber(n))\n	return n\n}\n\ntype byNumber []ID\n\nfunc (b byNumber) Len() int { return len(b) }\nfunc (b byNumber) Less(i, j int) bool { return b[i].UInt64() < b[j].UInt64() }\nfunc (b byNumber) Swap(i, j int) { b[i], b[j] = b[j], b[i] }")],
 "ids2:sort-noguard": [("id.go", "	if len(n) < 2 {\n		return n\n	}\n\n", "")],
 "ids2:sort-swap": [("id.go", "		return n[i].UInt64() < n[j].UInt64()\n	})", "		a, b := n[i].UInt64(), n[j].UInt64()\n		return b > a\n	})")],
 "ids2:try": [("id.go", "	var id ID\n	_ = id.Set(val)\n	return id", "	id, err := ParseID(val)\n	if err != nil {\n		return ID{}\n	}\n	return id")],
 "ids2:must": [("id.go", "	var id ID\n	if err := id.Set(val); err != nil {\n		panic(err)\n	}\n	return id", "	id, err := ParseID(val)\n	if err != nil {\n		panic(err)\n	}\n	return id")],
 "ids2:strings": [("id.go", "		id, err := ParseID(val)\n		if err == nil {\n			ids = ids.Add(id)\n		}", "		id := TryParseID(val)\n		if id.Valid() {\n			ids = ids.Add(id)\n		}")],
 "ids2:strings-continue": [("id.go", "		id, err := ParseID(val)\n		if err == nil {\n			ids = ids.Add(id)\n		}", "		id, err := ParseID(val)\n		if err != nil {\n			continue\n		}\n		ids = ids.Add(id)")],
 "ids2:valid": [("id.go", "	return v.id.val() != 0", "	return !v.IsZero()")],
 "ids2:zero": [("id.go", "func (v ID) Invalid() bool {\n	return v.id.val() == 0", "func (v ID) Invalid() bool {\n	return v.id == nil || v.id.id == 0")],
 "ids2:reset": [("id.go", "	v.id = &idptr{}\n", "	*v = ID{}\n")],
 "ids2:parse": [("id.go", "	id, err := ParseUint(val)\n	if err != nil || id == 0 {", "	id, err := strconv.ParseUint(val, 10, 64)\n	if err != nil || id < 1 {")],
}
