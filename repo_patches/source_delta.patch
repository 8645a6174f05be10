From 573b10fc3ab32c87c24c5b03c26c3690dee1db7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 01/45] fix: ExecuteListQuery reports iteration errors instead
 of a truncated list

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index 23a870c..6a4cddc 100644
--- a/query.go
+++ b/query.go
@@ -49,6 +49,9 @@ func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB
 		}
 		list = append(list, m)
 	}
+	if err = rows.Err(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return list, nil
 }
 
-- 
2.43.0


From 8dcaee31af1d3e704c7bc36f2974b71e4f5fa4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 02/45] fix: a query without a page limit reports no next page

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 6a4cddc..0853ec4 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func ExecuteQueryWithPagination[T any, TPointer RowPointer[T]](ctx context.Conte
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 	nextOffset := values.Select(hasNextPage, offset+count, 0)
 
 	res.SetResult(list, hasNextPage, nextOffset)
@@ -126,7 +126,7 @@ func ExecuteQueryWithCursor[T any, TPointer RowPointer[T]](ctx context.Context,
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 
 	res.SetResultWithCursor(list, hasNextPage, cursor)
 
-- 
2.43.0


From 963195623b0d9ee254b2afceab24d38f26198adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 03/45] fix: scanning NULL resets ID, ID32, Int64, Int32, Float
 and Bool instead of keeping the old value

---
 id.go    | 2 ++
 types.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index a504b7d..c46eab7 100644
--- a/id.go
+++ b/id.go
@@ -151,6 +151,7 @@ func (v *ID) Set(val string) error {
 // Scan implements the Scanner interface.
 func (v *ID) Scan(value any) error {
 	if value == nil {
+		*v = ID{}
 		return nil
 	}
 
@@ -378,6 +379,7 @@ func (v ID32) String() string {
 // Scan implements the Scanner interface.
 func (v *ID32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
diff --git a/types.go b/types.go
index d960b10..6c73cfb 100644
--- a/types.go
+++ b/types.go
@@ -422,6 +422,7 @@ func (v Int64) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int64) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -496,6 +497,7 @@ func (v Int32) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -566,6 +568,7 @@ func (v Float) Float() float64 {
 // Scan implements the Scanner interface.
 func (v *Float) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -641,6 +644,7 @@ func (v Bool) Bool() bool {
 // Scan implements the Scanner interface.
 func (v *Bool) Scan(value any) error {
 	if value == nil {
+		*v = false
 		return nil
 	}
 
-- 
2.43.0


From 5e88fa739205bbc6e7dc8bff4da75d73cbf55124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 04/45] fix: Strings, Metadata and KVSet scan into a fresh
 value, not into the one of the previous row; Strings accepts []byte

---
 types.go | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/types.go b/types.go
index 6c73cfb..8c9fe86 100644
--- a/types.go
+++ b/types.go
@@ -145,12 +145,20 @@ func (n *Strings) Scan(value any) error {
 		*n = nil
 		return nil
 	}
-	v := fmt.Sprint(value)
+	v, ok := value.([]byte)
+	if !ok {
+		v = []byte(fmt.Sprint(value))
+	}
 	if len(v) == 0 {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(v), n))
+	var res Strings
+	if err := json.Unmarshal(v, &res); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = res
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -242,7 +250,12 @@ func (n *Metadata) Scan(value any) error {
 		*n = Metadata{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	var res Metadata
+	if err := json.Unmarshal(s, &res); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = res
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -292,7 +305,12 @@ func (n *KVSet) Scan(value any) error {
 		*n = KVSet{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	var res KVSet
+	if err := json.Unmarshal(s, &res); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = res
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From 4ee0c1477ed76e523c84d897e1f2ac504f69443d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:00 +0000
Subject: [PATCH 05/45] fix: Int32 and ID32 reject a scanned value they cannot
 hold instead of truncating it

---
 id.go    | 3 +++
 types.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index c46eab7..94f1f53 100644
--- a/id.go
+++ b/id.go
@@ -397,6 +397,9 @@ func (v *ID32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if uint64(uint32(id)) != id {
+		return errors.Errorf("value out of range for ID32: %d", id)
+	}
 	*v = ID32(id)
 	return nil
 }
diff --git a/types.go b/types.go
index 8c9fe86..5bb8265 100644
--- a/types.go
+++ b/types.go
@@ -533,6 +533,9 @@ func (v *Int32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if int64(int32(id)) != id {
+		return errors.Errorf("value out of range for Int32: %d", id)
+	}
 	*v = Int32(id)
 	return nil
 }
-- 
2.43.0


From b43036e045dcbb2e87742d8dc60475bbcbeefc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:13 +0000
Subject: [PATCH 06/45] fix: UUID.Scan reports bytes of a wrong length as an
 error, and accepts the text form

---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 5bb8265..dcf0eb7 100644
--- a/types.go
+++ b/types.go
@@ -372,11 +372,15 @@ func (ns *UUID) Scan(value any) error {
 	}
 
 	var s string
-	var err error
 	switch vid := value.(type) {
 	case []byte:
+		if len(vid) == 36 {
+			// text form, as returned by Postgres driver
+			s = string(vid)
+			break
+		}
 		if len(vid) != 16 {
-			return errors.WithMessagef(err, "failed to parse UUID: %v", vid)
+			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
 		s = fmt.Sprintf("%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X",
 			vid[3], vid[2], vid[1], vid[0], vid[5], vid[4], vid[7], vid[6], vid[8], vid[9], vid[10], vid[11], vid[12], vid[13], vid[14], vid[15])
-- 
2.43.0


From 433d4f2811d18febcfed2c01ea5e91a349cc6b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:50 +0000
Subject: [PATCH 07/45] fix: ID.Set and ID.Reset do not change the copies of
 the ID

---
 id.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/id.go b/id.go
index 94f1f53..2b4461e 100644
--- a/id.go
+++ b/id.go
@@ -36,7 +36,8 @@ func MustID(val string) ID {
 // ParseID returns ID or empty if val is not valid ID
 func ParseID(val string) (ID, error) {
 	var id ID
-	return id, id.Set(val)
+	err := id.Set(val)
+	return id, err
 }
 
 // TryParseID returns ID or empty if val is not valid ID
@@ -121,12 +122,8 @@ func (v ID) UInt64() uint64 {
 
 // Reset the value
 func (v *ID) Reset() {
-	if v.id == nil {
-		v.id = &idptr{}
-	} else {
-		v.id.id = 0
-		v.id.str = ""
-	}
+	// allocate a new value: the current one can be shared with copies of this ID
+	v.id = &idptr{}
 }
 
 // Set the value
@@ -139,11 +136,8 @@ func (v *ID) Set(val string) error {
 	if err != nil || id == 0 {
 		return errors.Errorf("invalid ID: '%s'", val)
 	}
-	if v.id == nil {
-		v.id = &idptr{}
-	}
-	v.id.id = id
-	v.id.str = ""
+	// allocate a new value: the current one can be shared with copies of this ID
+	v.id = &idptr{id: id}
 
 	return nil
 }
-- 
2.43.0


From e8dfbf1abad35042e97b325b59b19d28e7811099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:04 +0000
Subject: [PATCH 08/45] fix: ID.String is safe for concurrent use of an ID and
 its copies

---
 id.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/id.go b/id.go
index 2b4461e..6014a43 100644
--- a/id.go
+++ b/id.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/cockroachdb/errors"
 	"github.com/lib/pq"
@@ -413,6 +414,8 @@ func (v ID32) Value() (driver.Value, error) {
 type idptr struct {
 	id  uint64
 	str string
+
+	lock sync.Mutex // protects str, as copies of an ID share idptr
 }
 
 func (v *idptr) val() uint64 {
@@ -426,6 +429,8 @@ func (v *idptr) String() string {
 	if v == nil {
 		return ""
 	}
+	v.lock.Lock()
+	defer v.lock.Unlock()
 	if v.id != 0 && v.str == "" {
 		v.str = IDString(v.id)
 	}
-- 
2.43.0


From 01c00eb26f92c081660f18a84cb9fa36ab008870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:17 +0000
Subject: [PATCH 09/45] fix: an ID decoded from JSON has the canonical string
 form

---
 id.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 6014a43..c67133f 100644
--- a/id.go
+++ b/id.go
@@ -65,7 +65,7 @@ func (v *ID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return errors.Errorf("expected number value to unmarshal ID: %s", s)
 	}
-	*v = ID{id: &idptr{id: f, str: s}}
+	*v = ID{id: &idptr{id: f, str: IDString(f)}}
 	return nil
 }
 
-- 
2.43.0


From e55de0c82c98217c3309068407ca40291c545ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/45] fix: IDArray.Add returns a list that does not share
 storage with other lists

---
 id.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index c67133f..902f1ba 100644
--- a/id.go
+++ b/id.go
@@ -279,7 +279,8 @@ func (n IDArray) Add(id ID) IDArray {
 			return n
 		}
 	}
-	return append(n, id)
+	// limit the capacity to not share the underlying array with other lists
+	return append(n[:len(n):len(n)], id)
 }
 
 // Concat returns new list
-- 
2.43.0


From ebfddf1ba920e15b04564bc7c7ea92a1d07b26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:59 +0000
Subject: [PATCH 11/45] fix: Time.Scan reports a string that is not a time as
 an error, not as the zero time

---
 time.go | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/time.go b/time.go
index 9566ec6..85e12ae 100644
--- a/time.go
+++ b/time.go
@@ -25,7 +25,11 @@ func (ns *Time) Scan(value any) error {
 	var v sql.NullTime
 
 	if str, ok := value.(string); ok {
-		*ns = ParseTime(str)
+		t, err := parseTime(str)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		*ns = t
 		return nil
 	}
 
@@ -75,24 +79,33 @@ func FromUnixMilli(tm int64) Time {
 
 // ParseTime returns Time from RFC3339 format
 func ParseTime(val string) Time {
+	t, _ := parseTime(val)
+	return t
+}
+
+func parseTime(val string) (Time, error) {
 	if val == "" {
-		return Time{}
+		return Time{}, nil
 	}
 
 	var t time.Time
+	var err error
 	switch len(val) {
 	case len(DefaultTimeFormat):
-		t, _ = time.Parse(DefaultTimeFormat, val)
+		t, err = time.Parse(DefaultTimeFormat, val)
 	case len(time.RFC3339):
-		t, _ = time.Parse(time.RFC3339, val)
+		t, err = time.Parse(time.RFC3339, val)
 	case len(time.DateTime):
-		t, _ = time.Parse(time.DateTime, val)
+		t, err = time.Parse(time.DateTime, val)
 	case len(time.DateOnly):
-		t, _ = time.Parse(time.DateOnly, val)
+		t, err = time.Parse(time.DateOnly, val)
 	default:
-		t, _ = time.Parse(time.RFC3339Nano, val)
+		t, err = time.Parse(time.RFC3339Nano, val)
 	}
-	return Time(t.Truncate(DefaultTrucate).UTC())
+	if err != nil {
+		return Time{}, err
+	}
+	return Time(t.Truncate(DefaultTrucate).UTC()), nil
 }
 
 // UnixMilli returns t as a Unix time, the number of milliseconds elapsed since January 1, 1970 UTC.
-- 
2.43.0


From 8a05578b018e70686a91689b842bf2a5eddbc167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 12/45] fix: Time decoded from JSON is in UTC

---
 time.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/time.go b/time.go
index 85e12ae..1c0a2cf 100644
--- a/time.go
+++ b/time.go
@@ -170,5 +170,10 @@ func (ns *Time) UnmarshalJSON(data []byte) error {
 		*ns = Time{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(data), (*time.Time)(ns)))
+	var t time.Time
+	if err := json.Unmarshal([]byte(data), &t); err != nil {
+		return errors.WithStack(err)
+	}
+	*ns = Time(t.UTC())
+	return nil
 }
-- 
2.43.0


From d9d7397e1daffe8b810b6c94c8ccf6e94d9cd19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:45 +0000
Subject: [PATCH 13/45] fix: QueryParamsBuilder.Reset clears the NULL columns

---
 params.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.go b/params.go
index 24b71b4..3349c0b 100644
--- a/params.go
+++ b/params.go
@@ -100,6 +100,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.nullColumns = nil
 }
 
 // Name returns a hash of the query parameters.
-- 
2.43.0


From 27d64941e190834ea961470c6716c3683be2006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 14/45] fix: QueryParamsBuilder.Name does not reorder the list
 of NULL columns of the caller

---
 params.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 3349c0b..aefa55e 100644
--- a/params.go
+++ b/params.go
@@ -131,8 +131,9 @@ func (b *QueryParamsBuilder) Name() string {
 
 		if len(b.nullColumns) > 0 {
 			h := murmur3.New64()
-			sort.Strings(b.nullColumns)
-			for _, c := range b.nullColumns {
+			cols := append([]string(nil), b.nullColumns...)
+			sort.Strings(cols)
+			for _, c := range cols {
 				h.Write([]byte(c))
 			}
 			n.WriteString("_n")
-- 
2.43.0


From 0b982c8cbfff66d79c32f7d65fd65d2140e7370e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 15/45] fix: QueryParamsBuilder.Name reflects the parameters
 set after a previous call

---
 params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params.go b/params.go
index aefa55e..30c1939 100644
--- a/params.go
+++ b/params.go
@@ -148,6 +148,7 @@ func (b *QueryParamsBuilder) Name() string {
 // SetNullColums sets a list of columns that should be replaced with NULL.
 func (b *QueryParamsBuilder) SetNullColums(nullColumns []string) *QueryParamsBuilder {
 	b.nullColumns = nullColumns
+	b.hash = ""
 	return b
 }
 
@@ -168,6 +169,7 @@ func (b *QueryParamsBuilder) Set(pos uint32, v any) *QueryParamsBuilder {
 	}
 	b.checkPage()
 	b.positions |= 1 << pos
+	b.hash = ""
 	b.args = append(b.args, v)
 	return b
 }
@@ -183,6 +185,7 @@ func (b *QueryParamsBuilder) SetPage(limit, offset uint32) *QueryParamsBuilder {
 	b.checkPage()
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.offset = offset
+	b.hash = ""
 	b.args = append(b.args, b.limit, b.offset)
 	return b
 }
@@ -196,6 +199,7 @@ func (b *QueryParamsBuilder) Page() (limit uint32, offset uint32) {
 func (b *QueryParamsBuilder) SetCursor(limit uint32, pos uint32, cursor any) *QueryParamsBuilder {
 	b.Set(pos, cursor)
 	b.cursor = cursor
+	b.hash = ""
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.args = append(b.args, b.limit)
 	return b
@@ -225,6 +229,7 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 	}
 	b.checkPage()
 	b.positions |= 1 << pos
+	b.hash = ""
 	b.enums = append(b.enums, enumPosition{pos, v})
 	return b
 }
@@ -243,6 +248,7 @@ func (b *QueryParamsBuilder) GetEnum(pos uint32) (int32, bool) {
 // SetFlags sets additional flags for query parameter.
 func (b *QueryParamsBuilder) SetFlags(v ...int32) *QueryParamsBuilder {
 	b.flags = v
+	b.hash = ""
 	return b
 }
 
-- 
2.43.0


From 74a35198e06406c16038d0dc9b77d12df5bd8f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 16/45] fix: BeginTx uses the transaction options of the caller

---
 prov.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prov.go b/prov.go
index 279b4d4..8dd1636 100644
--- a/prov.go
+++ b/prov.go
@@ -82,11 +82,11 @@ func (p *SQLProvider) keepAlive(period time.Duration) {
 // The provided TxOptions is optional and may be nil if defaults should be used.
 // If a non-default isolation level is used that the driver doesn't support,
 // an error will be returned.
-func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider, error) {
+func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provider, error) {
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
-	tx, err := p.conn.BeginTx(ctx, nil)
+	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 764d5a065e86a81dee669eb7c14d5032c26887dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 17/45] fix: a transaction provider has the connection string
 of its parent

---
 prov.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prov.go b/prov.go
index 8dd1636..bd080ff 100644
--- a/prov.go
+++ b/prov.go
@@ -92,11 +92,12 @@ func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provide
 	}
 
 	txProv := &SQLProvider{
-		name:  p.name,
-		conn:  p.conn,
-		db:    tx,
-		idGen: p.idGen,
-		tx:    tx,
+		name:    p.name,
+		conn:    p.conn,
+		connstr: p.connstr,
+		db:      tx,
+		idGen:   p.idGen,
+		tx:      tx,
 	}
 	return txProv, nil
 }
-- 
2.43.0


From 3218a1bdc601e9ee30fec0bb11bd276810e12293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 18/45] fix: keepAlive goroutine stops on Close, and does not
 use the closed connection

---
 prov.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/prov.go b/prov.go
index bd080ff..5cd8eb6 100644
--- a/prov.go
+++ b/prov.go
@@ -21,6 +21,7 @@ type SQLProvider struct {
 	idGen   flake.IDGenerator
 	tx      Tx
 	ticker  *time.Ticker
+	done    chan struct{}
 }
 
 // New creates a Provider instance
@@ -56,19 +57,26 @@ func (p *SQLProvider) Name() string {
 
 func (p *SQLProvider) keepAlive(period time.Duration) {
 	p.ticker = time.NewTicker(period)
-	ch := p.ticker.C
+	p.done = make(chan struct{})
+	// the fields are changed on Close
+	ch, done, conn := p.ticker.C, p.done, p.conn
 
 	// Go function
 	go func() {
 		// Using for loop
-		for range ch {
-			err := p.conn.Ping()
+		for {
+			select {
+			case <-done:
+				logger.KV(xlog.TRACE, "status", "stopped")
+				return
+			case <-ch:
+			}
+			err := conn.Ping()
 			if err != nil {
 				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
 				continue
 			}
 		}
-		logger.KV(xlog.TRACE, "status", "stopped")
 	}()
 }
 
@@ -107,6 +115,7 @@ func (p *SQLProvider) Close() (err error) {
 	if p.ticker != nil {
 		p.ticker.Stop()
 		p.ticker = nil
+		close(p.done)
 	}
 	if p.conn == nil {
 		return nil
-- 
2.43.0


From 24529774398ae1dc518f7097d957005a15b5c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 19/45] fix: Open and NewProvider close the DB handle when they
 fail

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index e9bd61d..150d115 100644
--- a/db.go
+++ b/db.go
@@ -156,6 +156,7 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 
 	err = d.Ping()
 	if err != nil {
+		_ = d.Close()
 		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
 	}
 
@@ -184,11 +185,13 @@ func NewProvider(dataSource, dbName string, idGen flake.IDGenerator, migrateCfg
 
 		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
 		if err != nil {
+			_ = d.Close()
 			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
 		}
 	}
 	p, err := New(provider, d, idGen)
 	if err != nil {
+		_ = d.Close()
 		return nil, errors.WithMessagef(err, "unable to create provider")
 	}
 	p.WithConnectionString(connstr)
-- 
2.43.0


From c4a8a786414e288afc27dfd3aa4fc8b368799d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:48 +0000
Subject: [PATCH 20/45] fix: only ErrNoChange is taken for no change, not any
 migration error with that text

---
 migrate/migrate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index a9d8feb..ace477a 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -4,7 +4,6 @@ import (
 	"database/sql"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/xlog"
@@ -91,7 +90,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if strings.Contains(err.Error(), "no change") {
+		if errors.Is(err, migrate.ErrNoChange) {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From 738f5a9dcb665bb4029b6c02e18c75725b989242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 21/45] fix: flake.LastID reads the last ID under the lock

---
 pkg/flake/flake.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/flake/flake.go b/pkg/flake/flake.go
index 9ffcd6d..3347197 100644
--- a/pkg/flake/flake.go
+++ b/pkg/flake/flake.go
@@ -268,6 +268,8 @@ func FirstID(g IDGenerator) uint64 {
 // LastID returns the last ID generated by the generator.
 func LastID(g IDGenerator) uint64 {
 	if fl, ok := g.(*Flake); ok {
+		fl.mutex.Lock()
+		defer fl.mutex.Unlock()
 		return fl.lastID
 	}
 	return 0
-- 
2.43.0


From 640a2d0ce817e088eef24dd09b2d639d09d07e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 22/45] fix: IDTime of a provider uses the start time of an
 x/flake generator, which NewProvider accepts

---
 prov.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prov.go b/prov.go
index 5cd8eb6..7907035 100644
--- a/prov.go
+++ b/prov.go
@@ -6,6 +6,7 @@ import (
 	"time"
 
 	"github.com/cockroachdb/errors"
+	xflake "github.com/effective-security/x/flake"
 	"github.com/effective-security/xdb/pkg/flake"
 	"github.com/effective-security/xlog"
 )
@@ -150,6 +151,9 @@ func (p *SQLProvider) NextID() ID {
 
 // IDTime returns time when ID was generated
 func (p *SQLProvider) IDTime(id uint64) time.Time {
+	if g, ok := p.idGen.(*xflake.Flake); ok {
+		return xflake.IDTime(g, id)
+	}
 	return flake.IDTime(p.idGen, id)
 }
 
-- 
2.43.0


From 521124856b00b5623702a6f47ea978bc0506439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 23/45] fix: schema and table names are bound to the columns
 query, not spliced into it

---
 schema/postgres.go  | 11 +++++------
 schema/sqlserver.go |  8 +++-----
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index de05444..8388231 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -33,14 +32,14 @@ func (p postgres) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
+	const qry = `
 	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
   	FROM information_schema.columns
- 	WHERE table_schema = '%s'
-   	AND table_name = '%s';
-`, schema, table)
+ 	WHERE table_schema = $1
+   	AND table_name = $2;
+`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, schema, table)
 }
 
 const postgresQueryViews = `
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index efef608..6d1442a 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -41,11 +40,10 @@ func (p sqlserver) QueryTables(ctx context.Context) (*sql.Rows, error) {
 }
 
 func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
-	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=N'%s' AND TABLE_NAME = N'%s'`,
-		schema, table)
+	const qry = `
+	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=@schema AND TABLE_NAME = @table`
 
-	return p.db.QueryContext(ctx, qry)
+	return p.db.QueryContext(ctx, qry, sql.Named("schema", schema), sql.Named("table", table))
 }
 
 const mssqlQueryViews = `
-- 
2.43.0


From 49c1070450369ffb98559d9a26ede9e53ea9e80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:23 +0000
Subject: [PATCH 24/45] fix: schema provider closes the rows, also on an error,
 and before it uses the connection again

---
 schema/provider.go | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 198ba2a..8166122 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -69,6 +69,9 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	tt := Tables{}
 	for rows.Next() {
@@ -86,7 +89,17 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 		}
 
 		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
+		tt = append(tt, t)
+	}
+
+	if rows.Err() != nil {
+		return nil, rows.Err()
+	}
 
+	// the connection of a transaction can't be used while the rows are open
+	_ = rows.Close()
+
+	for _, t := range tt {
 		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
 		if err != nil {
 			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
@@ -112,11 +125,6 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 		}
 
 		r.tables[t.SchemaName] = t
-		tt = append(tt, t)
-	}
-
-	if rows.Err() != nil {
-		return nil, rows.Err()
 	}
 
 	if withDependencies {
@@ -141,6 +149,9 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	tablesMap := map[string]*Table{} // map of Table FQN => table
 
@@ -207,6 +218,9 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	cc := Columns{}
 	for rows.Next() {
@@ -243,6 +257,9 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	var pk *Index
 	cc := Indexes{}
@@ -283,6 +300,9 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	keys := ForeignKeys{}
 	for rows.Next() {
-- 
2.43.0


From 5f1cab09b6208abe3d085b47fce2a597521eb0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:36 +0000
Subject: [PATCH 25/45] fix: ListTables does not panic on an index over a
 column that is not listed

---
 schema/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 8166122..6ec4422 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -117,6 +117,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			for _, cn := range idx.ColumnNames {
 				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
 				col := r.columns[colShemaName]
+				if col == nil {
+					// not a column that is listed for the table
+					continue
+				}
 				col.Indexes = append(col.Indexes, idx)
 				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
 					t.PrimaryKey = col
-- 
2.43.0


From 1e556a34b360578a3633b56f17fc602b4214cb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 26/45] fix: dependencies of the listed tables have the indexes
 and primary key

---
 schema/provider.go | 72 +++++++++++++++++++++++++---------------------
 1 file changed, 39 insertions(+), 33 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 6ec4422..c0958eb 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -100,35 +100,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	_ = rows.Close()
 
 	for _, t := range tt {
-		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+		err = r.readTable(ctx, t)
 		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
-		}
-
-		t.Columns = cc
-
-		ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
-		}
-		t.Indexes = ii
-
-		for _, idx := range ii {
-			for _, cn := range idx.ColumnNames {
-				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
-				col := r.columns[colShemaName]
-				if col == nil {
-					// not a column that is listed for the table
-					continue
-				}
-				col.Indexes = append(col.Indexes, idx)
-				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
-					t.PrimaryKey = col
-				}
-			}
+			return nil, err
 		}
-
-		r.tables[t.SchemaName] = t
 	}
 
 	if withDependencies {
@@ -145,6 +120,40 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	return tt, nil
 }
 
+// readTable reads the columns and indexes of the table, and adds it to the cache
+func (r *SQLServerProvider) readTable(ctx context.Context, t *Table) error {
+	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+	}
+
+	t.Columns = cc
+
+	ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
+	}
+	t.Indexes = ii
+
+	for _, idx := range ii {
+		for _, cn := range idx.ColumnNames {
+			colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
+			col := r.columns[colShemaName]
+			if col == nil {
+				// not a column that is listed for the table
+				continue
+			}
+			col.Indexes = append(col.Indexes, idx)
+			if idx.IsPrimary && len(idx.ColumnNames) == 1 {
+				t.PrimaryKey = col
+			}
+		}
+	}
+
+	r.tables[t.SchemaName] = t
+	return nil
+}
+
 // ListViews returns a list of views in database.
 // schemaName and tableNames are optional parameters to filter,
 // if not provided, then all items are returned
@@ -386,16 +395,13 @@ func (r *SQLServerProvider) discoverTable(ctx context.Context, schema, table str
 		Schema:     schema,
 		SchemaName: fmt.Sprintf("%s.%s", schema, table),
 	}
-	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	err := r.readTable(ctx, t)
 	if err != nil {
-		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+		return err
 	}
 
-	t.Columns = cc
-	r.tables[t.SchemaName] = t
-
 	// traverse columns
-	for _, c := range cc {
+	for _, c := range t.Columns {
 		fk := r.fkeys[c.SchemaName]
 		if fk == nil {
 			continue
-- 
2.43.0


From c18f582da5002af4fcba86628b48112fe2fcbd0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:45 +0000
Subject: [PATCH 27/45] fix: ListTables with dependencies does not return
 tables of previous calls

---
 schema/provider.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index c0958eb..aaa4105 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -99,6 +99,10 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	// the connection of a transaction can't be used while the rows are open
 	_ = rows.Close()
 
+	// the dependencies are of the tables of this call only
+	clear(r.tables)
+	clear(r.columns)
+
 	for _, t := range tt {
 		err = r.readTable(ctx, t)
 		if err != nil {
-- 
2.43.0


From 54becfd215516ccd6f5dc1d59534787a815d812f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 28/45] fix: TableInfo, shared by the generated code, is not
 written by AllColumns

---
 schema/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index e5e0ba1..d4fe58a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -27,8 +27,6 @@ type TableInfo struct {
 
 	// SchemaName is FQN in schema.name format
 	SchemaName string `json:"-" yaml:"-"`
-
-	allColumns string `json:"-" yaml:"-"`
 }
 
 // From starts FROM expression
@@ -76,10 +74,7 @@ func (t *TableInfo) SelectAliased(prefix string, nullColumns map[string]bool) xs
 
 // AllColumns returns list of all columns separated by comma
 func (t *TableInfo) AllColumns() string {
-	if t.allColumns == "" {
-		t.allColumns = strings.Join(t.Columns, ", ")
-	}
-	return t.allColumns
+	return strings.Join(t.Columns, ", ")
 }
 
 // AliasedColumns returns list of columns separated by comma,
-- 
2.43.0


From 6efbce10e88a5d55eb21ba6bb0ee6089d1d55299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 29/45] fix: the goroutine of a notification topic stops when
 the listener is closed

---
 pkg/notifier/listener.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 7740164..172de6a 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -107,7 +107,13 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 						"error", err.Error())
 				}
 				return
-			case n := <-l.listener.Notify:
+			case n, ok := <-l.listener.Notify:
+				if !ok {
+					logger.KV(xlog.INFO,
+						"reason", "listener_closed",
+						"channel", topic)
+					return
+				}
 				if n != nil {
 					callback(parsePayload(n))
 				}
-- 
2.43.0


From e842d04595b046ea53fb71513988e36cd7b81870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:14 +0000
Subject: [PATCH 30/45] fix: generate writes the schemas in order, and to a
 schema file only the tables of the schema

---
 internal/cli/schema/schema.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1a1871c..3037383 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -13,6 +13,7 @@ import (
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/x/configloader"
+	"github.com/effective-security/x/maps"
 	"github.com/effective-security/x/slices"
 	"github.com/effective-security/x/values"
 	"github.com/effective-security/xdb/internal/cli"
@@ -328,10 +329,12 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 	}
 
 	var err error
-	var tableInfos []*schema.TableInfo
-	var tableDefs []*tableDefinition
 
-	for schemaName, tables := range schemas {
+	for _, schemaName := range maps.OrderedKeys(schemas) {
+		tables := schemas[schemaName]
+		var tableInfos []*schema.TableInfo
+		var tableDefs []*tableDefinition
+
 		w := ctx.Writer()
 		buf := &bytes.Buffer{}
 
-- 
2.43.0


From 6b8735d335b27778d6cf96c26be9f0da065b12cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:36 +0000
Subject: [PATCH 31/45] fix: generate does not truncate the output files before
 the code is generated, and reports write errors

---
 internal/cli/schema/schema.go | 67 ++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 37 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 3037383..356b0f3 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -5,6 +5,7 @@ import (
 	"bytes"
 	"fmt"
 	"go/format"
+	"io"
 	"os"
 	"path"
 	"path/filepath"
@@ -335,25 +336,7 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		var tableInfos []*schema.TableInfo
 		var tableDefs []*tableDefinition
 
-		w := ctx.Writer()
 		buf := &bytes.Buffer{}
-
-		if a.OutModel != "" {
-			_ = os.MkdirAll(a.OutModel, 0777)
-			fn := "model.gen.go"
-			if len(schemas) > 1 {
-				fn = schemaName + "_model.gen.go"
-			}
-			fn = filepath.Join(a.OutModel, fn)
-			f, err := os.OpenFile(fn, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-			if err != nil {
-				return err
-			}
-			defer func() {
-				_ = f.Close()
-			}()
-			w = f
-		}
 		modelDef := &tableDefinition{
 			DB:      dbName,
 			Package: modelPkg,
@@ -422,29 +405,19 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format models: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		fn := "model.gen.go"
+		if len(schemas) > 1 {
+			fn = schemaName + "_model.gen.go"
+		}
+		err = writeCode(ctx.Writer(), a.OutModel, fn, code)
+		if err != nil {
+			return err
+		}
 
 		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
 		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
 
 		buf.Reset()
-		w = ctx.Writer()
-		if a.OutSchema != "" {
-			_ = os.MkdirAll(a.OutSchema, 0777)
-			fn := "schema.gen.go"
-			if len(schemas) > 1 {
-				fn = schemaName + "_schema.gen.go"
-			}
-			fn = filepath.Join(a.OutSchema, fn)
-			f, err := os.OpenFile(fn, os.O_CREATE|os.O_TRUNC|os.O_WRONLY, 0666)
-			if err != nil {
-				return err
-			}
-			defer func() {
-				_ = f.Close()
-			}()
-			w = f
-		}
 		td := schemaDefinition{
 			DB:      dbName,
 			Package: schemaPkg,
@@ -469,7 +442,27 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format schema: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		fn = "schema.gen.go"
+		if len(schemas) > 1 {
+			fn = schemaName + "_schema.gen.go"
+		}
+		err = writeCode(ctx.Writer(), a.OutSchema, fn, code)
+		if err != nil {
+			return err
+		}
 	}
 	return nil
 }
+
+// writeCode writes the generated code to a file in the folder, if it is specified, or to w.
+// The file is not touched until the whole code is generated.
+func writeCode(w io.Writer, folder, name string, code []byte) error {
+	if folder == "" {
+		_, err := w.Write(code)
+		return errors.WithStack(err)
+	}
+	if err := os.MkdirAll(folder, 0777); err != nil {
+		return errors.WithStack(err)
+	}
+	return errors.WithStack(os.WriteFile(filepath.Join(folder, name), code, 0666))
+}
-- 
2.43.0


From 39fad959d8212d17795d8e42f603e439b1480ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 32/45] fix: errors of printing are reported

---
 internal/cli/schema/schema.go | 10 ++++++++--
 pkg/print/print.go            |  9 ++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 356b0f3..55015d5 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -54,7 +54,10 @@ func (a *PrintColumnsCmd) Run(ctx *cli.Cli) error {
 		return err
 	}
 
-	_ = ctx.Print(res)
+	err = ctx.Print(res)
+	if err != nil {
+		return err
+	}
 
 	if a.Views {
 		res, err = r.ListViews(ctx.Context(), a.Schema, a.Table)
@@ -62,7 +65,10 @@ func (a *PrintColumnsCmd) Run(ctx *cli.Cli) error {
 			return err
 		}
 		if len(res) > 0 {
-			_ = ctx.Print(res)
+			err = ctx.Print(res)
+			if err != nil {
+				return err
+			}
 		}
 	}
 	return nil
diff --git a/pkg/print/print.go b/pkg/print/print.go
index 68e6b74..50f9e8e 100644
--- a/pkg/print/print.go
+++ b/pkg/print/print.go
@@ -16,9 +16,8 @@ func JSON(w io.Writer, value any) error {
 	if err != nil {
 		return errors.WithMessage(err, "failed to encode")
 	}
-	_, _ = w.Write(json)
-	_, _ = w.Write([]byte{'\n'})
-	return nil
+	_, err = w.Write(append(json, '\n'))
+	return errors.WithStack(err)
 }
 
 // Yaml prints value  to out
@@ -27,8 +26,8 @@ func Yaml(w io.Writer, value any) error {
 	if err != nil {
 		return errors.WithMessage(err, "failed to encode")
 	}
-	_, _ = w.Write(y)
-	return nil
+	_, err = w.Write(y)
+	return errors.WithStack(err)
 }
 
 // Object prints value to out in format
-- 
2.43.0


From 7839aa05b29f72e07f1aff0901b88a1295a93d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:00 +0000
Subject: [PATCH 33/45] fix: the key of a cached statement without a name
 includes the layout of its clauses

---
 xsql/stmt.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 59520d6..413e018 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"database/sql"
 	"reflect"
+	"strconv"
 	"strings"
 
 	"github.com/effective-security/x/values"
@@ -911,7 +912,7 @@ func (q *Stmt) String() string {
 	if q.sql == "" {
 		// Calculate the buffer hash and check for available queries
 		// NOTE: can't use bufToString here as it returns Raw pointer
-		bufStrKey := values.StringsCoalesce(q.name, q.buf.String())
+		bufStrKey := values.StringsCoalesce(q.name, q.cacheKey())
 		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
 		if ok {
 			q.sql = sql
@@ -943,6 +944,20 @@ func (q *Stmt) String() string {
 	return q.sql
 }
 
+// cacheKey returns a key of the statement without a name: the text in the order it was added,
+// followed by the layout of the chunks, which the SQL depends on.
+func (q *Stmt) cacheKey() string {
+	key := append(make([]byte, 0, len(q.buf.B)+16*len(q.chunks)), q.buf.B...)
+	for _, chunk := range q.chunks {
+		key = append(key, 0)
+		for _, v := range []int{int(chunk.pos), chunk.bufLow, chunk.bufHigh, chunk.argLen} {
+			key = strconv.AppendInt(key, int64(v), 10)
+			key = append(key, ',')
+		}
+	}
+	return string(key)
+}
+
 /*
 Args returns the list of arguments to be passed to
 database driver for statement execution.
-- 
2.43.0


From 0e993a508534a3d50f84830238f06d1ab936052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:13 +0000
Subject: [PATCH 34/45] fix: a clone continues at the clause of the original,
 and a new statement does not continue at the one of a closed statement

---
 xsql/pool.go | 1 +
 xsql/stmt.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/xsql/pool.go b/xsql/pool.go
index 98f3bb6..b5751a3 100644
--- a/xsql/pool.go
+++ b/xsql/pool.go
@@ -45,6 +45,7 @@ func reuseStmt(q *Stmt) {
 	q.buf = nil
 	q.sql = ""
 	q.name = ""
+	q.pos = 0
 
 	stmtPool.Put(q)
 }
diff --git a/xsql/stmt.go b/xsql/stmt.go
index 413e018..028ae7a 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1022,6 +1022,8 @@ func (q *Stmt) Clone() Builder {
 	stmt.dest = insertAt(stmt.dest, q.dest, 0)
 	_, _ = stmt.buf.Write(q.buf.B)
 	stmt.sql = q.sql
+	stmt.pos = q.pos
+	stmt.useNewLines = q.useNewLines
 
 	return stmt
 }
-- 
2.43.0


From 4cfc27b56bcb0ba5d605b484b6c52de2e07ee73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:26 +0000
Subject: [PATCH 35/45] fix: SubQuery with an empty prefix keeps the arguments
 of the clause it is added to

---
 xsql/stmt.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 028ae7a..fe8cebd 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -838,6 +838,10 @@ func (q *Stmt) SubQuery(prefix, suffix string, b Builder) Builder {
 	if q.pos == posWhere {
 		delimiter = " AND "
 	}
+	if prefix == "" {
+		// start a new expression
+		prefix = " "
+	}
 	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
 	chunk := &q.chunks[index]
 	// Make sure subquery is not dialect-specific.
-- 
2.43.0


From 6bfef332bcdd274c276d449e8b1ec2119dbaa2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:39 +0000
Subject: [PATCH 36/45] fix: successive Clause calls do not run into the
 position of another clause

---
 xsql/stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index fe8cebd..1112a90 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1278,7 +1278,7 @@ type chunkPos int
 
 const (
 	_        chunkPos = iota
-	posStart chunkPos = 100 * iota
+	posStart chunkPos = 100000 * iota
 	posWith
 	posInsert
 	posInsertFields
-- 
2.43.0


From 08d0cdf6e0968079a737b5a39751867d7d6de918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 37/45] fix: Query closes the rows when the handler panics

---
 xsql/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsql/executor.go b/xsql/executor.go
index edabb59..53b2d8b 100644
--- a/xsql/executor.go
+++ b/xsql/executor.go
@@ -24,6 +24,10 @@ func (q *Stmt) Query(ctx context.Context, db Executor, handler func(rows *sql.Ro
 	if err != nil {
 		return err
 	}
+	// the handler can panic
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	// Iterate through rows of returned dataset
 	for rows.Next() {
-- 
2.43.0


From 9d7e7fbeda71a21360e1df9f836289e1412e8c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:20 +0000
Subject: [PATCH 38/45] fix: UseNewLines of a dialect is safe for concurrent
 use

---
 xsql/dialect.go | 16 +++++++++++-----
 xsql/pool.go    |  2 +-
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/xsql/dialect.go b/xsql/dialect.go
index 262cd71..682ba84 100644
--- a/xsql/dialect.go
+++ b/xsql/dialect.go
@@ -83,16 +83,22 @@ type SQLDialect interface {
 type Dialect struct {
 	provider    string
 	cache       sync.Map
-	useNewLines bool
+	useNewLines atomic.Bool
+}
+
+func newDialect(provider string) SQLDialect {
+	d := &Dialect{provider: provider}
+	d.useNewLines.Store(true)
+	return d
 }
 
 var (
 	// NoDialect is a default statement builder mode.
-	NoDialect = SQLDialect(&Dialect{provider: "default", useNewLines: true})
+	NoDialect = newDialect("default")
 	// Postgres mode is to be used to automatically replace ? placeholders with $1, $2...
-	Postgres = SQLDialect(&Dialect{provider: "postgres", useNewLines: true})
+	Postgres = newDialect("postgres")
 
-	SQLServer = SQLDialect(&Dialect{provider: "sqlserver", useNewLines: true})
+	SQLServer = newDialect("sqlserver")
 )
 
 var defaultDialect atomic.Value // *SQLDialect
@@ -115,7 +121,7 @@ func SetDialect(newDefaultDialect SQLDialect) {
 
 // UseNewLines specifies an option to add new lines for each clause
 func (b *Dialect) UseNewLines(op bool) {
-	b.useNewLines = op
+	b.useNewLines.Store(op)
 }
 
 // Provider returns the name of the SQL dialect.
diff --git a/xsql/pool.go b/xsql/pool.go
index b5751a3..6a41bff 100644
--- a/xsql/pool.go
+++ b/xsql/pool.go
@@ -22,7 +22,7 @@ func (b *Dialect) getStmt() *Stmt {
 	stmt.buf = getBuffer()
 	stmt.name = ""
 	stmt.sql = ""
-	stmt.useNewLines = b.useNewLines
+	stmt.useNewLines = b.useNewLines.Load()
 	return stmt
 }
 
-- 
2.43.0


From 6264f093e5bd9289b82498123137aacc19b6a7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 39/45] fix: Int64 and Int32 reject a scanned unsigned value
 they cannot hold instead of a negative one

---
 types.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/types.go b/types.go
index dcf0eb7..24893a0 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -451,12 +452,18 @@ func (v *Int64) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %d", vid)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if uint64(vid) > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int64: %d", vid)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
@@ -526,12 +533,18 @@ func (v *Int32) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int32: %d", vid)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if uint64(vid) > math.MaxInt64 {
+			return errors.Errorf("value out of range for Int32: %d", vid)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
-- 
2.43.0


From 94e00056004aeed5e19ad114f57ebed3a104ac1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 40/45] fix: columns without a limit of length (varchar(max))
 are not listed with the length 4294967295

---
 schema/provider.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/schema/provider.go b/schema/provider.go
index aaa4105..97ac01d 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -432,7 +432,8 @@ func columnName(s string) string {
 }
 
 func maxLength(v *int) uint32 {
-	if v == nil {
+	if v == nil || *v < 0 {
+		// not limited: SQL Server reports -1 for varchar(max)
 		return 0
 	}
 	return uint32(*v)
-- 
2.43.0


From 8558539ba1cc5ceffc1806e061a5117924e0431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:08 +0000
Subject: [PATCH 41/45] fix: tinyint of SQL Server, which is 0 to 255, is
 generated as uint8

---
 internal/cli/schema/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cli/schema/types.go b/internal/cli/schema/types.go
index 3ace554..c01f856 100644
--- a/internal/cli/schema/types.go
+++ b/internal/cli/schema/types.go
@@ -32,7 +32,7 @@ var typeByColumnType = map[string]string{
 	"int":      "int32",
 	"int2":     "int16",
 	"smallint": "int16",
-	"tinyint":  "int8",
+	"tinyint":  "uint8",
 
 	"decimal": "float64",
 	"numeric": "float64",
-- 
2.43.0


From 176de43581df8de1ff4eb02de37a5bc1d2913b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:02 +0000
Subject: [PATCH 42/45] fix: the dependencies of tables are not followed over
 foreign keys that no longer exist

---
 schema/provider.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 97ac01d..4081098 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -360,6 +360,8 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 
 // discover will DFS on the graph and update internal cache with all dependencies
 func (r *SQLServerProvider) discover(ctx context.Context) (Tables, error) {
+	// the keys that were listed before may be gone
+	clear(r.fkeys)
 	_, err := r.ListForeignKeys(ctx, nil, nil)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 0c9877d510f5596631af08716662a53a0c0c97f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:09 +0000
Subject: [PATCH 43/45] fix: Open with a database name opens this database,
 also if the connection string has another one or no parameters

---
 db.go | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/db.go b/db.go
index 150d115..47cd98f 100644
--- a/db.go
+++ b/db.go
@@ -132,17 +132,9 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	}
 
 	if database != "" {
-		switch source.Driver {
-		case "sqlserver":
-			ds = ds + "&database=" + database
-		case "postgres":
-			if strings.Contains(ds, "host=") {
-				ds = ds + " dbname=" + database
-			} else {
-				ds = ds + "&dbname=" + database
-			}
-		default:
-			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
+		ds, err = withDatabase(ds, source.Driver, database)
+		if err != nil {
+			return nil, source.Driver, ds, err
 		}
 	}
 
@@ -163,6 +155,28 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	return d, source.Driver, ds, nil
 }
 
+// withDatabase returns the connection string of the driver,
+// with its database replaced
+func withDatabase(dataSource, driver, database string) (string, error) {
+	u, err := url.Parse(dataSource)
+	if err != nil {
+		return dataSource, errors.WithMessagef(err, "failed to parse DB connection string")
+	}
+	q := u.Query()
+	switch driver {
+	case "sqlserver":
+		// the path is the name of the instance
+		q.Set("database", database)
+	case "postgres":
+		u.Path, u.RawPath = "/", ""
+		q.Set("dbname", database)
+	default:
+		return dataSource, errors.Errorf("unsuppoprted driver %q", driver)
+	}
+	u.RawQuery = q.Encode()
+	return u.String(), nil
+}
+
 // MigrationConfig defines migration configuration
 type MigrationConfig struct {
 	Source         string
-- 
2.43.0


From 4ca657f58807f3429ddc75bf939cfaaabffbceb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:42:53 +0000
Subject: [PATCH 44/45] fix: null in JSON decodes to zero for ID, ID32, Int64,
 Int32 and Float instead of failing

---
 id.go    | 4 ++--
 types.go | 6 +++---
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/id.go b/id.go
index 902f1ba..77be0d7 100644
--- a/id.go
+++ b/id.go
@@ -56,7 +56,7 @@ func (v ID) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *ID) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "" || s == "0" {
+	if s == "" || s == "0" || s == "null" {
 		*v = NewID(0)
 		return nil
 	}
@@ -355,7 +355,7 @@ func (v ID32) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *ID32) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "" || s == "0" || s == "NULL" {
+	if s == "" || s == "0" || s == "NULL" || s == "null" {
 		*v = 0
 		return nil
 	}
diff --git a/types.go b/types.go
index 24893a0..f5dafce 100644
--- a/types.go
+++ b/types.go
@@ -414,7 +414,7 @@ func (v Int64) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *Int64) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "" || s == "0" || s == "NULL" {
+	if s == "" || s == "0" || s == "NULL" || s == "null" {
 		*v = 0
 		return nil
 	}
@@ -496,7 +496,7 @@ func (v Int32) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *Int32) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "" || s == "0" || s == "NULL" {
+	if s == "" || s == "0" || s == "NULL" || s == "null" {
 		*v = 0
 		return nil
 	}
@@ -580,7 +580,7 @@ func (v Float) MarshalJSON() ([]byte, error) {
 // UnmarshalJSON implements the json.Unmarshaler interface.
 func (v *Float) UnmarshalJSON(data []byte) error {
 	s := strings.Trim(string(data), "\"")
-	if s == "" || s == "0" || s == "NULL" {
+	if s == "" || s == "0" || s == "NULL" || s == "null" {
 		*v = 0
 		return nil
 	}
-- 
2.43.0


From 12c8bfacc78d54c109c37b81e9b8b5ca3cc4f259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:22:04 +0000
Subject: [PATCH 45/45] fix: a table whose singular is empty ("s") has a name
 in the generated code, and does not panic

---
 internal/cli/schema/schema.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 55015d5..bcfdbbf 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -210,8 +210,16 @@ func packageName(folder string) string {
 	return f
 }
 
+// singular returns the singular of the name, or the name if there is none
+func singular(name string) string {
+	if s := pluralizeClient.Singular(name); s != "" {
+		return s
+	}
+	return name
+}
+
 func goName(s string) string {
-	if s[0] == '_' {
+	if strings.HasPrefix(s, "_") {
 		a := []rune(s)
 		a[0] = 'X'
 		s = string(a)
@@ -225,7 +233,7 @@ func tableStructName(t *schema.Table) string {
 		return res + "Table"
 	}
 
-	return goName(pluralizeClient.Singular(name)) + "Table"
+	return goName(singular(name)) + "Table"
 }
 
 func tableInfoStructName(t *schema.TableInfo) string {
@@ -234,7 +242,7 @@ func tableInfoStructName(t *schema.TableInfo) string {
 		return res + "TableInfo"
 	}
 
-	return goName(pluralizeClient.Singular(name)) + "TableInfo"
+	return goName(singular(name)) + "TableInfo"
 }
 
 func columnStructName(c *schema.Column) string {
@@ -358,7 +366,7 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 
 		sName := strcase.ToGoPascal(schemaName)
 		for _, t := range tables {
-			structName := strcase.ToGoPascal(pluralizeClient.Singular(t.Name))
+			structName := strcase.ToGoPascal(singular(t.Name))
 			if a.StructSuffix != "" {
 				structName += strcase.ToGoPascal(a.StructSuffix)
 			}
-- 
2.43.0

