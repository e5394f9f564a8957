From 87a6863ff44cab786e1f6dcfb9a105fe6475fc44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:26 +0000
Subject: [PATCH 01/61] fix: SubQuery with an empty prefix or in a HAVING
 clause

---
 xsql/stmt.go | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 59520d6..cfb3ec7 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -834,19 +834,15 @@ Do not reuse it afterwards.
 func (q *Stmt) SubQuery(prefix, suffix string, b Builder) Builder {
 	query := b.(*Stmt)
 	delimiter := ", "
-	if q.pos == posWhere {
+	if q.pos == posWhere || q.pos == posHaving {
 		delimiter = " AND "
 	}
-	index := q.addChunk(q.pos, "", prefix, query.args, delimiter)
-	chunk := &q.chunks[index]
 	// Make sure subquery is not dialect-specific.
 	if query.dialect != NoDialect {
 		query.dialect = NoDialect
 		query.Invalidate()
 	}
-	q.WriteString(query.String())
-	q.WriteString(suffix)
-	chunk.bufHigh = q.buf.Len()
+	q.addChunk(q.pos, "", prefix+query.String()+suffix, query.args, delimiter)
 	// Close the subquery
 	query.Close()
 
-- 
2.43.0


From 7bad75b22ec1cef3cf5dfc601bed2848243d067e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 02/61] fix: leave room for many raw clauses and unions between
 clause positions

---
 xsql/stmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index cfb3ec7..28510b5 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1253,7 +1253,7 @@ type chunkPos int
 
 const (
 	_        chunkPos = iota
-	posStart chunkPos = 100 * iota
+	posStart chunkPos = 1000000 * iota
 	posWith
 	posInsert
 	posInsertFields
-- 
2.43.0


From 1d47962b8eb3922ab66195f5f663198318e5232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:30 +0000
Subject: [PATCH 03/61] fix: a cloned statement continues at the clause of the
 original

---
 xsql/stmt.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 28510b5..e9f42b2 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1003,6 +1003,8 @@ func (q *Stmt) Clone() Builder {
 	stmt.dest = insertAt(stmt.dest, q.dest, 0)
 	_, _ = stmt.buf.Write(q.buf.B)
 	stmt.sql = q.sql
+	stmt.pos = q.pos
+	stmt.useNewLines = q.useNewLines
 
 	return stmt
 }
-- 
2.43.0


From 94e41b13322289e187686a55ff8caa6ffbb89785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:33 +0000
Subject: [PATCH 04/61] fix: SetName on a rendered statement caches it under
 the name

---
 xsql/stmt.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index e9f42b2..a192c38 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -500,6 +500,7 @@ func (q *Stmt) Name() string {
 // SetName sets the name of the statement
 func (q *Stmt) SetName(name string) Builder {
 	q.name = name
+	q.Invalidate()
 	return q
 }
 
-- 
2.43.0


From 535344d344298ea21d8acc6c729fdb7cb73a82bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 05/61] fix: separate values of a bulk insert row set by
 separate calls

---
 xsql/stmt.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index a192c38..4cafc4a 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1189,7 +1189,7 @@ loop:
 	if !first {
 		q.addChunk(posValues, "", " ", nil, " ), (")
 	}
-	return newRow{
+	return &newRow{
 		Stmt:  q,
 		first: first,
 	}
@@ -1214,7 +1214,7 @@ Use generic Clause and Expr methods instead:
 
 	q.Clause("ON CONFLICT DO UPDATE SET").Expr("column_name = ?", value)
 */
-func (row newRow) Set(field string, value any) Row {
+func (row *newRow) Set(field string, value any) Row {
 	return row.SetExpr(field, "?", value)
 }
 
@@ -1224,7 +1224,7 @@ SetExpr is an extended version of Set method.
 	q.SetExpr("field", "field + 1")
 	q.SetExpr("field", "? + ?", 31, 11)
 */
-func (row newRow) SetExpr(field, expr string, args ...any) Row {
+func (row *newRow) SetExpr(field, expr string, args ...any) Row {
 	q := row.Stmt
 
 	if row.first {
@@ -1237,12 +1237,9 @@ func (row newRow) SetExpr(field, expr string, args ...any) Row {
 		}
 		q.addChunk(posValues, "", expr, args, sep)
 	}
+	row.notEmpty = true
 
-	return newRow{
-		Stmt:     row.Stmt,
-		first:    row.first,
-		notEmpty: true,
-	}
+	return row
 }
 
 var (
-- 
2.43.0


From da41fc0e4b1eeb26b32dff6c0c6ca9c5dd99c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:37 +0000
Subject: [PATCH 06/61] fix: close the cursor of a query when its handler
 panics

---
 xsql/executor.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xsql/executor.go b/xsql/executor.go
index edabb59..0643876 100644
--- a/xsql/executor.go
+++ b/xsql/executor.go
@@ -24,6 +24,10 @@ func (q *Stmt) Query(ctx context.Context, db Executor, handler func(rows *sql.Ro
 	if err != nil {
 		return err
 	}
+	// Do not leave the cursor open if a handler panics
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	// Iterate through rows of returned dataset
 	for rows.Next() {
-- 
2.43.0


From df6e69e277c2bdbf7538c226a7f225c3502e0d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:39 +0000
Subject: [PATCH 07/61] fix: unnamed statements with different clauses shared a
 cache entry

---
 xsql/stmt.go | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 4cafc4a..41fc8f7 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -4,9 +4,9 @@ import (
 	"context"
 	"database/sql"
 	"reflect"
+	"strconv"
 	"strings"
 
-	"github.com/effective-security/x/values"
 	"github.com/valyala/bytebufferpool"
 )
 
@@ -903,12 +903,39 @@ func (q *Stmt) Clause(expr string, args ...any) Builder {
 	return q
 }
 
+// cacheKey returns the key of an unnamed statement in the query cache.
+// The layout of the chunks is a part of the key: the same buffer
+// is rendered differently when it is divided into other chunks.
+func (q *Stmt) cacheKey() string {
+	key := strings.Builder{}
+	pos := chunkPos(0)
+	for _, chunk := range q.chunks {
+		// No name starts with these
+		if chunk.pos > pos {
+			key.WriteByte(0)
+		} else {
+			key.WriteByte(1)
+		}
+		if chunk.argLen > 0 {
+			key.WriteByte('?')
+		}
+		key.WriteString(strconv.Itoa(chunk.bufHigh - chunk.bufLow))
+		key.WriteByte(':')
+		key.Write(q.buf.B[chunk.bufLow:chunk.bufHigh])
+		pos = chunk.pos
+	}
+	return key.String()
+}
+
 // String method builds and returns an SQL statement.
 func (q *Stmt) String() string {
 	if q.sql == "" {
 		// Calculate the buffer hash and check for available queries
 		// NOTE: can't use bufToString here as it returns Raw pointer
-		bufStrKey := values.StringsCoalesce(q.name, q.buf.String())
+		bufStrKey := q.name
+		if bufStrKey == "" {
+			bufStrKey = q.cacheKey()
+		}
 		sql, ok := q.dialect.GetCachedQuery(bufStrKey)
 		if ok {
 			q.sql = sql
-- 
2.43.0


From 5027fd24dacd59c94e5546f77a47c6b29b29399c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:41 +0000
Subject: [PATCH 08/61] fix: unescape question marks in Postgres clauses
 without arguments

---
 xsql/stmt.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 41fc8f7..52d7bc1 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1,6 +1,7 @@
 package xsql
 
 import (
+	"bytes"
 	"context"
 	"database/sql"
 	"reflect"
@@ -951,10 +952,13 @@ func (q *Stmt) String() string {
 					buf.Write(space)
 				}
 				s := q.buf.B[chunk.bufLow:chunk.bufHigh]
-				if chunk.argLen > 0 && q.dialect.Provider() == "postgres" {
-					argNo, _ = writePg(argNo, s, &buf)
-				} else {
+				switch {
+				case q.dialect.Provider() != "postgres":
 					buf.Write(s)
+				case chunk.argLen > 0:
+					argNo, _ = writePg(argNo, s, &buf)
+				default:
+					buf.Write(bytes.ReplaceAll(s, escapedPlaceholder, placeholder))
 				}
 				pos = chunk.pos
 			}
@@ -1274,6 +1278,8 @@ var (
 	placeholder      = []byte{'?'}
 	placeholderComma = []byte{'?', ','}
 	joinOn           = []byte{' ', 'O', 'N', ' ', '('}
+
+	escapedPlaceholder = []byte{'\\', '?'}
 )
 
 type chunkPos int
-- 
2.43.0


From 27d5ac983dd28762791d661a3362018eb3c6e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:37 +0000
Subject: [PATCH 09/61] fix: a list query reports an error that ended the
 iteration

---
 query.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/query.go b/query.go
index 23a870c..6a4cddc 100644
--- a/query.go
+++ b/query.go
@@ -49,6 +49,9 @@ func ExecuteListQuery[T any, TPointer RowPointer[T]](ctx context.Context, sql DB
 		}
 		list = append(list, m)
 	}
+	if err = rows.Err(); err != nil {
+		return nil, errors.WithStack(err)
+	}
 	return list, nil
 }
 
-- 
2.43.0


From 431565a747ad5ba140194bddafd8ba0d5f350217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:40 +0000
Subject: [PATCH 10/61] fix: a query without a limit has no next page

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 6a4cddc..0853ec4 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func ExecuteQueryWithPagination[T any, TPointer RowPointer[T]](ctx context.Conte
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 	nextOffset := values.Select(hasNextPage, offset+count, 0)
 
 	res.SetResult(list, hasNextPage, nextOffset)
@@ -126,7 +126,7 @@ func ExecuteQueryWithCursor[T any, TPointer RowPointer[T]](ctx context.Context,
 	}
 
 	count := uint32(len(list))
-	hasNextPage := count >= limit
+	hasNextPage := limit > 0 && count >= limit
 
 	res.SetResultWithCursor(list, hasNextPage, cursor)
 
-- 
2.43.0


From 3dfef66905cb725cacf083a16e6b819b121a27e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:41 +0000
Subject: [PATCH 11/61] fix: keep 64-bit integers when decoding a cursor

---
 query.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/query.go b/query.go
index 0853ec4..0013331 100644
--- a/query.go
+++ b/query.go
@@ -4,6 +4,8 @@ import (
 	"context"
 	"encoding/base64"
 	"encoding/json"
+	"math"
+	"strconv"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/x/values"
@@ -167,5 +169,22 @@ func DecodeCursor(cursor string) (values.MapAny, error) {
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
 	}
+	// Get the integers that do not fit in float64
+	var raw map[string]json.RawMessage
+	err = json.Unmarshal(js, &raw)
+	if err != nil {
+		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
+	}
+	for k, v := range m {
+		f, ok := v.(float64)
+		if !ok || math.Abs(f) < 1<<53 {
+			continue
+		}
+		if i, err := strconv.ParseInt(string(raw[k]), 10, 64); err == nil {
+			m[k] = i
+		} else if u, err := strconv.ParseUint(string(raw[k]), 10, 64); err == nil {
+			m[k] = u
+		}
+	}
 	return m, nil
 }
-- 
2.43.0


From 81b0fc861f11430aacc42b06afd1d7b0405e797d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 12/61] fix: reset the null columns of query parameters

---
 params.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/params.go b/params.go
index 24b71b4..3349c0b 100644
--- a/params.go
+++ b/params.go
@@ -100,6 +100,7 @@ func (b *QueryParamsBuilder) Reset() {
 	b.limit = 0
 	b.offset = 0
 	b.cursor = nil
+	b.nullColumns = nil
 }
 
 // Name returns a hash of the query parameters.
-- 
2.43.0


From 118ce1374a412471cccb2882a53e27c7853ec6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:46 +0000
Subject: [PATCH 13/61] fix: do not reorder the null columns when the name is
 requested

---
 params.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/params.go b/params.go
index 3349c0b..2d5a202 100644
--- a/params.go
+++ b/params.go
@@ -131,8 +131,10 @@ func (b *QueryParamsBuilder) Name() string {
 
 		if len(b.nullColumns) > 0 {
 			h := murmur3.New64()
-			sort.Strings(b.nullColumns)
-			for _, c := range b.nullColumns {
+			// the list belongs to the caller
+			nullColumns := append([]string{}, b.nullColumns...)
+			sort.Strings(nullColumns)
+			for _, c := range nullColumns {
 				h.Write([]byte(c))
 			}
 			n.WriteString("_n")
-- 
2.43.0


From 431075aa65b48e82cb3d636b51beb291fa0a6916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:48 +0000
Subject: [PATCH 14/61] fix: changing query parameters changes their name after
 it was requested

---
 params.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/params.go b/params.go
index 2d5a202..818a097 100644
--- a/params.go
+++ b/params.go
@@ -148,6 +148,7 @@ func (b *QueryParamsBuilder) Name() string {
 
 // SetNullColums sets a list of columns that should be replaced with NULL.
 func (b *QueryParamsBuilder) SetNullColums(nullColumns []string) *QueryParamsBuilder {
+	b.hash = ""
 	b.nullColumns = nullColumns
 	return b
 }
@@ -168,6 +169,7 @@ func (b *QueryParamsBuilder) Set(pos uint32, v any) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.args = append(b.args, v)
 	return b
@@ -182,6 +184,7 @@ func (b *QueryParamsBuilder) checkPage() {
 // SetPage sets the limit for pagination, and adds it to the list of arguments.
 func (b *QueryParamsBuilder) SetPage(limit, offset uint32) *QueryParamsBuilder {
 	b.checkPage()
+	b.hash = ""
 	b.limit = values.NumbersCoalesce(limit, DefaultPageSize)
 	b.offset = offset
 	b.args = append(b.args, b.limit, b.offset)
@@ -225,6 +228,7 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 		panic("enum position is out of range")
 	}
 	b.checkPage()
+	b.hash = ""
 	b.positions |= 1 << pos
 	b.enums = append(b.enums, enumPosition{pos, v})
 	return b
@@ -243,6 +247,7 @@ func (b *QueryParamsBuilder) GetEnum(pos uint32) (int32, bool) {
 
 // SetFlags sets additional flags for query parameter.
 func (b *QueryParamsBuilder) SetFlags(v ...int32) *QueryParamsBuilder {
+	b.hash = ""
 	b.flags = v
 	return b
 }
-- 
2.43.0


From d927af4e8497062a5f3fdf2937f39c1bf8ac9a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:50 +0000
Subject: [PATCH 15/61] fix: setting an enum query parameter again replaces its
 value

---
 params.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/params.go b/params.go
index 818a097..581fc85 100644
--- a/params.go
+++ b/params.go
@@ -230,6 +230,12 @@ func (b *QueryParamsBuilder) SetEnum(pos uint32, v int32) *QueryParamsBuilder {
 	b.checkPage()
 	b.hash = ""
 	b.positions |= 1 << pos
+	for i := range b.enums {
+		if b.enums[i].position == pos {
+			b.enums[i].value = v
+			return b
+		}
+	}
 	b.enums = append(b.enums, enumPosition{pos, v})
 	return b
 }
-- 
2.43.0


From 754d8367ae5189a6eca3e6da54c0013019cd541d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:31 +0000
Subject: [PATCH 16/61] fix: stop the keep-alive goroutine when the provider is
 closed

---
 prov.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prov.go b/prov.go
index 279b4d4..14e2ff4 100644
--- a/prov.go
+++ b/prov.go
@@ -21,6 +21,7 @@ type SQLProvider struct {
 	idGen   flake.IDGenerator
 	tx      Tx
 	ticker  *time.Ticker
+	done    chan struct{} // stops the keep-alive
 }
 
 // New creates a Provider instance
@@ -56,19 +57,25 @@ func (p *SQLProvider) Name() string {
 
 func (p *SQLProvider) keepAlive(period time.Duration) {
 	p.ticker = time.NewTicker(period)
-	ch := p.ticker.C
+	p.done = make(chan struct{})
+	ch, done, conn := p.ticker.C, p.done, p.conn
 
 	// Go function
 	go func() {
 		// Using for loop
-		for range ch {
-			err := p.conn.Ping()
+		for {
+			select {
+			case <-done:
+				logger.KV(xlog.TRACE, "status", "stopped")
+				return
+			case <-ch:
+			}
+			err := conn.Ping()
 			if err != nil {
 				logger.KV(xlog.ERROR, "reason", "ping", "err", err.Error())
 				continue
 			}
 		}
-		logger.KV(xlog.TRACE, "status", "stopped")
 	}()
 }
 
@@ -106,6 +113,7 @@ func (p *SQLProvider) Close() (err error) {
 	if p.ticker != nil {
 		p.ticker.Stop()
 		p.ticker = nil
+		close(p.done)
 	}
 	if p.conn == nil {
 		return nil
-- 
2.43.0


From 27ea33a2253008aced0eb4d892701b460c2bb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:33 +0000
Subject: [PATCH 17/61] fix: beginning a transaction on a closed provider is an
 error, not a panic

---
 prov.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prov.go b/prov.go
index 14e2ff4..0f7007c 100644
--- a/prov.go
+++ b/prov.go
@@ -93,6 +93,9 @@ func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider,
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
+	if p.conn == nil {
+		return nil, errors.New("connection is closed")
+	}
 	tx, err := p.conn.BeginTx(ctx, nil)
 	if err != nil {
 		return nil, errors.WithStack(err)
-- 
2.43.0


From 33aac46166ed792eb89592e26a577c06fe59239d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:35 +0000
Subject: [PATCH 18/61] fix: begin a transaction with the options given

---
 prov.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prov.go b/prov.go
index 0f7007c..7f20c35 100644
--- a/prov.go
+++ b/prov.go
@@ -89,14 +89,14 @@ func (p *SQLProvider) keepAlive(period time.Duration) {
 // The provided TxOptions is optional and may be nil if defaults should be used.
 // If a non-default isolation level is used that the driver doesn't support,
 // an error will be returned.
-func (p *SQLProvider) BeginTx(ctx context.Context, _ *sql.TxOptions) (Provider, error) {
+func (p *SQLProvider) BeginTx(ctx context.Context, opts *sql.TxOptions) (Provider, error) {
 	if p.tx != nil {
 		return nil, errors.New("transaction already started")
 	}
 	if p.conn == nil {
 		return nil, errors.New("connection is closed")
 	}
-	tx, err := p.conn.BeginTx(ctx, nil)
+	tx, err := p.conn.BeginTx(ctx, opts)
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
-- 
2.43.0


From 79ca14ce5eae359162c4710dd812324ea778b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 19/61] fix: connect to the requested database whatever the
 data source URL contains

---
 db.go | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/db.go b/db.go
index e9bd61d..548b353 100644
--- a/db.go
+++ b/db.go
@@ -134,16 +134,15 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	if database != "" {
 		switch source.Driver {
 		case "sqlserver":
-			ds = ds + "&database=" + database
+			ds, err = withDatabase(ds, "database", database)
 		case "postgres":
-			if strings.Contains(ds, "host=") {
-				ds = ds + " dbname=" + database
-			} else {
-				ds = ds + "&dbname=" + database
-			}
+			ds, err = withDatabase(ds, "dbname", database)
 		default:
 			return nil, source.Driver, ds, errors.Errorf("unsuppoprted driver %q", source.Driver)
 		}
+		if err != nil {
+			return nil, source.Driver, ds, err
+		}
 	}
 
 	d, err := sql.Open(source.Driver, ds)
@@ -162,6 +161,23 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 	return d, source.Driver, ds, nil
 }
 
+// withDatabase returns the URL with the database in the given parameter,
+// which replaces the database in the URL, if any.
+func withDatabase(ds, param, database string) (string, error) {
+	u, err := url.Parse(ds)
+	if err != nil {
+		return ds, errors.WithMessagef(err, "failed to parse DB connection string")
+	}
+	if u.Scheme == "postgres" {
+		// the path is a database
+		u.Path, u.RawPath = "", ""
+	}
+	q := u.Query()
+	q.Set(param, database)
+	u.RawQuery = q.Encode()
+	return u.String(), nil
+}
+
 // MigrationConfig defines migration configuration
 type MigrationConfig struct {
 	Source         string
-- 
2.43.0


From 9095fa1ef8049afa091d55876ff9d32c9c7a1404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 20/61] fix: close the database when it can not be reached or
 migrated

---
 db.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/db.go b/db.go
index 548b353..1bad282 100644
--- a/db.go
+++ b/db.go
@@ -155,6 +155,7 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 
 	err = d.Ping()
 	if err != nil {
+		_ = d.Close()
 		return nil, source.Driver, ds, errors.WithMessagef(err, "unable to ping DB")
 	}
 
@@ -200,6 +201,7 @@ func NewProvider(dataSource, dbName string, idGen flake.IDGenerator, migrateCfg
 
 		err = migrate.Migrate(provider, dbName, migrationsDir, migrateCfg.ForceVersion, migrateCfg.MigrateVersion, d)
 		if err != nil {
+			_ = d.Close()
 			return nil, errors.WithMessagef(err, "unable to migrate Orgs DB")
 		}
 	}
-- 
2.43.0


From ec8ce5dd3d3b056b7527edaac7bf7a6184d06448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:40 +0000
Subject: [PATCH 21/61] fix: report the database in the path of a Postgres URL

---
 db.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/db.go b/db.go
index 1bad282..3951383 100644
--- a/db.go
+++ b/db.go
@@ -250,6 +250,9 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	if pwd, ok := u.User.Password(); ok {
 		s.Password = pwd
 	}
+	if s.Database == "" && s.Driver == "postgres" {
+		s.Database = strings.TrimPrefix(u.Path, "/")
+	}
 	for k := range q {
 		s.Params[k] = q.Get(k)
 	}
-- 
2.43.0


From f92ea0ca77f93b707a8b74acbee01df22c3c64b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:47 +0000
Subject: [PATCH 22/61] fix: changing an ID does not change its copies

---
 id.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/id.go b/id.go
index a504b7d..9a09f07 100644
--- a/id.go
+++ b/id.go
@@ -121,12 +121,8 @@ func (v ID) UInt64() uint64 {
 
 // Reset the value
 func (v *ID) Reset() {
-	if v.id == nil {
-		v.id = &idptr{}
-	} else {
-		v.id.id = 0
-		v.id.str = ""
-	}
+	// copies of the ID share the pointer, do not change the value behind it
+	v.id = &idptr{}
 }
 
 // Set the value
@@ -139,11 +135,8 @@ func (v *ID) Set(val string) error {
 	if err != nil || id == 0 {
 		return errors.Errorf("invalid ID: '%s'", val)
 	}
-	if v.id == nil {
-		v.id = &idptr{}
-	}
-	v.id.id = id
-	v.id.str = ""
+	// copies of the ID share the pointer, do not change the value behind it
+	v.id = &idptr{id: id}
 
 	return nil
 }
-- 
2.43.0


From b8bfbdcff9f1fe91a8268155f6dabb304f8bff7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:49 +0000
Subject: [PATCH 23/61] fix: reading the text of an ID from several goroutines
 is not a race

---
 id.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id.go b/id.go
index 9a09f07..0ebe6aa 100644
--- a/id.go
+++ b/id.go
@@ -5,6 +5,7 @@ import (
 	"sort"
 	"strconv"
 	"strings"
+	"sync"
 
 	"github.com/cockroachdb/errors"
 	"github.com/lib/pq"
@@ -407,6 +408,7 @@ func (v ID32) Value() (driver.Value, error) {
 type idptr struct {
 	id  uint64
 	str string
+	mu  sync.Mutex // guards str
 }
 
 func (v *idptr) val() uint64 {
@@ -420,6 +422,8 @@ func (v *idptr) String() string {
 	if v == nil {
 		return ""
 	}
+	v.mu.Lock()
+	defer v.mu.Unlock()
 	if v.id != 0 && v.str == "" {
 		v.str = IDString(v.id)
 	}
-- 
2.43.0


From 257efb7d2160e1607e7583d8b3fa0ec2a2439025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:51 +0000
Subject: [PATCH 24/61] fix: an ID decoded from JSON with leading zeros has the
 text of its number

---
 id.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index 0ebe6aa..fd9f8b7 100644
--- a/id.go
+++ b/id.go
@@ -64,7 +64,11 @@ func (v *ID) UnmarshalJSON(data []byte) error {
 	if err != nil {
 		return errors.Errorf("expected number value to unmarshal ID: %s", s)
 	}
-	*v = ID{id: &idptr{id: f, str: s}}
+	if f == 0 {
+		*v = NewID(0)
+		return nil
+	}
+	*v = ID{id: &idptr{id: f, str: IDString(f)}}
 	return nil
 }
 
-- 
2.43.0


From 9e082ff8958ba96b4c20b2ba07ac1489c3bf93a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:53 +0000
Subject: [PATCH 25/61] fix: adding to an ID list does not change lists that
 share its storage

---
 id.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id.go b/id.go
index fd9f8b7..fc22425 100644
--- a/id.go
+++ b/id.go
@@ -281,7 +281,8 @@ func (n IDArray) Add(id ID) IDArray {
 			return n
 		}
 	}
-	return append(n, id)
+	// do not write to the storage that n may share with other lists
+	return append(n[:len(n):len(n)], id)
 }
 
 // Concat returns new list
-- 
2.43.0


From 63b239a4891dcb6e6c3a731981f92a014ff7449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:55 +0000
Subject: [PATCH 26/61] fix: scanning NULL sets the zero value

---
 id.go    | 2 ++
 types.go | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/id.go b/id.go
index fc22425..47575bf 100644
--- a/id.go
+++ b/id.go
@@ -149,6 +149,7 @@ func (v *ID) Set(val string) error {
 // Scan implements the Scanner interface.
 func (v *ID) Scan(value any) error {
 	if value == nil {
+		*v = ID{}
 		return nil
 	}
 
@@ -377,6 +378,7 @@ func (v ID32) String() string {
 // Scan implements the Scanner interface.
 func (v *ID32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
diff --git a/types.go b/types.go
index d960b10..6c73cfb 100644
--- a/types.go
+++ b/types.go
@@ -422,6 +422,7 @@ func (v Int64) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int64) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -496,6 +497,7 @@ func (v Int32) Int64() int64 {
 // Scan implements the Scanner interface.
 func (v *Int32) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -566,6 +568,7 @@ func (v Float) Float() float64 {
 // Scan implements the Scanner interface.
 func (v *Float) Scan(value any) error {
 	if value == nil {
+		*v = 0
 		return nil
 	}
 
@@ -641,6 +644,7 @@ func (v Bool) Bool() bool {
 // Scan implements the Scanner interface.
 func (v *Bool) Scan(value any) error {
 	if value == nil {
+		*v = false
 		return nil
 	}
 
-- 
2.43.0


From e901b1f990af7ce60018504aa1d0bc59298f2193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 27/61] fix: scan a list of strings returned as bytes

---
 types.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index 6c73cfb..f4fc385 100644
--- a/types.go
+++ b/types.go
@@ -145,12 +145,17 @@ func (n *Strings) Scan(value any) error {
 		*n = nil
 		return nil
 	}
-	v := fmt.Sprint(value)
+	var v []byte
+	if b, ok := value.([]byte); ok {
+		v = b
+	} else {
+		v = []byte(fmt.Sprint(value))
+	}
 	if len(v) == 0 {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal([]byte(v), n))
+	return errors.WithStack(json.Unmarshal(v, n))
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From 8602a5395502a74fea761f67b64c59b9dded78a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:59 +0000
Subject: [PATCH 28/61] fix: scanning a map or list does not keep or change
 what the destination held

---
 types.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/types.go b/types.go
index f4fc385..b944ab3 100644
--- a/types.go
+++ b/types.go
@@ -155,7 +155,13 @@ func (n *Strings) Scan(value any) error {
 		*n = Strings{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(v, n))
+	// the value does not depend on what the destination holds
+	var list Strings
+	if err := json.Unmarshal(v, &list); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = list
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -247,7 +253,13 @@ func (n *Metadata) Scan(value any) error {
 		*n = Metadata{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// the value does not depend on what the destination holds
+	var m Metadata
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
@@ -297,7 +309,13 @@ func (n *KVSet) Scan(value any) error {
 		*n = KVSet{}
 		return nil
 	}
-	return errors.WithStack(json.Unmarshal(s, n))
+	// the value does not depend on what the destination holds
+	var m KVSet
+	if err := json.Unmarshal(s, &m); err != nil {
+		return errors.WithStack(err)
+	}
+	*n = m
+	return nil
 }
 
 // Value implements the driver Valuer interface.
-- 
2.43.0


From f23708145519f63414a43bdfd03198dc70a67f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 29/61] fix: scanning bytes that are not a UUID is an error

---
 types.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/types.go b/types.go
index b944ab3..b0273c9 100644
--- a/types.go
+++ b/types.go
@@ -377,11 +377,15 @@ func (ns *UUID) Scan(value any) error {
 	}
 
 	var s string
-	var err error
 	switch vid := value.(type) {
 	case []byte:
+		if len(vid) == 36 {
+			// text
+			s = string(vid)
+			break
+		}
 		if len(vid) != 16 {
-			return errors.WithMessagef(err, "failed to parse UUID: %v", vid)
+			return errors.Errorf("failed to parse UUID: %v", vid)
 		}
 		s = fmt.Sprintf("%02X%02X%02X%02X-%02X%02X-%02X%02X-%02X%02X-%02X%02X%02X%02X%02X%02X",
 			vid[3], vid[2], vid[1], vid[0], vid[5], vid[4], vid[7], vid[6], vid[8], vid[9], vid[10], vid[11], vid[12], vid[13], vid[14], vid[15])
-- 
2.43.0


From 70d6e606473761139d4d3cd1d9cbcf8c1aab7f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 30/61] fix: scanning text that is not a time is an error

---
 time.go | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/time.go b/time.go
index 9566ec6..9e8d449 100644
--- a/time.go
+++ b/time.go
@@ -25,7 +25,11 @@ func (ns *Time) Scan(value any) error {
 	var v sql.NullTime
 
 	if str, ok := value.(string); ok {
-		*ns = ParseTime(str)
+		t, err := parseTime(str)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		*ns = t
 		return nil
 	}
 
@@ -75,24 +79,30 @@ func FromUnixMilli(tm int64) Time {
 
 // ParseTime returns Time from RFC3339 format
 func ParseTime(val string) Time {
+	t, _ := parseTime(val)
+	return t
+}
+
+func parseTime(val string) (Time, error) {
 	if val == "" {
-		return Time{}
+		return Time{}, nil
 	}
 
 	var t time.Time
+	var err error
 	switch len(val) {
 	case len(DefaultTimeFormat):
-		t, _ = time.Parse(DefaultTimeFormat, val)
+		t, err = time.Parse(DefaultTimeFormat, val)
 	case len(time.RFC3339):
-		t, _ = time.Parse(time.RFC3339, val)
+		t, err = time.Parse(time.RFC3339, val)
 	case len(time.DateTime):
-		t, _ = time.Parse(time.DateTime, val)
+		t, err = time.Parse(time.DateTime, val)
 	case len(time.DateOnly):
-		t, _ = time.Parse(time.DateOnly, val)
+		t, err = time.Parse(time.DateOnly, val)
 	default:
-		t, _ = time.Parse(time.RFC3339Nano, val)
+		t, err = time.Parse(time.RFC3339Nano, val)
 	}
-	return Time(t.Truncate(DefaultTrucate).UTC())
+	return Time(t.Truncate(DefaultTrucate).UTC()), err
 }
 
 // UnixMilli returns t as a Unix time, the number of milliseconds elapsed since January 1, 1970 UTC.
-- 
2.43.0


From 13255fe11e7622e49dac4cb1a86d9f2d08b7f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:05 +0000
Subject: [PATCH 31/61] fix: scanning an integer that does not fit is an error

---
 id.go    |  5 +++++
 types.go | 17 +++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/id.go b/id.go
index 47575bf..2d25c8d 100644
--- a/id.go
+++ b/id.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"database/sql/driver"
+	"math"
 	"sort"
 	"strconv"
 	"strings"
@@ -396,6 +397,10 @@ func (v *ID32) Scan(value any) error {
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id > math.MaxUint32 {
+		return errors.Errorf("value is out of range: %v", value)
+	}
+
 	*v = ID32(id)
 	return nil
 }
diff --git a/types.go b/types.go
index b0273c9..23437f9 100644
--- a/types.go
+++ b/types.go
@@ -5,6 +5,7 @@ import (
 	"database/sql/driver"
 	"encoding/json"
 	"fmt"
+	"math"
 	"strconv"
 	"strings"
 	"time"
@@ -456,12 +457,18 @@ func (v *Int64) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value is out of range: %v", value)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value is out of range: %v", value)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
@@ -531,17 +538,27 @@ func (v *Int32) Scan(value any) error {
 	var id int64
 	switch vid := value.(type) {
 	case uint64:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value is out of range: %v", value)
+		}
 		id = int64(vid)
 	case int64:
 		id = int64(vid)
 	case int:
 		id = int64(vid)
 	case uint:
+		if vid > math.MaxInt64 {
+			return errors.Errorf("value is out of range: %v", value)
+		}
 		id = int64(vid)
 	default:
 		return errors.Errorf("unsupported scan type: %T", value)
 	}
 
+	if id < math.MinInt32 || id > math.MaxInt32 {
+		return errors.Errorf("value is out of range: %v", value)
+	}
+
 	*v = Int32(id)
 	return nil
 }
-- 
2.43.0


From c40eec3978c2beb5b05320cc22d40f0d2ef9542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 32/61] fix: LastID races with NextID

---
 pkg/flake/flake.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/flake/flake.go b/pkg/flake/flake.go
index 9ffcd6d..111473a 100644
--- a/pkg/flake/flake.go
+++ b/pkg/flake/flake.go
@@ -13,6 +13,7 @@ import (
 	"os"
 	"strings"
 	"sync"
+	"sync/atomic"
 	"time"
 
 	"github.com/effective-security/xlog"
@@ -160,8 +161,9 @@ func (sf *Flake) NextID() uint64 {
 		}
 	}
 
-	sf.lastID = sf.toID()
-	return sf.lastID
+	id := sf.toID()
+	atomic.StoreUint64(&sf.lastID, id)
+	return id
 }
 
 func toFlakeTime(t time.Time) int64 {
@@ -268,7 +270,7 @@ func FirstID(g IDGenerator) uint64 {
 // LastID returns the last ID generated by the generator.
 func LastID(g IDGenerator) uint64 {
 	if fl, ok := g.(*Flake); ok {
-		return fl.lastID
+		return atomic.LoadUint64(&fl.lastID)
 	}
 	return 0
 }
-- 
2.43.0


From 2499762f15bfa7e56a086e0c3f076cc58bdd3a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:26 +0000
Subject: [PATCH 33/61] fix: close the result when reading the schema fails

---
 schema/provider.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/schema/provider.go b/schema/provider.go
index 198ba2a..91fbc96 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -69,6 +69,9 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	tt := Tables{}
 	for rows.Next() {
@@ -141,6 +144,9 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query tables")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	tablesMap := map[string]*Table{} // map of Table FQN => table
 
@@ -207,6 +213,9 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, errors.WithStack(err)
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	cc := Columns{}
 	for rows.Next() {
@@ -243,6 +252,9 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 	if err != nil {
 		return nil, nil, errors.WithStack(err)
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	var pk *Index
 	cc := Indexes{}
@@ -283,6 +295,9 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to query foreign keys")
 	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
 	keys := ForeignKeys{}
 	for rows.Next() {
-- 
2.43.0


From d3f3024808450c9ce0e72f3fe4b39842c4560a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 34/61] fix: pass the names to the column query as arguments

---
 schema/postgres.go  | 13 ++++++-------
 schema/sqlserver.go | 11 +++++------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index de05444..3eb4b47 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -32,15 +31,15 @@ func (p postgres) QueryTables(ctx context.Context) (*sql.Rows, error) {
 	return p.db.QueryContext(ctx, postgresTableNamesWithSchema)
 }
 
-func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
+const postgresQueryColumns = `
 	SELECT column_name, data_type, udt_name, is_nullable, character_maximum_length, ordinal_position 
   	FROM information_schema.columns
- 	WHERE table_schema = '%s'
-   	AND table_name = '%s';
-`, schema, table)
+ 	WHERE table_schema = $1
+   	AND table_name = $2;
+`
 
-	return p.db.QueryContext(ctx, qry)
+func (p postgres) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
+	return p.db.QueryContext(ctx, postgresQueryColumns, schema, table)
 }
 
 const postgresQueryViews = `
diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index efef608..95dd193 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -3,7 +3,6 @@ package schema
 import (
 	"context"
 	"database/sql"
-	"fmt"
 
 	"github.com/effective-security/xdb"
 )
@@ -40,12 +39,12 @@ func (p sqlserver) QueryTables(ctx context.Context) (*sql.Rows, error) {
 	return p.db.QueryContext(ctx, mssqlTableNamesWithSchema)
 }
 
-func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
-	qry := fmt.Sprintf(`
-	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA=N'%s' AND TABLE_NAME = N'%s'`,
-		schema, table)
+const mssqlQueryColumns = `
+	SELECT COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS WHERE TABLE_SCHEMA = @schema AND TABLE_NAME = @table
+`
 
-	return p.db.QueryContext(ctx, qry)
+func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql.Rows, error) {
+	return p.db.QueryContext(ctx, mssqlQueryColumns, sql.Named("schema", schema), sql.Named("table", table))
 }
 
 const mssqlQueryViews = `
-- 
2.43.0


From 440f580c388f5d1bcb628660d599d7926aee0e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:12 +0000
Subject: [PATCH 35/61] fix: a table listing depends on the catalog only and
 describes dependencies fully

---
 schema/provider.go | 217 +++++++++++++++++++++++----------------------
 1 file changed, 113 insertions(+), 104 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 91fbc96..5dcc36a 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -26,11 +26,6 @@ type SQLServerProvider struct {
 	db      xdb.DB
 	dialect Dialect
 	name    string
-
-	tables  map[string]*Table      // map of Table FQN => table
-	columns map[string]*Column     // map of Column FQN => column
-	indexes map[string]*Index      // map of Column FQN => index
-	fkeys   map[string]*ForeignKey // map of Column FQN => FK
 }
 
 // NewProvider return MS SQL reader
@@ -46,10 +41,6 @@ func NewProvider(db xdb.DB, provider string) Provider {
 	p := &SQLServerProvider{
 		db:      db,
 		name:    provider,
-		columns: make(map[string]*Column),
-		tables:  make(map[string]*Table),
-		fkeys:   make(map[string]*ForeignKey),
-		indexes: make(map[string]*Index),
 		dialect: dialect,
 	}
 
@@ -65,21 +56,13 @@ func (r *SQLServerProvider) Name() string {
 // schema and tables are optional parameters to filter,
 // if not provided, then all items are returned
 func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, tables []string, withDependencies bool) (Tables, error) {
-	rows, err := r.dialect.QueryTables(ctx)
+	all, err := r.readTables(ctx)
 	if err != nil {
-		return nil, errors.WithMessagef(err, "failed to query tables")
+		return nil, err
 	}
-	defer func() {
-		_ = rows.Close()
-	}()
 
 	tt := Tables{}
-	for rows.Next() {
-		t := new(Table)
-		if err := rows.Scan(&t.Schema, &t.Name, &t.Type); err != nil {
-			return nil, errors.WithMessagef(err, "failed to scan")
-		}
-
+	for _, t := range all {
 		if len(schemas) > 0 && !slices.ContainsStringEqualFold(schemas, t.Schema) {
 			continue
 		}
@@ -88,52 +71,79 @@ func (r *SQLServerProvider) ListTables(ctx context.Context, schemas []string, ta
 			continue
 		}
 
-		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
+		if err := r.describeTable(ctx, t); err != nil {
+			return nil, err
+		}
+		tt = append(tt, t)
+	}
 
-		cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	if withDependencies {
+		tt, err = r.discover(ctx, tt, all)
 		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+			return nil, err
 		}
+	}
+
+	sort.Slice(tt, func(i int, j int) bool {
+		return tt[i].SchemaName < tt[j].SchemaName
+	})
 
-		t.Columns = cc
+	return tt, nil
+}
 
-		ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
-		}
-		t.Indexes = ii
-
-		for _, idx := range ii {
-			for _, cn := range idx.ColumnNames {
-				colShemaName := fmt.Sprintf("%s.%s", t.SchemaName, cn)
-				col := r.columns[colShemaName]
-				col.Indexes = append(col.Indexes, idx)
-				if idx.IsPrimary && len(idx.ColumnNames) == 1 {
-					t.PrimaryKey = col
-				}
-			}
-		}
+// readTables returns all tables in database, without columns and indexes
+func (r *SQLServerProvider) readTables(ctx context.Context) (Tables, error) {
+	rows, err := r.dialect.QueryTables(ctx)
+	if err != nil {
+		return nil, errors.WithMessagef(err, "failed to query tables")
+	}
+	defer func() {
+		_ = rows.Close()
+	}()
 
-		r.tables[t.SchemaName] = t
+	tt := Tables{}
+	for rows.Next() {
+		t := new(Table)
+		if err := rows.Scan(&t.Schema, &t.Name, &t.Type); err != nil {
+			return nil, errors.WithMessagef(err, "failed to scan")
+		}
+		t.SchemaName = fmt.Sprintf("%s.%s", t.Schema, t.Name)
 		tt = append(tt, t)
 	}
 
 	if rows.Err() != nil {
 		return nil, rows.Err()
 	}
+	return tt, nil
+}
 
-	if withDependencies {
-		tt, err = r.discover(ctx)
-		if err != nil {
-			return nil, err
-		}
+// describeTable reads columns and indexes of the table
+func (r *SQLServerProvider) describeTable(ctx context.Context, t *Table) error {
+	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
 	}
+	t.Columns = cc
 
-	sort.Slice(tt, func(i int, j int) bool {
-		return tt[i].SchemaName < tt[j].SchemaName
-	})
+	ii, _, err := r.readIndexesSchema(ctx, t.Schema, t.Name)
+	if err != nil {
+		return errors.WithMessagef(err, "failed to read indexes: %s", t.SchemaName)
+	}
+	t.Indexes = ii
 
-	return tt, nil
+	for _, idx := range ii {
+		for _, cn := range idx.ColumnNames {
+			col := t.column(cn)
+			if col == nil {
+				continue
+			}
+			col.Indexes = append(col.Indexes, idx)
+			if idx.IsPrimary && len(idx.ColumnNames) == 1 {
+				t.PrimaryKey = col
+			}
+		}
+	}
+	return nil
 }
 
 // ListViews returns a list of views in database.
@@ -172,7 +182,6 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		c.Name = columnName(c.Name)
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schemaName, tableName, c.Name)
 		c.Position = uint32(ordinal)
-		r.columns[c.SchemaName] = c
 
 		tSchemaName := fmt.Sprintf("%s.%s", schemaName, tableName)
 		t := tablesMap[tSchemaName]
@@ -231,7 +240,6 @@ func (r *SQLServerProvider) readColumnsSchema(ctx context.Context, schema, table
 		c.MaxLength = maxLength(maxLen)
 		c.Name = columnName(c.Name)
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
-		r.columns[c.SchemaName] = c
 
 		cc = append(cc, c)
 	}
@@ -271,7 +279,6 @@ func (r *SQLServerProvider) readIndexesSchema(ctx context.Context, schema, table
 			c.ColumnNames = append(c.ColumnNames, cn)
 		}
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schema, table, c.Name)
-		r.indexes[c.SchemaName] = c
 
 		cc = append(cc, c)
 
@@ -324,7 +331,6 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 		k.Column = columnName(k.Column)
 		k.RefColumn = columnName(k.RefColumn)
 		k.SchemaName = fmt.Sprintf("%s.%s.%s", k.Schema, k.Table, k.Name)
-		r.fkeys[k.ColumnSchemaName()] = k
 
 		keys = append(keys, k)
 	}
@@ -336,69 +342,72 @@ func (r *SQLServerProvider) ListForeignKeys(ctx context.Context, schemas []strin
 	return keys, nil
 }
 
-// discover will DFS on the graph and update internal cache with all dependencies
-func (r *SQLServerProvider) discover(ctx context.Context) (Tables, error) {
-	_, err := r.ListForeignKeys(ctx, nil, nil)
+type tableKey struct {
+	schema string
+	table  string
+}
+
+// discover links the columns of the tables to their foreign keys,
+// and returns the tables with all their dependencies
+func (r *SQLServerProvider) discover(ctx context.Context, tt, all Tables) (Tables, error) {
+	keys, err := r.ListForeignKeys(ctx, nil, nil)
 	if err != nil {
 		return nil, err
 	}
-
-	// the cache now consists of Tables, Columns and FKeys
-	for n, c := range r.columns {
-		fk := r.fkeys[n]
-		if fk == nil {
-			continue
-		}
-		c.Ref = fk
-
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
-		if err != nil {
-			return nil, errors.WithMessagef(err, "failed to discover: %s.%s", fk.RefSchema, c.Ref.RefTable)
-		}
-	}
-
-	// return all discovered tables
-	res := Tables{}
-	for _, t := range r.tables {
-		res = append(res, t)
-	}
-
-	return res, nil
-}
-
-func (r *SQLServerProvider) discoverTable(ctx context.Context, schema, table string) error {
-	tref := fmt.Sprintf("%s.%s", schema, table)
-	if r.tables[tref] != nil {
-		return nil
+	fkeys := map[tableKey]ForeignKeys{} // foreign keys of a table
+	for _, k := range keys {
+		n := tableKey{k.Schema, k.Table}
+		fkeys[n] = append(fkeys[n], k)
 	}
 
-	t := &Table{
-		Name:       table,
-		Schema:     schema,
-		SchemaName: fmt.Sprintf("%s.%s", schema, table),
+	tables := map[tableKey]*Table{}
+	for _, t := range all {
+		tables[tableKey{t.Schema, t.Name}] = t
 	}
-	cc, err := r.readColumnsSchema(ctx, t.Schema, t.Name)
-	if err != nil {
-		return errors.WithMessagef(err, "failed to read columns: %s", t.SchemaName)
+	found := map[tableKey]bool{}
+	for _, t := range tt {
+		found[tableKey{t.Schema, t.Name}] = true
 	}
 
-	t.Columns = cc
-	r.tables[t.SchemaName] = t
+	// the list grows with dependencies
+	for i := 0; i < len(tt); i++ {
+		t := tt[i]
+		for _, fk := range fkeys[tableKey{t.Schema, t.Name}] {
+			c := t.column(fk.Column)
+			if c == nil {
+				continue
+			}
+			c.Ref = fk
 
-	// traverse columns
-	for _, c := range cc {
-		fk := r.fkeys[c.SchemaName]
-		if fk == nil {
-			continue
+			n := tableKey{fk.RefSchema, fk.RefTable}
+			if found[n] {
+				continue
+			}
+			dep := tables[n]
+			if dep == nil {
+				dep = &Table{
+					Name:       fk.RefTable,
+					Schema:     fk.RefSchema,
+					SchemaName: fmt.Sprintf("%s.%s", fk.RefSchema, fk.RefTable),
+				}
+			}
+			if err := r.describeTable(ctx, dep); err != nil {
+				return nil, errors.WithMessagef(err, "failed to discover: %s", dep.SchemaName)
+			}
+			found[n] = true
+			tt = append(tt, dep)
 		}
-		c.Ref = fk
+	}
+	return tt, nil
+}
 
-		err = r.discoverTable(ctx, fk.RefSchema, c.Ref.RefTable)
-		if err != nil {
-			return err
+// column returns the column by name
+func (t *Table) column(name string) *Column {
+	for _, c := range t.Columns {
+		if c.Name == name {
+			return c
 		}
 	}
-
 	return nil
 }
 
-- 
2.43.0


From f72e1c1e4ddc64350441ef01901ed307e4ece546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 36/61] fix: a failed migration mentioning 'no change' is an
 error

---
 migrate/migrate.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index a9d8feb..ace477a 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -4,7 +4,6 @@ import (
 	"database/sql"
 	"fmt"
 	"os"
-	"strings"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/xlog"
@@ -91,7 +90,7 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if strings.Contains(err.Error(), "no change") {
+		if errors.Is(err, migrate.ErrNoChange) {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From 777b670425301cf60af84ebef32719d8fb58f798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:29 +0000
Subject: [PATCH 37/61] fix: release the connection used for a Postgres
 migration

---
 migrate/migrate.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index ace477a..e99cd3e 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -1,6 +1,7 @@
 package migrate
 
 import (
+	"context"
 	"database/sql"
 	"fmt"
 	"os"
@@ -21,7 +22,7 @@ import (
 var logger = xlog.NewPackageLogger("github.com/effective-security/xdb", "migrate")
 
 // Migrate performs db migration
-func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersion int, db *sql.DB) error {
+func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersion int, db *sql.DB) (rerr error) {
 	logger.KV(xlog.INFO,
 		"provider", provider,
 		"db", dbName,
@@ -42,7 +43,20 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	var err error
 	switch provider {
 	case "postgres", "pgsql":
-		driver, err = postgres.WithInstance(db, &postgres.Config{})
+		ctx := context.Background()
+		conn, err := db.Conn(ctx)
+		if err != nil {
+			return errors.WithStack(err)
+		}
+		defer func() {
+			if errors.Is(rerr, migrate.ErrLockTimeout) {
+				// the connection is still waiting for the lock
+				go func() { _ = conn.Close() }()
+				return
+			}
+			_ = conn.Close()
+		}()
+		driver, err = postgres.WithConnection(ctx, conn, &postgres.Config{})
 		if err != nil {
 			return errors.WithStack(err)
 		}
-- 
2.43.0


From c1a78a041825eb9613456c696fde61838a498423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:57 +0000
Subject: [PATCH 38/61] fix: deliver notifications to the callback of their
 topic

---
 pkg/notifier/listener.go | 74 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 72 insertions(+), 2 deletions(-)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 7740164..79a48bf 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"encoding/json"
 	"io"
+	"sync"
 	"time"
 
 	"github.com/cockroachdb/errors"
@@ -40,6 +41,18 @@ type Listener interface {
 
 type listener struct {
 	listener *pq.Listener
+
+	closed    chan struct{}
+	closeOnce sync.Once
+
+	lock   sync.Mutex
+	topics map[string]*subscription
+}
+
+// subscription receives the notifications of one topic
+type subscription struct {
+	notify chan *pq.Notification
+	done   chan struct{}
 }
 
 func eventCallBack(ev pq.ListenerEventType, err error) {
@@ -71,13 +84,59 @@ func NewListener(p xdb.Provider, minReconnectInterval time.Duration, maxReconnec
 
 	l := &listener{
 		listener: lp,
+		closed:   make(chan struct{}),
+		topics:   make(map[string]*subscription),
 	}
+	go l.dispatch()
 
 	return l
 }
 
+// dispatch passes the notifications to the subscriptions of their topics,
+// until the listener is closed
+func (l *listener) dispatch() {
+	for n := range l.listener.Notify {
+		if n == nil {
+			// reconnected
+			continue
+		}
+		l.lock.Lock()
+		sub := l.topics[n.Channel]
+		l.lock.Unlock()
+		if sub == nil {
+			continue
+		}
+		select {
+		case sub.notify <- n:
+		case <-sub.done:
+		case <-l.closed:
+		}
+	}
+}
+
+func (l *listener) subscribe(topic string) *subscription {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	if l.topics[topic] != nil {
+		return nil
+	}
+	sub := &subscription{
+		notify: make(chan *pq.Notification, 32),
+		done:   make(chan struct{}),
+	}
+	l.topics[topic] = sub
+	return sub
+}
+
+func (l *listener) unsubscribe(topic string) {
+	l.lock.Lock()
+	defer l.lock.Unlock()
+	delete(l.topics, topic)
+}
+
 func (l *listener) Close() error {
 	if l.listener != nil {
+		l.closeOnce.Do(func() { close(l.closed) })
 		err := l.listener.Close()
 		if err != nil {
 			return err
@@ -87,18 +146,29 @@ func (l *listener) Close() error {
 }
 
 func (l *listener) Listen(ctx context.Context, topic string, callback func(n *Notification)) error {
+	sub := l.subscribe(topic)
+	if sub == nil {
+		return errors.Wrapf(pq.ErrChannelAlreadyOpen, "failed to listen to channel: %s", topic)
+	}
 	err := l.listener.Listen(topic)
 	if err != nil {
+		close(sub.done)
+		l.unsubscribe(topic)
 		return errors.Wrapf(err, "failed to listen to channel: %s", topic)
 	}
 
 	go func() {
+		defer l.unsubscribe(topic)
 		for {
 			select {
+			case <-l.closed:
+				return
 			case <-ctx.Done():
 				logger.KV(xlog.INFO,
 					"reason", "context_done",
 					"channel", topic)
+				// do not block other topics while waiting for the reply
+				close(sub.done)
 				err = l.listener.Unlisten(topic)
 				if err != nil {
 					logger.KV(xlog.ERROR,
@@ -107,8 +177,8 @@ func (l *listener) Listen(ctx context.Context, topic string, callback func(n *No
 						"error", err.Error())
 				}
 				return
-			case n := <-l.listener.Notify:
-				if n != nil {
+			case n := <-sub.notify:
+				if ctx.Err() == nil {
 					callback(parsePayload(n))
 				}
 			case <-time.After(time.Minute):
-- 
2.43.0


From 1096a3dc48dcaf1000300de2fd28ea2eb232231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:30 +0000
Subject: [PATCH 39/61] fix: selecting the columns of a shared table info is
 not a race

---
 schema/schema.go | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/schema/schema.go b/schema/schema.go
index e5e0ba1..d4fe58a 100644
--- a/schema/schema.go
+++ b/schema/schema.go
@@ -27,8 +27,6 @@ type TableInfo struct {
 
 	// SchemaName is FQN in schema.name format
 	SchemaName string `json:"-" yaml:"-"`
-
-	allColumns string `json:"-" yaml:"-"`
 }
 
 // From starts FROM expression
@@ -76,10 +74,7 @@ func (t *TableInfo) SelectAliased(prefix string, nullColumns map[string]bool) xs
 
 // AllColumns returns list of all columns separated by comma
 func (t *TableInfo) AllColumns() string {
-	if t.allColumns == "" {
-		t.allColumns = strings.Join(t.Columns, ", ")
-	}
-	return t.allColumns
+	return strings.Join(t.Columns, ", ")
 }
 
 // AliasedColumns returns list of columns separated by comma,
-- 
2.43.0


From 108f5c01ce0d9648e7124a5906e172c3ea4eacbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:31 +0000
Subject: [PATCH 40/61] fix: name and type overrides do not leak into the next
 generation

---
 internal/cli/schema/schema.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1a1871c..1572750 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -298,6 +298,12 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		dialect = "xsql.NoDialect"
 	}
 
+	// the overrides of an earlier run do not apply
+	clear(typesMap)
+	clear(fieldNamesMap)
+	clear(tableNamesMap)
+	clear(modelWithCacheMap)
+
 	dropColumnsMap := map[string]bool{}
 	if a.TypesDef != "" {
 		var defs override
-- 
2.43.0


From 8a179b2ded13e05b6e0eb8c8ebab1173af3f004c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:55 +0000
Subject: [PATCH 41/61] fix: generating several schemas emits each table once,
 in a fixed order

---
 internal/cli/schema/schema.go   | 30 ++++++++++++++++++++++++++----
 internal/cli/schema/template.go |  8 +++++++-
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 1572750..2ac6ded 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"sort"
 	"strings"
 	"text/template"
 
@@ -333,11 +334,22 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		schemas[t.Schema] = append(schemas[t.Schema], t)
 	}
 
+	schemaNames := make([]string, 0, len(schemas))
+	for schemaName := range schemas {
+		schemaNames = append(schemaNames, schemaName)
+	}
+	sort.Strings(schemaNames)
+
 	var err error
-	var tableInfos []*schema.TableInfo
-	var tableDefs []*tableDefinition
 
-	for schemaName, tables := range schemas {
+	for i, schemaName := range schemaNames {
+		tables := schemas[schemaName]
+		// the declarations common for all schemas are in the first file
+		common := i == 0
+
+		var tableInfos []*schema.TableInfo
+		var tableDefs []*tableDefinition
+
 		w := ctx.Writer()
 		buf := &bytes.Buffer{}
 
@@ -362,7 +374,7 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 			Package: modelPkg,
 			Imports: imports,
 		}
-		if modelPkg != schemaPkg {
+		if modelPkg != schemaPkg && common {
 			modelDef.Dialect = dialect
 		}
 		err = codeHeaderTemplate.Execute(buf, modelDef)
@@ -456,6 +468,16 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 			Tables:  tableInfos,
 			Defs:    tableDefs,
 		}
+		if common {
+			for _, name := range schemaNames {
+				for _, t := range schemas[name] {
+					td.AllTables = append(td.AllTables, &schema.TableInfo{
+						Name:       t.Name,
+						SchemaName: t.SchemaName,
+					})
+				}
+			}
+		}
 		err = schemaHeaderCodeTemplate.Execute(buf, td)
 		if err != nil {
 			return errors.WithMessagef(err, "failed to generate schema")
diff --git a/internal/cli/schema/template.go b/internal/cli/schema/template.go
index f1662d2..4d3702d 100644
--- a/internal/cli/schema/template.go
+++ b/internal/cli/schema/template.go
@@ -28,6 +28,8 @@ type schemaDefinition struct {
 	Dialect string
 	Tables  []*schema.TableInfo
 	Defs    []*tableDefinition
+	// AllTables provides the tables of all schemas, in the first file only
+	AllTables []*schema.TableInfo
 }
 
 var codeHeaderTemplateText = `// DO NOT EDIT!
@@ -170,8 +172,10 @@ import (
 	{{ end }}
 )
 
+{{ if .AllTables -}}
 // Dialect provides Dialect for {{ .DB }}
 var Dialect = {{ .Dialect }}
+{{- end }}
 {{- $dialect := .Dialect }}
 
 {{ range .Tables }}
@@ -188,10 +192,12 @@ var {{ $tableName }} = xdbschema.TableInfo{
 }
 {{ end }}
 
+{{ if .AllTables -}}
 // {{ goName .DB }}Tables provides tables map for {{ .DB }}
 var {{ goName .DB }}Tables = map[string]*xdbschema.TableInfo{
-{{- range .Tables }}
+{{- range .AllTables }}
  	"{{ .Name }}": &{{ tableInfoStructName . }},
 {{- end }}
 }
+{{- end }}
 `
-- 
2.43.0


From 5ec88274695660a1a09218c04f5fb46b8bbf2fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:44 +0000
Subject: [PATCH 42/61] fix: setting a limit or offset again replaces its own
 argument only

---
 xsql/stmt.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsql/stmt.go b/xsql/stmt.go
index 52d7bc1..2090854 100644
--- a/xsql/stmt.go
+++ b/xsql/stmt.go
@@ -1109,7 +1109,12 @@ loop:
 			if expr == "" {
 				// See if arguments are to be updated
 				if argLen > 0 {
-					copy(q.args[len(q.args)-argTail-chunk.argLen:], args)
+					// They belong to the clause itself, in the first of its chunks
+					for i > 0 && q.chunks[i-1].pos == pos {
+						argTail += q.chunks[i].argLen
+						i--
+					}
+					copy(q.args[len(q.args)-argTail-q.chunks[i].argLen:], args)
 				}
 				return i
 			}
-- 
2.43.0


From c9d048a9dbd92af7f4abcc9ae3373e53a41ea2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:19 +0000
Subject: [PATCH 43/61] fix: keep 64-bit integers nested in cursors exact

---
 query.go | 44 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 9 deletions(-)

diff --git a/query.go b/query.go
index 0013331..997ba8e 100644
--- a/query.go
+++ b/query.go
@@ -1,6 +1,7 @@
 package xdb
 
 import (
+	"bytes"
 	"context"
 	"encoding/base64"
 	"encoding/json"
@@ -170,21 +171,46 @@ func DecodeCursor(cursor string) (values.MapAny, error) {
 		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
 	}
 	// Get the integers that do not fit in float64
-	var raw map[string]json.RawMessage
-	err = json.Unmarshal(js, &raw)
+	var raw map[string]any
+	d := json.NewDecoder(bytes.NewReader(js))
+	d.UseNumber()
+	err = d.Decode(&raw)
 	if err != nil {
 		return nil, errors.Wrapf(err, "failed to unmarshal cursor")
 	}
 	for k, v := range m {
-		f, ok := v.(float64)
+		m[k] = exactIntegers(v, raw[k])
+	}
+	return m, nil
+}
+
+// exactIntegers returns the decoded value with the integers
+// that do not fit in float64 taken from the raw value
+func exactIntegers(val, raw any) any {
+	switch r := raw.(type) {
+	case json.Number:
+		f, ok := val.(float64)
 		if !ok || math.Abs(f) < 1<<53 {
-			continue
+			return val
 		}
-		if i, err := strconv.ParseInt(string(raw[k]), 10, 64); err == nil {
-			m[k] = i
-		} else if u, err := strconv.ParseUint(string(raw[k]), 10, 64); err == nil {
-			m[k] = u
+		if i, err := strconv.ParseInt(r.String(), 10, 64); err == nil {
+			return i
+		}
+		if u, err := strconv.ParseUint(r.String(), 10, 64); err == nil {
+			return u
+		}
+	case map[string]any:
+		if m, ok := val.(map[string]any); ok {
+			for k, v := range m {
+				m[k] = exactIntegers(v, r[k])
+			}
+		}
+	case []any:
+		if l, ok := val.([]any); ok && len(l) == len(r) {
+			for i, v := range l {
+				l[i] = exactIntegers(v, r[i])
+			}
 		}
 	}
-	return m, nil
+	return val
 }
-- 
2.43.0


From 18ae5757379575c3cf740015ce895947c676c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 44/61] fix: indexes of the same name in other schemas are not
 mixed into a Postgres table

---
 schema/postgres.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/schema/postgres.go b/schema/postgres.go
index 3eb4b47..a705dc9 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -75,14 +75,18 @@ FROM
 	pg_class i,
 	pg_index ix,
 	pg_attribute a,
+	pg_namespace n,
 	pg_indexes ixs
 WHERE
 	t.oid = ix.indrelid
+	and n.oid = t.relnamespace
 	and i.oid = ix.indexrelid
 	and a.attrelid = t.oid
 	and a.attnum = ANY(ix.indkey)
 	and t.relkind = 'r'
 	and ixs.indexname = i.relname
+	and ixs.schemaname = n.nspname
+	and ixs.tablename = t.relname
 	and ixs.schemaname = $1
 	and ixs.tablename = $2
 GROUP BY
-- 
2.43.0


From a945b34fd9550962284b06ef6de0d7983e81217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 45/61] fix: a Postgres foreign key refers to its own columns
 only

The columns of a composite key were paired with every referenced column,
and keys of the same name in several tables or schemas with each other.
---
 schema/postgres.go | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index a705dc9..f287b9b 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -103,20 +103,30 @@ func (p postgres) QueryIndexes(ctx context.Context, schema, table string) (*sql.
 
 const postgresQueryForeignKeys = `
 SELECT
-    tc.constraint_name, 
-	tc.table_schema,
-    tc.table_name, 
-    kcu.column_name, 
-    ccu.table_schema AS foreign_table_schema,
-    ccu.table_name AS foreign_table_name,
-    ccu.column_name AS foreign_column_name 
-FROM information_schema.table_constraints AS tc 
-JOIN information_schema.key_column_usage AS kcu
-    ON tc.constraint_name = kcu.constraint_name
-    AND tc.table_schema = kcu.table_schema
-JOIN information_schema.constraint_column_usage AS ccu
-    ON ccu.constraint_name = tc.constraint_name
-WHERE tc.constraint_type = 'FOREIGN KEY';
+	con.conname as constraint_name,
+	n.nspname as table_schema,
+	t.relname as table_name,
+	a.attname as column_name,
+	rn.nspname as foreign_table_schema,
+	rt.relname as foreign_table_name,
+	ra.attname as foreign_column_name
+FROM pg_constraint con
+JOIN pg_class t
+	ON t.oid = con.conrelid
+JOIN pg_namespace n
+	ON n.oid = t.relnamespace
+JOIN pg_attribute a
+	ON a.attrelid = t.oid
+	AND a.attnum = ANY(con.conkey)
+JOIN pg_class rt
+	ON rt.oid = con.confrelid
+JOIN pg_namespace rn
+	ON rn.oid = rt.relnamespace
+JOIN pg_attribute ra
+	ON ra.attrelid = rt.oid
+	AND ra.attnum = ANY(con.confkey)
+	AND array_position(con.confkey, ra.attnum) = array_position(con.conkey, a.attnum)
+WHERE con.contype = 'f';
 `
 
 func (p postgres) QueryForeignKeys(ctx context.Context) (*sql.Rows, error) {
-- 
2.43.0


From 3abfda98538d312cfa5d584bff3fb3c838eeb2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 46/61] fix: a SQL Server table with the name of a view in
 another schema is not a view

---
 schema/sqlserver.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 95dd193..2e0854b 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -49,7 +49,7 @@ func (p sqlserver) QueryColumns(ctx context.Context, schema, table string) (*sql
 
 const mssqlQueryViews = `
 SELECT TABLE_SCHEMA, TABLE_NAME, COLUMN_NAME, DATA_TYPE, DATA_TYPE, IS_NULLABLE, CHARACTER_MAXIMUM_LENGTH, ORDINAL_POSITION FROM INFORMATION_SCHEMA.COLUMNS s
-JOIN sys.views v ON v.name = s.TABLE_NAME;
+JOIN sys.views v ON v.name = s.TABLE_NAME AND v.schema_id = SCHEMA_ID(s.TABLE_SCHEMA);
 `
 
 func (p sqlserver) QueryViews(ctx context.Context) (*sql.Rows, error) {
-- 
2.43.0


From e2cb68ccbe51b3e78508d682d5dcfc9e8a8e87c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:25 +0000
Subject: [PATCH 47/61] fix: SQL Server tables with extended properties are
 listed, once

---
 schema/sqlserver.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 2e0854b..47a05e5 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -22,13 +22,16 @@ const mssqlTableNamesWithSchema = `
 	INNER JOIN
 		sys.schemas s
 	ON	s.schema_id = t.schema_id
-	LEFT JOIN
-		sys.extended_properties ep
-	ON	ep.major_id = t.[object_id]
 	WHERE
 		t.is_ms_shipped = 0 AND
-		(ep.class_desc IS NULL OR (ep.class_desc <> 'OBJECT_OR_COLUMN' AND
-			ep.[name] <> 'microsoft_database_tools_support'))
+		NOT EXISTS (
+			SELECT 1
+			FROM sys.extended_properties ep
+			WHERE ep.major_id = t.[object_id]
+				AND ep.minor_id = 0
+				AND ep.class_desc = 'OBJECT_OR_COLUMN'
+				AND ep.[name] = 'microsoft_database_tools_support'
+		)
 	ORDER BY
 		schema_name(t.schema_id),
 		t.name,
-- 
2.43.0


From 8018608ae06ac5c18356e0e5704038c3993abfc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 48/61] fix: views whose qualified names are equal are not
 merged

---
 schema/provider.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/schema/provider.go b/schema/provider.go
index 5dcc36a..07e59c6 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -158,7 +158,7 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		_ = rows.Close()
 	}()
 
-	tablesMap := map[string]*Table{} // map of Table FQN => table
+	tablesMap := map[tableKey]*Table{}
 
 	for rows.Next() {
 		var schemaName string
@@ -183,16 +183,16 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 		c.SchemaName = fmt.Sprintf("%s.%s.%s", schemaName, tableName, c.Name)
 		c.Position = uint32(ordinal)
 
-		tSchemaName := fmt.Sprintf("%s.%s", schemaName, tableName)
-		t := tablesMap[tSchemaName]
+		n := tableKey{schemaName, tableName}
+		t := tablesMap[n]
 		if t == nil {
 			t = &Table{
 				Name:       tableName,
 				Schema:     schemaName,
-				SchemaName: tSchemaName,
+				SchemaName: fmt.Sprintf("%s.%s", schemaName, tableName),
 				IsView:     true,
 			}
-			tablesMap[tSchemaName] = t
+			tablesMap[n] = t
 		}
 		t.Columns = append(t.Columns, c)
 	}
-- 
2.43.0


From 1799ca2266ceecdf805f59dda5767f55843c11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:00 +0000
Subject: [PATCH 49/61] fix: merging a zero time.Time does not clear the
 destination

---
 merge.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/merge.go b/merge.go
index 70a64de..f43791e 100644
--- a/merge.go
+++ b/merge.go
@@ -2,6 +2,7 @@ package xdb
 
 import (
 	"reflect"
+	"time"
 
 	"dario.cat/mergo"
 )
@@ -10,6 +11,7 @@ type transformers struct {
 }
 
 var (
+	typeOfGoTime     = reflect.TypeOf(time.Time{})
 	typeOfDate       = reflect.TypeOf(Time{})
 	typeOfID         = reflect.TypeOf(ID{})
 	typeOfNULLString = reflect.TypeOf(NULLString(""))
@@ -17,6 +19,16 @@ var (
 
 func (t transformers) Transformer(typ reflect.Type) func(dst, src reflect.Value) error {
 	switch typ {
+	case typeOfGoTime:
+		return func(dst, src reflect.Value) error {
+			if dst.CanSet() {
+				val := src.Interface().(time.Time)
+				if !val.IsZero() {
+					dst.Set(src)
+				}
+			}
+			return nil
+		}
 	case typeOfDate:
 		return func(dst, src reflect.Value) error {
 			if dst.CanSet() {
-- 
2.43.0


From b8748aaa01a515b19bb96e469ce81f8cc8a0cbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:13 +0000
Subject: [PATCH 50/61] fix: a fraction in YAML is not an ID

---
 id.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/id.go b/id.go
index 2d25c8d..4624611 100644
--- a/id.go
+++ b/id.go
@@ -78,10 +78,19 @@ func (v ID) MarshalYAML() (any, error) {
 }
 
 func (v *ID) UnmarshalYAML(unmarshal func(any) error) error {
-	var val uint64
-	if err := unmarshal(&val); err != nil {
+	// a number would be decoded from a fraction too
+	var s string
+	if err := unmarshal(&s); err != nil {
 		return err
 	}
+	if s == "" {
+		*v = NewID(0)
+		return nil
+	}
+	val, err := ParseUint(s)
+	if err != nil {
+		return errors.Errorf("expected number value to unmarshal ID: %s", s)
+	}
 	*v = NewID(val)
 	return nil
 }
-- 
2.43.0


From ae0506cfbd38e397b3ed718938a0dd2dd8ae742f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:37 +0000
Subject: [PATCH 51/61] fix: refuse to store text that JSON would change in
 strings, metadata and sets

---
 types.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/types.go b/types.go
index 23437f9..3d762bc 100644
--- a/types.go
+++ b/types.go
@@ -9,6 +9,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	"github.com/cockroachdb/errors"
 	"github.com/effective-security/x/maps"
@@ -137,6 +138,16 @@ func QuotedIDString(id uint64) string {
 	return "\"" + strconv.FormatUint(id, 10) + "\""
 }
 
+// validText returns an error if a string can not be encoded in JSON without being changed
+func validText(vals ...string) error {
+	for _, s := range vals {
+		if !utf8.ValidString(s) {
+			return errors.Errorf("invalid UTF-8 text: %q", s)
+		}
+	}
+	return nil
+}
+
 // Strings de/encodes the string slice to/from a SQL string.
 type Strings []string
 
@@ -170,6 +181,9 @@ func (n Strings) Value() (driver.Value, error) {
 	if n == nil {
 		return nil, nil
 	}
+	if err := validText(n...); err != nil {
+		return nil, err
+	}
 	value, err := json.Marshal(n)
 	if err != nil {
 		return nil, errors.WithStack(err)
@@ -268,6 +282,11 @@ func (n Metadata) Value() (driver.Value, error) {
 	if len(n) == 0 {
 		return nil, nil
 	}
+	for k, v := range n {
+		if err := validText(k, v); err != nil {
+			return nil, err
+		}
+	}
 	value, err := json.Marshal(n)
 	if err != nil {
 		return nil, errors.WithStack(err)
@@ -324,6 +343,11 @@ func (n KVSet) Value() (driver.Value, error) {
 	if len(n) == 0 {
 		return nil, nil
 	}
+	for k, v := range n {
+		if err := validText(append([]string{k}, v...)...); err != nil {
+			return nil, err
+		}
+	}
 	value, err := json.Marshal(n)
 	if err != nil {
 		return nil, errors.WithStack(err)
-- 
2.43.0


From 3960170ad65db42ded16e7a4a23f81a01e9faa96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:10 +0000
Subject: [PATCH 52/61] fix: a migration with nothing to do reports that the
 lock was not released

---
 migrate/migrate.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/migrate/migrate.go b/migrate/migrate.go
index e99cd3e..ccf3efe 100644
--- a/migrate/migrate.go
+++ b/migrate/migrate.go
@@ -104,7 +104,8 @@ func Migrate(provider, dbName, migrationsDir string, forceVersion, migrateVersio
 	}
 
 	if err != nil {
-		if errors.Is(err, migrate.ErrNoChange) {
+		// the error is joined with others, if there are any
+		if err == migrate.ErrNoChange {
 			logger.KV(xlog.INFO, "db", dbName, "status", "no_change", "version", version)
 			return nil
 		}
-- 
2.43.0


From c596c4d692cb8500f8264895879bae146aa38502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:59 +0000
Subject: [PATCH 53/61] fix: SQL Server's database parameter in any case names
 the database of the source

---
 db.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/db.go b/db.go
index 3951383..1b20e84 100644
--- a/db.go
+++ b/db.go
@@ -174,6 +174,14 @@ func withDatabase(ds, param, database string) (string, error) {
 		u.Path, u.RawPath = "", ""
 	}
 	q := u.Query()
+	if u.Scheme == "sqlserver" {
+		// names of parameters are not case-sensitive
+		for k := range q {
+			if strings.EqualFold(k, param) {
+				q.Del(k)
+			}
+		}
+	}
 	q.Set(param, database)
 	u.RawQuery = q.Encode()
 	return u.String(), nil
@@ -255,6 +263,10 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	}
 	for k := range q {
 		s.Params[k] = q.Get(k)
+		if s.Database == "" && s.Driver == "sqlserver" && strings.EqualFold(k, "database") {
+			// names of parameters are not case-sensitive
+			s.Database = q.Get(k)
+		}
 	}
 
 	return s, nil
-- 
2.43.0


From 7d99243068cbfddbce0f4c7bfa3e99919c0b63d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:14 +0000
Subject: [PATCH 54/61] fix: quotes around a data source are removed when white
 space follows them

---
 db.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/db.go b/db.go
index 1b20e84..10c15b5 100644
--- a/db.go
+++ b/db.go
@@ -123,7 +123,7 @@ func Open(dataSource, database string) (*sql.DB, string, string, error) {
 		return nil, "", "", errors.WithMessagef(err, "failed to load config")
 	}
 
-	ds = strings.Trim(ds, "\"")
+	ds = strings.Trim(strings.TrimSpace(ds), "\"")
 	ds = strings.TrimSpace(ds)
 
 	source, err := ParseConnectionString(ds)
@@ -239,7 +239,7 @@ func ParseConnectionString(dataSource string) (*Source, error) {
 	if err != nil {
 		return nil, errors.WithMessagef(err, "failed to load config")
 	}
-	ds = strings.Trim(ds, "\"")
+	ds = strings.Trim(strings.TrimSpace(ds), "\"")
 	ds = strings.TrimSpace(ds)
 
 	u, err := url.Parse(ds)
-- 
2.43.0


From 331869d1b6d0184f995bc5fb88964afbdd9509d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:56 +0000
Subject: [PATCH 55/61] fix: nothing is delivered out of order while a listener
 is being closed

---
 pkg/notifier/listener.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/notifier/listener.go b/pkg/notifier/listener.go
index 79a48bf..16f3e9d 100644
--- a/pkg/notifier/listener.go
+++ b/pkg/notifier/listener.go
@@ -107,6 +107,12 @@ func (l *listener) dispatch() {
 			continue
 		}
 		select {
+		case <-l.closed:
+			// nothing more to deliver
+			continue
+		default:
+		}
+		select {
 		case sub.notify <- n:
 		case <-sub.done:
 		case <-l.closed:
-- 
2.43.0


From fa3af5e8265e7b37f11786aac2a9cab222f5b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:05 +0000
Subject: [PATCH 56/61] fix: models of SQL Server's tinyint columns hold all
 their values (0 to 255)

---
 internal/cli/schema/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/cli/schema/types.go b/internal/cli/schema/types.go
index 3ace554..c01f856 100644
--- a/internal/cli/schema/types.go
+++ b/internal/cli/schema/types.go
@@ -32,7 +32,7 @@ var typeByColumnType = map[string]string{
 	"int":      "int32",
 	"int2":     "int16",
 	"smallint": "int16",
-	"tinyint":  "int8",
+	"tinyint":  "uint8",
 
 	"decimal": "float64",
 	"numeric": "float64",
-- 
2.43.0


From 6385144e86b1c1fb11feb2d031cf57f12a581c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:17 +0000
Subject: [PATCH 57/61] fix: a Postgres view without columns does not fail the
 listing of views

---
 schema/postgres.go | 10 +++++-----
 schema/provider.go |  5 ++++-
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index f287b9b..16ab444 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -46,12 +46,12 @@ const postgresQueryViews = `
 SELECT
 	t.table_schema as table_schema,
 	t.table_name as table_name,
-	c.column_name,
-	c.data_type,
-	c.udt_name,
-	c.is_nullable,
+	COALESCE(c.column_name, ''),
+	COALESCE(c.data_type, ''),
+	COALESCE(c.udt_name, ''),
+	COALESCE(c.is_nullable, ''),
 	c.character_maximum_length,
-	c.ordinal_position 
+	COALESCE(c.ordinal_position, 0)
 FROM information_schema.tables t
 LEFT JOIN information_schema.columns c 
 	   ON t.table_schema = c.table_schema 
diff --git a/schema/provider.go b/schema/provider.go
index 07e59c6..f4556b2 100644
--- a/schema/provider.go
+++ b/schema/provider.go
@@ -194,7 +194,10 @@ func (r *SQLServerProvider) ListViews(ctx context.Context, schemas []string, tab
 			}
 			tablesMap[n] = t
 		}
-		t.Columns = append(t.Columns, c)
+		// a view may have no columns
+		if c.Name != "" {
+			t.Columns = append(t.Columns, c)
+		}
 	}
 	if rows.Err() != nil {
 		return nil, rows.Err()
-- 
2.43.0


From 8700266a763a344ed4342a665d5071dee84d077b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:17 +0000
Subject: [PATCH 58/61] fix: indexes of partitioned Postgres tables are listed

---
 schema/postgres.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/postgres.go b/schema/postgres.go
index 16ab444..a1083fb 100644
--- a/schema/postgres.go
+++ b/schema/postgres.go
@@ -83,7 +83,7 @@ WHERE
 	and i.oid = ix.indexrelid
 	and a.attrelid = t.oid
 	and a.attnum = ANY(ix.indkey)
-	and t.relkind = 'r'
+	and t.relkind IN ('r', 'p')
 	and ixs.indexname = i.relname
 	and ixs.schemaname = n.nspname
 	and ixs.tablename = t.relname
-- 
2.43.0


From 540602f1766967ba18ac63908b486687a09eb59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:17 +0000
Subject: [PATCH 59/61] fix: names of indexed SQL Server columns are not
 XML-escaped

---
 schema/sqlserver.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/sqlserver.go b/schema/sqlserver.go
index 47a05e5..153824e 100644
--- a/schema/sqlserver.go
+++ b/schema/sqlserver.go
@@ -68,7 +68,7 @@ SELECT
 FROM sys.objects t
     inner join sys.indexes i
         on t.object_id = i.object_id
-    cross apply (select col.[name] + ','
+    cross apply (select (select col.[name] + ','
                     from sys.index_columns ic
                         inner join sys.columns col
                             on ic.object_id = col.object_id
@@ -76,7 +76,7 @@ FROM sys.objects t
                     where ic.object_id = t.object_id
                         and ic.index_id = i.index_id
                             order by col.column_id
-                            for xml path ('') ) D (column_names)
+                            for xml path (''), type).value('.', 'nvarchar(max)') ) D (column_names)
 WHERE t.is_ms_shipped <> 1 
     AND index_id > 0
     AND t.[type] = 'U' 
-- 
2.43.0


From 4b4da362031cb6d1ee0fd5e9d64bd08184500f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:36 +0000
Subject: [PATCH 60/61] fix: columns with views are not one JSON or YAML
 document

---
 internal/cli/schema/schema.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index 2ac6ded..c672fef 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -53,18 +53,14 @@ func (a *PrintColumnsCmd) Run(ctx *cli.Cli) error {
 		return err
 	}
 
-	_ = ctx.Print(res)
-
 	if a.Views {
-		res, err = r.ListViews(ctx.Context(), a.Schema, a.Table)
+		vres, err := r.ListViews(ctx.Context(), a.Schema, a.Table)
 		if err != nil {
 			return err
 		}
-		if len(res) > 0 {
-			_ = ctx.Print(res)
-		}
+		res = append(res, vres...)
 	}
-	return nil
+	return ctx.Print(res)
 }
 
 // PrintTablesCmd prints database tables with dependencies
-- 
2.43.0


From 0a0814027c2f233bcbc3d9ebd9fede07742bc718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:40 +0000
Subject: [PATCH 61/61] fix: schema generate reports failed writes of its files

---
 internal/cli/schema/schema.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/cli/schema/schema.go b/internal/cli/schema/schema.go
index c672fef..87970a2 100644
--- a/internal/cli/schema/schema.go
+++ b/internal/cli/schema/schema.go
@@ -433,7 +433,9 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format models: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		if _, err = w.Write(code); err != nil {
+			return errors.WithMessagef(err, "failed to write models")
+		}
 
 		var schemaHeaderCodeTemplate = template.Must(template.New("schemaHeaderCodeTemplate").Funcs(templateFuncMap).Parse(codeSchemaHeaderTemplateText))
 		var schemaCodeTemplate = template.Must(template.New("schemaCodeTemplate").Funcs(templateFuncMap).Parse(codeTableSchemaTemplateText))
@@ -490,7 +492,9 @@ func (a *GenerateCmd) generate(ctx *cli.Cli, provider, dbName string, res schema
 		if err != nil {
 			return errors.WithMessagef(err, "failed to format schema: %s", string(data))
 		}
-		_, _ = w.Write(code)
+		if _, err = w.Write(code); err != nil {
+			return errors.WithMessagef(err, "failed to write schema")
+		}
 	}
 	return nil
 }
-- 
2.43.0

