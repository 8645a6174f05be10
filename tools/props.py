def P(id, title, statement, over, text, why, files, mech, technique, note):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), technique=technique, note=note)

def N(id, title, statement, over, text, why, files, mech, reason):
    p = P(id, title, statement, over, text, why, files, mech, '', '')
    p['reason'] = reason
    return p

ENG = 'path-sensitive abstract interpretation over SSA'

PROPS = [
P('C01', 'Result sets are always released',
  'Every result set that a library call opens is closed by the time the call returns, whether it ends normally, stops early at a limit, fails, or the row callback of the caller panics. None is read after it was closed. While reading database metadata, no further statement is sent while a result set of an earlier statement is still open.',
  ['inputs', 'fault_sequences'], 'every path of every function that obtains rows, with an error or a panic at every call made while they are open',
  'The tests use sqlmock or small tables and never fail in the middle of an iteration; a leaked result set shows only when the connection pool is exhausted.',
  ['query.go', 'schema/postgres.go', 'schema/sqlserver.go', 'schema/provider.go', 'xsql/executor.go'],
  [('deferred Close of the rows', 'query.go ExecuteListQuery; xsql/executor.go Query; schema/* Query*')],
  'typestate of result sets, ' + ENG,
  'Decides the ownership of every *sql.Rows and *sql.Row in the library on every abstract path, including panics of user callbacks. Trusts the contract of database/sql.Rows.'),
P('C02', 'An interrupted result set is never returned as a complete one',
  'When reading rows stops because of a driver or connection error and not because the rows are exhausted, the call that lists rows returns an error. It never returns a shortened list, page or set of metadata with a nil error.',
  ['fault_sequences'], 'an interruption at any row of any listing call',
  'No test makes the driver fail in the middle of the rows of these calls; the result looks exactly like a smaller table.',
  ['query.go', 'schema/postgres.go', 'schema/sqlserver.go', 'schema/provider.go', 'xsql/executor.go'],
  [('rows.Err after the iteration', 'query.go ExecuteListQuery; schema/provider.go; xsql/executor.go Query')],
  'must-check dataflow rule, ' + ENG,
  'Every path that leaves an iteration over rows because Next returned false must return the error of the rows or have proven it nil. Trusts the contract of database/sql.Rows.'),
P('C03', 'No operation reports success after a failed step',
  'When a step that an operation performs reports an error (a statement, transaction, scan, parse, encoding, file or migration step), the operation returns an error. Only documented benign outcomes are exempt: rolling back a finished transaction, no pending migration, no version yet.',
  ['fault_sequences'], 'a failure of any call made by any function that itself returns an error',
  'Tests inject a handful of failures; the property is about a failure of every single call.',
  ['db.go', 'prov.go', 'query.go', 'types.go', 'id.go', 'time.go', 'schema/provider.go', 'migrate/migrate.go', 'pkg/flake/flake.go', 'internal/cli/cli.go', 'internal/cli/schema/schema.go', 'xsql/executor.go'],
  [('error returns', 'every function of the library with an error result')],
  'error-propagation effect rule, ' + ENG,
  'On every abstract path that can return a nil error, the error of every call on the path is proven nil or one of the listed benign sentinels. That the returned error has a particular text is not decided.'),
P('A02', 'The arguments of a statement stay in step with its text',
  'Whatever the order of the calls that build a statement, its arguments are in the order of the placeholders of its text: a part added to a clause gets its arguments behind those of the parts of the same and earlier clauses and before those of later clauses, in the given order, and no other argument is lost, moved or repeated. Setting LIMIT or OFFSET again replaces exactly its own argument.',
  ['inputs', 'histories'], 'every sequence of calls of the builder with any expressions and arguments',
  'The order of calls and clauses is unbounded; tests build a few statements in a usual order.',
  ['xsql/stmt.go', 'xsql/util.go'],
  [('place of a chunk and of its arguments', 'xsql/stmt.go Stmt.addChunk, insertAt')],
  'inductive invariant over a symbolic list of chunks by ' + ENG + ' with an algebra of list contents',
  'One step is decided for an arbitrary statement (any chunks, any number of arguments), so that all sequences follow by induction: place, text range and argument count of each chunk, and the content of the argument list. Trusts that an expression has as many placeholders as arguments are given with it.'),
P('A03', 'Clauses are written as given, in the order of SQL',
  'Each method of the builder adds exactly its keyword, the expression and the arguments given, with its own separator, to its own clause, however it is started; SetDialect makes the dialect given the one that statements are started with by default; the clauses come in the order of SQL, parts of a clause in the order of the calls. Sub-queries and unions are added with their text for the default dialect and their arguments, and are closed once.',
  ['inputs', 'programs'], 'every method of the builder with any arguments on any statement',
  'Tests compare some texts; the order and separators of all combinations are not covered.',
  ['xsql/stmt.go', 'xsql/dialect.go'],
  [('methods of the builder', 'xsql/stmt.go Stmt.*, newRow.*; xsql/dialect.go Dialect.*')],
  'contract checking with text rendering by ' + ENG,
  'Each method is decided against a table of its keyword, separator and place; the adding function against the text that a part must have. That a database accepts the text is not decided.'),
P('A01', 'A statement never has the text of another or of a former state',
  'The text of a statement is always that of its present parts and dialect: whenever a part is added or the dialect changes, the remembered text is dropped, and the cache of a dialect gives back a text only under the name it was stored with or, for a statement without a name, to statements whose text and layout of parts are equal. The cached text is returned as it was built, from the cache of the dialect of the statement.',
  ['inputs', 'histories'], 'every history of building, reading, changing, cloning and closing statements that share a dialect',
  'A wrong cache entry needs two particular statements in one process; no test builds such pairs.',
  ['xsql/stmt.go', 'xsql/cache.go'],
  [('remembered text and cache', 'xsql/stmt.go Stmt.String, cacheKey, addChunk, Invalidate; xsql/cache.go')],
  'effect rule for the remembered text and dependence (dataflow) analysis of the cache key, ' + ENG,
  'All paths of String and of every method of a statement; the key must carry, undiminished and for every part, each field of the parts that building the text reads. That two different statements with the same name get the text of the first is the documented use of names.'),
P('A04', 'Statements from the pool are blank and not shared',
  'A statement that is started is empty: nothing of a statement that was closed before (parts, arguments, scan targets, name, text, place of the last clause, options) is left in it; it has the dialect it was started with and a buffer of its own. Closing gives the statement and its buffer back exactly once, and no buffer is given back while it is in use.',
  ['histories'], 'every history of starting and closing statements',
  'Pools keep objects at the discretion of the runtime; what is left in a reused statement depends on the former one.',
  ['xsql/pool.go', 'xsql/dialect.go', 'xsql/stmt.go'],
  [('reuse of statements and buffers', 'xsql/pool.go getStmt, reuseStmt, getBuffer, putBuffer')],
  'typestate of pooled objects, ' + ENG,
  'Each field is either set when a statement is started or proven blank when it was given back. Trusts sync.Pool and bytebufferpool.'),
P('A05', 'A clone is equal to and independent of the original',
  'A clone of a statement has the same parts, arguments, scan targets, dialect, options and current clause as the original, in lists and a buffer of its own, so that it gives the same text and changing or closing one does not change the other; cloning does not change the original.',
  ['inputs', 'histories'], 'every statement that is cloned and everything done to the two afterwards',
  'Shared storage shows only for particular capacities of the lists and orders of changes.',
  ['xsql/stmt.go', 'xsql/pool.go'],
  [('Clone', 'xsql/stmt.go Stmt.Clone')],
  'aliasing and contents of lists by ' + ENG + ' with an algebra of list contents',
  'Decides contents and storage of each list of the clone for an arbitrary original. The elements (pointers to scan targets) are shared on purpose.'),
P('A06', 'Placeholders are numbered in the order of the arguments',
  'In the dialect postgres the n-th placeholder of the text, over all parts in order, becomes $n; an escaped placeholder becomes a question mark and uses no number; every other byte is kept. Parts are separated by one space where a new clause begins. In the other dialects the text is not altered.',
  ['inputs'], 'every statement and every text of its parts',
  'Texts with escapes, many placeholders or placeholders at the edges of parts are not in the tests.',
  ['xsql/dialect.go', 'xsql/stmt.go'],
  [('numbering', 'xsql/dialect.go writePg; xsql/stmt.go Stmt.String')],
  'loop invariants checked per iteration by ' + ENG,
  'The numbering function and the assembling loop are decided for one iteration from an arbitrary state. Numbering applies to parts with arguments. Trusts strconv and strings.Builder.'),
P('A07', 'Executing sends the text and arguments of the statement',
  'Query, QueryRow and Exec send the text of the statement with all its arguments, once, to the given executor with the given context, and return its result and its errors; each row is scanned into the targets and handed to the handler once, in order. The forms that close do the same and close the statement exactly once, behind its last use, on success and on failure.',
  ['inputs', 'fault_sequences'], 'every statement, executor and failure of any step',
  'Tests use a mock with a few statements; failures of scanning or of the end of the rows are not injected.',
  ['xsql/executor.go'],
  [('execution', 'xsql/executor.go Stmt.Query, QueryRow, Exec and the forms that close')],
  'typestate and dataflow of arguments and errors, ' + ENG,
  'All normal paths. Trusts the contract of database/sql, and that the executor and handler do not change the statement they are given.'),
P('B01', 'Scanning a column stores exactly the value, or fails',
  'Scanning NULL into any column type succeeds and stores its zero value, whatever the variable held before. Scanning a value either stores that value, unchanged and independent of the previous content and of the buffer of the driver, or returns an error; a number that the type cannot hold is never stored as another number. The text of a list, map or UUID is accepted both as string and as bytes, and a time as time.',
  ['inputs', 'histories'], 'every dynamic type a driver may pass, every value of it, every previous content of the variable',
  'The tests scan a few chosen values into fresh variables.',
  ['id.go', 'types.go', 'time.go'],
  [('Scan methods', 'id.go ID ID32 IDArray; types.go Int64 Int32 Float Bool NULLString UUID Strings Metadata KVSet; time.go Time')],
  'contract checking by ' + ENG + ' with intervals',
  'Each Scan is interpreted for every dynamic type with a symbolic value; the stored term is compared with the scanned one. Value equality through strconv, encoding/json and time.Parse is by their contracts; whether a text has a valid format is not decided.'),
P('B02', 'Values go to the database exactly, and empty ones as NULL',
  'A zero number, false, empty text, zero time, empty map or ID list or nil list is sent to the database as NULL, and nothing else is. Any other value is sent as a type that drivers accept, carrying the same number, text, instant or JSON of the collection; converting an ID list yields one element for each ID, in order.',
  ['inputs'], 'every value of every column type',
  'The tests check a few values per type.',
  ['id.go', 'types.go', 'time.go'],
  [('Value methods and list conversions', 'id.go, types.go, time.go')],
  'contract checking by ' + ENG,
  'The driver value of each path is compared with the receiver symbolically. JSON text is by the contract of encoding/json.'),
P('B03', 'Numbers and IDs survive JSON and text conversion exactly',
  'Encoding an ID or integer to JSON or text writes exactly its decimal digits, and decoding succeeds only with the number that the digits denote in the width of the type; out of range or malformed input is an error. Every such number is accepted, also in quotes. Empty, zero and null JSON input decode to zero, and parsing an ID text never succeeds with zero. A Bool decodes to true exactly from true or 1, and else to false. The methods that give the plain number or bool of a value give that of the value. MustID panics, and TryParseID gives the zero ID, for exactly the texts that ParseID refuses.',
  ['inputs', 'histories'], 'every number of every width, every previous content of the variable',
  'Tests cover a few numbers; truncation shows only above 2^31, 2^53 or 2^63.',
  ['id.go', 'types.go'],
  [('MarshalJSON, UnmarshalJSON, String, ParseID', 'id.go, types.go')],
  'contract checking by ' + ENG + ' with intervals',
  'Decided over symbolic numbers with the contracts of strconv; floats are not covered.'),
P('B06', 'Times are in UTC and truncated, whatever their source',
  'Every time value the library makes, parses, scans, decodes or hands out is in UTC or the zero time. Times made from the clock, an offset or a text are truncated to the default precision, and the text of a time is its UTC form in the default format, empty exactly for the zero time. Unix milliseconds are converted to and from a time exactly.',
  ['inputs', 'configurations'], 'every input and every local time zone of the process',
  'Tests run in one time zone with a few values.',
  ['time.go'],
  [('UTC and Truncate calls', 'time.go')],
  'value-flow contracts by ' + ENG,
  'Decides that the location of every produced time is UTC and truncation is applied. That formatting and parsing round-trip is a fact of package time and is not decided.'),
P('B05', 'IDs are immutable values, and ID lists are sets',
  'An ID is a value: setting, resetting or decoding one variable never changes another variable or copy holding the ID; an ID is valid exactly when its number is not zero, and it is zero after a reset. The set operations on ID lists are exact: Add keeps the list when it has the ID and otherwise appends it, Contains and Overlaps tell membership, Concat has the IDs of both, Sort orders by number ascending, a list made from texts has the IDs of exactly the texts that are IDs, and, apart from Sort, which may order the list in place, no list they return shares writable storage with another list.',
  ['inputs', 'histories'], 'every history of operations on copies of IDs and on lists derived from one another',
  'Aliasing shows only after a particular history of copies, growth of capacity and later writes.',
  ['id.go'],
  [('ID value and its text cache; IDArray operations', 'id.go ID, IDArray')],
  'ownership and aliasing rules with loop invariants, ' + ENG,
  'Decides that no cell reachable from two IDs is written, that list operations store into fresh storage, and membership by inductive summaries of the loops.'),
P('B07', 'Merge overwrites with what is set, and keeps the rest',
  'Merging a source into a destination overwrites an ID, Time or NULLString field when, and only when, the one of the source is set (a valid ID, a non-zero time, a non-empty text). A zero source value never erases a value of the destination, and a set one is never ignored.',
  ['inputs'], 'every type offered to the merge and every value of source and destination',
  'The tests merge a few structs.',
  ['merge.go'],
  [('transformers of the merge', 'merge.go transformers.Transformer, Merge')],
  'contract checking by ' + ENG,
  'Decides the transformer of each type and the options given to mergo; the merge of other types is mergo itself and not decided.'),
P('B08', 'Not-found errors are recognised, and only those',
  'IsNotFoundError is true exactly for an error whose chain has sql.ErrNoRows or an ErrorNotFound, or whose text says that there are no rows in the result set. CheckNotFoundError returns nil for nil, an ErrorNotFound with the given table, ID and cause for a missing row, and any other error still wrapped in the result. Two ErrorNotFound match exactly when table and ID do.',
  ['inputs'], 'every error value and every chain of wraps', 'Tests try a few errors.',
  ['types.go'],
  [('error classification', 'types.go IsNotFoundError')],
  'decision-table checking by ' + ENG,
  'Decides the truth table of the classification over the facts errors.Is / errors.As / text. Trusts the contracts of the errors package.'),
P('C08', 'List queries return every row once and in order',
  'A list query that succeeds returns one separate, freshly scanned object for each row of the result set, in the order of the rows, none skipped, repeated or shared. A single-row query returns the scanned object or an error. The query text and all arguments of the caller reach the database unchanged, with query parameters replaced by their arguments.',
  ['inputs', 'fault_sequences'], 'every result set, query text, argument list, and failure',
  'The tests use a few small tables.',
  ['query.go'],
  [('row loop', 'query.go ExecuteListQuery, QueryRow, ExecuteQuery*')],
  'loop-invariant checking by ' + ENG,
  'Decides the loop over the rows inductively: one Next, one scan of an object made in the iteration, one append of it. Trusts the contract of database/sql.'),
P('C09', 'A connection that is opened is kept or closed',
  'A call that opens a database, or starts a transaction, and then fails leaves nothing open: what it opened is closed (or rolled back) on every path on which it returns an error. On every path on which it succeeds, what it opened is what the caller gets, or is kept in an object that the caller has and can close. No handle is dropped.',
  ['fault_sequences', 'histories'], 'every path of every function that opens a database, makes a provider or starts a transaction, with a failure of any step',
  'A pool that is left behind by a failed ping or migration fails no test; a program that tries again until the database answers uses up its connections.',
  ['db.go', 'prov.go', 'internal/cli/cli.go'],
  [('open', 'db.go Open, NewProvider'), ('transaction', 'prov.go BeginTx'), ('command line', 'internal/cli/cli.go DB')],
  'ownership rule for handles over the paths of the functions that obtain them, ' + ENG,
  'The handles that other modules open inside are theirs (the connection that golang-migrate takes from the pool is not followed).'),
P('C10', 'Only elements that exist are used',
  'Whatever the input is - an empty list, an empty name, a text that ends with an escape character, a value of any length from a driver - no element behind the end of a list, text or byte string is used, and no part that is longer than it: wherever a function takes an element or a part of what it was given, it has made sure that it is there, so that no input ends the program with an index that is out of range.',
  ['inputs'], 'every index and every cut part of a list, array or text in every function, on every path',
  'An index is out of range for one length of the input; the tests use names, texts and lists of ordinary lengths.',
  ['xsql/stmt.go', 'xsql/dialect.go', 'types.go', 'id.go', 'query.go', 'internal/cli/schema/schema.go', 'pkg/flake/flake.go', 'cmd/xdbcli/main.go'],
  [('indexes and parts', 'every function of the library')],
  'bounds rule with linear arithmetic over the paths of every function, ' + ENG,
  'Not decided are indexes that a caller gives, that another function of the library returns or that an object keeps (the positions of the parts of a statement, which the A properties concern), lower bounds of variables that a loop counts down, and upper bounds of counters that no test of the loop bounds.'),
P('E01', 'Generated IDs are unique and increasing',
  'Calls of NextID on one generator, from any number of goroutines and whatever the clock does, return pairwise different and strictly increasing positive IDs that carry the machine number; it panics rather than exceed the limit. The NextID of a provider returns exactly the ID of its generator, which is the one it was made with or, without one, the default generator.',
  ['inputs', 'schedules', 'histories'], 'every interleaving of callers and every sequence of clock readings, also backwards',
  'Tests draw some IDs with a well-behaved clock.',
  ['pkg/flake/flake.go', 'prov.go'],
  [('NextID under the mutex; packing of time, sequence, machine', 'pkg/flake/flake.go NextID, toID')],
  'lock discipline and ordering rule over bit-vector terms, ' + ENG,
  'Shows for each path that (time, sequence) increases lexicographically and that the packing is injective and monotone in it, all under the lock. Uniqueness across machines with equal machine numbers is not decided.'),
P('E03', 'Generators are made as their settings say',
  'NewIDGenerator returns a generator only if its start time is not after the current time, the machine number was given without an error, and the check of the settings, if any, accepts that number; otherwise it panics, and for no other reason as long as the time fits the IDs. The generator has exactly the machine number that the function of the settings gives. Without one it has the last two bytes of the first address of the machine that is not loopback, whatever kind of address it is, and 0 if there is none.',
  ['inputs', 'configurations'], 'every setting and every list of addresses of the machine',
  'Tests run with the default settings and in test mode, where the addresses are not asked for.',
  ['pkg/flake/flake.go'],
  [('settings and default machine number', 'pkg/flake/flake.go NewIDGenerator, defaultMachineID')],
  'contract checking by ' + ENG,
  'Each path of the constructor, with its helpers, is decided. That numbers differ between machines is not decided; in tests the number is a hash of the program.'),
P('E02', 'The parts and the time of an ID are those it was made with',
  'Decomposing an ID gives back the time, sequence and machine number it was packed from; the time of an ID is the start time of its generator plus its time part, in UTC, for each kind of generator a provider accepts. FirstID and LastID return the first and the most recent ID of the generator.',
  ['inputs', 'histories'], 'every ID and generator', 'Tests decompose a few IDs.',
  ['pkg/flake/flake.go', 'prov.go'],
  [('Decompose, IDTime, FirstID, LastID', 'pkg/flake/flake.go; prov.go IDTime')],
  'bit-vector dataflow and contract checking by ' + ENG,
  'Decided bit by bit against the packing of NextID.'),
P('F01', 'Query parameters of different shape have different names',
  'The name of query parameters is determined by the query name, the set positions, enums, flags, whether a cursor or an offset is used and the set of null columns: any of them that differs gives another name, whenever the name was asked for before. Asking for the name, and argument values that do not change the shape, change nothing.',
  ['inputs', 'histories'], 'every sequence of setters and accessors', 'Tests compare a few names.',
  ['params.go'],
  [('Name and the cached name', 'params.go QueryParamsBuilder.Name and the setters')],
  'cache-invalidation and injectivity rules, ' + ENG,
  'Decides that each shape field is written to the name, delimited, and that each setter invalidates the name. Collisions of the 64-bit hash are not decided.'),
P('F02', 'Query parameters give back what was set',
  'Args are exactly the values given, in the order of the calls, with the cursor before the limit and the limit before the offset, at the end; Page and Cursor return what was set with the default page size for 0. A position is set exactly if a setter was called for it, an enum is found at its own position only, and Reset leaves nothing behind but the query name.',
  ['inputs', 'histories'], 'every sequence of setter calls with any values', 'Tests use a few sequences.',
  ['params.go'],
  [('setters and accessors', 'params.go QueryParamsBuilder')],
  'contract checking with bit vectors by ' + ENG,
  'Decides each setter and accessor for a symbolic builder; whole sequences follow by induction.'),
P('F03', 'Pages report correctly whether there is a next one',
  'A paginated query reports a next page exactly when a limit is set and at least that many rows came back; the next offset is then the offset plus the number of rows, else 0. The result receives exactly the rows of the query, once, only on success, and limit, offset and cursor are taken from the parameters or the last arguments.',
  ['inputs'], 'every number of rows, limit and offset, in both forms of arguments', 'Tests use a few pages.',
  ['query.go', 'params.go'],
  [('ExecuteQueryWithPagination, ExecuteQueryWithCursor, PageParam', 'query.go, params.go')],
  'contract checking by ' + ENG,
  'Decided symbolically in the numbers of rows, limit and offset.'),
P('F04', 'A cursor decodes to the values it was made of',
  'Decoding an encoded cursor uses the same alphabet and format it was encoded with, and returns exactly the decoded map; a text that is not a cursor is an error and never a partial or empty map with a nil error.',
  ['inputs'], 'every map and every text', 'Tests use a few cursors.',
  ['query.go'],
  [('EncodeCursor, DecodeCursor', 'query.go')],
  'codec-agreement rule by ' + ENG,
  'Decides that both sides use the same base64 encoding and JSON and that errors are returned; that JSON numbers come back as float64 is not decided.'),
P('C04', 'Handles are closed exactly when nobody owns them',
  'Whatever a call acquires (connection pool, transaction, prepared statement, ticker, file, listener) is released when the call fails, and is open and owned by the result or by the caller when it succeeds. Close of a provider closes its pool and stops its ticker on every path and may be called again; migrations leave the pool open that they are given.',
  ['inputs', 'fault_sequences', 'histories'], 'a failure of any step of any function that acquires a handle, and every sequence of Close calls on a new provider',
  'Tests open databases that answer; a leaked pool or a handle that is returned closed shows only after a failure in the middle.',
  ['db.go', 'prov.go', 'migrate/migrate.go', 'pkg/notifier/listener.go', 'internal/cli/cli.go', 'internal/cli/schema/schema.go'],
  [('closing after a failure', 'db.go Open, NewProvider'), ('Close', 'prov.go SQLProvider.Close; pkg/notifier/listener.go Close; internal/cli/cli.go Cli.Close'), ('ticker', 'prov.go keepAlive')],
  'ownership typestate of handles, ' + ENG,
  'Decides each acquired handle at every exit and loop iteration of every function that acquires one. Trusts the contracts of the constructors and of Close.'),
P('C05', 'A transaction provider uses its transaction and nothing else',
  'All statements of a provider made by BeginTx go, once and as given, to its own transaction, those of any other provider to its pool. Commit and Rollback end exactly that transaction and report its outcome; afterwards statements fail instead of running outside it. Nested transactions are refused, the original provider is not changed, and closing a transaction provider rolls back and leaves the pool open.',
  ['inputs', 'histories'], 'every call of every method of a provider in and outside a transaction, with any context, text and arguments',
  'Tests use mocks that do not distinguish the pool from a transaction in every method; a statement that escapes the transaction succeeds and is lost only on rollback.',
  ['prov.go'],
  [('routing of statements', 'prov.go QueryContext, QueryRowContext, ExecContext, DB, Tx'), ('transaction', 'prov.go BeginTx, Commit, Rollback, Close')],
  'contract checking by ' + ENG,
  'Each method is decided with the transaction absent and present against the handle it must use. Trusts database/sql for what a transaction does.'),
P('C06', 'A failure is an error, not a panic',
  'After a step that failed, nothing that it gave is used - also not by a deferred call - and a value that was found to be missing is not used as if it were there: no method of a nil interface is called, nothing is read or written through a nil pointer, no entry is put into a nil map and no element behind the end of a list is used, on any path of any function that has established this. So a failure or an empty result is reported, and does not end the program with a panic.',
  ['fault_sequences', 'inputs'], 'every path of every function, with a failure of any step and any value that the path tests',
  'A panic on the path of a failure needs the failure of this very step; the tests inject few, and a program that embeds the library ends.',
  ['db.go', 'prov.go', 'query.go', 'id.go', 'types.go', 'schema/provider.go', 'migrate/migrate.go', 'pkg/notifier/listener.go', 'pkg/flake/flake.go', 'xsql/stmt.go', 'xsql/executor.go', 'internal/cli/cli.go', 'internal/cli/schema/schema.go'],
  [('failures and missing values', 'every function of the library')],
  'nilness and typestate rule over the paths of every function, ' + ENG,
  'Decided is what a path knows: values that it has tested, created or set, and the results of calls whose error it has tested. Whether a value that no path asks about can be nil is not decided, and panics that are documented (Set, SetPage and MustID of wrong arguments) are not concerned.'),
P('C07', 'Background goroutines end when the user says so',
  'The goroutine that keeps a provider alive ends after Close, the one that listens ends when its context is done or the listener is closed; no iteration of their loops passes without waiting for that, and none goes on after it. No goroutine of the library closes a database or a listener that the user goes on using.',
  ['schedules', 'histories'], 'every path of every goroutine the library starts, with all that others may change at the same time forgotten',
  'A goroutine that is left behind fails no test; it holds memory and a connection for ever.',
  ['prov.go', 'pkg/notifier/listener.go'],
  [('keep alive', 'prov.go keepAlive'), ('listening', 'pkg/notifier/listener.go Listen')],
  'loop and channel analysis of every go statement, ' + ENG,
  'Each goroutine is run from the state of its start, with shared memory forgotten, and every iteration of its loops is decided; the stop channel must be one that Close closes on all paths or that of the context given. That a call of the driver returns is trusted.'),
P('K01', 'Each notification is delivered once, as it was received',
  'A listener connects with the connection string of its provider, and again within the intervals given or, without one, the default ones. Listen subscribes to its topic or fails. Every notification that its goroutine receives is passed to the callback exactly once, with the channel and payload as received and the decoded payload; the mark of a new connection is not passed on. When the context is done the topic is unsubscribed; nothing else that Listen starts ends a subscription. The callback of a topic gets only notifications of that topic.',
  ['schedules', 'inputs'], 'every iteration of the listening loop with any notification',
  'The tests need a database to receive anything.',
  ['pkg/notifier/listener.go'],
  [('listening loop', 'pkg/notifier/listener.go Listen, parsePayload')],
  'contract checking of each loop iteration by ' + ENG,
  'Every iteration is decided for an arbitrary notification. That callbacks of one topic only get notifications of that topic fails on the tree and is a known finding.'),
P('H01', 'Migrations run as configured',
  'Opening a provider with a migration configured applies it to the database that was opened, before the provider is returned: a version to force is forced first and once, then exactly one migration runs, to the given version or, without one, over all pending steps, from the given directory. The providers are postgres, pgsql and sqlserver, each with its own driver. An unreadable directory or another provider is an error before anything is done; without a directory nothing is done.',
  ['inputs'], 'all combinations of provider, directory and versions, and a failure of any step',
  'No test runs a migration; the order and choice of the steps depend on combinations of settings.',
  ['migrate/migrate.go', 'db.go'],
  [('steps', 'migrate/migrate.go Migrate'), ('configuration', 'db.go NewProvider')],
  'contract checking of call sequences by ' + ENG,
  'The sequence of calls that change the database is decided for each combination of the settings. What the migration library does is trusted.'),
P('H02', 'Generated code describes its tables',
  'The generated model of a table has one field for each column of the table that is not to be dropped, in their order, with the name, type and tag of that column, and ScanRow scans a row into exactly these fields in this order and fails exactly if the scan does. Its results keep the rows, whether there is more, the offset or the cursor of the last row they are given. The generated description of the table has the schema, names, primary key, index names and the names of the same columns in the same order, in the dialect of the provider, and is the one that the model and the map of tables refer to. Every table of every schema is in the models and in the descriptions exactly once. Each text is written whole to the place for it - one file per schema - and only if nothing failed before; an error is returned. The types, names of fields and tables, cached models and dropped columns of the definitions are used. The name of a model is the one defined for its table, or else the exported Go name of the singular of the name of the table, behind that of its schema if the option says so and the schema is not a default one, followed by the suffix of the option; a field without a defined name has the exported Go name of its column. The package of each text is that of the option or of its folder, and it imports what the option says (and the driver, for models of Postgres). Without a folder a text is written to the output of the program.',
  ['inputs'], 'every list of tables, every option and definition, every error of a template, of formatting or of writing',
  'The tests generate code from one list of tables and look for a word in it; a field that does not match its column shows only when the generated code is compiled and used with other tables.',
  ['internal/cli/schema/schema.go', 'internal/cli/schema/template.go', 'schema/schema.go'],
  [('generator', 'internal/cli/schema/schema.go GenerateCmd.generate, writeCode'), ('templates', 'internal/cli/schema/template.go'), ('texts of a column', 'schema/schema.go StructString, Tag, IsPrimary')],
  'the templates are parsed from the source and read as Go code with holes, for both ways of each condition, type checked and analysed like the rest of the program; the generator by contract checking of its loops, ' + ENG,
  'text/template, go/format and bytes.Buffer are taken to work as documented, and names of tables and columns to have no quotes. That two columns or tables do not get the same Go name is not decided: the compiler refuses the generated code then. The choice of the Go type is G06.'),
P('I01', 'Commands do what their options say',
  'Each command of xdbcli asks the metadata provider of the named database exactly for what its options name: tables, views only when they are asked for, foreign keys, with the given filters of schemas, tables and views and with dependencies exactly when the option (or, for the list of names, the command) says so. It prints, or generates code for, exactly what it got, all of it in that order, in the chosen format to the configured writer: as one document per list, or one line "schema.name" for each table. Any error on the way is returned and ends the program as an error, before anything else is done. The data source is that of the option, or else of the environment variable, and it is refused exactly if there is neither. A connection or provider that was given or made is used again; one that could not be made is not kept; the connection is closed at the end.',
  ['inputs', 'fault_sequences'], 'every combination of options and results of the provider, an error at every step',
  'The tests run a few combinations of options against one mock or database; a filter that is passed on wrongly, a lost error or a skipped element goes unnoticed with the others.',
  ['internal/cli/cli.go', 'internal/cli/schema/schema.go', 'cmd/xdbcli/main.go'],
  [('commands', 'internal/cli/schema/schema.go Run'), ('context of the commands', 'internal/cli/cli.go'), ('program', 'cmd/xdbcli/main.go realMain')],
  'contract checking of each command with the calls it makes, ' + ENG,
  'On every abstract path the calls, their arguments and what is printed are compared with the options. That kong fills the options is trusted; what the provider and the generator do with what they are given are G01 to G04 and H02, and what is printed is I02.'),
P('I02', 'Printed tables have every row',
  'Printing as yaml or json writes exactly the encoded value (json indented by two spaces and ended by a line feed), and an error of the encoding or of writing is returned. Otherwise a table, a list of tables, of indexes or of foreign keys is printed to the writer as tables with exactly one row for each column, index or key, in their order, in which the cell under each header is the value that the header names - with nothing for what is not set - and each table is introduced by its own schema and name and followed by its indexes if it has any. Everything else is printed as json.',
  ['inputs'], 'every value of each type that can be printed, every format, an error of every write',
  'The tests print one or two rows with few fields set; a cell of the wrong field, a skipped row, or rows that share storage shows only with other values.',
  ['pkg/print/print.go', 'pkg/print/schema.go'],
  [('documents', 'pkg/print/print.go JSON, Yaml, Object'), ('tables', 'pkg/print/schema.go')],
  'contract checking of the loops that make the rows, ' + ENG,
  'The rows, cells and texts that reach the writer are followed on every abstract path. tablewriter, encoding/json and yaml.v3 are trusted to render what they are given. An error of writing in the table format is not reported by design (Print has no result).'),
P('J01', 'The database opened is the one asked for',
  'Opening a data source with a database name connects to that database with the driver of the scheme of the connection string: whatever the connection string says (another database as parameter or in the path, no parameters at all, special characters), exactly its database is replaced by the name, and all its other parts and parameters stay. Without a name the connection string is used as configured. What is returned is the handle that was opened and answered a ping, with its driver and the connection string used, and a provider keeps and gives back exactly these. A parsed connection string has the host, the user, the password and all parameters of its URL, and the database that these name.',
  ['inputs'], 'every connection string and database name, for each driver',
  'Tests that open a database need a server and use one form of connection string; a connection to the wrong database is not noticed by a test that knows only one.',
  ['db.go', 'prov.go'],
  [('opening', 'db.go Open, withDatabase'), ('the provider', 'db.go NewProvider, prov.go New, ConnectionString'), ('parsing', 'db.go ParseConnectionString')],
  'typestate of the URL under construction, by ' + ENG,
  'On every path to the call that opens a handle the state of the URL (what it was parsed from, which parts and parameters were assigned since) is decided. Trusts net/url and the drivers to read the encoded URL.'),
P('G01', 'Metadata queries ask for the right table, safely',
  'Each query for metadata is a constant text: names of schemas and tables are only passed as bound arguments, each to the placeholder that is compared with it. The query of each dialect has the columns its reader expects, foreign keys have the columns of the referencing and of the referenced table in their places, and NewProvider uses the queries of the database it is asked for on the given database.',
  ['inputs', 'programs'], 'every query method of every dialect, with any schema and table name',
  'The queries run only against a real database with particular tables; swapped arguments or columns give plausible lists.',
  ['schema/postgres.go', 'schema/sqlserver.go', 'schema/provider.go'],
  [('queries', 'schema/postgres.go, schema/sqlserver.go'), ('choice of the dialect', 'schema/provider.go NewProvider')],
  'analysis of constant query texts and argument binding by ' + ENG,
  'The text of each query is parsed for its select list and placeholders and compared with what the reader scans. Whether the database accepts the text is not decided.'),
P('G02', 'Metadata rows become the objects they describe',
  'Each row of a metadata query becomes exactly one table, column, index or foreign key whose fields are the columns of that row: names, types, nullability, positions, a length of 0 if there is none, uniqueness, the columns of an index in their order, and the full name made of schema, table and name. Columns of a view are collected in one table per view.',
  ['inputs'], 'every row of every metadata query of every dialect',
  'Tests check a few tables of one database; two targets of the same type that are swapped go unnoticed where the values agree.',
  ['schema/provider.go', 'schema/postgres.go', 'schema/sqlserver.go'],
  [('reading rows', 'schema/provider.go ListTables, ListViews, readColumnsSchema, readIndexesSchema, ListForeignKeys')],
  'contract checking of each row by ' + ENG,
  'Each iteration over rows is decided for arbitrary column values against the select list of each dialect.'),
P('G03', 'Metadata filters select exactly what they name',
  'A table, view or foreign key is listed exactly if its schema is among the given schemas or none are given, and its name is among the given tables or none are given, without regard to case. Columns and indexes of a listed table are never left out, every row is looked at, and the list has all that was kept, or with dependencies all tables that were found.',
  ['inputs'], 'every row and every pair of filters',
  'Tests use a few filters on a fixed schema.',
  ['schema/provider.go'],
  [('filters', 'schema/provider.go ListTables, ListViews, ListForeignKeys')],
  'path condition analysis by ' + ENG,
  'Each path of each iteration is decided: left out implies that a filter excludes the row, kept implies that both accept it. Trusts slices.ContainsStringEqualFold.'),
P('G04', 'Results do not depend on the order of maps',
  'The same database and the same input give the same result in the same order: tables and views are listed by their full name, columns by their position, and nothing else that the library returns, writes or generates depends on the random order in which Go visits a map.',
  ['inputs', 'schedules'], 'every order in which any map of the library may be visited',
  'A test sees one order, and small maps often come out alike.',
  ['schema/provider.go', 'db.go', 'xsql/stmt.go', 'internal/cli/schema/schema.go'],
  [('sorted lists', 'schema/provider.go ListTables, ListViews, readColumnsSchema, discover'), ('loops over maps', 'db.go ParseConnectionString')],
  'order-dependence analysis of loops over maps and a model of sorting, ' + ENG,
  'Every loop over a map in the library: what it leaves behind must not depend on the order of the visits, unless the list it collects is sorted on every path before it is returned. Trusts package sort and slices.'),
P('G05', 'Tables are linked to their keys, indexes and references',
  'Listing tables links what it read: each column has exactly the indexes that name it, the primary key of a table is the only column of its primary index and is not set for a composite one, and with dependencies each column has the foreign key that starts at it and every table that can be reached by references is in the result, with its columns and indexes, exactly once. Nothing of an earlier call is mixed in.',
  ['inputs', 'histories'], 'every database schema, also with cycles, composite keys and several schemas, and every sequence of calls',
  'The schemas that tests use have a few simple tables.',
  ['schema/provider.go', 'schema/schema.go'],
  [('links', 'schema/provider.go ListTables, readTable, discover, discoverTable; schema/schema.go IsPrimary, Names')],
  'iteration-wise contract checking of the linking loops, ' + ENG,
  'Each path of each iteration over rows, indexes, names of columns, columns and tables is decided against its rule; that all reachable tables are found follows by induction over the recursive call. That two calls are not made at once is the business of the caller.'),
P('G06', 'A generated field can hold every value of its column',
  'The Go type that is generated for a column holds every value of the type of the column: the whole range of an integer or float, text, time, binary, lists, and NULL if the column can be NULL. An integer column that is named as an ID (id in any case, or a name that ends in _id, Id or ID) gets an ID type, and no other integer column does. The type that the definitions give for the name of the column or for its full name is used instead, and no other. A column of an unknown type is refused and gets no type, and no column of a known type is refused.',
  ['inputs'], 'every column: name, type, nullability, with any definitions',
  'The tests generate code for the columns of a few tables; a type that is too small or does not hold NULL fails only with particular rows of a database.',
  ['internal/cli/schema/types.go'],
  [('choice of the type', 'internal/cli/schema/types.go toGoType, isID'), ('table of types', 'internal/cli/schema/types.go typeByColumnType')],
  'path analysis of the choice and of the constant table it uses, by ' + ENG,
  'Each path is decided for an arbitrary column, and each entry of the table is compared with a table of ranges of column types. Types that this table does not know are checked for NULL only. That the scanning types of the package take the values is B03.'),
P('G07', 'Statements of a table name its table and columns',
  'The statements that a description of a table starts - select, insert, update, delete - are built in the dialect of the table and name its full name, and a select has exactly the given expressions or else all columns of the table, in their order, none lost or repeated. An aliased select has, in the same order, NULL in the place of each column that is named among the null columns and each other column qualified by exactly the prefix, if there is one. A description is shared and is not changed by using it.',
  ['inputs'], 'every description of a table, every list of columns, prefix and set of null columns',
  'The tests use one or two tables with a few columns; a lost or doubled column shows with particular lists only.',
  ['schema/schema.go'],
  [('builders', 'schema/schema.go From, DeleteFrom, InsertInto, Update, Select, SelectAliased'), ('lists of columns', 'schema/schema.go AllColumns, AliasedColumns')],
  'contract checking of lists built by loops, ' + ENG,
  'Each iteration of the loop that builds a list is decided for an arbitrary column, and the loop is shown to go over all columns in order. The statement builders themselves are the business of C and F.'),
P('D01', 'Shared objects are safe for concurrent use',
  'The objects that goroutines share - an ID generator, a Dialect with its cache, copies of an ID, a provider, a TableInfo, a listener, package-level state - can be used by any number of goroutines at once without a data race: whatever a call or a goroutine of the library writes after construction is read and written under a common lock of the object, or atomically. The goroutines that the library starts use nothing that Close, or the function that started them, writes at the same time.',
  ['schedules'], 'every interleaving of calls on the same object, and of the goroutines of the library with Close',
  'A data race needs particular interleavings, and the suite does not run under the race detector with concurrent calls of these objects.',
  ['pkg/flake/flake.go', 'xsql/dialect.go', 'xsql/cache.go', 'id.go', 'prov.go', 'schema/schema.go', 'pkg/notifier/listener.go'],
  [('ID generator', 'pkg/flake/flake.go NextID, LastID, FirstID'), ('dialect and its cache', 'xsql/dialect.go, xsql/cache.go'), ('copies of an ID', 'id.go idptr'), ('keep-alive goroutine', 'prov.go keepAlive'), ('table descriptions', 'schema/schema.go TableInfo'), ('listener', 'pkg/notifier/listener.go Listen')],
  'lock-set analysis of accesses to shared places by ' + ENG + ', and a flow analysis of variables captured by goroutines',
  'For every exported function that reaches a field of a shared object, and every goroutine, each read and write of such a field (or of what it refers to) is collected with the locks held on the path; a place that is written must have a common lock in every pair of accesses that can be concurrent. Types of other modules guard themselves; a provider is not closed while calls use it.'),
]

NOT_APPLICABLE = [
N('Z01', 'Generated SQL is accepted and has the intended result on each database',
  'A statement built by the query builder is accepted by the database of its dialect and selects or changes exactly the intended rows.',
  ['inputs', 'programs'], 'every statement built and every database state', 'The tests compare texts; only a database can accept one.',
  ['xsql/stmt.go', 'xsql/dialect.go'], [('statement assembly', 'xsql/stmt.go')],
  'Depends on the grammar and the semantics of PostgreSQL and SQL Server at run time; no sound static argument over this Go source decides it. The structural parts (clause order, arguments in step with placeholders, numbering) are claimed separately.'),
N('Z02', 'The text of a time parses back to the same instant',
  'Formatting a time and parsing the text yields the same instant at the default precision.',
  ['inputs'], 'every instant', 'Tests use a few instants.', ['time.go'], [('Format and Parse', 'time.go')],
  'Round-trip equality quantifies over the numerical behaviour of package time (layouts, fractions); the source shape of this repository does not decide it.'),
]
