PROPS = []
NA = []

LIMITS = [
 "Bounds are stated per property; behaviour that needs more lines, columns, spans or longer names than the bound is outside.",
 "Real database servers, Hasura, AWS and Jaeger are represented by harness stand-ins that may answer or fail in any way the harness states; their own behaviour is assumed.",
 "The front end (client/, TypeScript/Svelte) is not Go and is outside this executor.",
 "Behaviour seen but not claimed either way: columns of GROUP BY, ORDER BY and HAVING of a derived table also count as its outputs; ordering by an alias of the select list is refused; what MySQL subqueries themselves use is not considered; PostgreSQL names are compared as the parser gives them.",
 "Also not claimed: only the first of several MySQL statements is analysed (EXPLAIN refuses several); tables of MySQL are looked up in lower case, so one declared with capitals on a case-sensitive server is refused; user names with ':' and databases with '/' or '?' in a MySQL DSN; span cycles; attributes without a value; a query without a table (SELECT 1) is refused; numbers of plans in the notations of later servers (1e+6, fractional row counts) are shown as absent.",
]
def P(id, title, statement, over, for_all, tests, files, mech, bounds):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech, bounds=bounds))
def N(id, title, statement, over, for_all, tests, files, mech, reason):
    NA.append(dict(p=dict(id=id, title=title, statement=statement, over=over, for_all=for_all, tests=tests, files=files, mech=mech), reason=reason))

P("C01", "Every temporary index is dropped again, whatever fails",
  "While indexes are examined, every index that was created is dropped on the same table under the same name before anything else is created and before the run ends, even when executing the query fails or panics. At most one temporary index exists at any time, nothing that was not created is dropped, and when a drop fails the run stops and reports it.",
  ["inputs", "fault_sequences"], "every list of examined indexes and every schedule of failures (create, run, drop; errors and panics)",
  "The tests run one index against a live database or a mock that succeeds; they reach no failure schedule.",
  ["database/dservice/examiner.go"],
  [("create / defer drop / execute", "database/dservice/examiner.go IndexEfficiencyExaminer.Run")],
  "0-3 (thorough 0-4) targets over two tables, each create, run and drop independently succeeding or failing, each run may panic; several kinds of error (timeout, cancelled, wrapped); 8 targets with one failing operation; the real MySQL, PostgreSQL and Hasura examiners with 0-2 (3) targets, failing statements, HTTP statuses and slow steps.")

P("C02", "Examination results report what was measured",
  "An examination succeeds exactly when every step succeeded, and a failed one yields no result. The original time is that of the run before any index exists; every requested index gets one result, in the requested order, with the time measured while exactly that index existed.",
  ["inputs", "fault_sequences"], "every list of examined indexes, every measured time, every failure schedule",
  "The tests check one index with fixed times.",
  ["database/dservice/examiner.go", "database/dmodel/examination_result.go"],
  [("measurement loop", "database/dservice/examiner.go")],
  "0-3 (thorough 0-5) targets, arbitrary 64-bit times, each step independently succeeds or fails; 8 targets, some equal or unsafe; the real MySQL, PostgreSQL and Hasura examiners with 0-2 (3) targets on a symbolic clock.")

P("C03", "Examining sends only the query, one CREATE and one DROP of that index",
  "For MySQL, PostgreSQL and Hasura, examining an index sends the user's query unchanged, one statement that creates an index on exactly the target's table and columns in order, and one that drops exactly that index. Whatever the names are, the statements contain nothing but keywords and quoted identifiers made of word characters, and the index name fits the database's length limit; names that cannot be quoted safely are refused.",
  ["inputs"], "every table and column name (any bytes, any length) and query text",
  "The tests use a few ordinary names.",
  ["database/mysql/mservice/index_examiner.go", "database/postgres/pservice/index_examiner.go", "database/hasura/hservice/index_examiner.go", "database/dmodel/index_target.go", "infra/hasura/client.go"],
  [("identifier building and quoting", "database/dmodel/index_target.go IsSafe/ToGravityIndexName"), ("statement building", "*/index_examiner.go")],
  "--index texts of any 0-4 (5) bytes; suggested targets with table names of any 1-2 bytes and 1-2 columns of any 1 (2) bytes; names up to 60 characters from a fixed long name cut at any length; queries of any 0-3 bytes; up to 16 columns.")

P("C04", "An --index text is accepted exactly when it is table:column[+column...]",
  "A text given for an index is accepted exactly when it is a word, a colon and one or more words joined by plus signs, with nothing before, after or between. An accepted text names exactly that table and those columns in that order; a list is accepted exactly when each text is, keeping number and order.",
  ["inputs"], "every byte string",
  "The tests try four texts.",
  ["database/dmodel/index_target.go"],
  [("text pattern and split", "database/dmodel/index_target.go NewIndexTargetFromText")],
  "all byte strings of 0-5 (6) bytes; all strings of 0-7 (9) characters over the alphabet {a _ : + space newline quote}; lists of 0-2 texts of 0-4 characters; texts of long names or many columns broken in at most one place; longer lists with one arbitrary text.")

P("C05", "Suggested indexes use only existing columns the query uses",
  "Every suggested index is on a table of the query, has at least one column, and each of its columns exists in that table, is used by the query through that table, and comes once. An index made of primary-key columns only is never suggested, and a column that no table of the query has is an error rather than a guess.",
  ["inputs", "programs"], "every query shape (columns used, in any clause and order) over every schema, and every map iteration order",
  "The tests list a dozen fixed queries.",
  ["database/dservice/dparser/index_target_builder.go", "database/dservice/dparser/"],
  [("candidate building", "database/dservice/dparser/index_target_builder.go Build")],
  "two tables (4 and 2 columns, one shared name, one aliased) with 0-3 mentions of any column name in any clause, or one table of 1-4 (5) columns with every assignment of uses and primary keys; map iteration orders permuted for 1 (3) maps; unknown columns; names of differing lengths and case, and wider tables in one order.")

P("C06", "Every useful index is suggested once, in a fixed order",
  "Suggestions contain, per table, every ordering of every non-empty subset of the columns the query filters or joins on, plus for every ordering of all of them the index extended with the columns that are only read, except those made of primary-key columns only, and nothing else. They come without duplicates, ordered by table, then number of columns, then column names, independent of the order in which anything was visited.",
  ["inputs", "programs"], "every query shape over every schema, and every map iteration order",
  "The tests list a dozen fixed queries.",
  ["database/dservice/dparser/index_target_builder.go", "database/dmodel/index_target.go"],
  [("permutation and covering columns", "database/dservice/dparser/index_target_builder.go"), ("ordering", "database/dmodel/index_target.go")],
  "as C05.")

P("C07", "Indexes that already exist are not suggested again, and only those",
  "Of the candidate indexes, exactly those whose table and column sequence equal an existing index of the database (letter case of column names ignored) are removed; the others keep their order and columns. Having no candidates is not an error, and failing to read the existing indexes is reported.",
  ["inputs", "fault_sequences"], "every list of candidates and of existing indexes",
  "The tests try two lists.",
  ["database/dservice/existing_index_remover.go", "database/dmodel/index_target.go"],
  [("removal", "database/dservice/existing_index_remover.go Remove")],
  "0-2 (3) distinct candidates and 0-2 existing indexes, each on one of two tables with 1-2 columns of arbitrary names over {a,A,b}; many candidates over three tables with indexes that share beginnings.")

P("C08", "The MySQL plan is shown complete and nested as indented",
  "Every line of a MySQL execution plan appears in the displayed tree exactly once, with its text, in the plan's order, under the line it is indented below. A plan that skips an indentation level, a plan that cannot be read and an empty answer are errors, never a partial tree; the plan requested is that of exactly the user's query.",
  ["inputs", "fault_sequences"], "every sequence of indentations, every query text",
  "The tests parse a few sample plans.",
  ["database/mysql/mservice/explainer.go", "database/mysql/mmodel/"],
  [("stack of open nodes", "database/mysql/mservice/explainer.go")],
  "plans of 0-5 (7) lines with any indentation of 0-4 (5) levels, with and without arrows; plans 10 (14) levels deep that come back to any level, with a line of any 0-4 of some characters; query texts of any 0-2 bytes.")

P("C09", "The PostgreSQL plan is shown complete and nested as indented",
  "Every line of a PostgreSQL execution plan appears in the displayed tree exactly once and in order: each node holds its own line and the detail lines below it, is nested under the nearest less indented node, and what follows the plan is the summary. This holds with and without a summary and with sub plans; a plan that cannot be read is an error and the plan requested is that of exactly the user's query.",
  ["inputs", "fault_sequences"], "every sequence of nodes, details and sub plans, every detail text, every query text",
  "The tests parse a few sample plans.",
  ["database/postgres/pservice/explain_analyze_tree_builder.go", "database/postgres/pservice/explainer.go", "database/postgres/pmodel/"],
  [("stack of open nodes", "database/postgres/pservice/explain_analyze_tree_builder.go")],
  "a root and 0-5 (7) further items (node at 3 depths, detail, sub plan at 2 depths, filter detail holding any 0-2 characters of {a, space, -, >, :}); three kinds of summary; plans 8 (12) levels deep that come back to any level, with seven kinds of detail and three further summaries.")

P("C10", "The numbers and table shown for a plan node are those of its line",
  "For MySQL and PostgreSQL, the costs, rows, width, times, row counts and loops displayed for a plan node are exactly the numbers of its own line, each in its own place, and a number the line does not have is shown as absent. The table displayed is the one the node's lines name, or none.",
  ["inputs"], "every number and table name the plan may hold",
  "The tests parse a few sample lines.",
  ["database/mysql/mmodel/explain_analyze_result_line.go", "database/postgres/pservice/explain_analyze_tree_builder.go", "database/mysql/mmodel/", "database/postgres/pmodel/"],
  [("line patterns", "*/pservice and */mservice explain parsing"), ("view models", "html/viewmodel")],
  "decimals of 1-2 (4) integer and 0-3 fraction digits, integers of 1-3 (5) digits, table names of 1-3 (4) characters over {t b _ 1 N} in several node kinds; large numbers (integers up to 19 digits, long decimals).")

P("C11", "Every span received is in exactly one trace tree, below its parent",
  "Spans received from Jaeger become trace trees in which each span appears exactly once, below the span its parent id names, or as a root when it has no parent or the parent was not received. Children come by start time, and each span keeps its ids, times, attributes (with kind and value) and the service of its resource, whatever the order and grouping of the spans and of internal maps.",
  ["inputs"], "every set of spans with every acyclic parent relation, every time and attribute value, and every map iteration order",
  "The tests convert a handful of fixed traces in one order.",
  ["otel/jaeger/v1_converter.go", "otel/omodel/span.go"],
  [("span index and linking", "otel/jaeger/v1_converter.go ToTraceTrees"), ("child order", "otel/omodel/span.go SortChildren")],
  "0-3 spans in two resources and three libraries with 3 (permuted) map orders, 5 (6) spans in one order; 8-byte ids that differ in the first or the last byte; every acyclic parent assignment incl. missing, zero and absent parents; times 0-255; one attribute of each kind (also nested) with arbitrary 64-bit numbers and strings of 0-3 bytes. Attributes without any value, which Jaeger does not send, are outside.")

P("C12", "The compacted trace keeps service entries and database calls, and only those",
  "Compacting a trace keeps exactly the root, every span whose service differs from its parent's, and every final span that is a database call; each remains below its nearest kept ancestor, in order, with ids, name and times unchanged. A final database call is named after the database and its caller, the others after their service, and the trace itself is not changed.",
  ["inputs"], "every tree of spans with every assignment of services and database calls",
  "The tests compact a few fixed trees.",
  ["otel/omodel/trace_compacter.go", "otel/omodel/trace_tree.go", "otel/omodel/span.go"],
  [("visitor that keeps spans", "otel/omodel/trace_compacter.go"), ("final database call", "otel/omodel/span.go IsLastDbSpan")],
  "every tree of 1-5 (6) spans, services over {empty, x, y}, any subset of spans being database calls of several databases (also unnamed).")

P("C13", "Own times, the most consuming service and access counts are right",
  "A span's own time is its duration less the time its children cover, however children overlap or exceed it. The service shown as consuming the most time has the largest total own time, the access count shown is that of the most accessed service, and the displayed tree mirrors the trace: every span once, nested and ordered as in the trace, with name, service, hexadecimal id and times in milliseconds.",
  ["inputs"], "every span, every set of children with any times, every map iteration order",
  "The tests use a few spans whose children lie within them.",
  ["otel/omodel/span.go", "otel/omodel/trace_tree.go", "otel/omodel/compact_info_collect_visitor.go", "otel/omodel/same_resource_count_visitor.go"],
  [("own time", "otel/omodel/span.go CalcConsumedTime"), ("totals per service", "otel/omodel/compact_info_collect_visitor.go"), ("view model", "otel/omodel/span.go ToViewModel")],
  "own time: 0-3 (4) children, 40-bit times with one child and 0-31 with more; totals: every tree of 1-3 (4) spans over 2 (3) services, times 0-15, nested within the parent from 3 spans on; display: every tree of 1-3 (4) spans with times below 2^62; ids of any 0-16 bytes.")

P("C14", "Traces picked are the slowest ones, and those that exceed the access threshold",
  "Picking the N slowest traces yields exactly min(N, all) distinct traces, slowest first, and no trace left out is slower than one picked. Picking traces by repeated access yields exactly those that access one service more often than the threshold, in their order.",
  ["inputs"], "every list of traces with any durations and services, every N and threshold",
  "The tests pick from one fixed list.",
  ["otel/jaeger/trace_picker.go", "lib/heap.go", "otel/omodel/trace_tree.go"],
  [("bounded heap", "lib/heap.go LimitedHeap"), ("threshold", "otel/jaeger/trace_picker.go")],
  "slowest: 0-5 (6) traces with arbitrary 40-bit times, N from 0 to one more than the traces; access: 0-3 traces of 1-3 (4) spans over two services, threshold 0-4.")

P("C15", "Jaeger is asked for the whole period, once, with the given limits",
  "Fetching traces asks Jaeger for consecutive half-hour windows that start with the period, leave no gap, do not overlap and reach its end without asking for a window that starts after it. Every request carries the given service, number of traces and exactly the given minimum duration; every trace received is returned once, and any failing request or answer fails the whole fetch.",
  ["inputs", "fault_sequences"], "every start and end to the nanosecond, every service, number and minimum duration, every sequence of answers and failures",
  "The tests fetch one hour with one answer.",
  ["otel/jaeger/trace_fetcher.go", "infra/jaeger/client.go", "lib/time.go"],
  [("windows", "lib/time.go GenerateTimeRanges"), ("parameters", "otel/jaeger/trace_fetcher.go"), ("stream of answers", "infra/jaeger/client.go FindTraces")],
  "periods of 0-1.5 (3) hours with nanoseconds, starting in any second of 12 days; services of any 0-3 bytes, any 31-bit number and any minimum duration of up to 2^50 ns (13 days); 0-2 requests answered with 0-2 chunks of 0-2 spans, each failing at opening, when receiving or not, in four ways.")

P("C16", "Database loads are summed up per hour, database and SQL without loss",
  "Loads from Performance Insights are shown for every full hour from the one the period starts in to the one it ends in, in any time zone. Every value within the period counts in exactly the hour, database and SQL it belongs to; the sum and the maximum shown are those of these values, each database comes once per hour, each SQL once per database and hour, and SQLs of different ids are kept apart even if their texts are the same.",
  ["inputs"], "every start, end and time zone, every set of values with any time, database and SQL",
  "The tests convert three values of one hour in UTC.",
  ["infra/aws/pi_sql_load_avg.go", "lib/time.go"],
  [("grouping by hour", "infra/aws/pi_sql_load_avg.go ConvertPiSQLLoadAvgsToVms"), ("hour of a time", "lib/time.go NormalizeTimeByHour")],
  "any start within a day in five zones (whole, half and three-quarter hours), periods of 0-2 (3) hours to the second, 0-2 values at any second; 0-3 (4) values over two hours, two databases, two SQLs and two ids in any combination; values are whole numbers of 0 to 2^20, or any two fractions (how sums of more fractions are rounded is outside).")

P("C17", "Digging Performance Insights covers every instance's week and shows it",
  "Digging asks for the MySQL instances and, for each one, for fourteen half days that follow each other from the given start (by default seven days ago), grouped by SQL and by tokenized SQL. The page shows every hour of that week and exactly the loads received, each under its grouping, hour, instance and SQL with id and value; any failing request fails the command without a page.",
  ["inputs", "fault_sequences"], "every number of instances, every start, every answer and every failing request",
  "The tests run one instance with one answer repeated.",
  ["cmd/db/dig/performance_insights.go", "infra/aws/performance_insights.go", "infra/aws/rds.go", "html/html_builder.go", "html/build_option.go", "html/viewmodel/"],
  [("request loop", "cmd/db/dig/performance_insights.go dig"), ("conversion of answers", "infra/aws/performance_insights.go"), ("page data", "html/build_option.go")],
  "0-2 instances, four starts (three zones and none) and three malformed ones, given on the command line in either way or not, a failure at the first 3 requests or the last one (thorough: any); one answer in any of four places with an SQL of 1-2 characters over {a ' <}, any value below 10^9, usable or incomplete in seven ways; 1-3 pages of instances and 1-2 of metrics, each page failing or not.")

P("C18", "Digging Jaeger shows the slowest and repetitive traces of the period",
  "Digging Jaeger asks for the given service, number and minimum duration, for a day from the given start or the last day, never into the future; a bad start or a missing setting is an error. The page shows up to a hundred traces, slowest first, and exactly the traces that access one service more often than the threshold, each with id, spans, times in milliseconds, access count and most consuming service, along with the settings; a failing request gives no page.",
  ["inputs", "fault_sequences"], "every set of traces, durations, thresholds and settings, and every failing request",
  "The tests check that one page holds an id.",
  ["cmd/app/dig/jaeger.go", "otel/jaeger/trace_fetcher.go", "otel/jaeger/trace_picker.go", "html/build_option.go", "html/viewmodel/"],
  [("settings and period", "cmd/app/dig/jaeger.go prepare"), ("page", "cmd/app/dig/jaeger.go dig/createHTML")],
  "0-3 (4) traces of arbitrary 36-bit durations with 1-3 accesses, thresholds 0-3, UI address and service of any 0-2 bytes, any 31-bit number, any 30-bit minimum duration, failure at the first or second request; 98-102 traces of fixed durations; starts 0-72 hours ago in two zones, none, and two malformed.")

P("C19", "Connection settings reach the database driver unchanged",
  "The user, password, host or address, port or protocol, and database given in the environment are exactly what the MySQL or PostgreSQL driver connects with, whatever characters they hold, along with the additional parameters and nothing else; PostgreSQL runs without SSL only when the parameters do not say otherwise. User and database (for Hasura, address and secret) are required; the PostgreSQL search path is the one given or public.",
  ["inputs"], "every value of every setting, present or absent",
  "No test covers the settings beyond the required ones.",
  ["infra/postgres/config.go", "infra/mysql/config.go", "infra/hasura/config.go", "lib/env.go"],
  [("libpq connection string", "infra/postgres/config.go GetKVConnectionString"), ("MySQL DSN", "infra/mysql/config.go ToDSN")],
  "PostgreSQL: one setting of 0-3 (4) characters over {a Z ' \\\\ space = : @ /}, the others ordinary or absent, four parameter texts; MySQL: one setting of 0-3 (4) characters (user without ':', database without '/' and '?', which a DSN cannot carry), read back by the driver's own parser; Hasura: five addresses, secrets of 0-3 characters, one or two of three requests.")

P("C20", "Existing indexes and table schemas are read as the database reports them",
  "The existing indexes of the asked tables are read completely, each with its table and its columns in index order, whatever order the catalogue holds them in. A schema has the columns of the table, in order and each once, and its primary key; a table without columns, or any failing read, is an error and never an empty answer. Only read-only queries for the given schema and tables are sent; for Hasura, names that are not words are refused and nothing is sent.",
  ["inputs", "fault_sequences"], "every content of the catalogue, every set of tables, every schema and table name, every failure",
  "The tests read a fixed schema of a real database, which is absent here.",
  ["infra/mysql/index_info.go", "infra/mysql/column_info.go", "infra/mysql/db.go", "infra/postgres/index_info.go", "infra/postgres/db.go", "infra/hasura/index_info.go", "infra/hasura/column_info.go", "infra/hasura/client.go", "database/mysql/mservice/index_getter.go", "database/mysql/mservice/parser/", "database/postgres/pservice/parser/", "database/hasura/hservice/"],
  [("grouping of index rows", "infra/mysql/index_info.go toIndexInfo"), ("names in the text", "infra/hasura/index_info.go buildIndexFetchQuery"), ("schemas", "database/mysql/mservice/parser/collect_table_schemas.go")],
  "2 (3) tables with 0-2 indexes of 1-2 (3) columns, MySQL rows stored in order or reversed; schemas of 3 tables with 0-2 (3) columns, five lists of asked tables; MySQL column names compared in any case; names of any 0-2 (3) bytes for Hasura. In these the select list and ORDER BY of the query are interpreted, its FROM and WHERE are not. In others the whole query is, by an evaluator of SQL over a catalogue of its own (harness/internal/vfcat): three schemas with tables of the same names, a view, a dropped column, 3 primary keys, 7 secondary indexes (unique or not, of several columns, with an expression), names of columns that need quotes or not; a query that uses what the evaluator does not know is skipped there.")

P("C21", "Index candidates for MySQL come from exactly the columns the query uses",
  "For a MySQL SELECT, whatever expressions its clauses hold, candidates are built from exactly the columns it mentions in any clause, each resolved to the table its qualifier or alias denotes; columns of WHERE and ON count as filters, all others as read. A column or table that does not exist is an error. Statements that are not supported (UNION, UPDATE, other databases, WITH, WINDOW) are refused and never answered in part. Nothing is changed in the database.",
  ["inputs", "programs"], "every form of expression in every clause, every list of joined tables and aliases, every column name",
  "The tests list fixed queries, one form of expression at a time, in the select list.",
  ["database/mysql/mservice/parser/collect_stmt_scopes.go", "database/mysql/mservice/parser/collect_table_names.go", "database/mysql/mservice/parser/index.go", "database/dservice/dparser/build_table_fields.go"],
  [("expressions", "database/mysql/mservice/parser/collect_stmt_scopes.go collectExprReferences"), ("joins", "database/mysql/mservice/parser/collect_stmt_scopes.go collectJoinReferences"), ("resolution", "database/dservice/dparser/build_table_fields.go")],
  "30 forms of expression with up to 4 operands (columns of symbolic name through any of two tables, or numbers) in 6 clauses; 36 forms of up to 8 operands with one that is a column or a form itself; every combination of clauses with 0-1 (2) fields; 1-3 tables with or without alias joined by comma, JOIN, LEFT or RIGHT JOIN, by ON, USING or NATURAL (which may be refused), or in parentheses; USING over three tables each with or without the column; columns declared and mentioned in any case; 8 refused statements. The syntax tree is built by the harness (replays parse the text with the real parser and must agree); ordering by an alias of the select list, and what subqueries themselves use (not considered for MySQL) are outside.")

P("C22", "Index candidates for PostgreSQL come from exactly the columns the query uses",
  "For a PostgreSQL SELECT, whatever expressions its clauses hold, candidates are built from exactly the columns it and its subqueries mention, each resolved to its table through aliases, derived tables, LATERAL and outer queries; columns of WHERE and ON count as filters, all others as read. A column that does not exist is an error. What is not supported (UNION, UPDATE, tables of other schemas, WITH, WINDOW) is refused and never answered in part. Nothing is changed in the database.",
  ["inputs", "programs"], "every form of expression in every clause, every list of joined tables and aliases, every nesting of subqueries, every column name",
  "The tests list fixed queries, one form of expression at a time, in the select list.",
  ["database/postgres/pservice/parser/collect_stmt_scopes.go", "database/postgres/pservice/parser/collect_table_names.go", "database/postgres/pservice/parser/index.go", "database/postgres/pservice/ast/ast_walker.go", "database/dservice/dparser/build_table_fields.go"],
  [("expressions", "database/postgres/pservice/parser/collect_stmt_scopes.go collectExprReferences"), ("tree walk", "database/postgres/pservice/ast/ast_walker.go"), ("scopes", "database/dservice/dparser/build_table_fields.go calculateReferences")],
  "31 forms of expression with up to 4 operands in 6 clauses; 44 forms of up to 8 operands with one that is a column, a form or a subquery itself; every combination of clauses with 0-1 (2) fields; 1-3 tables joined by comma, JOIN or an outer JOIN, DISTINCT ON, and USING, NATURAL, parentheses, subscripts, ARRAY(SELECT) and parameters, which may be refused; subqueries as field, in EXISTS and IN, as table, LATERAL, two levels deep, correlated or not, with several columns, constants, shadowed and self-joined tables, in ON, ORDER BY, HAVING, LIMIT and OFFSET; names two levels deep that several enclosing queries have, with aliases equal to names of other tables; quoted names with capitals; 8 refused statements. The syntax tree is built by the harness (replays parse the text with the real parser and must agree); ordering by an alias of the select list are outside.")

P("C23", "A suggest command does only what it is asked to, and shows it completely",
  "A suggest command (MySQL, PostgreSQL, Hasura) explains exactly the query given, reads metadata of its tables, and changes nothing unless --with-examine is given; then it creates exactly the indexes of --index, or else the safe suggested ones, each dropped again. An --index or variables not understood, an unparsable query and any failing step are an error, without page and without further work. The page shows query (GraphQL with its variables as given, and SQL), plan, summary, the suggestions without existing indexes, the results, and a command to examine that does not overwrite it.",
  ["inputs", "fault_sequences"], "every combination of options, existing index, query text, output name, and failing step",
  "The tests run each command once, successfully, and look for three fragments of the page.",
  ["cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura/postgres.go", "database/mysql/mservice/", "database/postgres/pservice/", "database/hasura/hservice/", "html/build_option.go", "html/html_builder.go", "html/viewmodel/"],
  [("command flow", "cmd/db/suggest/mysql.go suggest/examine/createHTML"), ("suggestion", "database/mysql/mservice/index_suggester.go"), ("page data", "html/build_option.go"), ("variables", "cmd/db/suggest/hasura/postgres.go parseJSONToVariables")],
  "one table of three columns, one of them or a number selected, and a filter on one of them (a word or not), a literal of 0-2 characters over {x ; % ?}, five --index lists, index existing or not, unusable plan, unparsable query, the failing step being any of the first 7 (11); Hasura: 0-2 answers, failures as a status or as errors answered with status 200, GraphQL text ending in any 0-2 characters over {x \" newline}, a bigint variable; 13 variable texts; output names of 1-6 (8) characters over {a . /}. The parsers of the SQL text are replaced by the tree of the query (replays use the real ones).")

P("C24", "A command line is carried out as it is written, or nothing is",
  "For suggest mysql, suggest postgres, suggest hasura postgres and dig jaeger: however a command line spells its options (short, long, joined, before or after the command), the query, the output, each --index, --with-examine, the variables, the service, period, durations, thresholds and counts used are exactly the ones given, and the documented defaults where none is given; each command talks to the server its environment variables name. A command line that lacks a required option, has an unknown one or a malformed value, or an environment that lacks a required variable, is an error: no server is contacted and no page is written.",
  ["inputs"], "every spelling of a command line with its options in the listed positions, every query literal, service name and number, each missing or malformed part",
  "The tests call the runners' methods with their fields set; no test parses a command line.",
  ["cmd/root.go", "cmd/db.go", "cmd/app.go", "cmd/db/suggest.go", "cmd/db/suggest/mysql.go", "cmd/db/suggest/postgres.go", "cmd/db/suggest/hasura.go", "cmd/db/suggest/hasura/postgres.go", "cmd/app/dig.go", "cmd/app/dig/jaeger.go", "cmd/flag/", "infra/mysql/db.go", "infra/postgres/db.go", "infra/jaeger/client.go", "lib/env.go"],
  [("options", "cmd/db/suggest/mysql.go init, cmd/db.go init"), ("opening", "infra/mysql/db.go OpenMySQLDB"), ("numbers and period", "cmd/app/dig/jaeger.go prepare")],
  "four spellings of an option, three places for the options of a command (two for dig jaeger), the query literal of C23, six --index lists, service names of 'x' and any 0-2 bytes, numbers of 1-3 digits and four fixed ones, --start-from 30 hours ago; one missing or malformed part at a time. cobra and pflag are executed. The runs of suggest commands go well (failing ones are C23's). dig performance-insights is C17's; cmd.Execute's exit status and main's transport are outside.")
