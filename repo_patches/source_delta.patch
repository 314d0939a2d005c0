From cde78cef96a27b430e5d4cb3df38f98a27241876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:05 +0000
Subject: [PATCH 01/33] fix: match the whole --index text so that text around a
 newline is not ignored

---
 database/dmodel/index_target.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dmodel/index_target.go b/database/dmodel/index_target.go
index 7bee1eb..328ccc4 100644
--- a/database/dmodel/index_target.go
+++ b/database/dmodel/index_target.go
@@ -15,7 +15,7 @@ type IndexTarget struct {
 	Columns   []*IndexColumn
 }
 
-var indexTargetReg = regexp.MustCompile(`(.+?):((.+?(\+)?)+)`)
+var indexTargetReg = regexp.MustCompile(`\A(.+?):((.+?(\+)?)+)\z`)
 var wordOnlyReg = regexp.MustCompile(`\A\w+\z`)
 
 const indexTargetColumnSeparator = "+"
-- 
2.43.0


From 24ed137ce135f9b62efa70283596f0fd6cb54f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:06 +0000
Subject: [PATCH 02/33] fix: do not look up existing indexes when there is no
 candidate

---
 database/dservice/existing_index_remover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/database/dservice/existing_index_remover.go b/database/dservice/existing_index_remover.go
index 42c7da6..94a5cd4 100644
--- a/database/dservice/existing_index_remover.go
+++ b/database/dservice/existing_index_remover.go
@@ -25,6 +25,9 @@ func NewExistingIndexRemover(idxGetter IndexGetter, dbName string, its []*dmodel
 
 func (r *ExistingIndexRemover) Remove() ([]*dmodel.IndexTarget, error) {
 	idxTargets := lo.Uniq(r.idxTargets)
+	if len(idxTargets) == 0 {
+		return nil, nil
+	}
 
 	tNames := lo.Map(idxTargets, func(it *dmodel.IndexTarget, _ int) string { return it.TableName })
 	tNames = lo.Uniq(tNames)
-- 
2.43.0


From aaf36f51696a2fd659d7e90a958810b1af98bd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:13 +0000
Subject: [PATCH 03/33] fix: keep the last node of a plan that has no summary
 lines

---
 database/postgres/pservice/explain_analyze_tree_builder.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/explain_analyze_tree_builder.go b/database/postgres/pservice/explain_analyze_tree_builder.go
index 89dddf4..53b3bcf 100644
--- a/database/postgres/pservice/explain_analyze_tree_builder.go
+++ b/database/postgres/pservice/explain_analyze_tree_builder.go
@@ -75,9 +75,6 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 	summaryStartLine := 0
 	for i, line := range explainLines {
 		if summaryReg.MatchString(line) {
-			if len(nodeLines) > 0 {
-				lineNodes = append(lineNodes, nodeLines)
-			}
 			summaryStartLine = i
 			break
 		}
@@ -118,6 +115,9 @@ func (erb *ExplainAnalyzeTreeBuilder) groupToPlanLineNodes(explainLines []string
 			prevLineType = analyzeLinePlanName
 		}
 	}
+	if len(nodeLines) > 0 {
+		lineNodes = append(lineNodes, nodeLines)
+	}
 
 	sLine := ""
 	if summaryStartLine > 0 {
-- 
2.43.0


From 5fd15322beb76aff177ef43f4daaf7977f593351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:54 +0000
Subject: [PATCH 04/33] fix: own time of a span when a child ends or starts
 after it

---
 otel/omodel/span.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/otel/omodel/span.go b/otel/omodel/span.go
index 87ef35c..4819a14 100644
--- a/otel/omodel/span.go
+++ b/otel/omodel/span.go
@@ -77,6 +77,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 	consumedTime := uint64(0)
 	lastEndTime := s.StartTimeUnixNano
 	for _, t := range childTimes {
+		if s.EndTimeUnixNano <= t[0] {
+			break
+		}
 		if lastEndTime < t[0] {
 			consumedTime += t[0] - lastEndTime
 		}
@@ -84,7 +87,9 @@ func (s *Span) CalcConsumedTime() uint64 {
 			lastEndTime = t[1]
 		}
 	}
-	consumedTime += s.EndTimeUnixNano - lastEndTime
+	if lastEndTime < s.EndTimeUnixNano {
+		consumedTime += s.EndTimeUnixNano - lastEndTime
+	}
 
 	return consumedTime
 }
-- 
2.43.0


From 1818461e9b9233bedc43f88b3c5f691c1f0de246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:21 +0000
Subject: [PATCH 05/33] fix: show loads in time zones that are not a whole
 number of hours from UTC

---
 infra/aws/pi_sql_load_avg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 3d30367..9f34e7a 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -66,7 +66,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 		}
 	}
 
-	target := lib.NormalizeTimeByHour(start).UTC()
+	target := lib.NormalizeTimeByHour(start.UTC())
 	var res []*viewmodel.VmTimeDbLoad
 	for !target.After(end) {
 		if l, ok := sqlLoadMap[target]; ok {
-- 
2.43.0


From c2ee54e2c44d28797daeb53b435345ca6f9f419d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:23 +0000
Subject: [PATCH 06/33] fix: do not override sslmode given by DB_PARAM_TEXT for
 PostgreSQL

---
 infra/postgres/config.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 0c5a871..611d40c 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -61,10 +61,10 @@ func (cfg *Config) GetKVConnectionString() string {
 	if cfg.DBName != "" {
 		texts = append(texts, "dbname='"+cfg.DBName+"'")
 	}
+	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
 		texts = append(texts, cfg.paramText)
 	}
-	texts = append(texts, "sslmode=disable")
 
 	return strings.Join(texts, " ")
 }
-- 
2.43.0


From 40041656f8bad38c40b4213b0ad8d03981332e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:23 +0000
Subject: [PATCH 07/33] fix: escape quotes and backslashes in PostgreSQL
 connection values

---
 infra/postgres/config.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/infra/postgres/config.go b/infra/postgres/config.go
index 611d40c..6762509 100644
--- a/infra/postgres/config.go
+++ b/infra/postgres/config.go
@@ -47,19 +47,19 @@ func NewConfigFromEnv() (*Config, error) {
 func (cfg *Config) GetKVConnectionString() string {
 	var texts []string
 	if cfg.user != "" {
-		texts = append(texts, "user='"+cfg.user+"'")
+		texts = append(texts, "user="+quoteConnValue(cfg.user))
 	}
 	if cfg.password != "" {
-		texts = append(texts, "password='"+cfg.password+"'")
+		texts = append(texts, "password="+quoteConnValue(cfg.password))
 	}
 	if cfg.host != "" {
-		texts = append(texts, "host='"+cfg.host+"'")
+		texts = append(texts, "host="+quoteConnValue(cfg.host))
 	}
 	if cfg.port != "" {
-		texts = append(texts, "port='"+cfg.port+"'")
+		texts = append(texts, "port="+quoteConnValue(cfg.port))
 	}
 	if cfg.DBName != "" {
-		texts = append(texts, "dbname='"+cfg.DBName+"'")
+		texts = append(texts, "dbname="+quoteConnValue(cfg.DBName))
 	}
 	texts = append(texts, "sslmode=disable")
 	if cfg.paramText != "" {
@@ -69,6 +69,10 @@ func (cfg *Config) GetKVConnectionString() string {
 	return strings.Join(texts, " ")
 }
 
+func quoteConnValue(v string) string {
+	return "'" + strings.NewReplacer(`\`, `\\`, `'`, `\'`).Replace(v) + "'"
+}
+
 func (cfg *Config) GetSearchPathOrPublic() string {
 	if cfg.searchPath == "" {
 		return "public"
-- 
2.43.0


From 6477523c945cc3c06fd1d22125b84519eaefac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:45 +0000
Subject: [PATCH 08/33] fix: collect columns inside COLLATE expressions of
 MySQL queries

---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index fdbe560..684af36 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -244,7 +244,7 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 			res = append(res, &dparser.FieldColumn{Table: c.Table.L, Name: c.Name.L, Type: defaultType})
 		}
 	case *ast.SetCollationExpr:
-		// do nothing as COLLATE doesn't relate to table's column
+		res = append(res, sc.collectExprReferences(e.Expr, defaultType)...)
 	case *ast.FuncCallExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From debd178eb6b62046479d9d4763ae50ea3c3c9e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 09/33] fix: keep all tables of a comma separated FROM for
 PostgreSQL

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 409ecb2..50c8fac 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -92,7 +92,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			sc.errors = append(sc.errors, err)
 		}
 
-		scope.Tables = tables
+		scope.Tables = append(scope.Tables, tables...)
 		foundFields = append(foundFields, fields...)
 	}
 	if stmt.Where != nil {
-- 
2.43.0


From 318feb30d8f4b497892ea64d7e9ad4c5d1c2207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 10/33] fix: do not panic at a window frame without end

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 50c8fac..f0690b9 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -393,7 +393,9 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 			}
 			if frame := e.WindowDef.Frame; frame != nil {
 				res = append(res, sc.collectExprReferences(frame.Bounds.StartBound.OffsetExpr, defaultType)...)
-				res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				if frame.Bounds.EndBound != nil {
+					res = append(res, sc.collectExprReferences(frame.Bounds.EndBound.OffsetExpr, defaultType)...)
+				}
 			}
 		}
 
-- 
2.43.0


From 56f338caee0be4537c35ef89a98cc0f15c258af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 11/33] fix: collect columns of DISTINCT ON

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index f0690b9..8d36902 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -86,6 +86,14 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 			Columns: cols,
 		})
 	}
+	for _, expr := range stmt.DistinctOn {
+		f, err := sc.createFieldFromExpr(expr, dparser.FieldReference)
+		if err == nil {
+			foundFields = append(foundFields, f)
+		} else {
+			sc.errors = append(sc.errors, err)
+		}
+	}
 	for _, t := range stmt.From.Tables {
 		tables, fields := sc.collectTables(t)
 		if err := sc.getAndClearLastError(); err != nil {
-- 
2.43.0


From 3d5381a261e0fc94184cadaf68937eda4c85e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 12/33] fix: refuse UNION and parenthesized SELECT instead of
 panicking

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 8d36902..5e63d69 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -68,6 +68,10 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 
 	stmt, ok := selectNode.Select.(*tree.SelectClause)
 	if !ok {
+		switch selectNode.Select.(type) {
+		case *tree.UnionClause, *tree.ParenSelect:
+			sc.errors = append(sc.errors, lib.NewUnsupportedError("not supporting UNION, EXCEPT, parenthesized SELECT etc."))
+		}
 		return false
 	}
 
@@ -175,7 +179,7 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 }
 
 func (sc *scopeCollector) Leave(node interface{}) bool {
-	if sc.scopeStack.Top().node == node {
+	if top := sc.scopeStack.Top(); top != nil && top.node == node {
 		sc.scopeStack.Pop()
 	}
 
-- 
2.43.0


From 6898e7f84c00f128b930a31999b4335c402226b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:18:44 +0000
Subject: [PATCH 13/33] fix: do not take a table of the public schema for the
 one of the search path

---
 database/postgres/pservice/parser/index.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/index.go b/database/postgres/pservice/parser/index.go
index af722fe..1888405 100644
--- a/database/postgres/pservice/parser/index.go
+++ b/database/postgres/pservice/parser/index.go
@@ -18,7 +18,7 @@ func ListPossibleIndexes(db *postgres.DB, schema string, stmt *parser.Statement)
 		return nil, []error{err}
 	}
 
-	scopes, errs := CollectStmtScopes(stmt, "public")
+	scopes, errs := CollectStmtScopes(stmt, schema)
 	if len(errs) > 0 {
 		return nil, errs
 	}
-- 
2.43.0


From b6f458161963b6579f2bd91327aabbc7bdc2229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:02 +0000
Subject: [PATCH 14/33] fix: let a subquery in an expression see the columns of
 all outer queries

---
 database/dservice/dparser/build_table_fields.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 2be983a..77a1d91 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := info.getVisibleColumns()
+	visibleCols := lo.Assign(info.originalExternalCols, info.getVisibleColumns())
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
-- 
2.43.0


From 73c597a7c5535e14e529d7ac3a5fa52a5b46baa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:02 +0000
Subject: [PATCH 15/33] fix: do not take columns of WHERE and ON for output of
 a subquery

---
 database/dservice/dparser/build_table_fields.go |  2 +-
 database/dservice/dparser/field.go              | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 77a1d91..91d30a5 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -91,7 +91,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		}
 
 		n := f.Name()
-		if n != "" {
+		if n != "" && !f.isCondition() {
 			outputCols = append(outputCols, &outputCol{name: n, referencingColumns: allColInfos})
 		}
 	}
diff --git a/database/dservice/dparser/field.go b/database/dservice/dparser/field.go
index 176faab..ed80f01 100644
--- a/database/dservice/dparser/field.go
+++ b/database/dservice/dparser/field.go
@@ -5,6 +5,17 @@ type Field struct {
 	Columns []*FieldColumn
 }
 
+// isCondition tells whether the field is of WHERE or ON, which are not output of the query
+func (f *Field) isCondition() bool {
+	for _, c := range f.Columns {
+		if c.Type == FieldCondition {
+			return true
+		}
+	}
+
+	return false
+}
+
 func (f *Field) Name() string {
 	if f.AsName != "" {
 		return f.AsName
-- 
2.43.0


From 457379064e7c515aef7a9100827b3beb760f29b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:05 +0000
Subject: [PATCH 16/33] fix: keep numbers of Hasura's GraphQL variables as
 given

Variables were decoded to float64, so that a bigint over 2^53 became another
number and another query was explained and examined.
---
 cmd/db/suggest/hasura/postgres.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cmd/db/suggest/hasura/postgres.go b/cmd/db/suggest/hasura/postgres.go
index 8fe1f74..4d52028 100644
--- a/cmd/db/suggest/hasura/postgres.go
+++ b/cmd/db/suggest/hasura/postgres.go
@@ -16,6 +16,8 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"io"
+	"strings"
 )
 
 var PostgresCmd = &cobra.Command{
@@ -133,9 +135,15 @@ func (pr *postgresRunner) suggest(outputPath string, cli *hasura.Client) error {
 
 func (pr *postgresRunner) parseJSONToVariables(jsonStr string) (map[string]interface{}, error) {
 	var variables map[string]interface{}
-	if err := json.Unmarshal([]byte(jsonStr), &variables); err != nil {
+	dec := json.NewDecoder(strings.NewReader(jsonStr))
+	// Keep numbers as they are written: float64 cannot hold every bigint
+	dec.UseNumber()
+	if err := dec.Decode(&variables); err != nil {
 		return nil, errors.Wrap(err, "failed to parse variables")
 	}
+	if _, err := dec.Token(); err != io.EOF {
+		return nil, errors.New("failed to parse variables: unexpected data after JSON")
+	}
 
 	return variables, nil
 }
-- 
2.43.0


From 195756bf95d88202be8d87500a206b6a78f4d5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:35:01 +0000
Subject: [PATCH 17/33] fix: know columns of derived tables that are constants

---
 database/postgres/pservice/parser/collect_stmt_scopes.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index 5e63d69..e43a9da 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -166,7 +166,8 @@ func (sc *scopeCollector) Enter(node interface{}) bool {
 	}
 
 	for _, f := range foundFields {
-		if len(f.Columns) > 0 {
+		// a named field is output of the scope even if it uses no column
+		if len(f.Columns) > 0 || f.AsName != "" {
 			scope.Fields = append(scope.Fields, f)
 		}
 	}
-- 
2.43.0


From 3499c22c3eb6176031b67e9f4043a547fa17d0cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:42 +0000
Subject: [PATCH 18/33] fix: read all pages of RDS instances

DescribeDBInstances answers at most 100 instances per call; the others were ignored.
---
 infra/aws/rds.go | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/infra/aws/rds.go b/infra/aws/rds.go
index 744c93c..e60a00a 100644
--- a/infra/aws/rds.go
+++ b/infra/aws/rds.go
@@ -25,21 +25,25 @@ func NewRdsWithCli(cli aRds.DescribeDBInstancesAPIClient) *Rds {
 }
 
 func (rds *Rds) GetDBs(engines []string) ([]*RdsDB, error) {
-	output, err := rds.client.DescribeDBInstances(context.Background(), &aRds.DescribeDBInstancesInput{
+	paginator := aRds.NewDescribeDBInstancesPaginator(rds.client, &aRds.DescribeDBInstancesInput{
 		Filters: []types.Filter{
 			{Name: lib.Ptr("engine"), Values: engines},
 		},
 	})
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to describe db instances")
-	}
 
 	var res []*RdsDB
-	for _, ins := range output.DBInstances {
-		res = append(res, &RdsDB{
-			InstanceIdentifier: *ins.DBInstanceIdentifier,
-			DbiResourceId:      *ins.DbiResourceId,
-		})
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to describe db instances")
+		}
+
+		for _, ins := range output.DBInstances {
+			res = append(res, &RdsDB{
+				InstanceIdentifier: *ins.DBInstanceIdentifier,
+				DbiResourceId:      *ins.DbiResourceId,
+			})
+		}
 	}
 
 	return res, nil
-- 
2.43.0


From ffbe1dbdd1c32d6613584ae738140a38506bf603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:34 +0000
Subject: [PATCH 19/33] fix: read all pages of Performance Insights metrics

GetResourceMetrics answers in pages when there is more than fits in one; only the first was read.
---
 infra/aws/performance_insights.go | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/infra/aws/performance_insights.go b/infra/aws/performance_insights.go
index 0bb20b0..209d745 100644
--- a/infra/aws/performance_insights.go
+++ b/infra/aws/performance_insights.go
@@ -29,27 +29,27 @@ func NewPerformanceInsightsWithCli(cli aPi.GetResourceMetricsAPIClient) *Perform
 }
 
 func (pi *PerformanceInsights) GetHalfDaySqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, sqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql.statement", "db.sql.tokenized_id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql.statement", "db.sql.tokenized_id")
 	return res, nil
 }
 
 func (pi *PerformanceInsights) GetHalfDayTokenizedSqlMetrics(db *RdsDB, start time.Time) ([]*PiSQLLoadAvg, error) {
-	output, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
+	metrics, err := pi.getHalfDayMetrics(db, start, tokenizedSqlGroupName)
 	if err != nil {
 		return nil, err
 	}
 
-	res := pi.convertResourceMetricsToAvgs(db, output, "db.sql_tokenized.statement", "db.sql_tokenized.id")
+	res := pi.convertResourceMetricsToAvgs(db, metrics, "db.sql_tokenized.statement", "db.sql_tokenized.id")
 	return res, nil
 }
 
-func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) (*aPi.GetResourceMetricsOutput, error) {
-	output, err := pi.client.GetResourceMetrics(context.Background(), &aPi.GetResourceMetricsInput{
+func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, group string) ([]types.MetricKeyDataPoints, error) {
+	paginator := aPi.NewGetResourceMetricsPaginator(pi.client, &aPi.GetResourceMetricsInput{
 		Identifier: &db.DbiResourceId,
 		MetricQueries: []types.MetricQuery{
 			{
@@ -66,16 +66,21 @@ func (pi *PerformanceInsights) getHalfDayMetrics(db *RdsDB, start time.Time, gro
 		PeriodInSeconds: lib.Ptr(int32(300)),
 	})
 
-	if err != nil {
-		return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+	var metrics []types.MetricKeyDataPoints
+	for paginator.HasMorePages() {
+		output, err := paginator.NextPage(context.Background())
+		if err != nil {
+			return nil, errors.Wrap(err, "failed to call GetResourceMetrics of PerformanceInsights")
+		}
+		metrics = append(metrics, output.MetricList...)
 	}
 
-	return output, nil
+	return metrics, nil
 }
 
-func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, output *aPi.GetResourceMetricsOutput, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
+func (pi *PerformanceInsights) convertResourceMetricsToAvgs(db *RdsDB, metrics []types.MetricKeyDataPoints, sqlKey, tokenizedIdKey string) []*PiSQLLoadAvg {
 	var res []*PiSQLLoadAvg
-	for _, m := range output.MetricList {
+	for _, m := range metrics {
 		if m.Key.Metric == nil || *m.Key.Metric != loadAvgMetricName {
 			continue
 		}
-- 
2.43.0


From 37457d5832d936d02f575f1b3a46ea68eaab2cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:52 +0000
Subject: [PATCH 20/33] fix: use columns of GROUP_CONCAT's ORDER BY

GROUP_CONCAT(a ORDER BY b) ignored b, which no index was suggested for and
which could even be unknown.
---
 database/mysql/mservice/parser/collect_stmt_scopes.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 684af36..097a39f 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -258,6 +258,11 @@ func (sc *scopeCollector) collectExprReferences(expr ast.ExprNode, defaultType d
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
 		}
+		if e.Order != nil {
+			for _, i := range e.Order.Items {
+				res = append(res, sc.collectExprReferences(i.Expr, defaultType)...)
+			}
+		}
 	case *ast.WindowFuncExpr:
 		for _, arg := range e.Args {
 			res = append(res, sc.collectExprReferences(arg, defaultType)...)
-- 
2.43.0


From 6d626b430439cdd3695f6b6db9b6a66b6bc74605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:28 +0000
Subject: [PATCH 21/33] fix: use columns of JOIN ... USING and refuse NATURAL
 JOIN of MySQL

The columns were ignored as if the tables were joined without a condition.
---
 .../mysql/mservice/parser/collect_stmt_scopes.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 097a39f..1bedeac 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -359,11 +359,23 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 		return nil, nil
 	}
 
-	tables, fields := sc.collectReferencingTables(j.Left)
+	lTables, fields := sc.collectReferencingTables(j.Left)
 	rTables, rFields := sc.collectReferencingTables(j.Right)
-	tables = append(tables, rTables...)
+	tables := append(append([]*dparser.Table{}, lTables...), rTables...)
 	fields = append(fields, rFields...)
 
+	if j.NaturalJoin {
+		sc.lastError = lib.NewUnsupportedError("not supporting NATURAL JOIN")
+	}
+	for _, col := range j.Using {
+		for _, ts := range [][]*dparser.Table{lTables, rTables} {
+			fc := &dparser.FieldColumn{Name: col.Name.L, Type: dparser.FieldCondition}
+			if len(ts) == 1 {
+				fc.Table = ts[0].AsOrName()
+			}
+			fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{fc}})
+		}
+	}
 	if j.On != nil {
 		fields = append(fields, &dparser.Field{Columns: sc.collectExprReferences(j.On.Expr, dparser.FieldCondition)})
 	}
-- 
2.43.0


From 35f927e6c1d8ba12099d44f680e2a7da745911f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:58:05 +0000
Subject: [PATCH 22/33] fix: analyse queries in ORDER BY of functions and
 windows, and in OFFSET

A subquery there was never visited, and the columns it uses were ignored.
---
 database/postgres/pservice/ast/ast_walker.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/database/postgres/pservice/ast/ast_walker.go b/database/postgres/pservice/ast/ast_walker.go
index a07fe32..b6bcf48 100644
--- a/database/postgres/pservice/ast/ast_walker.go
+++ b/database/postgres/pservice/ast/ast_walker.go
@@ -129,7 +129,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				if node.WindowDef != nil {
 					walk(node.WindowDef)
 				}
-				walk(node.Exprs, node.Filter)
+				walk(node.Exprs, node.Filter, node.OrderBy)
 			case *tree.IndexTableDef:
 			case *tree.JoinTableExpr:
 				walk(node.Left, node.Right, node.Cond)
@@ -166,7 +166,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 				}
 				walk(node.Select)
 			case *tree.Limit:
-				walk(node.Count)
+				walk(node.Count, node.Offset)
 			case *tree.SelectClause:
 				walk(node.Exprs)
 				if node.Where != nil {
@@ -226,7 +226,7 @@ func (w *astWalker) Walk(stmts parser.Statements) (ok bool, err error) {
 					walk(windowDef)
 				}
 			case *tree.WindowDef:
-				walk(node.Partitions)
+				walk(node.Partitions, node.OrderBy)
 				if node.Frame != nil {
 					walk(node.Frame)
 				}
-- 
2.43.0


From 2c515e5a5af40d43a37bb47b4501096fa0984c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:02 +0000
Subject: [PATCH 23/33] fix: refuse a number of traces that cannot be asked for

---
 cmd/app/dig/jaeger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/app/dig/jaeger.go b/cmd/app/dig/jaeger.go
index b2410ca..66cd1f7 100644
--- a/cmd/app/dig/jaeger.go
+++ b/cmd/app/dig/jaeger.go
@@ -13,6 +13,7 @@ import (
 	"github.com/rs/zerolog/log"
 	"github.com/samber/lo"
 	"github.com/spf13/cobra"
+	"math"
 	"time"
 )
 
@@ -60,6 +61,10 @@ type jaegerRunner struct {
 }
 
 func (jr *jaegerRunner) prepare() error {
+	if jr.count > math.MaxInt32 || jr.count < math.MinInt32 {
+		return errors.Errorf("too large number at count: %d", jr.count)
+	}
+
 	now := time.Now()
 
 	if jr.startStr != "" {
-- 
2.43.0


From 34b831099cffe63b36a557266a5b71c2c849baf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:10 +0000
Subject: [PATCH 24/33] fix: read a column of several indexes once

---
 infra/hasura/column_info.go   | 2 +-
 infra/postgres/column_info.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/infra/hasura/column_info.go b/infra/hasura/column_info.go
index 3be333f..d5a07db 100644
--- a/infra/hasura/column_info.go
+++ b/infra/hasura/column_info.go
@@ -17,7 +17,7 @@ FROM
 	pg_class
 	INNER JOIN pg_attribute ON pg_attribute.attrelid = pg_class.oid
 	INNER JOIN pg_namespace ON pg_class.relnamespace = pg_namespace.oid
-	LEFT OUTER JOIN pg_index ON pg_class.oid = pg_index.indrelid AND pg_attribute.attnum = ANY(pg_index.indkey)
+	LEFT OUTER JOIN pg_index ON pg_class.oid = pg_index.indrelid AND pg_attribute.attnum = ANY(pg_index.indkey) AND pg_index.indisprimary
 WHERE
 	pg_namespace.nspname = ? AND
 	pg_class.relname IN (?) AND
diff --git a/infra/postgres/column_info.go b/infra/postgres/column_info.go
index a31561a..b75b5bf 100644
--- a/infra/postgres/column_info.go
+++ b/infra/postgres/column_info.go
@@ -9,7 +9,7 @@ FROM
 	pg_class
 	INNER JOIN pg_attribute ON pg_attribute.attrelid = pg_class.oid
 	INNER JOIN pg_namespace ON pg_class.relnamespace = pg_namespace.oid
-	LEFT OUTER JOIN pg_index ON pg_class.oid = pg_index.indrelid AND pg_attribute.attnum = ANY(pg_index.indkey)
+	LEFT OUTER JOIN pg_index ON pg_class.oid = pg_index.indrelid AND pg_attribute.attnum = ANY(pg_index.indkey) AND pg_index.indisprimary
 WHERE
 	pg_namespace.nspname = ? AND
 	pg_class.relname IN (?) AND
-- 
2.43.0


From b692c08b7263fd068adad1551f0560922ca77a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:17 +0000
Subject: [PATCH 25/33] fix: do not take dropped columns for columns of a table

---
 infra/hasura/column_info.go   | 3 ++-
 infra/postgres/column_info.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/infra/hasura/column_info.go b/infra/hasura/column_info.go
index d5a07db..e5a7acb 100644
--- a/infra/hasura/column_info.go
+++ b/infra/hasura/column_info.go
@@ -22,7 +22,8 @@ WHERE
 	pg_namespace.nspname = ? AND
 	pg_class.relname IN (?) AND
 	pg_class.relkind = 'r' AND
-	pg_attribute.attnum >= 0
+	pg_attribute.attnum >= 0 AND
+	NOT pg_attribute.attisdropped
 ORDER BY
 	pg_class.relname,
 	pg_attribute.attnum
diff --git a/infra/postgres/column_info.go b/infra/postgres/column_info.go
index b75b5bf..b4ff030 100644
--- a/infra/postgres/column_info.go
+++ b/infra/postgres/column_info.go
@@ -14,7 +14,8 @@ WHERE
 	pg_namespace.nspname = ? AND
 	pg_class.relname IN (?) AND
 	pg_class.relkind = 'r' AND
-	pg_attribute.attnum >= 0
+	pg_attribute.attnum >= 0 AND
+	NOT pg_attribute.attisdropped
 ORDER BY
 	pg_class.relname,
 	pg_attribute.attnum;
-- 
2.43.0


From 74d0d448edf48709445bdf614ad1b2cc741186c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:24 +0000
Subject: [PATCH 26/33] fix: read columns of indexes by name, not quoted as in
 SQL

---
 infra/hasura/index_info.go   | 5 ++++-
 infra/postgres/index_info.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/infra/hasura/index_info.go b/infra/hasura/index_info.go
index 45b12de..0a1497e 100644
--- a/infra/hasura/index_info.go
+++ b/infra/hasura/index_info.go
@@ -12,7 +12,10 @@ const indexFetchQuery = `
 SELECT 
 	t.relname AS table_name,
 	ARRAY(
-		SELECT PG_GET_INDEXDEF(pg_index.indexrelid, k + 1, TRUE)
+		SELECT COALESCE(
+			(SELECT attname::TEXT FROM pg_attribute WHERE attrelid = pg_index.indrelid AND attnum = pg_index.indkey[k]),
+			(SELECT PG_GET_INDEXDEF(pg_index.indexrelid, k + 1, TRUE))
+		)
 		FROM GENERATE_SUBSCRIPTS(pg_index.indkey, 1) AS k
 		ORDER BY k
 	) AS column_names
diff --git a/infra/postgres/index_info.go b/infra/postgres/index_info.go
index 4e5bd32..6f423f0 100644
--- a/infra/postgres/index_info.go
+++ b/infra/postgres/index_info.go
@@ -10,7 +10,10 @@ SELECT
 	i.relname AS index_name,
 	t.relname AS table_name,
 	ARRAY(
-		SELECT PG_GET_INDEXDEF(pg_index.indexrelid, k + 1, TRUE)
+		SELECT COALESCE(
+			(SELECT attname::TEXT FROM pg_attribute WHERE attrelid = pg_index.indrelid AND attnum = pg_index.indkey[k]),
+			(SELECT PG_GET_INDEXDEF(pg_index.indexrelid, k + 1, TRUE))
+		)
 		FROM GENERATE_SUBSCRIPTS(pg_index.indkey, 1) AS k
 		ORDER BY k
 	) AS column_names
-- 
2.43.0


From 828754609081f31fb6971a59ba1bb0f1c1859e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:32 +0000
Subject: [PATCH 27/33] fix: read MySQL's functional indexes instead of failing

---
 infra/mysql/index_info.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/infra/mysql/index_info.go b/infra/mysql/index_info.go
index 14c4b46..e72e1fd 100644
--- a/infra/mysql/index_info.go
+++ b/infra/mysql/index_info.go
@@ -1,5 +1,7 @@
 package mysql
 
+import "database/sql"
+
 const indexFetchQuery = `
 SELECT
 	TABLE_NAME,
@@ -20,9 +22,10 @@ type IndexInfo struct {
 }
 
 type flatIndexInfo struct {
-	TableName  string `db:"TABLE_NAME"`
-	IndexName  string `db:"INDEX_NAME"`
-	ColumnName string `db:"COLUMN_NAME"`
+	TableName string `db:"TABLE_NAME"`
+	IndexName string `db:"INDEX_NAME"`
+	// ColumnName is NULL for a functional key part
+	ColumnName sql.NullString `db:"COLUMN_NAME"`
 }
 
 func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
@@ -33,11 +36,11 @@ func toIndexInfo(orderedFlatInfo []*flatIndexInfo) []*IndexInfo {
 	for _, flatInfo := range orderedFlatInfo {
 		if lastTName == flatInfo.TableName && lastIName == flatInfo.IndexName {
 			idx := infos[len(infos)-1]
-			idx.Columns = append(idx.Columns, flatInfo.ColumnName)
+			idx.Columns = append(idx.Columns, flatInfo.ColumnName.String)
 		} else {
 			infos = append(infos, &IndexInfo{
 				TableName: flatInfo.TableName,
-				Columns:   []string{flatInfo.ColumnName},
+				Columns:   []string{flatInfo.ColumnName.String},
 			})
 		}
 
-- 
2.43.0


From 322b4daafa0670a782d29edd5569d580421e3d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 28/33] fix: report errors of Hasura answered with status 200

---
 infra/hasura/client.go           | 12 +++++++++++-
 infra/hasura/graphql_response.go |  9 +++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)
 create mode 100644 infra/hasura/graphql_response.go

diff --git a/infra/hasura/client.go b/infra/hasura/client.go
index 8ddf7b7..1fbb8ce 100644
--- a/infra/hasura/client.go
+++ b/infra/hasura/client.go
@@ -37,10 +37,20 @@ func (c *Client) QueryWithoutResult(query string, variables map[string]interface
 		"query":     query,
 		"variables": variables,
 	}
-	_, err := c.post(graphqlPath, body)
+	res, err := c.post(graphqlPath, body)
 	if err != nil {
 		return errors.Wrap(err, "query for GraphQL failed")
 	}
+
+	// status is 200 even when GraphQL failed
+	var gres graphQLResponse
+	err = json.Unmarshal(res, &gres)
+	if err != nil {
+		return errors.Wrap(err, "failed to decode response from Hasura")
+	}
+	if len(gres.Errors) > 0 {
+		return errors.Errorf("query for GraphQL failed: %s", gres.Errors[0].Message)
+	}
 	return nil
 }
 
diff --git a/infra/hasura/graphql_response.go b/infra/hasura/graphql_response.go
new file mode 100644
index 0000000..7df8140
--- /dev/null
+++ b/infra/hasura/graphql_response.go
@@ -0,0 +1,9 @@
+package hasura
+
+type graphQLResponse struct {
+	Errors []*graphQLError `json:"errors"`
+}
+
+type graphQLError struct {
+	Message string `json:"message"`
+}
-- 
2.43.0


From 3bb1ab551051eee5f3f54bd6df71dcb845727523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 29/33] fix: look for columns of outer queries in the nearest
 one first

---
 .../dservice/dparser/build_table_fields.go    | 61 ++++++++++---------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index 91d30a5..ddede09 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -23,7 +23,7 @@ type tableFieldsBuilder struct{}
 
 func buildTableFields(dbTables map[string]*TableSchema, scope *StmtScope) (tableFieldColumns, error) {
 	tfb := &tableFieldsBuilder{}
-	info := newScopeInfo(dbTables, scope, tableOutputCols{})
+	info := newScopeInfo(dbTables, scope, nil)
 	_, tableFields, err := tfb.calculateReferences(info)
 	if err != nil {
 		return nil, err
@@ -44,7 +44,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 
 		t := tableMap[s.Name]
 		if t.IsLateral {
-			subScopeVisibleCols = lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+			subScopeVisibleCols = info.listVisibleColumns()
 		}
 
 		childInfo := info.createChild(s, subScopeVisibleCols)
@@ -56,7 +56,7 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 		info.addSubqueryInfo(s.Name, t.AsOrName(), cols, newFieldCols)
 	}
 
-	visibleCols := lo.Assign(info.originalExternalCols, info.getVisibleColumns())
+	visibleCols := info.listVisibleColumns()
 	for _, s := range scope.FieldScopes {
 		childInfo := info.createChild(s, visibleCols)
 		cols, newFieldColumns, err := tfb.calculateReferences(childInfo)
@@ -108,8 +108,9 @@ func (tfb *tableFieldsBuilder) calculateReferences(info *scopeInfo) ([]*outputCo
 type scopeInfo struct {
 	dbTables map[string]*TableSchema
 
-	scope                *StmtScope
-	originalExternalCols tableOutputCols
+	scope *StmtScope
+	// originalExternalCols is the columns of enclosing scopes, the nearest first
+	originalExternalCols []tableOutputCols
 
 	referencingFields tableFieldColumns
 
@@ -118,7 +119,7 @@ type scopeInfo struct {
 	starTables *lib.Set[string]
 }
 
-func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func newScopeInfo(dbTables map[string]*TableSchema, scope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	referencingColumns := buildReferencingColumns(dbTables, scope.Tables)
 	refTables := newRefTables(referencingColumns, scope.Tables, externalCols)
 
@@ -153,7 +154,7 @@ func buildReferencingColumns(dbTables map[string]*TableSchema, tables []*Table)
 	return res
 }
 
-func (si *scopeInfo) createChild(childScope *StmtScope, externalCols tableOutputCols) *scopeInfo {
+func (si *scopeInfo) createChild(childScope *StmtScope, externalCols []tableOutputCols) *scopeInfo {
 	return newScopeInfo(si.dbTables, childScope, externalCols)
 }
 
@@ -234,6 +235,10 @@ func (si *scopeInfo) listStarReferencingCols(foundCols []*outputCol) ([]*outputC
 	return res, nil
 }
 
+func (si *scopeInfo) listVisibleColumns() []tableOutputCols {
+	return append([]tableOutputCols{si.getVisibleColumns()}, si.originalExternalCols...)
+}
+
 func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 	res := tableOutputCols{}
 	for asName, name := range si.refTables.asToName {
@@ -247,18 +252,19 @@ func (si *scopeInfo) getVisibleColumns() tableOutputCols {
 
 type refTables struct {
 	internalCols tableOutputCols
-	externalCols tableOutputCols
+	externalCols []tableOutputCols
 
 	asToName        map[string]string
 	subqueryAsNames *lib.Set[string]
 }
 
-func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols tableOutputCols) *refTables {
+func newRefTables(referencingColumns tableOutputCols, tables []*Table, externalCols []tableOutputCols) *refTables {
 	asToName := map[string]string{}
 	subqueryAsNames := lib.NewSet[string]()
-	for tName := range externalCols {
-		asToName[tName] = tName
-		subqueryAsNames.Add(tName)
+	for _, cols := range externalCols {
+		for tName := range cols {
+			subqueryAsNames.Add(tName)
+		}
 	}
 	for _, t := range tables {
 		asToName[t.AsOrName()] = t.Name
@@ -278,25 +284,20 @@ func (t *refTables) addSubquery(name, asName string, cols []*outputCol) {
 	t.subqueryAsNames.Add(asName)
 }
 
-func (t *refTables) getTableColsFromName(name string) ([]*outputCol, error) {
-	if cols, ok := t.internalCols[name]; ok {
-		return cols, nil
-	}
-	res, ok := t.externalCols[name]
-	if !ok {
+func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
+	if name, ok := t.asToName[asName]; ok {
+		if cols, ok := t.internalCols[name]; ok {
+			return cols, nil
+		}
 		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", name))
 	}
-
-	return res, nil
-}
-
-func (t *refTables) getTableColsFromAsName(asName string) ([]*outputCol, error) {
-	name, ok := t.asToName[asName]
-	if !ok {
-		return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
+	for _, external := range t.externalCols {
+		if cols, ok := external[asName]; ok {
+			return cols, nil
+		}
 	}
 
-	return t.getTableColsFromName(name)
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no table found: %s", asName))
 }
 
 func (t *refTables) getReferencingColumnInfos(c *FieldColumn) ([]*columnInfo, error) {
@@ -318,8 +319,10 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	if cols, ok := t.getColumnInfosFromTableOutputCols(t.internalCols, colName); ok {
 		return cols, nil
 	}
-	if cols, ok := t.getColumnInfosFromTableOutputCols(t.externalCols, colName); ok {
-		return cols, nil
+	for _, external := range t.externalCols {
+		if cols, ok := t.getColumnInfosFromTableOutputCols(external, colName); ok {
+			return cols, nil
+		}
 	}
 
 	if t.subqueryAsNames.Contains(colName) {
-- 
2.43.0


From 322d189457088dc1a74e651ec887b3b3d1e1fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 30/33] fix: look for columns of USING in the tables it joins

---
 .../dservice/dparser/build_table_fields.go    | 20 +++++++++++++++++++
 database/dservice/dparser/field_column.go     |  3 +++
 .../mservice/parser/collect_stmt_scopes.go    |  4 ++--
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/database/dservice/dparser/build_table_fields.go b/database/dservice/dparser/build_table_fields.go
index ddede09..52d7cbf 100644
--- a/database/dservice/dparser/build_table_fields.go
+++ b/database/dservice/dparser/build_table_fields.go
@@ -173,6 +173,10 @@ func (si *scopeInfo) getColumnReferenceColumnInfos(c *FieldColumn) ([]*columnInf
 		return nil, nil
 	}
 
+	if c.Table == "" && len(c.Tables) > 0 {
+		return si.refTables.getColumnInfosInTables(c.Tables, c.Name)
+	}
+
 	if c.Table == "" {
 		cols, err := si.refTables.getColumnInfos(c.Name)
 		if err != nil {
@@ -334,6 +338,22 @@ func (t *refTables) getColumnInfos(colName string) ([]*columnInfo, error) {
 	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", colName))
 }
 
+func (t *refTables) getColumnInfosInTables(asNames []string, colName string) ([]*columnInfo, error) {
+	for _, asName := range asNames {
+		cols, err := t.getTableColsFromAsName(asName)
+		if err != nil {
+			return nil, err
+		}
+		for _, c := range cols {
+			if colName == c.name {
+				return c.referencingColumns, nil
+			}
+		}
+	}
+
+	return nil, lib.NewInvalidAstError(fmt.Sprintf("no column found for %s", colName))
+}
+
 func (t *refTables) getColumnInfosFromTableOutputCols(tableOutputs tableOutputCols, colName string) ([]*columnInfo, bool) {
 	for _, fCols := range tableOutputs {
 		for _, fc := range fCols {
diff --git a/database/dservice/dparser/field_column.go b/database/dservice/dparser/field_column.go
index cacbbe7..7b0ca82 100644
--- a/database/dservice/dparser/field_column.go
+++ b/database/dservice/dparser/field_column.go
@@ -7,4 +7,7 @@ type FieldColumn struct {
 	Table string
 	Name  string
 	Type  FieldType
+
+	// Tables is the tables where the column is looked for when Table is empty. All the visible tables when Tables is empty, too
+	Tables []string
 }
diff --git a/database/mysql/mservice/parser/collect_stmt_scopes.go b/database/mysql/mservice/parser/collect_stmt_scopes.go
index 1bedeac..51ec49c 100644
--- a/database/mysql/mservice/parser/collect_stmt_scopes.go
+++ b/database/mysql/mservice/parser/collect_stmt_scopes.go
@@ -370,8 +370,8 @@ func (sc *scopeCollector) collectJoinReferences(j *ast.Join) ([]*dparser.Table,
 	for _, col := range j.Using {
 		for _, ts := range [][]*dparser.Table{lTables, rTables} {
 			fc := &dparser.FieldColumn{Name: col.Name.L, Type: dparser.FieldCondition}
-			if len(ts) == 1 {
-				fc.Table = ts[0].AsOrName()
+			for _, t := range ts {
+				fc.Tables = append(fc.Tables, t.AsOrName())
 			}
 			fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{fc}})
 		}
-- 
2.43.0


From 029e8d96e8e2a2cc02cae18682d5ed66296b1c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 31/33] fix: find MySQL's columns whatever the case of their
 names

---
 database/mysql/mservice/parser/collect_table_schemas.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/mysql/mservice/parser/collect_table_schemas.go b/database/mysql/mservice/parser/collect_table_schemas.go
index bc87b80..03e5adf 100644
--- a/database/mysql/mservice/parser/collect_table_schemas.go
+++ b/database/mysql/mservice/parser/collect_table_schemas.go
@@ -6,6 +6,7 @@ import (
 	"github.com/mrasu/GravityR/infra/mysql"
 	"github.com/mrasu/GravityR/lib"
 	"github.com/rs/zerolog/log"
+	"strings"
 )
 
 func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dparser.TableSchema, error) {
@@ -15,7 +16,8 @@ func CollectTableSchemas(db *mysql.DB, dbName string, tables []string) ([]*dpars
 	}
 
 	schemas := dparser.CreateTableSchemas(tables, cols, func(c *mysql.ColumnInfo) (string, string, bool) {
-		return c.TableName, c.ColumnName, c.ColumnKey == "PRI"
+		// names of columns are case-insensitive in MySQL and the parser makes them lower
+		return c.TableName, strings.ToLower(c.ColumnName), c.ColumnKey == "PRI"
 	})
 
 	for i, table := range tables {
-- 
2.43.0


From 3ce9856ed6f63971afed7dfbe090df5a09a63cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 32/33] fix: keep the case of PostgreSQL's quoted names

---
 .../postgres/pservice/parser/collect_stmt_scopes.go  | 12 ++++++------
 .../postgres/pservice/parser/collect_table_names.go  |  6 +++---
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/database/postgres/pservice/parser/collect_stmt_scopes.go b/database/postgres/pservice/parser/collect_stmt_scopes.go
index e43a9da..b53f1b8 100644
--- a/database/postgres/pservice/parser/collect_stmt_scopes.go
+++ b/database/postgres/pservice/parser/collect_stmt_scopes.go
@@ -470,7 +470,7 @@ func (sc *scopeCollector) collectExprReferences(expr tree.Expr, defaultType dpar
 		if sc.isSchemaSpecified2(e.TableName, 1) {
 			sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 		} else {
-			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: e.ColumnName.Normalize()}}
+			return []*dparser.FieldColumn{{Table: e.TableName.Parts[0], Name: string(e.ColumnName)}}
 		}
 	default:
 		t := reflect.TypeOf(e).Name()
@@ -510,7 +510,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 
 			// ignore the content of subquery as it will be in different ScopeStmt
 			tables = []*dparser.Table{{
-				AsName:    t.As.Alias.Normalize(),
+				AsName:    string(t.As.Alias),
 				Name:      name,
 				IsLateral: t.Lateral,
 			}}
@@ -518,7 +518,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecified2(tt, 1) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Parts[0]}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Parts[0]}}
 			}
 		case *tree.StatementSource:
 			sc.lastError = lib.NewUnsupportedError("referencing source like [table] is not supported")
@@ -537,7 +537,7 @@ func (sc *scopeCollector) collectTables(table tree.TableExpr) ([]*dparser.Table,
 			if sc.isSchemaSpecifiedTableName(tt) {
 				sc.lastError = lib.NewUnsupportedError("schema or catalog/db specification is not supported")
 			} else {
-				tables = []*dparser.Table{{AsName: t.As.Alias.Normalize(), Name: tt.Table()}}
+				tables = []*dparser.Table{{AsName: string(t.As.Alias), Name: tt.Table()}}
 			}
 		case *tree.TableRef:
 			sc.lastError = lib.NewUnsupportedError("numeric table reference is not supported")
@@ -584,7 +584,7 @@ func (sc *scopeCollector) collectJoinReferences(j *tree.JoinTableExpr) ([]*dpars
 		case *tree.UsingJoinCond:
 			// todo: not supporting the same column name?
 			for _, col := range c.Cols {
-				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: col.Normalize(), Type: dparser.FieldCondition}}})
+				fields = append(fields, &dparser.Field{Columns: []*dparser.FieldColumn{{Table: "", Name: string(col), Type: dparser.FieldCondition}}})
 			}
 		default:
 			sc.lastError = lib.NewUnsupportedError(
@@ -662,7 +662,7 @@ func (sc *scopeCollector) isSchemaSpecifiedTableName(tt *tree.TableName) bool {
 		return true
 	}
 
-	sName := tt.SchemaName.Normalize()
+	sName := string(tt.SchemaName)
 	if sName == "" || sName == sc.targetSchema {
 		return false
 	}
diff --git a/database/postgres/pservice/parser/collect_table_names.go b/database/postgres/pservice/parser/collect_table_names.go
index 2c12da1..f471d11 100644
--- a/database/postgres/pservice/parser/collect_table_names.go
+++ b/database/postgres/pservice/parser/collect_table_names.go
@@ -40,7 +40,7 @@ func CollectTableNames(stmt *parser.Statement) ([]string, []error) {
 func (tc *tableCollector) getTableNames() []string {
 	s := lib.NewSet[string]()
 	for _, t := range tc.tables {
-		s.Add(t.name.Normalize())
+		s.Add(string(t.name))
 	}
 
 	return s.Values()
@@ -74,7 +74,7 @@ func (tc *tableCollector) pushCteTables(s *tree.Select) {
 
 	var ts []string
 	for _, cte := range s.With.CTEList {
-		ts = append(ts, cte.Name.Alias.Normalize())
+		ts = append(ts, string(cte.Name.Alias))
 	}
 	tc.cteTables = append(tc.cteTables, ts)
 }
@@ -105,7 +105,7 @@ func (tc *tableCollector) addTableIfNotDerived(asName tree.Name, tName *tree.Tab
 		))
 		return
 	}
-	if !tc.isCteTable(tName.TableName.Normalize()) {
+	if !tc.isCteTable(string(tName.TableName)) {
 		tc.tables = append(tc.tables, &table{
 			name:  tName.TableName,
 			alias: asName,
-- 
2.43.0


From f157608e7cd8bcc4b6a3718822335c125606441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:29 +0000
Subject: [PATCH 33/33] fix: keep loads of SQLs with the same text and
 different ids apart

---
 infra/aws/pi_sql_load_avg.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/infra/aws/pi_sql_load_avg.go b/infra/aws/pi_sql_load_avg.go
index 9f34e7a..591d145 100644
--- a/infra/aws/pi_sql_load_avg.go
+++ b/infra/aws/pi_sql_load_avg.go
@@ -44,7 +44,7 @@ func ConvertPiSQLLoadAvgsToVms(start, end time.Time, avgs []*PiSQLLoadAvg) []*vi
 
 			found := false
 			for _, loadOfSql := range dbLoad.Sqls {
-				if loadOfSql.Sql == avg.SQL {
+				if loadOfSql.Sql == avg.SQL && loadOfSql.TokenizedId == avg.TokenizedId {
 					if loadOfSql.LoadMax < v.Value {
 						loadOfSql.LoadMax = v.Value
 					}
-- 
2.43.0

