From a11a4329c457e344a94f3a7ac0c5cf4cc17a6b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:45 +0000
Subject: [PATCH 01/73] fix: strip the Bearer prefix from the Authorization
 header only once

---
 src/frontend/http.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index b55e619..6af1247 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -238,11 +238,9 @@ fn header_to_user_context(
 ) -> Result<UserContext, ApiError> {
     let token = header
         .map(|h| {
-            if h.starts_with(BEARER_PREFIX) {
-                Ok(h.trim_start_matches(BEARER_PREFIX).to_string())
-            } else {
-                Err(ApiError::InvalidAuthorizationHeader)
-            }
+            h.strip_prefix(BEARER_PREFIX)
+                .map(|token| token.to_string())
+                .ok_or(ApiError::InvalidAuthorizationHeader)
         })
         .transpose()?;
 
-- 
2.43.0


From 7a3d10173fc8ecf3ffea216a58af2bca4249c435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 02/73] fix: keep the structure of the filter expressions
 pushed down to remote tables

---
 .../src/filter_pushdown.rs                    | 89 +++++++++++--------
 1 file changed, 53 insertions(+), 36 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 2050e4c..739ff68 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -108,6 +108,29 @@ pub trait FilterPushdownConverter {
     }
 }
 
+// Whether the SQL of an operand needs to be put in parenthesis, given the AND/OR operator it is an
+// operand of (if any). The relative precedence of all other operators differs between the remote
+// systems, so anything except a self-contained operand is parenthesised for them.
+fn needs_parenthesis(operand: &Expr, logical_op: Option<&Operator>) -> bool {
+    match operand {
+        Expr::Column(_) | Expr::Literal(_) | Expr::Negative(_) => false,
+        Expr::BinaryExpr(BinaryExpr { op, .. }) => match logical_op {
+            Some(Operator::Or) => false,
+            Some(_) => *op == Operator::Or,
+            None => true,
+        },
+        _ => logical_op.is_none(),
+    }
+}
+
+fn parenthesise(sql: String, operand: &Expr, logical_op: Option<&Operator>) -> String {
+    if needs_parenthesis(operand, logical_op) {
+        format!("({sql})")
+    } else {
+        sql
+    }
+}
+
 impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T> {
     type Node = Expr;
 
@@ -159,24 +182,14 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
             Expr::BinaryExpr(be @ BinaryExpr { .. }) => {
                 // The visitor has been through left and right sides in that order, so the topmost
                 // item on the SQL expression stack is the right expression
-                let mut right_sql = self.pop_sql_expr();
-                let mut left_sql = self.pop_sql_expr();
-
-                // Similar as in Display impl for BinaryExpr: since the Expr has an implicit operator
-                // precedence we need to convert it to an explicit one using extra parenthesis if the
-                // left/right expression is also a BinaryExpr of lower operator precedence.
-                if let Expr::BinaryExpr(right_be @ BinaryExpr { .. }) = &*be.right {
-                    let p = right_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        right_sql = format!("({right_sql})")
-                    }
-                }
-                if let Expr::BinaryExpr(left_be @ BinaryExpr { .. }) = &*be.left {
-                    let p = left_be.op.precedence();
-                    if p == 0 || p < be.op.precedence() {
-                        left_sql = format!("({left_sql})")
-                    }
-                }
+                let right_sql = self.pop_sql_expr();
+                let left_sql = self.pop_sql_expr();
+
+                // Convert the implicit precedence of the Expr to an explicit one
+                let logical_op =
+                    Some(&be.op).filter(|op| matches!(op, Operator::And | Operator::Or));
+                let right_sql = parenthesise(right_sql, &be.right, logical_op);
+                let left_sql = parenthesise(left_sql, &be.left, logical_op);
 
                 let op_sql = self.source.op_to_sql(&be.op).ok_or_else(|| {
                     DataFusionError::Execution(format!(
@@ -188,44 +201,48 @@ impl<T: FilterPushdownConverter> TreeNodeVisitor<'_> for FilterPushdownVisitor<T
                 self.sql_exprs
                     .push(format!("{left_sql} {op_sql} {right_sql}"))
             }
-            Expr::Not(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Not(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("NOT {inner_sql}"));
             }
-            Expr::Negative(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::Negative(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("(- {inner_sql})"));
             }
-            Expr::IsNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNull(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS NULL"));
             }
-            Expr::IsNotNull(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotNull(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT NULL"));
             }
-            Expr::IsTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsTrue(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS TRUE"));
             }
-            Expr::IsFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsFalse(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS FALSE"));
             }
-            Expr::IsNotTrue(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotTrue(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT TRUE"));
             }
-            Expr::IsNotFalse(_) => {
-                let inner_sql = self.pop_sql_expr();
+            Expr::IsNotFalse(inner) => {
+                let inner_sql = parenthesise(self.pop_sql_expr(), inner, None);
                 self.sql_exprs.push(format!("{inner_sql} IS NOT FALSE"));
             }
-            Expr::InList(InList { list, negated, .. }) => {
+            Expr::InList(InList {
+                expr,
+                list,
+                negated,
+            }) => {
                 // The N elements of the list are on the top of the stack, we need to pop them first
                 let index = self.sql_exprs.len() - list.len();
                 let list_sql = self.sql_exprs.split_off(index).iter().join(", ");
                 // Now consume the expression
-                let expr_sql = self.pop_sql_expr();
+                let expr_sql = parenthesise(self.pop_sql_expr(), expr, None);
                 if *negated {
                     self.sql_exprs
                         .push(format!("{expr_sql} NOT IN ({list_sql})"));
-- 
2.43.0


From 2ef0112d64fbaa4f6b11c14d8877d54012a2b0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 03/73] fix: do not push down operators that the remote system
 does not have

---
 .../src/filter_pushdown.rs                    | 26 ++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 739ff68..817ab10 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -32,7 +32,14 @@ pub struct PostgresFilterPushdown {}
 pub struct SQLiteFilterPushdown {}
 pub struct MySQLFilterPushdown {}
 
-impl FilterPushdownConverter for PostgresFilterPushdown {}
+impl FilterPushdownConverter for PostgresFilterPushdown {
+    fn op_to_sql(&self, op: &Operator) -> Option<String> {
+        match op {
+            Operator::BitwiseXor => Some("#".to_string()),
+            _ => Some(op.to_string()),
+        }
+    }
+}
 
 impl FilterPushdownConverter for SQLiteFilterPushdown {
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
@@ -41,6 +48,12 @@ impl FilterPushdownConverter for SQLiteFilterPushdown {
             | Operator::RegexIMatch
             | Operator::RegexNotMatch
             | Operator::RegexNotIMatch
+            | Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::AtArrow
+            | Operator::ArrowAt
             | Operator::BitwiseXor => None,
             _ => Some(op.to_string()),
         }
@@ -56,6 +69,17 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
             Operator::RegexIMatch | Operator::RegexNotIMatch => None,
+            // MySQL doesn't have these operators
+            Operator::LikeMatch
+            | Operator::ILikeMatch
+            | Operator::NotLikeMatch
+            | Operator::NotILikeMatch
+            | Operator::IsDistinctFrom
+            | Operator::IsNotDistinctFrom
+            | Operator::AtArrow
+            | Operator::ArrowAt => None,
+            // By default `||` is a logical OR in MySQL, and `/` is never an integer division
+            Operator::StringConcat | Operator::Divide => None,
             Operator::RegexMatch => Some("RLIKE".to_string()),
             Operator::RegexNotMatch => Some("NOT RLIKE".to_string()),
             Operator::BitwiseXor => Some("^".to_string()),
-- 
2.43.0


From a9e559003a36aa18e5faf232487e75fe5d04ad6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 04/73] fix: only push down literals that mean the same value
 to the remote system

---
 .../src/filter_pushdown.rs                    | 33 ++++++++++++++++---
 1 file changed, 29 insertions(+), 4 deletions(-)

diff --git a/datafusion_remote_tables/src/filter_pushdown.rs b/datafusion_remote_tables/src/filter_pushdown.rs
index 817ab10..a1d4ff0 100644
--- a/datafusion_remote_tables/src/filter_pushdown.rs
+++ b/datafusion_remote_tables/src/filter_pushdown.rs
@@ -65,6 +65,11 @@ impl FilterPushdownConverter for MySQLFilterPushdown {
         quote_identifier_backticks(&col.name)
     }
 
+    fn string_to_sql(&self, val: &str) -> String {
+        // A backslash starts an escape sequence in MySQL string literals
+        format!("'{}'", val.replace('\\', "\\\\").replace('\'', "''"))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         match op {
             // TODO: see if there's a way to convert the non-case sensitive match
@@ -95,9 +100,9 @@ pub trait FilterPushdownConverter {
 
     fn scalar_value_to_sql(&self, value: &ScalarValue) -> Option<String> {
         match value {
-            ScalarValue::Utf8(Some(val)) | ScalarValue::LargeUtf8(Some(val)) => {
-                Some(format!("'{}'", val.replace('\'', "''")))
-            }
+            ScalarValue::Utf8(Some(val))
+            | ScalarValue::LargeUtf8(Some(val))
+            | ScalarValue::Utf8View(Some(val)) => Some(self.string_to_sql(val)),
             ScalarValue::Date32(Some(days)) => {
                 let date = date32_to_datetime(*days)?.date();
                 Some(format!("'{date}'"))
@@ -123,10 +128,30 @@ pub trait FilterPushdownConverter {
             | ScalarValue::TimestampMillisecond(_, Some(_))
             | ScalarValue::TimestampMicrosecond(_, Some(_))
             | ScalarValue::TimestampNanosecond(_, Some(_)) => None,
-            _ => Some(format!("{value}")),
+            // There is no portable literal for non-finite floats
+            ScalarValue::Float32(Some(val)) if !val.is_finite() => None,
+            ScalarValue::Float64(Some(val)) if !val.is_finite() => None,
+            _ if value.is_null() => Some("NULL".to_string()),
+            ScalarValue::Boolean(_)
+            | ScalarValue::Int8(_)
+            | ScalarValue::Int16(_)
+            | ScalarValue::Int32(_)
+            | ScalarValue::Int64(_)
+            | ScalarValue::UInt8(_)
+            | ScalarValue::UInt16(_)
+            | ScalarValue::UInt32(_)
+            | ScalarValue::UInt64(_)
+            | ScalarValue::Float32(_)
+            | ScalarValue::Float64(_) => Some(format!("{value}")),
+            // The display form of the remaining scalars isn't a SQL literal for the same value
+            _ => None,
         }
     }
 
+    fn string_to_sql(&self, val: &str) -> String {
+        format!("'{}'", val.replace('\'', "''"))
+    }
+
     fn op_to_sql(&self, op: &Operator) -> Option<String> {
         Some(op.to_string())
     }
-- 
2.43.0


From 8688b02fbdcd5ba9589662b22472462e0f41ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 05/73] fix: keep the case of quoted table names in time travel
 queries

---
 src/version.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/version.rs b/src/version.rs
index f45ad52..1b1cf61 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -81,10 +81,12 @@ impl VisitorMut for TableVersionProcessor {
                     let unresolved_name = name.to_string();
                     let resolved_ref = TableReference::from(unresolved_name.as_str())
                         .resolve(&self.default_catalog, &self.default_schema);
+                    // The parts are already normalized, so quote them to have them parse back to
+                    // the very same names
                     let full_object_name = ObjectName(vec![
-                        Ident::new(resolved_ref.catalog.as_ref()),
-                        Ident::new(resolved_ref.schema.as_ref()),
-                        Ident::new(resolved_ref.table.as_ref()),
+                        Ident::with_quote('"', resolved_ref.catalog.as_ref()),
+                        Ident::with_quote('"', resolved_ref.schema.as_ref()),
+                        Ident::with_quote('"', resolved_ref.table.as_ref()),
                     ]);
 
                     self.table_versions
-- 
2.43.0


From 9a080f255e34bea260047b06fde8148ee5ed9f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:57 +0000
Subject: [PATCH 06/73] fix: resolve versioned tables against the session's
 default schema

---
 src/context/logical.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 78fa6e7..35766c8 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -1,4 +1,3 @@
-use crate::catalog::DEFAULT_SCHEMA;
 use crate::context::SeafowlContext;
 use crate::datafusion::parser::{DFParser, Statement as DFStatement, CONVERT_TO_DELTA};
 use crate::datafusion::utils::build_schema;
@@ -340,7 +339,7 @@ impl SeafowlContext {
     async fn rewrite_time_travel_query(&self, q: &mut Query) -> Result<SessionState> {
         let mut version_processor = TableVersionProcessor::new(
             self.default_catalog.clone(),
-            DEFAULT_SCHEMA.to_string(),
+            self.default_schema.clone(),
         );
         q.visit(&mut version_processor);
 
-- 
2.43.0


From f3f5b41dcf445ee18cb8ee2bc86d7c7c3729faf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:09 +0000
Subject: [PATCH 07/73] fix: report an unrecognised object store URL as an
 error instead of panicking

---
 object_store_factory/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/object_store_factory/src/lib.rs b/object_store_factory/src/lib.rs
index 255f862..85f7681 100644
--- a/object_store_factory/src/lib.rs
+++ b/object_store_factory/src/lib.rs
@@ -137,7 +137,7 @@ pub async fn build_object_store_from_opts(
     url: &Url,
     options: HashMap<String, String>,
 ) -> Result<Box<dyn ObjectStore>, object_store::Error> {
-    let (scheme, _) = ObjectStoreScheme::parse(url).unwrap();
+    let (scheme, _) = ObjectStoreScheme::parse(url)?;
 
     match scheme {
         // `parse_url_opts` will swallow the URL path for memory/local FS stores
-- 
2.43.0


From edda211b67cd5b0af30f6f9808ae60c890ca631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 08/73] fix: let another statement follow COPY in a script

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0452316..0bf354b 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -310,7 +310,7 @@ impl<'a> DFParser<'a> {
                     }
                 }
             } else {
-                let token = self.parser.next_token();
+                let token = self.parser.peek_token();
                 if token == Token::EOF || token == Token::SemiColon {
                     break;
                 } else {
-- 
2.43.0


From 80f6387a5bd283e3919fe1443520ee7816166dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 09/73] fix: refuse a compound name in VACUUM DATABASE

---
 src/datafusion/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 0bf354b..65c1153 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -212,7 +212,7 @@ impl<'a> DFParser<'a> {
         if self.parser.parse_keyword(Keyword::TABLE) {
             table_name = self.parser.parse_object_name(true)?;
         } else if self.parser.parse_keyword(Keyword::DATABASE) {
-            let database_name = self.parser.parse_object_name(false)?.0[0].clone();
+            let database_name = self.parser.parse_identifier(false)?;
             partitions = Some(vec![Expr::Identifier(database_name)]);
         } else {
             return self.expected(
-- 
2.43.0


From 49f8bf5dc228d12f22676e7f4e7d2f8daf952395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:53 +0000
Subject: [PATCH 10/73] fix: keep OR REPLACE in CREATE statements other than
 CREATE FUNCTION

---
 src/datafusion/parser.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/datafusion/parser.rs b/src/datafusion/parser.rs
index 65c1153..0a9a7a4 100644
--- a/src/datafusion/parser.rs
+++ b/src/datafusion/parser.rs
@@ -390,6 +390,20 @@ impl<'a> DFParser<'a> {
     pub fn parse_create(&mut self) -> Result<Statement, ParserError> {
         let or_replace = self.parser.parse_keywords(&[Keyword::OR, Keyword::REPLACE]);
 
+        if or_replace && !self.parser.peek_keyword(Keyword::FUNCTION) {
+            if self.parser.peek_keyword(Keyword::EXTERNAL)
+                || self.parser.peek_keyword(Keyword::UNBOUNDED)
+            {
+                return self.expected(
+                    "an object that can be replaced",
+                    self.parser.peek_token(),
+                );
+            }
+            // leave OR REPLACE to the native parser
+            self.parser.prev_token();
+            self.parser.prev_token();
+        }
+
         if self.parser.parse_keyword(Keyword::EXTERNAL) {
             self.parse_create_external_table(false)
         } else if self.parser.parse_keyword(Keyword::UNBOUNDED) {
-- 
2.43.0


From 2cbab9e3a63539359b5a315df8caf080e745b6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 11/73] fix: keep NULLs in the arguments and results of WASM
 functions

---
 src/wasm_udf/wasm.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 9b875be..da1e469 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -257,7 +257,14 @@ where
                 "Error casting column {col_ix:?} to array of primitive values"
             ))
         })
-        .map(|arr| arr.value(row_ix))
+        .and_then(|arr| {
+            if arr.is_null(row_ix) {
+                return Err(DataFusionError::Execution(format!(
+                    "NULL in column {col_ix:?} can't be passed to a WASM function"
+                )));
+            }
+            Ok(arr.value(row_ix))
+        })
 }
 
 fn messagepack_encode_input_value(
@@ -266,6 +273,9 @@ fn messagepack_encode_input_value(
     row_ix: usize,
     col_ix: usize,
 ) -> Result<Value> {
+    if args.get(col_ix).unwrap().is_null(row_ix) {
+        return Ok(Value::Nil);
+    }
     match value_type {
         CreateFunctionDataType::SMALLINT => {
             get_arrow_value::<arrow::datatypes::Int16Type>(args, row_ix, col_ix)
@@ -363,7 +373,7 @@ where
 {
     encoded_results
         .iter()
-        .map(|i| Some(decoder(i)).transpose())
+        .map(|i| (!i.is_nil()).then(|| decoder(i)).transpose())
         .collect::<Result<PrimitiveArray<T>>>()
         .map(|a| Arc::new(a) as ArrayRef)
 }
@@ -421,11 +431,14 @@ fn messagepack_decode_results(
         | CreateFunctionDataType::TEXT => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_str().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {:?} instead",
-                    &i
-                ))))
-                .transpose()
+                (!i.is_nil())
+                    .then(|| {
+                        i.as_str().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {:?} instead",
+                            &i
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<StringArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -454,10 +467,13 @@ fn messagepack_decode_results(
         CreateFunctionDataType::BOOLEAN => encoded_results
             .iter()
             .map(|i| {
-                Some(i.as_bool().ok_or(DataFusionError::Internal(format!(
-                    "Expected to find string value, received {i:?} instead"
-                ))))
-                .transpose()
+                (!i.is_nil())
+                    .then(|| {
+                        i.as_bool().ok_or(DataFusionError::Internal(format!(
+                            "Expected to find string value, received {i:?} instead"
+                        )))
+                    })
+                    .transpose()
             })
             .collect::<Result<BooleanArray>>()
             .map(|a| Arc::new(a) as ArrayRef),
@@ -490,7 +506,7 @@ fn messagepack_decode_results(
         } => encoded_results
             .iter()
             .map(|i| {
-                Some(
+                (!i.is_nil()).then(||
                     i.as_array()
                         .ok_or(DataFusionError::Internal(format!(
                             "Expected to find array containing decimal parts, received {i:?} instead"
-- 
2.43.0


From c6f43fe9be957a0f13d93cb9a470ce2d67815826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 12/73] fix: reassemble the halves of decimals returned by WASM
 functions

---
 src/wasm_udf/wasm.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index da1e469..a437bb5 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -537,7 +537,7 @@ fn messagepack_decode_results(
                                 .ok_or(DataFusionError::Internal(format!("Decimal value high half expected to be integer, found {:?} instead", decimal_array[2])))?;
                             let low = decimal_array[3].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal value low half expected to be integer, found {:?} instead", decimal_array[3])))?;
-                            let value:i128 = (low as i128) + ((high as i128) << 64);
+                            let value:i128 = (low as u64 as i128) | ((high as i128) << 64);
                             Ok(value)
                         }),
                 )
-- 
2.43.0


From b1c7f713896fe68866ee9bcf70eeed5112b10136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 13/73] fix: accept negative scales in decimals returned by
 WASM functions

---
 src/wasm_udf/wasm.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index a437bb5..ac4892d 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -524,10 +524,10 @@ fn messagepack_decode_results(
                                     }
                                     Ok(p_u8)
                                 })?;
-                            decimal_array[1].as_u64()
+                            decimal_array[1].as_i64()
                                 .ok_or(DataFusionError::Internal(format!("Decimal scale expected to be integer, found {:?} instead", decimal_array[1])))
-                                .and_then(|s_u64| {
-                                    let s_i8: i8 = s_u64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_u64:?} to i8 {err:?}")))?;
+                                .and_then(|s_i64| {
+                                    let s_i8: i8 = s_i64.try_into().map_err(|err| DataFusionError::Internal(format!("Couldn't convert 64-bit scale value {s_i64:?} to i8 {err:?}")))?;
                                     if s_i8 != *s {
                                         return Err(DataFusionError::Internal(format!("Expected to receive a decimal with scale {:?}, got {:?} instead.", *s, s_i8)))
                                     }
-- 
2.43.0


From 0e2d3b7f614554403f84679e6e0835ae26942caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 14/73] fix: refuse decimals returned by WASM functions that
 exceed their precision

---
 src/wasm_udf/wasm.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index ac4892d..f699719 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -547,6 +547,7 @@ fn messagepack_decode_results(
             .and_then(|a| {
                 let arr = (a as arrow::array::Decimal128Array)
                     .with_precision_and_scale(*p, *s)
+                    .and_then(|a| a.validate_decimal_precision(*p).map(|_| a))
                     .map_err(|e| DataFusionError::Internal(format!("Error setting precision {:?} scale {:?} for decimal result: {:?}", *p, *s, e)))?;
                 Ok(Arc::new(arr) as ArrayRef)
             }),
-- 
2.43.0


From 719bb489545ffbc9afd951a39796eca4d74943be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 15/73] fix: write only the size prefix in front of the input
 of a WASM function

---
 src/wasm_udf/wasm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f699719..0849125 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -190,7 +190,11 @@ impl WasmMessagePackUDFInstance {
         let ptr: usize = udf_input_ptr.try_into().unwrap();
         // write size of input buffer first
         self.memory
-            .write(&mut self.store, ptr, &udf_input_buf.len().to_ne_bytes())
+            .write(
+                &mut self.store,
+                ptr,
+                &(udf_input_buf.len() as i32).to_ne_bytes(),
+            )
             .map_err(|err| {
                 DataFusionError::Internal(format!(
                     "Error copying input buffer size to WASM memory: {err:?}"
-- 
2.43.0


From 1337840e0bdc6aad9a2a264b05fedfc6050249a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 16/73] fix: treat WASM pointers as unsigned

---
 src/wasm_udf/wasm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index 0849125..f298ea3 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -128,7 +128,7 @@ impl WasmMessagePackUDFInstance {
     }
 
     fn read_udf_output(&mut self, udf_output_ptr: i32) -> Result<(Value, i32)> {
-        let ptr: usize = udf_output_ptr.try_into().unwrap();
+        let ptr = udf_output_ptr as u32 as usize;
         let mut size_buffer = [0u8; SIZE_BYTE_COUNT];
         self.memory
             .read(&self.store, ptr, &mut size_buffer)
@@ -187,7 +187,7 @@ impl WasmMessagePackUDFInstance {
                     "Error allocating input buffer in WASM memory: {e:?}"
                 ))
             })?;
-        let ptr: usize = udf_input_ptr.try_into().unwrap();
+        let ptr = udf_input_ptr as u32 as usize;
         // write size of input buffer first
         self.memory
             .write(
-- 
2.43.0


From 6baee95e6369b23f03d03a8e8c00bbd8cbcc15f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:23 +0000
Subject: [PATCH 17/73] fix: report unsupported argument types of WASM
 functions instead of panicking

---
 src/wasm_udf/wasm.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f298ea3..c5e6fbb 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -804,8 +804,8 @@ pub fn create_udf_from_wasm(
         CreateFunctionLanguage::Wasm => {
             let converted_input_types = input_types
                 .iter()
-                .map(|t| get_wasm_type(t).unwrap())
-                .collect();
+                .map(get_wasm_type)
+                .collect::<Result<_>>()?;
             make_scalar_function_from_wasm(
                 module_bytes,
                 function_name,
-- 
2.43.0


From 03aa8d31014553126ea39fd8a87173532cd25859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 18/73] fix: check the declared signature of WASM functions

---
 src/wasm_udf/wasm.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index c5e6fbb..f10765f 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -15,7 +15,9 @@ use datafusion::{
 use datafusion::error::Result;
 use datafusion::prelude::*;
 
-use wasmtime::{Engine, Instance, Memory, Module, Store, TypedFunc, Val, ValType};
+use wasmtime::{
+    Engine, FuncType, Instance, Memory, Module, Store, TypedFunc, Val, ValType,
+};
 
 use super::data_types::{get_wasm_type, CreateFunctionDataType, CreateFunctionLanguage};
 
@@ -661,12 +663,21 @@ fn make_scalar_function_from_wasm(
         DataFusionError::Internal(format!("Error instantiating module: {e:?}"))
     })?;
 
-    let _func = instance
+    let func = instance
         .get_func(&mut store, function_name)
         .ok_or_else(|| {
             DataFusionError::Internal(format!("Error loading function {function_name:?}"))
         })?;
 
+    let declared_type =
+        FuncType::new(store.engine(), input_types.clone(), [return_type.clone()]);
+    if !func.matches_ty(&store, &declared_type) {
+        return Err(DataFusionError::Internal(format!(
+            "Function {function_name:?} has type {}, but was declared as {declared_type}",
+            func.ty(&store)
+        )));
+    }
+
     // This function has to be of type Fn instead of FnMut. The function invocation (func.call)
     // needs a mutable context, which forces this closure to be FnMut.
     // This means we have to create a store and load the function inside of this closure, discarding
-- 
2.43.0


From f7bff48ed27665ab48cd2d175d643bb1ef5e8df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:24 +0000
Subject: [PATCH 19/73] fix: pass empty batches to WASM functions with constant
 arguments

---
 src/wasm_udf/wasm.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/wasm_udf/wasm.rs b/src/wasm_udf/wasm.rs
index f10765f..6813443 100644
--- a/src/wasm_udf/wasm.rs
+++ b/src/wasm_udf/wasm.rs
@@ -565,12 +565,11 @@ fn messagepack_decode_results(
 fn columnar_values_to_array(args: &[ColumnarValue]) -> Result<Vec<ArrayRef>> {
     let inferred_length = args
         .iter()
-        .map(|v| match v {
-            ColumnarValue::Array(array) => array.len(),
-            ColumnarValue::Scalar(_) => 1,
+        .find_map(|v| match v {
+            ColumnarValue::Array(array) => Some(array.len()),
+            ColumnarValue::Scalar(_) => None,
         })
-        .max()
-        .unwrap_or(0);
+        .unwrap_or(1);
 
     args.iter()
         .map(|arg| arg.clone().into_array(inferred_length))
-- 
2.43.0


From 000eaf789d685e2ddfffb0fdff6bb1ccfad20372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 20/73] fix: SELECT INTO and EXPLAIN ANALYZE of a write need
 write permission over HTTP

---
 src/context/logical.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 35766c8..32812c1 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -27,7 +27,7 @@ use itertools::Itertools;
 use sqlparser::ast::{
     AlterTableOperation, CreateFunction as CreateFunctionSql, CreateFunctionBody,
     CreateTable as CreateTableSql, Expr as SqlExpr, Expr, Insert, ObjectType, Query,
-    Statement, TableFactor, TableWithJoins, Value, VisitMut,
+    SetExpr, Statement, TableFactor, TableWithJoins, Value, VisitMut,
 };
 use std::sync::Arc;
 use tracing::debug;
@@ -45,17 +45,34 @@ pub fn is_read_only(plan: &LogicalPlan) -> bool {
 
 pub fn is_statement_read_only(statement: &DFStatement) -> bool {
     if let DFStatement::Statement(s) = statement {
-        matches!(
-            **s,
-            Statement::Query(_)
-                | Statement::Explain { .. }
-                | Statement::ShowTables { .. }
-        )
+        is_sql_statement_read_only(s)
     } else {
         false
     }
 }
 
+fn is_sql_statement_read_only(statement: &Statement) -> bool {
+    match statement {
+        Statement::Query(query) => is_query_read_only(query),
+        // EXPLAIN ANALYZE executes the statement that it explains
+        Statement::Explain {
+            analyze, statement, ..
+        } => !analyze || is_sql_statement_read_only(statement),
+        Statement::ShowTables { .. } => true,
+        _ => false,
+    }
+}
+
+fn is_query_read_only(query: &Query) -> bool {
+    match query.body.as_ref() {
+        // SELECT ... INTO creates a table
+        SetExpr::Select(select) => select.into.is_none(),
+        SetExpr::Query(query) => is_query_read_only(query),
+        SetExpr::Insert(_) | SetExpr::Update(_) => false,
+        _ => true,
+    }
+}
+
 impl SeafowlContext {
     pub async fn create_logical_plan(&self, sql: &str) -> Result<LogicalPlan> {
         let mut statements = self.parse_query(sql).await?;
-- 
2.43.0


From 31eaf097b1bb15cb1fd800100d7a415bf7b1fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 21/73] fix: a batch with a query needs read permission even if
 writes are open

---
 src/frontend/http.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 6af1247..4d9525c 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -181,14 +181,13 @@ pub async fn uncached_read_write_query(
         .filter(|s| is_statement_read_only(s))
         .count();
 
-    // Check for authorization
-    if !user_context.can_perform_action(if reads == statements.len() {
-        Action::Read
-    } else {
-        Action::Write
-    }) {
+    // Check for authorization: both actions are needed if there are statements of both kinds
+    if reads < statements.len() && !user_context.can_perform_action(Action::Write) {
         return Err(ApiError::WriteForbidden);
     };
+    if reads > 0 && !user_context.can_perform_action(Action::Read) {
+        return Err(ApiError::ReadForbidden);
+    };
 
     // If we have a read statement, make sure it's the last and only one (that's the only one
     // we'll return actual results for)
-- 
2.43.0


From 3e98af071cc9cbf1af64b3774136529125e652bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:55 +0000
Subject: [PATCH 22/73] fix: include tables scanned only in subqueries in the
 ETag

---
 src/frontend/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 4d9525c..1b80b4f 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -95,7 +95,8 @@ impl TreeNodeVisitor<'_> for ETagBuilderVisitor {
 
 fn plan_to_etag(plan: &LogicalPlan) -> String {
     let mut visitor = ETagBuilderVisitor::default();
-    plan.visit(&mut visitor).unwrap();
+    // Tables can also be scanned only inside of subqueries in expressions
+    plan.visit_with_subqueries(&mut visitor).unwrap();
 
     debug!("Extracted table versions: {:?}", visitor.table_versions);
 
-- 
2.43.0


From d21f9d9a006624e3db3ec50e7c0c7a05403235d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 23/73] fix: refuse uploads without a supported file extension
 before writing them out

---
 src/frontend/http.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index 1b80b4f..eeee98c 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -429,13 +429,18 @@ pub async fn upload(
             }
 
             file_type = filename
-                .split('.')
-                .last()
+                .rsplit_once('.')
                 .ok_or_else(|| {
                     ApiError::UploadMissingFilenameExtension(filename.clone())
                 })?
+                .1
                 .to_string();
 
+            // Check this before using the file type in the name of the temporary file
+            if file_type != "csv" && file_type != "parquet" {
+                return Err(ApiError::UploadUnsupportedFileFormat(filename));
+            };
+
             temp_file = tempfile::Builder::new()
                 .suffix(&format!(".{file_type}"))
                 .tempfile()?;
-- 
2.43.0


From 664b0d0867b5fc0f8f111e666e76adfc49e123f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:25 +0000
Subject: [PATCH 24/73] fix: say so when an upload contains no file

---
 src/frontend/http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/frontend/http.rs b/src/frontend/http.rs
index eeee98c..12ecea8 100644
--- a/src/frontend/http.rs
+++ b/src/frontend/http.rs
@@ -455,8 +455,8 @@ pub async fn upload(
         }
     }
 
-    if file_type != "csv" && file_type != "parquet" {
-        return Err(ApiError::UploadUnsupportedFileFormat(filename));
+    if filename.is_empty() {
+        return Err(ApiError::UploadMissingFile);
     };
 
     // Execute the plan and persist objects as well as table/partition metadata
-- 
2.43.0


From d11bd64394483166a60ebaed191ed92dc8b7f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:40 +0000
Subject: [PATCH 25/73] fix: refuse mode=memory SQLite catalogs paired with
 persistent storage

sqlx also treats an SQLite DSN with mode=memory as an in-memory database, so
validate_config has to as well.
---
 src/config/schema.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/config/schema.rs b/src/config/schema.rs
index 2fd8154..3aea034 100644
--- a/src/config/schema.rs
+++ b/src/config/schema.rs
@@ -354,7 +354,7 @@ pub struct Runtime {
 }
 
 pub fn validate_config(config: SeafowlConfig) -> Result<SeafowlConfig, ConfigError> {
-    let in_memory_catalog = matches!(config.catalog, Some(Catalog::Sqlite(Sqlite { ref dsn, journal_mode: _, read_only: _ })) if dsn.contains(":memory:"));
+    let in_memory_catalog = matches!(config.catalog, Some(Catalog::Sqlite(Sqlite { ref dsn, journal_mode: _, read_only: _ })) if dsn.contains(":memory:") || dsn.contains("mode=memory"));
     let in_memory_object_store =
         matches!(config.object_store, Some(ObjectStoreConfig::Memory));
 
-- 
2.43.0


From 6d774c5ce6a7454aacde28b0a1b93db907ea543d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 26/73] fix: don't forget a dropped table when listing its
 objects failed

delete_in_prefix skipped listing errors and reported success, so the garbage
collection removed the catalog record while objects were left behind.
---
 src/object_store/wrapped.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/object_store/wrapped.rs b/src/object_store/wrapped.rs
index a17b10c..7c5d709 100644
--- a/src/object_store/wrapped.rs
+++ b/src/object_store/wrapped.rs
@@ -125,9 +125,8 @@ impl InternalObjectStore {
     pub async fn delete_in_prefix(&self, prefix: &Path) -> Result<(), Error> {
         let mut path_stream = self.inner.list(Some(prefix));
         while let Some(maybe_object) = path_stream.next().await {
-            if let Ok(ObjectMeta { location, .. }) = maybe_object {
-                self.inner.delete(&location).await?;
-            }
+            let ObjectMeta { location, .. } = maybe_object?;
+            self.inner.delete(&location).await?;
         }
         Ok(())
     }
-- 
2.43.0


From 776ecfc5940e6b603d6751535c3c33a3bf61d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 27/73] fix: retry the deletion of a dropped table before
 marking it as failed

The transitions were swapped: the first failure marked the table as failed,
which the next collections skip, and the retry status was never reached.
---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 0157b4a..d5407b1 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -80,7 +80,7 @@ pub async fn gc_databases(
                 "Encountered error while trying to delete table in directory {}: {err}",
                 dt.uuid
             );
-            if dt.deletion_status != DroppedTableDeletionStatus::Pending {
+            if dt.deletion_status == DroppedTableDeletionStatus::Pending {
                 dt.deletion_status = DroppedTableDeletionStatus::Retry;
             } else {
                 dt.deletion_status = DroppedTableDeletionStatus::Failed;
-- 
2.43.0


From a5b4f71a906ed950090b70252a526213688efbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:12 +0000
Subject: [PATCH 28/73] fix: don't overflow the garbage collection interval

gc_interval * 3600 was computed in u16, so any interval of 19 hours or more
panicked in debug builds and wrapped around to a wrong interval otherwise.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a8482a4..9913f09 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -239,7 +239,7 @@ async fn main() {
         // Add a GC task for purging obsolete objects from the catalog and the store
         if context.config.misc.gc_interval > 0 {
             let mut interval = interval(Duration::from_secs(
-                (context.config.misc.gc_interval * 3600) as u64,
+                u64::from(context.config.misc.gc_interval) * 3600,
             ));
 
             if let Some(internal_object_store) = context.internal_object_store.as_ref() {
-- 
2.43.0


From c8f6ce3ef549de2ff0e6aa511d8d12f7a8123693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:59 +0000
Subject: [PATCH 29/73] fix: compare sync descriptors with the columns of the
 batch and refuse to merge schemas of different length

---
 src/sync/schema/mod.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sync/schema/mod.rs b/src/sync/schema/mod.rs
index 03342d0..19a0b44 100644
--- a/src/sync/schema/mod.rs
+++ b/src/sync/schema/mod.rs
@@ -21,7 +21,7 @@ impl SyncSchema {
         schema: SchemaRef,
         validate_pks: bool,
     ) -> SyncResult<Self> {
-        if column_descriptors.len() != schema.flattened_fields().len() {
+        if column_descriptors.len() != schema.fields().len() {
             return Err(SyncError::SchemaError {
                 reason: "Column descriptors do not match the schema".to_string(),
             });
@@ -181,14 +181,16 @@ impl SyncSchema {
     // This is a shallower check than the equality check, since it checks for the sync column roles,
     // names, data types and order (and doesn't inspect the underlying arrows field equality).
     pub fn is_compatible_with(&self, other: &SyncSchema) -> bool {
-        self.columns()
-            .iter()
-            .zip(other.columns().iter())
-            .all(|(this, other)| {
-                this.name == other.name
-                    && this.role == other.role
-                    && this.field().data_type() == other.field().data_type()
-            })
+        self.columns().len() == other.columns().len()
+            && self
+                .columns()
+                .iter()
+                .zip(other.columns().iter())
+                .all(|(this, other)| {
+                    this.name == other.name
+                        && this.role == other.role
+                        && this.field().data_type() == other.field().data_type()
+                })
     }
 }
 
-- 
2.43.0


From e70651c75a19a3ff7edfc246d8fcb4195cd862e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 30/73] fix: take each Changed column of a squashed sync from
 its own rows

---
 src/sync/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 39d8e7e..aeac806 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -209,7 +209,7 @@ pub(super) fn squash_batches(
                 }
                 ColumnRole::Changed => {
                     // Insert the indices for both this column...
-                    indices.insert(col_id, &changed_indices[0]);
+                    indices.insert(col_id, &changed_indices[changed_pos]);
 
                     // ... as well as for the actual changed Value column
                     let changed_col_id = schema
@@ -221,7 +221,7 @@ pub(super) fn squash_batches(
                                 .name(),
                         )
                         .expect("Field exists");
-                    indices.insert(changed_col_id, &changed_indices[0]);
+                    indices.insert(changed_col_id, &changed_indices[changed_pos]);
                     changed_pos += 1;
                 }
                 ColumnRole::Value => {
-- 
2.43.0


From 5e12d889e6cee10d1f949a9c88094d952dfb1032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 31/73] fix: don't panic when squashing a sync that only has
 temporary rows

---
 src/sync/utils.rs | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index aeac806..ebdbe6a 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -11,7 +11,7 @@ use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
 use datafusion_common::{DataFusionError, Result};
 use datafusion_expr::{col, lit, Accumulator, Expr};
-use std::collections::{HashMap, HashSet, VecDeque};
+use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
 
@@ -168,7 +168,7 @@ pub(super) fn squash_batches(
     let (mut old_pks, mut new_pks, mut changed_rows) = (
         Vec::with_capacity(rows),
         Vec::with_capacity(rows),
-        VecDeque::with_capacity(rows),
+        vec![Vec::with_capacity(rows); changed.len()],
     );
     for (id, (old_pk, new_pk, changed_row)) in column_rows.into_iter().enumerate() {
         if temp_rows.contains(&id) {
@@ -178,11 +178,8 @@ pub(super) fn squash_batches(
 
         old_pks.push(old_pk);
         new_pks.push(new_pk);
-        for (idx, changed_row) in changed_row.iter().enumerate() {
-            match changed_rows.get_mut(idx) {
-                None => changed_rows.push_back(vec![*changed_row]),
-                Some(v) => v.push(*changed_row),
-            };
+        for (rows, changed_row) in changed_rows.iter_mut().zip(changed_row) {
+            rows.push(changed_row);
         }
     }
 
@@ -190,8 +187,8 @@ pub(super) fn squash_batches(
     let old_pk_indices = UInt64Array::from(old_pks);
     let new_pk_indices = UInt64Array::from(new_pks);
     let changed_indices = changed_rows
-        .iter()
-        .map(|rows| UInt64Array::from(rows.clone()))
+        .into_iter()
+        .map(UInt64Array::from)
         .collect::<Vec<_>>();
     let mut changed_pos = 0;
     let mut indices: HashMap<usize, &UInt64Array> = HashMap::new();
-- 
2.43.0


From 502c6e38725f044047459340e2d0fc0169ae4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:46 +0000
Subject: [PATCH 32/73] fix: pair new with old primary key columns by name when
 squashing syncs

---
 src/sync/utils.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index ebdbe6a..114e4ec 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -81,7 +81,22 @@ pub(super) fn squash_batches(
     };
 
     let (old_pk_cols, (sort_fields, nulls)) = columns(ColumnRole::OldPk);
-    let (new_pk_cols, _) = columns(ColumnRole::NewPk);
+    // Pick up the new PK columns in the order of the old ones, as they needn't be sent in the same one.
+    let new_pk_cols = sync_schema
+        .columns()
+        .iter()
+        .filter(|old_pk| old_pk.role() == ColumnRole::OldPk)
+        .map(|old_pk| {
+            let col_id = sync_schema
+                .columns()
+                .iter()
+                .position(|col| {
+                    col.role() == ColumnRole::NewPk && col.name() == old_pk.name()
+                })
+                .expect("Old and new PK columns must be the same");
+            batch.column(col_id).clone()
+        })
+        .collect::<Vec<_>>();
 
     // NB: we must use the same row converter in order to compare fields, or else the comparison
     // might not make sense:
-- 
2.43.0


From a36bb0754e988ea581a80f67cac8d6cfcbe8456e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 33/73] fix: subtract the squashed rows from the in-memory row
 count

---
 src/sync/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 46e99bd..202d87d 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -556,7 +556,7 @@ impl SeafowlDataSyncWriter {
                     .squashed_rows
                     .increment(old_rows.saturating_sub(rows) as u64);
                 self.metrics.in_memory_bytes.decrement(size_delta as f64);
-                self.metrics.in_memory_rows.increment(rows_delta as f64);
+                self.metrics.in_memory_rows.decrement(rows_delta as f64);
 
                 self.size -= old_size;
                 self.size += size;
-- 
2.43.0


From 2c9a5f3b949efcb49daece39d306fce88e0c05d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 34/73] fix: don't underflow when squashing makes a table's
 batches larger

---
 src/sync/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 202d87d..5b49807 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -572,7 +572,7 @@ impl SeafowlDataSyncWriter {
             let duration = start.elapsed().as_millis();
             info!(
                 "Squashed {} bytes in {duration} ms for {url}",
-                old_size - self.size,
+                old_size.saturating_sub(self.size),
             );
         };
 
-- 
2.43.0


From 9d43850f2e72ab9c7a3eee67a70c21f8bb4d3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 35/73] fix: mark exactly one sync response as the first

---
 src/frontend/flight/handler.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/frontend/flight/handler.rs b/src/frontend/flight/handler.rs
index 36287b9..8ed0215 100644
--- a/src/frontend/flight/handler.rs
+++ b/src/frontend/flight/handler.rs
@@ -133,18 +133,18 @@ impl SeafowlFlightHandler {
         Ok(batch_stream_mutex.into_inner())
     }
 
+    // Whether this is the first sync response we're about to send; true only once per (re)start,
+    // no matter how many requests are in flight, and not used up by requests that end in an error.
+    fn is_first_response(&self) -> bool {
+        self.first_sync.swap(false, Ordering::SeqCst)
+    }
+
     pub async fn process_sync_cmd(
         &self,
         cmd: DataSyncCommand,
         sync_schema: SyncSchema,
         batches: Vec<RecordBatch>,
     ) -> SyncResult<DataSyncResponse> {
-        let first = self.first_sync.load(Ordering::SeqCst);
-        if first {
-            // We're past first response
-            self.first_sync.store(false, Ordering::SeqCst);
-        }
-
         let num_rows = batches
             .iter()
             .fold(0, |rows, batch| rows + batch.num_rows());
@@ -159,7 +159,7 @@ impl SeafowlFlightHandler {
                 accepted: true,
                 memory_sequence_number: mem_seq,
                 durable_sequence_number: dur_seq,
-                first,
+                first: self.is_first_response(),
             });
         }
 
@@ -221,7 +221,7 @@ impl SeafowlFlightHandler {
                     accepted: true,
                     memory_sequence_number: mem_seq,
                     durable_sequence_number: dur_seq,
-                    first,
+                    first: self.is_first_response(),
                 })
             }
             Err(_) => {
@@ -230,7 +230,7 @@ impl SeafowlFlightHandler {
                     accepted: false,
                     memory_sequence_number: None,
                     durable_sequence_number: None,
-                    first,
+                    first: self.is_first_response(),
                 })
             }
         }
-- 
2.43.0


From 633c531abe848a5d9da9049efe2aae37847bff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:09 +0000
Subject: [PATCH 36/73] fix: reject inlined queries without a schema list
 instead of panicking

---
 src/frontend/flight/sql.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/frontend/flight/sql.rs b/src/frontend/flight/sql.rs
index 0ad0bd7..96e2042 100644
--- a/src/frontend/flight/sql.rs
+++ b/src/frontend/flight/sql.rs
@@ -129,7 +129,9 @@ impl FlightSqlService for SeafowlFlightHandler {
         );
 
         let memory_store = MemoryStore {
-            schemas: inline_query.schemas.expect("Schema list provided"),
+            schemas: inline_query.schemas.ok_or_else(|| {
+                Status::invalid_argument("No schema list provided with the inlined query")
+            })?,
         };
 
         let info = self
-- 
2.43.0


From 06efb7b6057d982b9c0ebe43774a14a6748a9e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:41 +0000
Subject: [PATCH 37/73] fix: don't cache the last chunk's bytes for the chunks
 past the object's end

---
 src/object_store/cache.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index 5b045de..cf023f4 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -516,11 +516,9 @@ impl CachingObjectStore {
 
                 for key in &chunk_batch {
                     // Split the next chunk from the batch
-                    let data = if batch_data.len() < self.min_fetch_size as usize {
-                        batch_data.clone()
-                    } else {
-                        batch_data.split_to(self.min_fetch_size as usize)
-                    };
+                    // (the object may end before the batch does)
+                    let chunk_len = batch_data.len().min(self.min_fetch_size as usize);
+                    let data = batch_data.split_to(chunk_len);
 
                     self.cache_chunk_data(key.clone(), data).await;
                 }
-- 
2.43.0


From 64488fd6f2fdd06559a19b9fb43bfef65f70b75f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:43 +0000
Subject: [PATCH 38/73] fix: don't panic on empty and past-the-end ranges in
 the object store cache

---
 src/object_store/cache.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index cf023f4..eba9a21 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -658,9 +658,13 @@ impl ObjectStore for CachingObjectStore {
         self.metrics.get_range_calls.increment(1);
         self.metrics
             .get_range_bytes
-            .increment((range.end - range.start).try_into().unwrap());
+            .increment(range.len().try_into().unwrap());
 
         debug!("{location}-{range:?} get_range");
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         // Expand the range to the next max_fetch_size (+ alignment)
         let start_chunk = range.start / self.min_fetch_size as usize;
         // The final chunk to fetch (inclusively). E.g. with min_fetch_size = 16:
@@ -674,6 +678,10 @@ impl ObjectStore for CachingObjectStore {
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
+        if offset >= data.len() {
+            // The range starts past the end of the object, let the inner store report it
+            return self.get_range_inner(location, range).await;
+        }
         data.advance(offset);
         data.truncate(range.end - range.start);
         debug!("{location}-{range:?} return");
-- 
2.43.0


From 3fe34eedacc8cb86adda0066a2a03c3a5b00e602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:44 +0000
Subject: [PATCH 39/73] fix: write object store cache files atomically

---
 src/object_store/cache.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index eba9a21..b81cf64 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -17,6 +17,7 @@ use object_store::{
 use tempfile::TempDir;
 use tokio::time::Instant;
 use tracing::{debug, error, warn};
+use uuid::Uuid;
 
 use std::fmt::Display;
 use std::fmt::{Debug, Formatter};
@@ -57,7 +58,17 @@ impl CacheFileManager {
         }
 
         let start = Instant::now();
-        tokio::fs::write(&path, data.as_ref()).await?;
+        // Write to a temporary file first, so that neither a failed nor an ongoing write leaves a
+        // partial file under the final path
+        let tmp_path = path.with_extension(Uuid::new_v4().to_string());
+        let mut result = tokio::fs::write(&tmp_path, data.as_ref()).await;
+        if result.is_ok() {
+            result = tokio::fs::rename(&tmp_path, &path).await;
+        }
+        if let Err(err) = result {
+            let _ = tokio::fs::remove_file(&tmp_path).await;
+            return Err(err);
+        }
 
         debug!("Written data for {:?} to {:?}", cache_key, path);
         self.metrics.log_cache_disk_write(start, data.len());
-- 
2.43.0


From 81b650daec58598edca1e255b1dba314b3f85cf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 40/73] fix: don't percent-decode an HTTP location twice

---
 src/object_store/http.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index f7c8541..e7d0dc6 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -10,7 +10,7 @@ use object_store::{
     GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
     ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
-use percent_encoding::{percent_decode_str, utf8_percent_encode, NON_ALPHANUMERIC};
+use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
 use reqwest::header::{
     CONTENT_LENGTH, ETAG, IF_MATCH, IF_MODIFIED_SINCE, IF_NONE_MATCH,
@@ -142,11 +142,11 @@ impl HttpObjectStore {
         }
     }
 
-    /// Reverse the URL encoding done by `try_prepare_http_url`
+    /// Get the full URI of a path. The URL encoding done by `try_prepare_http_url` has already been
+    /// reversed by `ListingTableUrl` when it made the path, so any percent-encoded sequences left
+    /// in it are a part of the original location.
     fn get_uri(&self, path: &Path) -> String {
-        let path_str = path.to_string();
-        let decoded = percent_decode_str(path_str.as_str()).decode_utf8().unwrap();
-        format!("{}://{}", &self.scheme, decoded)
+        format!("{}://{}", &self.scheme, path)
     }
 
     fn request_builder(&self, path: &Path) -> RequestBuilder {
@@ -542,7 +542,7 @@ pub fn add_http_object_store(context: &SessionContext, ssl_cert_file: &Option<St
 /// 2) DataFusion also strips the query string, which is important in AWS signatures. To stop it from
 ///    doing that, we URI-encode the full location to make it look like it's part of the URL path.
 ///
-/// This means that the location that our object store gets needs to be decoded (see HttpObjectStore::get_uri)
+/// DataFusion decodes it once when it makes the path that our object store gets (see HttpObjectStore::get_uri)
 ///
 /// Returns a `None` if the location doesn't start with `http://` / `https://`.
 pub fn try_prepare_http_url(location: &str) -> Option<String> {
-- 
2.43.0


From 17b96855e7874cef276969f62a7efebd51f94182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 41/73] fix: don't panic on a Content-Range without the
 object's size

---
 src/object_store/http.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index e7d0dc6..0e68f92 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -224,9 +224,9 @@ impl HttpObjectStore {
         let length = CONTENT_RANGE_RE
             .captures(content_range_str)
             .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
-            .get(4)
-            .unwrap()
-            .as_str() // The regex is static, so capture group 4 is guaranteed to exist
+            .get(4) // The size is optional in the regex
+            .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
+            .as_str()
             .parse::<u64>()
             .map_err(|_| HttpObjectStoreError::NoContentLengthResponse)?;
 
-- 
2.43.0


From 723843d240e314137ab0bc61649d7c23d6590b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 42/73] fix: don't overflow on the largest Content-Range end

---
 src/object_store/http.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 0e68f92..1a92694 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -334,7 +334,7 @@ impl ObjectStore for HttpObjectStore {
 
                     Some(Self {
                         size,
-                        range: start..end + 1,
+                        range: start..end.checked_add(1)?,
                     })
                 }
             }
-- 
2.43.0


From 36eef420f1c0591212c7ff55d105081ba073ff84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:04 +0000
Subject: [PATCH 43/73] fix: don't request empty HTTP ranges

---
 src/object_store/http.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 1a92694..3738893 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -366,6 +366,10 @@ impl ObjectStore for HttpObjectStore {
         location: &Path,
         range: Range<usize>,
     ) -> object_store::Result<Bytes> {
+        if range.is_empty() {
+            return Ok(Bytes::new());
+        }
+
         let response = self
             .send(
                 self.request_builder(location)
-- 
2.43.0


From 84265698d71817f5ba3d8cfa21d4bed0917a3421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:26 +0000
Subject: [PATCH 44/73] fix: record the last complete transaction of a squashed
 sync in the commit

---
 src/sync/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sync/writer.rs b/src/sync/writer.rs
index 5b49807..e6e2893 100644
--- a/src/sync/writer.rs
+++ b/src/sync/writer.rs
@@ -617,12 +617,14 @@ impl SeafowlDataSyncWriter {
         syncs
             .iter()
             .rev()
-            .find_map(|sync| {
+            // A squashed sync can span multiple transactions, with only the last one in-complete
+            .flat_map(|sync| sync.tx_ids.iter().rev())
+            .find_map(|tx_id| {
                 if let Some(Transaction {
                     origin,
                     sequence: Some(seq),
                     ..
-                }) = self.txs.get(sync.tx_ids.last().unwrap())
+                }) = self.txs.get(tx_id)
                 {
                     Some(SyncCommitInfo::new(origin, *seq).with_new_tx(new_tx))
                 } else {
-- 
2.43.0


From 7beb92c72ccfa75e5b8aa44968548c989ad5cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:03 +0000
Subject: [PATCH 45/73] fix: fall back to the requested range when reading its
 chunks fails

---
 src/object_store/cache.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/object_store/cache.rs b/src/object_store/cache.rs
index b81cf64..c074ab7 100644
--- a/src/object_store/cache.rs
+++ b/src/object_store/cache.rs
@@ -683,9 +683,16 @@ impl ObjectStore for CachingObjectStore {
         //  - range.end == 65 (get bytes 0..64 exclusive) -> final chunk is 64 / 16 = 4 (64..72 exclusive)
         let end_chunk = (range.end - 1) / self.min_fetch_size as usize;
 
-        let mut data = self
-            .get_chunk_range(location, start_chunk, end_chunk)
-            .await?;
+        let mut data = match self.get_chunk_range(location, start_chunk, end_chunk).await
+        {
+            Ok(data) => data,
+            Err(err) => {
+                // Some of the chunks can start past the end of the object even though the requested
+                // range doesn't
+                warn!("Reading {location}-{range:?} without the cache: {err}");
+                return self.get_range_inner(location, range).await;
+            }
+        };
 
         // Finally trim away the expanded range from the chunks that are outside the requested range
         let offset = range.start - start_chunk * self.min_fetch_size as usize;
-- 
2.43.0


From b5d7ed5b6decea16339f2c1470732ef8a193f690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:50 +0000
Subject: [PATCH 46/73] fix: only take an object's size from a well-formed
 Content-Range

---
 src/object_store/http.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 3738893..2287909 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -41,7 +41,7 @@ pub const ANYHOST: &str = "anyhost";
 
 lazy_static! {
     static ref CONTENT_RANGE_RE: Regex =
-        Regex::new(r"(^bytes)\s+(\d+)\s?-\s?(\d+)?\s?/?\s?(\d+|\*)?").unwrap();
+        Regex::new(r"^(bytes)\s+(\d+)\s?-\s?(\d+)\s?/\s?(\d+|\*)\s*$").unwrap();
 }
 
 #[derive(Debug)]
@@ -224,7 +224,7 @@ impl HttpObjectStore {
         let length = CONTENT_RANGE_RE
             .captures(content_range_str)
             .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
-            .get(4) // The size is optional in the regex
+            .get(4)
             .ok_or(HttpObjectStoreError::NoContentLengthResponse)?
             .as_str()
             .parse::<u64>()
-- 
2.43.0


From ae7d1659da650bf342cc741acfcf68819b6aa1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:58 +0000
Subject: [PATCH 47/73] fix: check that an HTTP server returned the range we
 asked for

---
 src/object_store/http.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/object_store/http.rs b/src/object_store/http.rs
index 2287909..a144a7e 100644
--- a/src/object_store/http.rs
+++ b/src/object_store/http.rs
@@ -7,8 +7,8 @@ use futures::{stream, StreamExt, TryStreamExt};
 use chrono::{DateTime, TimeZone, Utc};
 use object_store::path::Path;
 use object_store::{
-    GetOptions, GetResult, GetResultPayload, ListResult, MultipartUpload, ObjectMeta,
-    ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
+    GetOptions, GetRange, GetResult, GetResultPayload, ListResult, MultipartUpload,
+    ObjectMeta, ObjectStore, PutMultipartOpts, PutOptions, PutPayload, PutResult,
 };
 use percent_encoding::{utf8_percent_encode, NON_ALPHANUMERIC};
 use reqwest::header::HeaderMap;
@@ -305,7 +305,7 @@ impl ObjectStore for HttpObjectStore {
         );
 
         // ensure that we receive the range we asked for
-        let range = if let Some(_expected) = options.range {
+        let range = if let Some(expected) = options.range {
             let val = headers
                 .get(CONTENT_RANGE)
                 .ok_or(HttpObjectStoreError::ContentRangeError)?;
@@ -348,6 +348,15 @@ impl ObjectStore for HttpObjectStore {
 
             // Update size to reflect full size of object (#5272)
             meta.size = value.size;
+
+            let expected = match expected {
+                GetRange::Bounded(range) => range.start..range.end.min(meta.size),
+                GetRange::Offset(offset) => offset..meta.size,
+                GetRange::Suffix(length) => meta.size.saturating_sub(length)..meta.size,
+            };
+            if actual != expected {
+                return Err(HttpObjectStoreError::ContentRangeError.into());
+            }
             actual
         } else {
             0..meta.size
-- 
2.43.0


From 01465075561023a9c25f87b51993769c27678880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 48/73] fix: drop every function named in DROP FUNCTION

---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index aa853d9..2f611e8 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -489,7 +489,7 @@ impl Repository for $repo {
             AND name IN ({})
             RETURNING id;
             "#,
-            func_names.iter().map(|_| "$2").collect::<Vec<_>>().join(", ")
+            (2..func_names.len() + 2).map(|i| format!("${i}")).collect::<Vec<_>>().join(", ")
         );
 
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 57d3ce452a39e4c26ab73decd3549883424ff077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 49/73] fix: write the deletion status of a dropped table the
 way the catalog stores it

---
 src/repository/default.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 2f611e8..b1f2b72 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -574,7 +574,7 @@ impl Repository for $repo {
     async fn update_dropped_table(&self, uuid: Uuid, deletion_status: DroppedTableDeletionStatus) -> Result<(), Error> {
         let mut tx = self.executor.begin().await.map_err($repo::interpret_error)?;
         sqlx::query("UPDATE dropped_table SET deletion_status = $1 WHERE uuid = $2 RETURNING uuid")
-            .bind(deletion_status)
+            .bind(deletion_status.to_string())
             .bind(uuid)
             .fetch_one(&mut *tx)
             .await.map_err($repo::interpret_error)?;
-- 
2.43.0


From 4aa1bb4e4023824bf575850d4d1b3d0b0282604c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 50/73] fix: create a table and its columns in one transaction

---
 src/repository/default.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index b1f2b72..98b7526 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -254,8 +254,6 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         // Create columns
         // TODO this breaks if we have more than (bind limit) columns
         if !schema.fields().is_empty() {
@@ -274,9 +272,11 @@ impl Repository for $repo {
             });
 
             let query = builder.build();
-            query.execute(&self.executor).await.map_err($repo::interpret_error)?;
+            query.execute(&mut *tx).await.map_err($repo::interpret_error)?;
         }
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok((new_table_id, new_version_id))
     }
 
-- 
2.43.0


From effbcb5dfeccabf178f859b66ffed3f4f529e7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:58 +0000
Subject: [PATCH 51/73] fix: create a table version and its columns in one
 transaction

---
 src/repository/default.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/repository/default.rs b/src/repository/default.rs
index 98b7526..03efe41 100644
--- a/src/repository/default.rs
+++ b/src/repository/default.rs
@@ -324,17 +324,17 @@ impl Repository for $repo {
         .await.map_err($repo::interpret_error)?
         .try_get("id").map_err($repo::interpret_error)?;
 
-        tx.commit().await.map_err($repo::interpret_error)?;
-
         sqlx::query(
             "INSERT INTO table_column (table_version_id, name, type)
             SELECT $2, name, type FROM table_column WHERE table_version_id = $1;",
         )
         .bind(last_version_id)
         .bind(new_version_id)
-        .execute(&self.executor)
+        .execute(&mut *tx)
         .await.map_err($repo::interpret_error)?;
 
+        tx.commit().await.map_err($repo::interpret_error)?;
+
         Ok(new_version_id)
     }
 
-- 
2.43.0


From b8c7b200e9b4186e9422d0e4fe0a2d1ccd55f401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 52/73] fix: honour IF NOT EXISTS in CREATE SCHEMA

---
 src/context/physical.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddbd5ab..69a50e5 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -1,6 +1,6 @@
 use super::delta::CreateDeltaTableDetails;
 use super::LakehouseTableProvider;
-use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
+use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
 use crate::context::delta::plan_to_delta_adds;
 use crate::context::SeafowlContext;
 use crate::nodes::{
@@ -122,16 +122,21 @@ impl SeafowlContext {
             LogicalPlan::Ddl(DdlStatement::CreateCatalogSchema(
                 CreateCatalogSchema {
                     schema_name,
-                    if_not_exists: _,
+                    if_not_exists,
                     schema: _,
                 },
             )) => {
                 // CREATE SCHEMA
                 // Create a schema and register it
-                self.metastore
+                match self
+                    .metastore
                     .schemas
                     .create(&self.default_catalog, schema_name)
-                    .await?;
+                    .await
+                {
+                    Err(CatalogError::SchemaAlreadyExists { .. }) if *if_not_exists => {}
+                    result => result?,
+                }
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::CreateCatalog(CreateCatalog {
-- 
2.43.0


From 3587adf5ddf057250512687632a5f8e2dda2ee6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 53/73] fix: resolve a qualified name in CREATE SCHEMA

---
 src/context/physical.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 69a50e5..ab40e95 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -127,6 +127,17 @@ impl SeafowlContext {
                 },
             )) => {
                 // CREATE SCHEMA
+                // The schema name may be qualified, in which case it arrives here as a dotted string
+                let schema_name = match schema_name.split_once('.') {
+                    None => schema_name.as_str(),
+                    Some((catalog, name)) if catalog == self.default_catalog => name,
+                    Some(_) => {
+                        return Err(DataFusionError::Execution(
+                            "Cannot create schemas in other catalogs".to_string(),
+                        ))
+                    }
+                };
+
                 // Create a schema and register it
                 match self
                     .metastore
-- 
2.43.0


From d2223b72fce5e5b01099dfd5e6383fe578338bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 54/73] fix: refuse to create a table in another database

---
 src/context/delta.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index c1e894c..716d905 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -280,6 +280,12 @@ impl SeafowlContext {
         let resolved_ref = self.resolve_table_ref(name);
         let schema_name = resolved_ref.schema.clone();
         let table_name = resolved_ref.table.clone();
+        // The table is recorded in the current catalog, so it can't be created anywhere else
+        if resolved_ref.catalog.as_ref() != self.default_catalog {
+            return Err(DataFusionError::Plan(
+                "Creating tables in other databases is not supported!".to_string(),
+            ));
+        }
         // Only supported if Seafowl has been configured with a default object store
         let internal_object_store = self.get_internal_object_store()?;
 
-- 
2.43.0


From ad1da17f28d580119e39eaf12b06bbd61c008bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 55/73] fix: only skip DROP TABLE IF EXISTS when there is no
 such table

---
 src/context/mod.rs      | 33 ++++++++++++++++++++++++++++++++-
 src/context/physical.rs |  2 +-
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 03a912c..79a6822 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -4,7 +4,7 @@ pub mod logical;
 pub mod physical;
 
 use crate::catalog::metastore::Metastore;
-use crate::catalog::{DEFAULT_SCHEMA, STAGING_SCHEMA};
+use crate::catalog::{CatalogError, DEFAULT_SCHEMA, STAGING_SCHEMA};
 use crate::config::context::build_state_with_table_factories;
 use crate::object_store::wrapped::InternalObjectStore;
 use crate::wasm_udf::data_types::{get_volatility, CreateFunctionDetails};
@@ -182,6 +182,37 @@ impl SeafowlContext {
         }
     }
 
+    // Whether there's a table under this name, be it of any kind, or only recorded in our catalog
+    pub async fn table_exists(&self, name: impl Into<TableReference>) -> Result<bool> {
+        let resolved_ref = self.resolve_table_ref(name);
+        if self
+            .inner
+            .table_provider(resolved_ref.clone())
+            .await
+            .is_ok()
+        {
+            return Ok(true);
+        }
+
+        match self
+            .metastore
+            .tables
+            .get(
+                &resolved_ref.catalog,
+                &resolved_ref.schema,
+                &resolved_ref.table,
+            )
+            .await
+        {
+            Ok(_) => Ok(true),
+            Err(
+                CatalogError::TableDoesNotExist { .. }
+                | CatalogError::NotImplemented { .. },
+            ) => Ok(false),
+            Err(e) => Err(e.into()),
+        }
+    }
+
     // Parse the uuid from the Delta table uri if available
     pub async fn get_table_uuid(&self, name: impl Into<TableReference>) -> Result<Uuid> {
         match self
diff --git a/src/context/physical.rs b/src/context/physical.rs
index ab40e95..401d76c 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -504,7 +504,7 @@ impl SeafowlContext {
                 if_exists,
                 schema: _,
             })) => {
-                if *if_exists && self.try_get_delta_table(name.clone()).await.is_err() {
+                if *if_exists && !self.table_exists(name.clone()).await? {
                     // The table doesn't exist
                     return Ok(make_dummy_exec());
                 }
-- 
2.43.0


From 8a5040642c699798ba4742fda2c582fcbda5a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 56/73] fix: honour IF NOT EXISTS in CREATE TABLE

---
 src/context/physical.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 401d76c..540548c 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -184,8 +184,7 @@ impl SeafowlContext {
                 ..
             })) => {
                 // This is actually CREATE TABLE AS
-                if *if_not_exists && self.try_get_delta_table(name.clone()).await.is_ok()
-                {
+                if *if_not_exists && self.table_exists(name.clone()).await? {
                     // Table already exists
                     return Ok(make_dummy_exec());
                 }
@@ -611,8 +610,14 @@ impl SeafowlContext {
                         SeafowlExtensionNode::CreateTable(CreateTable {
                             schema,
                             name,
+                            if_not_exists,
                             ..
                         }) => {
+                            if *if_not_exists && self.table_exists(name.as_str()).await? {
+                                // Table already exists
+                                return Ok(make_dummy_exec());
+                            }
+
                             self.create_delta_table(
                                 name.as_str(),
                                 CreateDeltaTableDetails::EmptyTable(schema.clone()),
-- 
2.43.0


From 3544c21a48fe243ba7fba7fe53dc3ee866241a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 57/73] fix: report a missing staging table in DROP TABLE

---
 src/context/physical.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 540548c..bff2cf8 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -512,8 +512,12 @@ impl SeafowlContext {
 
                 if resolved_ref.schema.as_ref() == STAGING_SCHEMA {
                     // Dropping a staging table is a in-memory only op
-                    self.inner.deregister_table(resolved_ref)?;
-                    return Ok(make_dummy_exec());
+                    return match self.inner.deregister_table(resolved_ref)? {
+                        Some(_) => Ok(make_dummy_exec()),
+                        None => Err(DataFusionError::Plan(format!(
+                            "Table {name} doesn't exist"
+                        ))),
+                    };
                 }
 
                 self.delete_delta_table(name.clone())
-- 
2.43.0


From c13fbbc445948e6fffbbae16ce4bf883558a8346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:27 +0000
Subject: [PATCH 58/73] fix: look up the target of an upload in its own schema

---
 src/context/physical.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index bff2cf8..9fa7c0f 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -943,6 +943,11 @@ impl SeafowlContext {
         self.reload_schema().await?;
 
         let mut table_schema = None;
+        let table_ref = TableReference::full(
+            self.default_catalog.as_str(),
+            schema_name.as_str(),
+            table_name.as_str(),
+        );
 
         // Check whether table already exists and ensure that the schema exists
         let table_exists = match self
@@ -955,7 +960,7 @@ impl SeafowlContext {
         {
             Some(_) => {
                 // Schema exists, check if existing table's schema matches the new one
-                match self.inner.table_provider(&table_name).await {
+                match self.inner.table_provider(table_ref.clone()).await {
                     Ok(table) => {
                         table_schema = Some(table.schema());
                         true
@@ -1012,12 +1017,6 @@ impl SeafowlContext {
         // Make a scan plan for the listing table, which will be the input for the target table
         let plan = source.scan(&self.inner.state(), None, &[], None).await?;
 
-        let table_ref = TableReference::Full {
-            catalog: Arc::from(self.default_catalog.as_str()),
-            schema: Arc::from(schema_name),
-            table: Arc::from(table_name),
-        };
-
         if !table_exists {
             self.create_delta_table(
                 table_ref.clone(),
-- 
2.43.0


From 3a0f34b6c01cf1c728848e0b53671658c25f9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:23 +0000
Subject: [PATCH 59/73] fix: delete a dropped table's data only once the
 catalog has forgotten the table

---
 src/context/delta.rs    |  6 +-----
 src/context/physical.rs | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/context/delta.rs b/src/context/delta.rs
index 716d905..d57e1d0 100644
--- a/src/context/delta.rs
+++ b/src/context/delta.rs
@@ -446,11 +446,7 @@ impl SeafowlContext {
     }
 
     // Cleanup the table objects in the storage
-    pub async fn delete_delta_table(
-        &self,
-        table_name: impl Into<TableReference>,
-    ) -> Result<()> {
-        let table = self.try_get_delta_table(table_name).await?;
+    pub async fn delete_delta_table(&self, table: &DeltaTable) -> Result<()> {
         let store = table.object_store();
 
         // List all objects with the table prefix...
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 9fa7c0f..21411db 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -520,9 +520,7 @@ impl SeafowlContext {
                     };
                 }
 
-                self.delete_delta_table(name.clone())
-                    .await
-                    .unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
+                let table = self.try_get_delta_table(name.clone()).await;
 
                 self.metastore
                     .tables
@@ -532,6 +530,13 @@ impl SeafowlContext {
                         &resolved_ref.table,
                     )
                     .await?;
+
+                // Only delete the data once the table is gone from the catalog
+                let cleanup = match table {
+                    Ok(table) => self.delete_delta_table(&table).await,
+                    Err(e) => Err(e),
+                };
+                cleanup.unwrap_or_else(|e| info!("Failed to cleanup table {name}: {e}"));
                 Ok(make_dummy_exec())
             }
             LogicalPlan::Ddl(DdlStatement::DropCatalogSchema(DropCatalogSchema {
@@ -574,12 +579,15 @@ impl SeafowlContext {
                         schema: Arc::from(schema_name),
                         table: Arc::from(table_name),
                     };
-                    self.delete_delta_table(table_ref.clone()).await?;
+                    let table = self.try_get_delta_table(table_ref.clone()).await?;
 
                     self.metastore
                         .tables
                         .delete(&table_ref.catalog, &table_ref.schema, &table_ref.table)
                         .await?;
+
+                    // Only delete the data once the table is gone from the catalog
+                    self.delete_delta_table(&table).await?;
                 }
 
                 self.metastore
-- 
2.43.0


From 43c4b4962a55818f37565c564178677e6ee64aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:00 +0000
Subject: [PATCH 60/73] fix: keep the case of a quoted external table name

---
 src/context/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/context/mod.rs b/src/context/mod.rs
index 79a6822..b12787b 100644
--- a/src/context/mod.rs
+++ b/src/context/mod.rs
@@ -125,14 +125,8 @@ impl SeafowlContext {
     // We create all external tables in the staging schema (backed by DataFusion's
     // in-memory schema provider) instead.
     fn resolve_staging_ref(&self, name: &TableReference) -> Result<TableReference> {
-        // NB: Since Datafusion 16.0.0 for external tables the parsed ObjectName is coerced into the
-        // `TableReference::Bare` enum variant, since qualified names are not supported for them
-        // (see `external_table_to_plan` in datafusion-sql).
-        //
-        // This means that any potential catalog/schema references get condensed into the name, so
-        // we have to unravel that name here again, and then resolve it properly.
-        let reference = TableReference::from(name.to_string());
-        let resolved_reference = reference.resolve(&self.default_catalog, STAGING_SCHEMA);
+        let resolved_reference =
+            name.clone().resolve(&self.default_catalog, STAGING_SCHEMA);
 
         if resolved_reference.catalog.as_ref() != self.default_catalog
             || resolved_reference.schema.as_ref() != STAGING_SCHEMA
-- 
2.43.0


From 39767040393131979a219bd60893c8798b91bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 61/73] fix: keep the rows for which the predicate of a DELETE
 is NULL

---
 src/context/physical.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 21411db..ddecc0d 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -54,7 +54,6 @@ use deltalake::protocol::{DeltaOperation, SaveMode};
 use deltalake::DeltaTable;
 use object_store::path::Path;
 use std::ops::Deref;
-use std::ops::Not;
 use std::sync::Arc;
 use std::time::{SystemTime, UNIX_EPOCH};
 use tracing::info;
@@ -428,9 +427,10 @@ impl SeafowlContext {
                             (vec![], vec![])
                         } else {
                             // To simulate the effect of a WHERE clause from a DELETE, we need to use the
-                            // inverse clause in a scan, when filtering the rows that should remain.
+                            // inverse clause in a scan, when filtering the rows that should remain. These
+                            // include the ones for which the clause evaluates to NULL.
                             let filter_expr = create_physical_expr(
-                                &predicate.clone().not(),
+                                &predicate.clone().is_not_true(),
                                 table_schema,
                                 &ExecutionProps::new(),
                             )?;
-- 
2.43.0


From 10efa1fce0fecac54bc87901933141ac565ac2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 62/73] fix: read whole files when rewriting them in DELETE and
 UPDATE

---
 src/context/physical.rs | 64 +++++++++++++++++------------------------
 1 file changed, 27 insertions(+), 37 deletions(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index ddecc0d..6a258ee 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -34,20 +34,18 @@ use datafusion::{
     arrow::{datatypes::SchemaRef, record_batch::RecordBatch},
     datasource::file_format::{parquet::ParquetFormat, FileFormat},
     error::DataFusionError,
-    execution::context::TaskContext,
+    execution::context::{SessionState, TaskContext},
     physical_plan::{ExecutionPlan, SendableRecordBatchStream},
     sql::TableReference,
 };
 use datafusion_common::config::TableParquetOptions;
-use datafusion_common::tree_node::{Transformed, TransformedResult, TreeNode};
-use datafusion_common::{Column as ColumnExpr, ResolvedTableReference, SchemaReference};
+use datafusion_common::{ResolvedTableReference, SchemaReference};
 use datafusion_expr::logical_plan::{
     CreateCatalog, CreateCatalogSchema, CreateExternalTable, CreateMemoryTable,
     DropTable, Extension, LogicalPlan, Projection,
 };
-use datafusion_expr::{
-    DdlStatement, DmlStatement, DropCatalogSchema, Expr, Filter, WriteOp,
-};
+use datafusion_expr::{DdlStatement, DmlStatement, DropCatalogSchema, Filter, WriteOp};
+use deltalake::delta_datafusion::DeltaTableProvider;
 use deltalake::kernel::{Action, Add, Remove};
 use deltalake::operations::vacuum::VacuumBuilder;
 use deltalake::protocol::{DeltaOperation, SaveMode};
@@ -71,6 +69,22 @@ fn make_dummy_exec() -> Arc<dyn ExecutionPlan> {
     Arc::new(EmptyExec::new(SchemaRef::new(Schema::empty())))
 }
 
+/// Scan all the rows from a given subset of table files.
+async fn scan_delta_files(
+    table: &DeltaTable,
+    state: &SessionState,
+    files: &[Add],
+) -> Result<Arc<dyn ExecutionPlan>> {
+    DeltaTableProvider::try_new(
+        table.snapshot()?.clone(),
+        table.log_store(),
+        Default::default(),
+    )?
+    .with_files(files.to_vec())
+    .scan(state, None, &[], None)
+    .await
+}
+
 impl SeafowlContext {
     /// Get the default object store used for writes, or error out if it's not configured.
     pub fn get_internal_object_store(&self) -> Result<Arc<InternalObjectStore>> {
@@ -253,36 +267,9 @@ impl SeafowlContext {
                 )?;
 
                 let state = self.inner.state();
-                let mut filter = vec![];
 
                 let (selection_expr, removes) =
                     if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
-                        // The scan builder in delta-rs builds physical expressions for pruning
-                        // using non-qualified schemas, but the filter expressions in the UPDATE
-                        // are qualified thanks to https://github.com/apache/arrow-datafusion/pull/7316
-                        //
-                        // This leads to a panic unless we strip out the qualifier first.
-                        filter.push(
-                            predicate
-                                .clone()
-                                .transform(&|expr| {
-                                    Ok(
-                                        if let Expr::Column(ColumnExpr {
-                                            relation: Some(_),
-                                            name,
-                                        }) = &expr
-                                        {
-                                            Transformed::yes(Expr::Column(
-                                                ColumnExpr::new_unqualified(name),
-                                            ))
-                                        } else {
-                                            Transformed::no(expr)
-                                        },
-                                    )
-                                })
-                                .data()?,
-                        );
-
                         // A WHERE clause has been used; employ it to prune the update down to only
                         // a subset of files, while inheriting the rest from the previous version
                         let filter_expr = create_physical_expr(
@@ -315,7 +302,9 @@ impl SeafowlContext {
                 let uuid = self.get_table_uuid(table_name.clone()).await?;
                 let mut actions: Vec<Action> = vec![];
                 if !removes.is_empty() {
-                    let base_scan = table.scan(&state, None, &filter, None).await?;
+                    // All rows of the files we're about to remove need to be read, so avoid
+                    // pushing down the filter, since that may skip parts of the files
+                    let base_scan = scan_delta_files(&table, &state, &removes).await?;
 
                     let projections = project_expressions(
                         expr,
@@ -435,9 +424,10 @@ impl SeafowlContext {
                                 &ExecutionProps::new(),
                             )?;
 
-                            let base_scan = table
-                                .scan(&state, None, &[predicate.clone()], None)
-                                .await?;
+                            // All rows of the files we're about to remove need to be read, so avoid
+                            // pushing down the filter, since that may skip parts of the files
+                            let base_scan =
+                                scan_delta_files(&table, &state, &files_to_prune).await?;
 
                             let filter_plan: Arc<dyn ExecutionPlan> =
                                 Arc::new(FilterExec::try_new(filter_expr, base_scan)?);
-- 
2.43.0


From 85c1976c257c195213c6a193ae5778653f3bb558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:08 +0000
Subject: [PATCH 63/73] fix: record the table version made by a TRUNCATE

---
 src/context/physical.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/context/physical.rs b/src/context/physical.rs
index 6a258ee..96525a4 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -689,6 +689,7 @@ impl SeafowlContext {
                         SeafowlExtensionNode::Truncate(Truncate {
                             table_name, ..
                         }) => {
+                            let uuid = self.get_table_uuid(table_name).await?;
                             let mut table = self.try_get_delta_table(table_name).await?;
                             table.load().await?;
                             let snapshot = table.snapshot()?;
@@ -719,7 +720,13 @@ impl SeafowlContext {
                                 .collect();
 
                             let op = DeltaOperation::Delete { predicate: None };
-                            self.commit_delta_table(actions, &table, op).await?;
+                            let version =
+                                self.commit_delta_table(actions, &table, op).await?;
+
+                            self.metastore
+                                .tables
+                                .create_new_version(uuid, version)
+                                .await?;
 
                             Ok(make_dummy_exec())
                         }
-- 
2.43.0


From c6234e7aab8d445140e32ce4a83a8709a3186c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:02 +0000
Subject: [PATCH 64/73] fix: keep the predicate of a DELETE out of the
 optimizer's reach

---
 src/context/logical.rs  | 55 ++++++++++++++++++++++-------------------
 src/context/physical.rs | 16 +++++++++---
 2 files changed, 42 insertions(+), 29 deletions(-)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index 32812c1..ec744fd 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -91,6 +91,34 @@ impl SeafowlContext {
         Ok(DFParser::parse_sql(sql)?.into_iter().collect_vec())
     }
 
+    // Optimize an UPDATE or a DELETE plan, while keeping the shape that is destructured in the
+    // physical planning phase.
+    fn simplify_dml_plan(&self, plan: LogicalPlan) -> Result<LogicalPlan> {
+        // Create a custom optimizer to avoid mangling effects of some optimizers (like
+        // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
+        // expressions, or remove the Filter node altogether.
+        // We also need to do a analyze round beforehand for type coercion.
+        let analyzer = Analyzer::new();
+        let plan = analyzer.execute_and_check(
+            plan,
+            self.inner.copied_config().options(),
+            |_, _| {},
+        )?;
+        let optimizer = Optimizer::with_rules(vec![Arc::new(SimplifyExpressions::new())]);
+        let config = OptimizerContext::default();
+        optimizer.optimize(
+            plan,
+            &config,
+            |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
+                debug!(
+                    "After applying rule '{}':\n{}\n",
+                    rule.name(),
+                    plan.display_indent()
+                )
+            },
+        )
+    }
+
     pub async fn create_logical_plan_from_statement(
         &self,
         statement: DFStatement,
@@ -145,35 +173,12 @@ impl SeafowlContext {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
 
-                    // Create a custom optimizer to avoid mangling effects of some optimizers (like
-                    // `CommonSubexprEliminate`) which can add nested Projection plans and rewrite
-                    // expressions.
-                    // We also need to do a analyze round beforehand for type coercion.
-                    let analyzer = Analyzer::new();
-                    let plan = analyzer.execute_and_check(
-                        plan,
-                        self.inner.copied_config().options(),
-                        |_, _| {},
-                    )?;
-                    let optimizer = Optimizer::with_rules(
-                        vec![
-                            Arc::new(SimplifyExpressions::new()),
-                        ]
-                    );
-                    let config = OptimizerContext::default();
-                    optimizer.optimize(plan, &config, |plan: &LogicalPlan, rule: &dyn OptimizerRule| {
-                        debug!(
-                                "After applying rule '{}':\n{}\n",
-                                rule.name(),
-                                plan.display_indent()
-                            )
-                    }
-                    )
+                    self.simplify_dml_plan(plan)
                 },
                 Statement::Delete{ .. } => {
                     let state = self.inner.state();
                     let plan = state.statement_to_plan(stmt).await?;
-                    state.optimize(&plan)
+                    self.simplify_dml_plan(plan)
                 }
                 Statement::Drop { object_type: ObjectType::Table | ObjectType::Schema, .. } => self.inner.state().statement_to_plan(stmt).await,
                 // CREATE TABLE (create empty table with columns)
diff --git a/src/context/physical.rs b/src/context/physical.rs
index 96525a4..cb6b9bc 100644
--- a/src/context/physical.rs
+++ b/src/context/physical.rs
@@ -385,8 +385,8 @@ impl SeafowlContext {
                 let snapshot = table.snapshot()?;
                 let schema_ref = SchemaRef::from(table_schema.deref().clone());
 
-                let (adds, removes) =
-                    if let LogicalPlan::Filter(Filter { predicate, .. }) = &**input {
+                let (adds, removes) = match &**input {
+                    LogicalPlan::Filter(Filter { predicate, .. }) => {
                         // A WHERE clause has been used; employ it to prune the filtration
                         // down to only a subset of partitions, re-use the rest as is
 
@@ -449,11 +449,19 @@ impl SeafowlContext {
 
                             (adds, files_to_prune)
                         }
-                    } else {
+                    }
+                    LogicalPlan::TableScan(_) => {
                         // If no qualifier is specified we're basically truncating the table.
                         // Remove all files.
                         (vec![], snapshot.file_actions()?)
-                    };
+                    }
+                    _ => {
+                        return Err(DataFusionError::Plan(
+                            "Delete plan contains neither a Filter nor a TableScan node"
+                                .to_string(),
+                        ))
+                    }
+                };
 
                 let deletion_timestamp = SystemTime::now()
                     .duration_since(UNIX_EPOCH)
-- 
2.43.0


From 8cfefc88404012cb81c91a1bcc603501d63658d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:03 +0000
Subject: [PATCH 65/73] fix: refuse UPDATE .. FROM, which ignored the other
 tables

---
 src/context/logical.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/context/logical.rs b/src/context/logical.rs
index ec744fd..0138713 100644
--- a/src/context/logical.rs
+++ b/src/context/logical.rs
@@ -166,6 +166,7 @@ impl SeafowlContext {
                 }
                 Statement::Update {
                     table: TableWithJoins {relation: TableFactor::Table { alias: None, args: None, with_hints, .. }, joins },
+                    from: None,
                     ..
                 }
                 // We only support the most basic form of UPDATE (no aliases or FROM or joins)
-- 
2.43.0


From dc82df6cc84efd08fff0f3b8043d20cf8c68574c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:32 +0000
Subject: [PATCH 66/73] fix: tell key-changing sync updates by all key columns

---
 src/sync/planner.rs | 48 ++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index e60dd17..ab3c8ee 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -293,41 +293,57 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
         sync_df: DataFrame,
     ) -> SyncResult<(SyncSchema, DataFrame)> {
-        // Pick the first Old/New PK for constructing the cases below
-        let (old_pk, new_pk) = sync_schema
+        // Pick up all Old/New PK pairs for constructing the cases below
+        let pks = sync_schema
             .columns()
             .iter()
-            .find_map(|sc| {
-                if sc.role() == ColumnRole::OldPk {
-                    let old_name = sc.field().name();
-                    let new_name = sync_schema
-                        .column(sc.name(), ColumnRole::NewPk)
-                        .unwrap()
-                        .field()
-                        .name();
-                    Some((col(old_name), col(new_name)))
-                } else {
-                    None
-                }
+            .filter(|sc| sc.role() == ColumnRole::OldPk)
+            .map(|sc| {
+                let old_name = sc.field().name();
+                let new_name = sync_schema
+                    .column(sc.name(), ColumnRole::NewPk)
+                    .unwrap()
+                    .field()
+                    .name();
+                (col(old_name), col(new_name))
             })
+            .collect::<Vec<_>>();
+
+        // The PK columns are either all NULL or none of them are, so use the first pair to tell
+        // whether there are any old/new PKs
+        let (old_pk, new_pk) = pks
+            .first()
+            .cloned()
             .expect("At least 1 old PK column must exist");
 
         // Filter out any temp rows
         let sync_df = sync_df
             .filter(old_pk.clone().is_null().and(new_pk.clone().is_null()).not())?;
 
+        // On the other hand an UPDATE changes the PK if any one of the PK columns changes
+        let pk_preserved = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().eq(new_pk.clone()))
+            .reduce(|e1, e2| e1.and(e2))
+            .expect("At least 1 old PK column must exist");
+        let pk_changed = pks
+            .iter()
+            .map(|(old_pk, new_pk)| old_pk.clone().not_eq(new_pk.clone()))
+            .reduce(|e1, e2| e1.or(e2))
+            .expect("At least 1 old PK column must exist");
+
         // Construct the conditions for all possible 4 cases that we want to normalize
         let insert = old_pk.clone().is_null().and(new_pk.clone().is_not_null());
         let pk_preserving_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().eq(new_pk.clone()));
+            .and(pk_preserved);
         let pk_changing_update = old_pk
             .clone()
             .is_not_null()
             .and(new_pk.clone().is_not_null())
-            .and(old_pk.clone().not_eq(new_pk.clone()));
+            .and(pk_changed);
 
         let mut projection = vec![];
         let mut unnest_cols = vec![];
-- 
2.43.0


From c6c7540e83bb19b62a8dd05553edb6bcece8da5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:32 +0000
Subject: [PATCH 67/73] fix: flush syncs whose changes all cancel each other
 out

---
 src/sync/planner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index ab3c8ee..15a8946 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -585,7 +585,8 @@ impl SeafowlSyncPlanner {
             (Some(old_pk_q), Some(new_pk_q)) => old_pk_q.or(new_pk_q),
             (Some(old_pk_q), None) => old_pk_q,
             (None, Some(new_pk_q)) => new_pk_q,
-            _ => panic!("There can be no situation without either old or new PKs"),
+            // All of the changes cancelled each other out, so there are no rows to re-write
+            _ => return Ok(vec![]),
         };
 
         let prune_expr = create_physical_expr(
-- 
2.43.0


From 5600bfe26c45aba8f1161124a1990f20ea6087f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:31 +0000
Subject: [PATCH 68/73] fix: take synced column names verbatim

---
 src/sync/planner.rs      | 38 ++++++++++++++++++++++----------------
 src/sync/schema/union.rs | 26 +++++++++++++-------------
 src/sync/utils.rs        | 10 +++++-----
 3 files changed, 40 insertions(+), 34 deletions(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index 15a8946..c288f89 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -15,10 +15,11 @@ use datafusion::execution::session_state::{SessionState, SessionStateBuilder};
 use datafusion::physical_expr::create_physical_expr;
 use datafusion::physical_optimizer::pruning::PruningPredicate;
 use datafusion::physical_plan::ExecutionPlan;
+use datafusion_common::utils::quote_identifier;
 use datafusion_common::{Column, DFSchemaRef, JoinType, ScalarValue, ToDFSchema};
 use datafusion_expr::execution_props::ExecutionProps;
 use datafusion_expr::{
-    col, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
+    col, ident, lit, when, Expr, LogicalPlan, LogicalPlanBuilder, Projection,
 };
 use datafusion_functions_nested::expr_fn::make_array;
 use deltalake::delta_datafusion::DeltaTableProvider;
@@ -234,16 +235,15 @@ impl SeafowlSyncPlanner {
         let exprs = self.add_sync_flag(upper_plan.schema(), UPPER_REL);
         let upper_plan = upper_plan.project(exprs)?;
 
-        let (lower_join_cols, upper_join_cols): (Vec<String>, Vec<String>) = upper_schema
+        let (lower_join_cols, upper_join_cols): (Vec<Column>, Vec<Column>) = upper_schema
             .map_columns(ColumnRole::OldPk, |sc| {
                 let lower_name = lower_schema
                     .column(sc.name(), ColumnRole::NewPk)
                     .expect("PK columns identical")
                     .field()
-                    .name()
-                    .clone();
-                let upper_name = sc.field().name().clone();
-                (lower_name, upper_name)
+                    .name();
+                let upper_name = sc.field().name();
+                (Column::from_name(lower_name), Column::from_name(upper_name))
             })
             .into_iter()
             .unzip();
@@ -305,7 +305,7 @@ impl SeafowlSyncPlanner {
                     .unwrap()
                     .field()
                     .name();
-                (col(old_name), col(new_name))
+                (ident(old_name), ident(new_name))
             })
             .collect::<Vec<_>>();
 
@@ -370,12 +370,14 @@ impl SeafowlSyncPlanner {
         // +-----------+----------------------+--------------+
         for sync_col in sync_schema.columns().iter() {
             if sync_col.role() == ColumnRole::OldPk {
-                let old_pk = col(sync_col.field().name());
-                let new_pk = col(sync_schema
-                    .column(sync_col.name(), ColumnRole::NewPk)
-                    .unwrap()
-                    .field()
-                    .name());
+                let old_pk = ident(sync_col.field().name());
+                let new_pk = ident(
+                    sync_schema
+                        .column(sync_col.name(), ColumnRole::NewPk)
+                        .unwrap()
+                        .field()
+                        .name(),
+                );
 
                 let name =
                     SyncColumn::canonical_field_name(ColumnRole::NewPk, sync_col.name());
@@ -401,7 +403,7 @@ impl SeafowlSyncPlanner {
                 let name =
                     SyncColumn::canonical_field_name(sync_col.role(), sync_col.name());
                 projection.push(
-                    col(sync_col.field().name())
+                    ident(sync_col.field().name())
                         .alias_qualified(Some(UPPER_REL), name.clone()),
                 );
                 column_descriptors.push(sync_col.column_descriptor());
@@ -470,10 +472,14 @@ impl SeafowlSyncPlanner {
         sync_schema: &SyncSchema,
     ) -> SyncResult<DataFrame> {
         // These differ since the physical column names are reflected in the ColumnDescriptor,
-        // while logical column names are found in the arrow fields
+        // while logical column names are found in the arrow fields. The names below get parsed as SQL
+        // identifiers, so they need to be quoted in order to be taken verbatim.
         let (base_pk_cols, sync_pk_cols): (Vec<String>, Vec<String>) = sync_schema
             .map_columns(ColumnRole::NewPk, |c| {
-                (c.name().to_string(), c.field().name().clone())
+                (
+                    quote_identifier(c.name()).into_owned(),
+                    quote_identifier(c.field().name()).into_owned(),
+                )
             })
             .into_iter()
             .unzip();
diff --git a/src/sync/schema/union.rs b/src/sync/schema/union.rs
index 18d013f..903939b 100644
--- a/src/sync/schema/union.rs
+++ b/src/sync/schema/union.rs
@@ -3,7 +3,7 @@ use crate::sync::schema::{SyncColumn, SyncSchema};
 use crate::sync::SyncResult;
 use clade::sync::{ColumnDescriptor, ColumnRole};
 use datafusion_common::ScalarValue;
-use datafusion_expr::{col, lit, Expr};
+use datafusion_expr::{ident, lit, Expr};
 use indexmap::IndexSet;
 
 pub(super) fn union_pk_column(
@@ -15,8 +15,8 @@ pub(super) fn union_pk_column(
         .expect("Old Pk columns must be the same across syncs");
 
     (
-        col(lower_pk_col.field().name()),
-        col(upper_pk_col.field().name()),
+        ident(lower_pk_col.field().name()),
+        ident(upper_pk_col.field().name()),
     )
 }
 
@@ -31,8 +31,8 @@ pub(super) fn union_changed_column(
         // ... other sync has the corresponding `Changed` column, projects both
         match sync_position {
             SyncPosition::Lower => (
-                col(this_changed_col.field().name()),
-                col(other_changed_col.field().name()),
+                ident(this_changed_col.field().name()),
+                ident(other_changed_col.field().name()),
             ),
             SyncPosition::Upper => {
                 unreachable!("Picked up `Changed` column during processing of lower sync")
@@ -46,17 +46,17 @@ pub(super) fn union_changed_column(
         // the corresponding `Value` column
         match sync_position {
             // project true to pick those upper values up
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(true)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(true)),
             // project true to pick those lower values up
-            SyncPosition::Upper => (lit(true), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(true), ident(this_changed_col.field().name())),
         }
     } else {
         // ... other sync has neither the `Changed` nor the associated `Value` column,
         match sync_position {
             // project false to avoid overriding lower values with NULL values
-            SyncPosition::Lower => (col(this_changed_col.field().name()), lit(false)),
+            SyncPosition::Lower => (ident(this_changed_col.field().name()), lit(false)),
             // project false to avoid overriding upper values with NULL values
-            SyncPosition::Upper => (lit(false), col(this_changed_col.field().name())),
+            SyncPosition::Upper => (lit(false), ident(this_changed_col.field().name())),
         }
     }
 }
@@ -96,8 +96,8 @@ pub(super) fn union_value_column(
             // ... other sync has the corresponding `Changed` column, projects both
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
-                    col(other_value_col.field().name()),
+                    ident(this_value_col.field().name()),
+                    ident(other_value_col.field().name()),
                 ),
                 SyncPosition::Upper => {
                     unreachable!(
@@ -110,12 +110,12 @@ pub(super) fn union_value_column(
             // `Changed` column will be added regardless ...
             match sync_position {
                 SyncPosition::Lower => (
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
                 ),
                 SyncPosition::Upper => (
                     lit(ScalarValue::Null.cast_to(this_value_col.field().data_type())?),
-                    col(this_value_col.field().name()),
+                    ident(this_value_col.field().name()),
                 ),
             }
         },
diff --git a/src/sync/utils.rs b/src/sync/utils.rs
index 114e4ec..7e39078 100644
--- a/src/sync/utils.rs
+++ b/src/sync/utils.rs
@@ -9,8 +9,8 @@ use arrow_schema::{Field, Fields, Schema};
 use clade::sync::ColumnRole;
 use datafusion::functions_aggregate::min_max::{MaxAccumulator, MinAccumulator};
 use datafusion::physical_optimizer::pruning::PruningStatistics;
-use datafusion_common::{DataFusionError, Result};
-use datafusion_expr::{col, lit, Accumulator, Expr};
+use datafusion_common::{Column, DataFusionError, Result};
+use datafusion_expr::{ident, lit, Accumulator, Expr};
 use std::collections::{HashMap, HashSet};
 use std::sync::Arc;
 use tracing::log::{debug, warn};
@@ -313,7 +313,7 @@ pub(super) fn construct_qualifier(
             let max_value = max_value.evaluate().ok()?;
             if !min_value.is_null() && !max_value.is_null() {
                 Some(Ok(
-                    col(pk_col.as_str()).between(lit(min_value), lit(max_value))
+                    ident(pk_col.as_str()).between(lit(min_value), lit(max_value))
                 ))
             } else {
                 // There shouldn't be a situation where a max is NULL but min isn't and vice-versa.
@@ -353,8 +353,8 @@ pub(super) fn get_prune_map(
         .iter()
         .filter(|col| col.role() == ColumnRole::OldPk)
     {
-        let maybe_min_vals = pruning_stats.min_values(&col.name().into());
-        let maybe_max_vals = pruning_stats.max_values(&col.name().into());
+        let maybe_min_vals = pruning_stats.min_values(&Column::from_name(col.name()));
+        let maybe_max_vals = pruning_stats.max_values(&Column::from_name(col.name()));
 
         if maybe_min_vals.is_none() && maybe_max_vals.is_none() {
             // We have no stats for any partition for this PK column, so short-circuit pruning
-- 
2.43.0


From 63a4c2c38be2470fb96107aa906345f72aec6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:43 +0000
Subject: [PATCH 69/73] fix: fine-grained pruning may keep more files than the
 coarse one

---
 src/sync/planner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sync/planner.rs b/src/sync/planner.rs
index c288f89..a192398 100644
--- a/src/sync/planner.rs
+++ b/src/sync/planner.rs
@@ -637,7 +637,7 @@ impl SeafowlSyncPlanner {
             let new_partition_count = new_prune_map.iter().filter(|p| **p).count();
             info!(
                 "Fine-grained pruning scoped out {} partitions in {} ms",
-                partition_count - new_partition_count,
+                partition_count.saturating_sub(new_partition_count),
                 prune_start.elapsed().as_millis()
             );
             prune_map = new_prune_map;
-- 
2.43.0


From 1f3b0b86bda277041f14d5e3c098da77fe7ad0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:10 +0000
Subject: [PATCH 70/73] fix: read remote tables by their declared columns
 without a projection

---
 datafusion_remote_tables/src/provider.rs | 25 ++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/datafusion_remote_tables/src/provider.rs b/datafusion_remote_tables/src/provider.rs
index aec8b73..ea9d2cb 100644
--- a/datafusion_remote_tables/src/provider.rs
+++ b/datafusion_remote_tables/src/provider.rs
@@ -127,23 +127,24 @@ impl TableProvider for RemoteTable {
     ) -> Result<Arc<dyn ExecutionPlan>> {
         // TODO: partition query by some column to utilize concurrent fetching
 
-        // Scope down the schema and query column specifiers if a projection is specified
+        // Scope down the schema if a projection is specified
         let mut schema = self.schema.deref().clone();
-        let mut columns = "*".to_string();
-
         if let Some(indices) = projection {
             schema = schema.project(indices)?;
-            columns = schema
-                .fields()
-                .iter()
-                .map(|f| match self.source_conn.ty {
-                    SourceType::MySQL => quote_identifier_backticks(f.name()),
-                    _ => quote_identifier_double_quotes(f.name()),
-                })
-                .collect::<Vec<String>>()
-                .join(", ")
         }
 
+        // Name the columns explicitly, since the order and number of the declared ones needn't
+        // match those of the remote table
+        let columns = schema
+            .fields()
+            .iter()
+            .map(|f| match self.source_conn.ty {
+                SourceType::MySQL => quote_identifier_backticks(f.name()),
+                _ => quote_identifier_double_quotes(f.name()),
+            })
+            .collect::<Vec<String>>()
+            .join(", ");
+
         // Apply LIMIT if any
         let limit_clause = limit.map_or("".to_string(), |size| format!(" LIMIT {size}"));
 
-- 
2.43.0


From 1a313032fc348fbeaf86fb6829f9f2e5d088e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:25 +0000
Subject: [PATCH 71/73] fix: count the rows of remote tables without selecting
 a column

---
 datafusion_remote_tables/src/provider.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/datafusion_remote_tables/src/provider.rs b/datafusion_remote_tables/src/provider.rs
index ea9d2cb..11b4f95 100644
--- a/datafusion_remote_tables/src/provider.rs
+++ b/datafusion_remote_tables/src/provider.rs
@@ -138,6 +138,14 @@ impl TableProvider for RemoteTable {
         let columns = schema
             .fields()
             .iter()
+            // Without any column to return (e.g. for COUNT(*)) we still need the number of rows, so
+            // fetch a single one, which then gets projected away below
+            .chain(
+                self.schema
+                    .fields()
+                    .iter()
+                    .take(schema.fields().is_empty() as usize),
+            )
             .map(|f| match self.source_conn.ty {
                 SourceType::MySQL => quote_identifier_backticks(f.name()),
                 _ => quote_identifier_double_quotes(f.name()),
-- 
2.43.0


From a65cdda9fffdc9ec5d0a7b3d652cac5586d44e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 72/73] fix: append to Iceberg tables that have no version hint
 yet

---
 src/context/iceberg.rs | 29 +++++------------------------
 1 file changed, 5 insertions(+), 24 deletions(-)

diff --git a/src/context/iceberg.rs b/src/context/iceberg.rs
index 92ac17f..0f08ea2 100644
--- a/src/context/iceberg.rs
+++ b/src/context/iceberg.rs
@@ -27,7 +27,6 @@ use iceberg::writer::file_writer::location_generator::{
     DefaultFileNameGenerator, DefaultLocationGenerator,
 };
 use iceberg::writer::file_writer::{FileWriter, FileWriterBuilder, ParquetWriterBuilder};
-use iceberg::TableCreation;
 use opendal;
 use parquet::arrow::PARQUET_FIELD_ID_META_KEY;
 use parquet::file::properties::WriterProperties;
@@ -51,22 +50,6 @@ pub enum DataLoadingError {
     BadInputError(String),
 }
 
-// Create an empty table metadata object that contains no snapshots
-fn create_empty_metadata(
-    iceberg_schema: &iceberg::spec::Schema,
-    target_url: String,
-) -> Result<TableMetadata, DataLoadingError> {
-    let table_creation = TableCreation::builder()
-        .name("dummy_name".to_string()) // Required by TableCreationBuilder. Doesn't affect output
-        .schema(iceberg_schema.clone())
-        .location(target_url.to_string())
-        .build();
-
-    let table_metadata =
-        TableMetadataBuilder::from_table_creation(table_creation)?.build()?;
-    Ok(table_metadata.into())
-}
-
 // Clone an arrow schema, assigning sequential field IDs starting from 1
 fn assign_field_ids(arrow_schema: &Arc<Schema>) -> Schema {
     let mut field_id_counter = 1;
@@ -221,13 +204,11 @@ pub async fn record_batches_to_iceberg(
                 )
             }
             None => {
-                let arrow_schema_with_ids = assign_field_ids(&arrow_schema);
-                let iceberg_schema = Arc::new(iceberg::arrow::arrow_schema_to_schema(
-                    &arrow_schema_with_ids,
-                )?);
-                let empty_metadata =
-                    create_empty_metadata(&iceberg_schema, table_base_url.to_string())?;
-                (empty_metadata, None, iceberg_schema)
+                // No version has been written by us yet: append to the table as it is
+                let old_metadata = table.metadata();
+                let old_iceberg_schema = old_metadata.current_schema();
+                is_schema_aligned(&arrow_schema, old_iceberg_schema)?;
+                (old_metadata.clone(), None, old_iceberg_schema.clone())
             }
         };
 
-- 
2.43.0


From 0d819c4a9bb854ea1889a1c47e9296154c987e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:35 +0000
Subject: [PATCH 73/73] fix: record the schema an Iceberg snapshot was written
 with

---
 src/context/iceberg.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/context/iceberg.rs b/src/context/iceberg.rs
index 0f08ea2..a83dd6a 100644
--- a/src/context/iceberg.rs
+++ b/src/context/iceberg.rs
@@ -134,8 +134,6 @@ async fn get_manifest_files(
     Ok(Some(manifest_list.consume_entries().into_iter().collect()))
 }
 
-const DEFAULT_SCHEMA_ID: i32 = 0;
-
 pub async fn record_batches_to_iceberg(
     record_batch_stream: impl TryStream<Item = Result<RecordBatch, DataLoadingError>>,
     arrow_schema: SchemaRef,
@@ -256,7 +254,7 @@ pub async fn record_batches_to_iceberg(
     let manifest_writer: ManifestWriter =
         ManifestWriter::new(manifest_file_output, snapshot_id, vec![]);
     let manifest_metadata = ManifestMetadata::builder()
-        .schema_id(DEFAULT_SCHEMA_ID)
+        .schema_id(iceberg_schema.schema_id())
         .schema(iceberg_schema.clone())
         .partition_spec(
             PartitionSpec::builder(iceberg_schema.clone())
@@ -306,7 +304,7 @@ pub async fn record_batches_to_iceberg(
 
     let snapshot = Snapshot::builder()
         .with_snapshot_id(snapshot_id)
-        .with_schema_id(DEFAULT_SCHEMA_ID)
+        .with_schema_id(iceberg_schema.schema_id())
         .with_manifest_list(manifest_list_path.clone())
         .with_sequence_number(sequence_number)
         .with_timestamp_ms(
-- 
2.43.0

