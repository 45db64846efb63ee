From c011fc004b679c43ec51f1748c0e202a06525725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:07 +0000
Subject: [PATCH 01/35] fix: derive the coverage function identifier from each
 file instead of a process-wide cell

---
 .../create_coverage_fn_decl.rs                | 24 +++++++------------
 .../macros/create_instrumentation_visitor.rs  |  7 ++++--
 .../src/visitors/coverage_visitor.rs          |  3 ---
 3 files changed, 14 insertions(+), 20 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 076168e..7cb4181 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -4,7 +4,6 @@ use std::{
 };
 
 use istanbul_oxide::FileCoverage;
-use once_cell::sync::OnceCell;
 use swc_core::{
     common::{
         comments::{Comment, CommentKind, Comments},
@@ -19,29 +18,24 @@ use crate::constants::idents::*;
 
 use crate::{create_assignment_stmt, create_coverage_data_object};
 
-pub static COVERAGE_FN_IDENT: OnceCell<Ident> = OnceCell::new();
-/// temporal ident being used for b_t true counter
-pub static COVERAGE_FN_TRUE_TEMP_IDENT: OnceCell<Ident> = OnceCell::new();
-
-/// Create a unique ident for the injected coverage counter fn,
-/// Stores it into a global scope.
+/// Create unique idents for the injected coverage counter fn, and for the
+/// temporal member being used for its b_t true counter.
 ///
-/// Do not use static value directly - create_instrumentation_visitor macro
-/// should inject this into a struct accordingly.
-pub fn create_coverage_fn_ident(value: &str) {
+/// Those are derived from the path of the file being instrumented, each file should have
+/// its own counter fn even if multiple files are instrumented by same process.
+pub fn create_coverage_fn_ident(value: &str) -> (Ident, Ident) {
     let mut s = DefaultHasher::new();
     value.hash(&mut s);
     let var_name_hash = format!("cov_{}", s.finish());
 
-    COVERAGE_FN_IDENT
-        .get_or_init(|| Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()));
-    COVERAGE_FN_TRUE_TEMP_IDENT.get_or_init(|| {
+    (
+        Ident::new(var_name_hash.clone().into(), DUMMY_SP, Default::default()),
         Ident::new(
             format!("{}_temp", var_name_hash).into(),
             DUMMY_SP,
             Default::default(),
-        )
-    });
+        ),
+    )
 }
 
 /// Creates a function declaration for actual coverage collection.
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index eaad6da..f1438d8 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -36,12 +36,15 @@ macro_rules! create_instrumentation_visitor {
                 should_ignore: Option<crate::hint_comments::IgnoreScope>,
                 $($field: $t,)*
             ) -> $name<C, S> {
+                let (cov_fn_ident, cov_fn_temp_ident) =
+                    crate::create_coverage_fn_ident(&cov.borrow().as_ref().path);
+
                 $name {
                     source_map: source_map,
                     comments: comments,
                     cov: cov,
-                    cov_fn_ident: crate::COVERAGE_FN_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
-                    cov_fn_temp_ident: crate::COVERAGE_FN_TRUE_TEMP_IDENT.get().expect("Coverage fn Ident should be initialized already").clone(),
+                    cov_fn_ident: cov_fn_ident,
+                    cov_fn_temp_ident: cov_fn_temp_ident,
                     instrument_options: instrument_options,
                     before: vec![],
                     nodes: nodes,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index ff69c0d..5e892be 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -23,9 +23,6 @@ pub fn create_coverage_instrumentation_visitor<C: Clone + Comments, S: SourceMap
     instrument_options: InstrumentOptions,
     filename: String,
 ) -> CoverageVisitor<C, S> {
-    // create a function name ident for the injected coverage instrumentation counters.
-    crate::create_coverage_fn_ident(&filename);
-
     let mut cov = crate::SourceCoverage::new(filename.to_string(), instrument_options.report_logic);
     cov.set_input_source_map(&instrument_options.input_source_map);
 
-- 
2.43.0


From 15c7e7ddf64efc2cbe03afa72da9b6e70c7fb876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:17 +0000
Subject: [PATCH 02/35] fix: leave the node scope after visiting a logical
 expression

---
 .../src/macros/instrumentation_visitor.rs                        | 1 +
 .../swc-coverage-instrument/src/visitors/logical_expr_visitor.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d47d647..0b96c14 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -869,6 +869,7 @@ macro_rules! instrumentation_visitor {
                             // Iterate over each expr, wrap it with branch counter.
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.left);
                             self.wrap_bin_expr_with_branch_counter(branch, &mut *bin_expr.right);
+                            self.on_exit(old);
                         }
                         _ => {
                             // iterate as normal for non loigical expr
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
index 53fea27..a058147 100644
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
@@ -51,6 +51,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S>
                         // This does not create new branch counter - should use parent's index instead.
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
                         self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
+                        self.on_exit(old);
                     }
                     _ => {
                         // iterate as normal for non loigical expr
-- 
2.43.0


From 266be28c95dcc29172ce167d7184bc03e09e24d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 03/35] fix: treat only the operands of a logical expression as
 its branch paths, and instrument inside them

An operand that merely contains another logical expression (an argument of a
call, a function body) is a leaf, its inner expression has its own branch.
Operands are visited with the full visitor, with and without reportLogic.
---
 .../macros/instrumentation_counter_helper.rs  | 23 ++++---
 .../src/visitors/finders.rs                   | 23 +++----
 .../src/visitors/logical_expr_visitor.rs      | 66 -------------------
 .../src/visitors/mod.rs                       |  1 -
 4 files changed, 23 insertions(+), 90 deletions(-)
 delete mode 100644 packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 9ab2925..b1f19e3 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -78,20 +78,20 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
 
             // If current expr have inner logical expr, traverse until reaches to the leaf
             if has_inner_logical_expr.0 {
-                let mut visitor = crate::visitors::logical_expr_visitor::LogicalExprVisitor::new(
-                    self.source_map.clone(),
-                    self.comments.clone(),
-                    self.cov.clone(),
-                    self.instrument_options.clone(),
-                    self.nodes.clone(),
-                    should_ignore,
-                    branch,
-                );
-
-                expr.visit_mut_children_with(&mut visitor);
+                match expr {
+                    Expr::Paren(paren) => {
+                        self.wrap_bin_expr_with_branch_counter(branch, &mut paren.expr)
+                    }
+                    Expr::Bin(bin) => {
+                        self.wrap_bin_expr_with_branch_counter(branch, &mut bin.left);
+                        self.wrap_bin_expr_with_branch_counter(branch, &mut bin.right);
+                    }
+                    _ => unreachable!("LogicalExprLeafFinder looks into paren and logical expr only"),
+                }
             } else {
                 // Now we believe this expr is the leaf of the logical expr tree.
                 // Wrap it with branch counter.
+                expr.visit_mut_children_with(self);
                 if self.instrument_options.report_logic {
                     let range = crate::lookup_range::get_range_from_span(&self.source_map, &span);
                     let branch_path_index = self.cov.borrow_mut().add_branch_path(branch, &range);
@@ -119,7 +119,6 @@ macro_rules! instrumentation_branch_wrap_counter_helper {
                     // replace init with increase expr + init seq
                     *expr = paren_expr;
                 } else {
-                    expr.visit_mut_children_with(self);
                     self.replace_expr_with_branch_counter(expr, branch);
                 }
             }
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 1924a02..522f218 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -74,22 +74,23 @@ impl Visit for ExprFinder {
     }
 }
 
-/// Traverse down given nodes to check if it's leaf of the logical expr,
-/// or have inner logical expr to recurse.
+/// Check if given expr is the leaf of the logical expr, or have inner logical expr to recurse.
+/// Only parens may sit in between: logical expr elsewhere (i.e in an argument of a call)
+/// is not a part of the logical expr being visited.
 #[derive(Debug)]
 pub struct LogicalExprLeafFinder(pub bool);
 
 impl Visit for LogicalExprLeafFinder {
-    fn visit_bin_expr(&mut self, bin_expr: &BinExpr) {
-        match &bin_expr.op {
-            BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                self.0 = true;
-                // short curcuit, we know it's not leaf
-                return;
-            }
+    fn visit_expr(&mut self, expr: &Expr) {
+        match expr {
+            Expr::Paren(paren) => paren.visit_with(self),
+            Expr::Bin(bin_expr) => match &bin_expr.op {
+                BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
+                    self.0 = true;
+                }
+                _ => {}
+            },
             _ => {}
         }
-
-        bin_expr.visit_children_with(self);
     }
 }
diff --git a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs b/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
deleted file mode 100644
index a058147..0000000
--- a/packages/swc-coverage-instrument/src/visitors/logical_expr_visitor.rs
+++ /dev/null
@@ -1,66 +0,0 @@
-use swc_core::{
-    common::{comments::Comments, util::take::Take, SourceMapper},
-    ecma::visit::{VisitMut, VisitMutWith, VisitWith},
-};
-use tracing::instrument;
-
-use crate::{create_instrumentation_visitor, instrumentation_branch_wrap_counter_helper};
-
-create_instrumentation_visitor!(LogicalExprVisitor { branch: u32 });
-
-/// A visitor to traverse down given logical expr's value (left / right) with existing branch idx.
-/// This is required to preserve branch id to recursively traverse logical expr's inner child.
-impl<C: Clone + Comments, S: SourceMapper> LogicalExprVisitor<C, S> {
-    instrumentation_branch_wrap_counter_helper!();
-}
-
-impl<C: Clone + Comments, S: SourceMapper> VisitMut for LogicalExprVisitor<C, S> {
-    fn visit_mut_expr(&mut self, expr: &mut Expr) {
-        let (old, _ignore_current) = self.on_enter(expr);
-        expr.visit_mut_children_with(self);
-        self.on_exit(old);
-    }
-
-    // TODO: common logic between coveragevisitor::visit_mut_bin_expr
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_bin_expr(&mut self, bin_expr: &mut BinExpr) {
-        // We don't use self.on_enter() here since Node::LogicalExpr is a dialect of BinExpr
-        // which we can't pass directly via on_enter() macro
-        let old = self.should_ignore;
-        let ignore_current = match old {
-            Some(crate::hint_comments::IgnoreScope::Next) => old,
-            _ => {
-                self.should_ignore =
-                    crate::hint_comments::should_ignore(&self.comments, Some(&bin_expr.span));
-                self.should_ignore
-            }
-        };
-
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {
-                self.nodes.push(crate::Node::BinExpr);
-                bin_expr.visit_mut_children_with(self);
-                self.on_exit(old);
-            }
-            _ => {
-                match &bin_expr.op {
-                    BinaryOp::LogicalOr | BinaryOp::LogicalAnd | BinaryOp::NullishCoalescing => {
-                        self.nodes.push(crate::Node::LogicalExpr);
-
-                        // Iterate over each expr, wrap it with branch counter.
-                        // This does not create new branch counter - should use parent's index instead.
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.left);
-                        self.wrap_bin_expr_with_branch_counter(self.branch, &mut *bin_expr.right);
-                        self.on_exit(old);
-                    }
-                    _ => {
-                        // iterate as normal for non loigical expr
-                        self.nodes.push(crate::Node::BinExpr);
-                        bin_expr.visit_mut_children_with(self);
-                        self.on_exit(old);
-                    }
-                }
-            }
-        }
-    }
-}
diff --git a/packages/swc-coverage-instrument/src/visitors/mod.rs b/packages/swc-coverage-instrument/src/visitors/mod.rs
index 60c3257..601504a 100644
--- a/packages/swc-coverage-instrument/src/visitors/mod.rs
+++ b/packages/swc-coverage-instrument/src/visitors/mod.rs
@@ -1,5 +1,4 @@
 pub mod coverage_visitor;
 pub mod finders;
-pub mod logical_expr_visitor;
 pub mod stmt_like_visitor;
 pub mod switch_case_visitor;
-- 
2.43.0


From 540b2ff23d50dc7bed3a44d6883caa5ea48d0980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 04/35] fix: count a default value as the single path of its
 branch

---
 .../src/macros/instrumentation_visitor.rs          | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0b96c14..6378860 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -899,7 +899,19 @@ macro_rules! instrumentation_visitor {
                         false,
                     );
 
-                    self.wrap_bin_expr_with_branch_counter(branch, &mut *assign_pat.right);
+                    let right_ignored = crate::hint_comments::should_ignore(
+                        &self.comments,
+                        Some(&assign_pat.right.span()),
+                    ) == Some(crate::hint_comments::IgnoreScope::Next);
+
+                    assign_pat.left.visit_mut_with(self);
+
+                    // Default value is the only path of the branch: logical expr in there
+                    // have its own branch.
+                    if !right_ignored {
+                        assign_pat.right.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *assign_pat.right, branch);
+                    }
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 7742b3d854ee5ad9462fa88b0c9399ea6fbb82c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 05/35] fix: instrument the parameters of an arrow function

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 6378860..f07116f 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -54,6 +54,7 @@ macro_rules! instrumentation_visitor {
                             .cov
                             .borrow_mut()
                             .new_function(&None, &range, &body_range);
+                        arrow_expr.params.visit_mut_with(self);
                         let b = crate::create_increase_counter_expr(
                             &crate::constants::idents::IDENT_F,
                             index,
@@ -84,6 +85,7 @@ macro_rules! instrumentation_visitor {
                             .cov
                             .borrow_mut()
                             .new_function(&None, &range, &body_range);
+                        arrow_expr.params.visit_mut_with(self);
                         let b = crate::create_increase_counter_expr(
                             &crate::constants::idents::IDENT_F,
                             index,
-- 
2.43.0


From 3fe514a7a5e5b9cce265f8b6bac83c2f60e3d93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 06/35] fix: instrument the object expression of a with
 statement

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f07116f..651509e 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -956,6 +956,8 @@ macro_rules! instrumentation_visitor {
                 _ => {
                     self.mark_prepend_stmt_counter(&with_stmt.span);
 
+                    with_stmt.obj.visit_mut_with(self);
+
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
                         self.insert_stmts_counter(&mut body_block.stmts);
-- 
2.43.0


From 0480b5a944d4947b81e16086d29bfb85d27de4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:41 +0000
Subject: [PATCH 07/35] fix: count the default value of a shorthand pattern
 property

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 31 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 33 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index f1438d8..db366f8 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -191,6 +191,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
+         on_enter!(AssignPatProp);
          on_enter!(GetterProp);
          on_enter!(SetterProp);
          on_enter!(TaggedTpl);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 651509e..f0f0e7a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -919,6 +919,37 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // Shorthand property with default value (`{ a = 1 }`), in upstream this is AssignmentPattern as well.
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_assign_pat_prop(&mut self, assign_pat_prop: &mut AssignPatProp) {
+            let (old, ignore_current) = self.on_enter(assign_pat_prop);
+            match (ignore_current, &mut assign_pat_prop.value) {
+                (Some(crate::hint_comments::IgnoreScope::Next), _) | (_, None) => {}
+                (_, Some(value)) => {
+                    let range = crate::lookup_range::get_range_from_span(
+                        &self.source_map,
+                        &assign_pat_prop.span,
+                    );
+                    let branch = self.cov.borrow_mut().new_branch(
+                        crate::BranchType::DefaultArg,
+                        &range,
+                        false,
+                    );
+
+                    let value_ignored = crate::hint_comments::should_ignore(
+                        &self.comments,
+                        Some(&value.span()),
+                    ) == Some(crate::hint_comments::IgnoreScope::Next);
+
+                    if !value_ignored {
+                        value.visit_mut_with(self);
+                        self.replace_expr_with_branch_counter(&mut *value, branch);
+                    }
+                }
+            }
+            self.on_exit(old);
+        }
+
         // TryStatement: entries(coverStatement),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_try_stmt(&mut self, try_stmt: &mut TryStmt) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 1790206..0699632 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -44,6 +44,7 @@ pub enum Node {
     ExportDefaultDecl,
     BlockStmt,
     AssignPat,
+    AssignPatProp,
     TaggedTpl,
 }
 
-- 
2.43.0


From 91a5f8b6a08c95ad9e362d466706ebc2d5218f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:59 +0000
Subject: [PATCH 08/35] fix: count private methods and methods whose key is not
 an identifier, under their own key

---
 packages/swc-coverage-instrument/src/lib.rs   |  1 +
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 36 ++++++++++++++-----
 .../swc-coverage-instrument/src/utils/mod.rs  |  1 +
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 .../src/utils/prop_name.rs                    | 22 ++++++++++++
 6 files changed, 54 insertions(+), 8 deletions(-)
 create mode 100644 packages/swc-coverage-instrument/src/utils/prop_name.rs

diff --git a/packages/swc-coverage-instrument/src/lib.rs b/packages/swc-coverage-instrument/src/lib.rs
index 96edb57..7517997 100644
--- a/packages/swc-coverage-instrument/src/lib.rs
+++ b/packages/swc-coverage-instrument/src/lib.rs
@@ -25,6 +25,7 @@ pub use options::instrument_options::*;
 mod utils;
 use utils::hint_comments;
 use utils::lookup_range;
+use utils::prop_name;
 pub use utils::node::Node;
 
 // Reexports
diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index db366f8..3ca988d 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -173,6 +173,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(PrivateMethod);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
          on_enter!(ForOfStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f0f0e7a..f655d75 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -391,12 +391,35 @@ macro_rules! instrumentation_visitor {
                             );
                             class_method.visit_mut_children_with(self);
                         }
+                    } else {
+                        let ident = crate::prop_name::prop_name_to_ident(&class_method.key);
+                        self.create_fn_instrumentation(&Some(&ident), &mut class_method.function);
+                        class_method.visit_mut_children_with(self);
                     }
                 }
             }
             self.on_exit(old);
         }
 
+        // ClassPrivateMethod: entries(coverFunction),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
+            let (old, ignore_current) = self.on_enter(private_method);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    let ident = Ident {
+                        sym: format!("#{}", private_method.key.name).into(),
+                        span: private_method.key.span,
+                        ..Ident::dummy()
+                    };
+                    self.create_fn_instrumentation(&Some(&ident), &mut private_method.function);
+                    private_method.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // ObjectMethod: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_method_prop(&mut self, method_prop: &mut MethodProp) {
@@ -421,10 +444,7 @@ macro_rules! instrumentation_visitor {
                             method_prop.visit_mut_children_with(self);
                         }
                     } else {
-                        let ident = Ident {
-                            sym: "anonymous".into(),
-                            ..Ident::dummy()
-                        };
+                        let ident = crate::prop_name::prop_name_to_ident(&method_prop.key);
                         self.create_fn_instrumentation(&Some(&ident), &mut method_prop.function);
                         method_prop.visit_mut_children_with(self);
                     }
@@ -482,8 +502,8 @@ macro_rules! instrumentation_visitor {
                             getter_prop.visit_mut_children_with(self);
                         }
                     } else {
-                        let span = &getter_prop.span;
-                        let name: Option<String> = Some("anonymous".to_owned());
+                        let ident = crate::prop_name::prop_name_to_ident(&getter_prop.key);
+                        let (span, name) = (&ident.span, Some(ident.sym.to_string()));
 
                         let range =
                             crate::lookup_range::get_range_from_span(&self.source_map, span);
@@ -568,8 +588,8 @@ macro_rules! instrumentation_visitor {
                             setter_prop.visit_mut_children_with(self);
                         }
                     } else {
-                        let span = &setter_prop.span;
-                        let name: Option<String> = Some("anonymous".to_owned());
+                        let ident = crate::prop_name::prop_name_to_ident(&setter_prop.key);
+                        let (span, name) = (&ident.span, Some(ident.sym.to_string()));
 
                         let range =
                             crate::lookup_range::get_range_from_span(&self.source_map, span);
diff --git a/packages/swc-coverage-instrument/src/utils/mod.rs b/packages/swc-coverage-instrument/src/utils/mod.rs
index c0b51ba..1a020a5 100644
--- a/packages/swc-coverage-instrument/src/utils/mod.rs
+++ b/packages/swc-coverage-instrument/src/utils/mod.rs
@@ -1,3 +1,4 @@
 pub mod hint_comments;
 pub mod lookup_range;
 pub mod node;
+pub mod prop_name;
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 0699632..7a91dec 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,7 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    PrivateMethod,
     ExportDecl,
     ExportDefaultDecl,
     BlockStmt,
diff --git a/packages/swc-coverage-instrument/src/utils/prop_name.rs b/packages/swc-coverage-instrument/src/utils/prop_name.rs
new file mode 100644
index 0000000..8be8be0
--- /dev/null
+++ b/packages/swc-coverage-instrument/src/utils/prop_name.rs
@@ -0,0 +1,22 @@
+use swc_core::{
+    common::{util::take::Take, Spanned},
+    ecma::ast::*,
+};
+
+/// Ident to name a method in the coverage data by its key.
+/// Name of the computed key is not known until runtime.
+pub fn prop_name_to_ident(key: &PropName) -> Ident {
+    let sym = match key {
+        PropName::Ident(ident) => ident.sym.clone(),
+        PropName::Str(str) => str.value.clone(),
+        PropName::Num(num) => num.value.to_string().into(),
+        PropName::BigInt(big_int) => big_int.value.to_string().into(),
+        PropName::Computed(_) => "anonymous".into(),
+    };
+
+    Ident {
+        sym,
+        span: key.span(),
+        ..Ident::dummy()
+    }
+}
-- 
2.43.0


From e99cf2ac269da7d0a3b3c7393b57286ecdc7d8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 09/35] fix: count calls of class constructors

---
 .../macros/create_instrumentation_visitor.rs  |  1 +
 .../src/macros/instrumentation_visitor.rs     | 45 +++++++++++++++++++
 .../swc-coverage-instrument/src/utils/node.rs |  1 +
 3 files changed, 47 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index 3ca988d..d5914da 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -173,6 +173,7 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(ClassProp);
          on_enter!(PrivateProp);
          on_enter!(ClassMethod);
+         on_enter!(Constructor);
          on_enter!(PrivateMethod);
          on_enter!(ArrowExpr);
          on_enter!(ForStmt);
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index f655d75..2e83b82 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -401,6 +401,51 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // ClassMethod: entries(coverFunction), which includes constructor in upstream
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_constructor(&mut self, constructor: &mut Constructor) {
+            let (old, ignore_current) = self.on_enter(constructor);
+            let should_ignore_via_options = self
+                .instrument_options
+                .ignore_class_methods
+                .iter()
+                .any(|v| v.as_str() == "constructor");
+
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ if should_ignore_via_options => {}
+                _ => {
+                    if let Some(body) = &mut constructor.body {
+                        let ident = crate::prop_name::prop_name_to_ident(&constructor.key);
+                        let range =
+                            crate::lookup_range::get_range_from_span(&self.source_map, &ident.span);
+                        let body_range =
+                            crate::lookup_range::get_range_from_span(&self.source_map, &body.span);
+                        let index = self.cov.borrow_mut().new_function(
+                            &Some(ident.sym.to_string()),
+                            &range,
+                            &body_range,
+                        );
+
+                        let b = crate::create_increase_counter_expr(
+                            &crate::constants::idents::IDENT_F,
+                            index,
+                            &self.cov_fn_ident,
+                            None,
+                        );
+                        let mut prepended_vec = vec![Stmt::Expr(ExprStmt {
+                            span: swc_core::common::DUMMY_SP,
+                            expr: Box::new(b),
+                        })];
+                        prepended_vec.extend(body.stmts.take());
+                        body.stmts = prepended_vec;
+                    }
+                    constructor.visit_mut_children_with(self);
+                }
+            }
+            self.on_exit(old);
+        }
+
         // ClassPrivateMethod: entries(coverFunction),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_private_method(&mut self, private_method: &mut PrivateMethod) {
diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index 7a91dec..d7e8f92 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -40,6 +40,7 @@ pub enum Node {
     ClassProp,
     ClassDecl,
     ClassMethod,
+    Constructor,
     PrivateMethod,
     ExportDecl,
     ExportDefaultDecl,
-- 
2.43.0


From c173aa7352f9a873faf7d8680dda9e61d53fbb55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:28 +0000
Subject: [PATCH 10/35] fix: keep counters marked inside switch discriminants
 and case tests

---
 .../src/macros/instrumentation_visitor.rs                       | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 2e83b82..458f3a7 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -786,6 +786,8 @@ macro_rules! instrumentation_visitor {
                     );
 
                     switch_stmt.visit_mut_children_with(&mut visitor);
+                    // counters marked in the discriminant or in the tests of the cases
+                    self.before.extend(visitor.before.drain(..));
                 }
             }
             self.on_exit(old);
-- 
2.43.0


From 070a0a43e0ddebd334cee81b946deddd496a82dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 11/35] fix: count function-valued initialisers wherever the
 declaration is nested

---
 .../macros/instrumentation_counter_helper.rs  | 30 +++++--------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index b1f19e3..1b6f305 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -272,33 +272,17 @@ macro_rules! instrumentation_counter_helper {
             expr.visit_with(&mut hoist);
             let parent = self.nodes.last().unwrap().clone();
             if hoist.0 && parent == crate::Node::VarDeclarator {
-                // TODO: need to polish logic to determine prepending instead of traversing parent node types
+                // nodes ends with (parent of the declaration):VarDecl:VarDeclarator.
+                // Exported declaration have its own statement counter instead.
                 let nodes_len = self.nodes.len();
-                let parent_index = if nodes_len >= (3 as usize) {
-                    nodes_len - 3
+                let parent = if nodes_len >= 3 {
+                    self.nodes.get(nodes_len - 3)
                 } else {
-                    0
+                    None
                 };
-                let parent = self.nodes.get(parent_index);
 
-                if parent.is_some() {
-                    let parent_index = if nodes_len >= (4 as usize) {
-                        nodes_len - 4
-                    } else {
-                        0
-                    };
-                    let parent = self.nodes.get(parent_index);
-
-                    if let Some(parent) = parent {
-                        match parent {
-                            crate::Node::BlockStmt | crate::Node::Program => {
-                                self.mark_prepend_stmt_counter(&span);
-                            }
-                            _ => {}
-                        }
-                    }
-                } else {
-                    self.replace_expr_with_stmt_counter(expr);
+                if parent != Some(&crate::Node::ExportDecl) {
+                    self.mark_prepend_stmt_counter(&span);
                 }
 
                 return;
-- 
2.43.0


From e0bab6d999312e2b00de93131e53550961864274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 12/35] fix: honour the ignore hint on an exported const
 declaration

---
 .../src/visitors/coverage_visitor.rs                        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5e892be..29903e4 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -153,7 +153,7 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
                 }
             }
 
-            let (old, _ignore_current) = match &mut item {
+            let (old, ignore_current) = match &mut item {
                 ModuleItem::ModuleDecl(decl) => self.on_enter(decl),
                 ModuleItem::Stmt(stmt) => self.on_enter(stmt),
             };
@@ -165,7 +165,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const {
+                    if var_decl.kind == VarDeclKind::Const
+                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                    {
                         self.mark_prepend_stmt_counter(&export_decl.span);
                     }
                 }
-- 
2.43.0


From 60be6761a1a1b65085aa7169f8559dd75eb2e996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 13/35] fix: escape the comment terminator inside the debug
 coverage comment

---
 .../src/coverage_template/create_coverage_fn_decl.rs            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
index 7cb4181..5753192 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_fn_decl.rs
@@ -154,6 +154,8 @@ if (!$coverage[$path] || $coverage[$path].$hash !== $hash) {
     if attach_debug_comment {
         let coverage_data_json_str =
             serde_json::to_string(coverage_data).expect("Should able to serialize coverage data");
+        // `*/` can only be within a json string, escape it to not to close the comment
+        let coverage_data_json_str = coverage_data_json_str.replace("*/", "*\\/");
 
         // Append coverage data as stringified JSON comments at the bottom of transformed code.
         // Currently plugin does not have way to pass any other data to the host except transformed program.
-- 
2.43.0


From f06cb982dc34ab1d6908b53ca2fb5c492c634a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:50 +0000
Subject: [PATCH 14/35] fix: keep directive prologues of scripts, modules and
 functions in place

---
 packages/swc-coverage-instrument/src/lib.rs    |  1 +
 .../macros/instrumentation_counter_helper.rs   |  1 +
 .../instrumentation_stmt_counter_helper.rs     | 10 +++++++++-
 .../src/macros/instrumentation_visitor.rs      |  6 ++++++
 .../src/utils/directives.rs                    | 12 ++++++++++++
 .../swc-coverage-instrument/src/utils/mod.rs   |  1 +
 .../src/visitors/coverage_visitor.rs           | 18 +++++++++++++-----
 7 files changed, 43 insertions(+), 6 deletions(-)
 create mode 100644 packages/swc-coverage-instrument/src/utils/directives.rs

diff --git a/packages/swc-coverage-instrument/src/lib.rs b/packages/swc-coverage-instrument/src/lib.rs
index 7517997..5cfff10 100644
--- a/packages/swc-coverage-instrument/src/lib.rs
+++ b/packages/swc-coverage-instrument/src/lib.rs
@@ -23,6 +23,7 @@ mod options;
 pub use options::instrument_options::*;
 
 mod utils;
+use utils::directives::take_directives;
 use utils::hint_comments;
 use utils::lookup_range;
 use utils::prop_name;
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 1b6f305..4a3935b 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -197,6 +197,7 @@ macro_rules! instrumentation_counter_helper {
                         span: swc_core::common::DUMMY_SP,
                         expr: Box::new(b),
                     })];
+                    prepended_vec.splice(..0, crate::take_directives(&mut blockstmt.stmts));
                     prepended_vec.extend(blockstmt.stmts.take());
                     blockstmt.stmts = prepended_vec;
                 }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index dfea8a4..6ff9b6d 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -5,7 +5,15 @@ macro_rules! instrumentation_stmt_counter_helper {
         /// Visit individual statements with stmt_visitor and update.
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn insert_stmts_counter(&mut self, stmts: &mut Vec<Stmt>) {
-            let mut new_stmts = vec![];
+            // Function counter comes right after the directive prologue of its body,
+            // do not insert statement counter into the prologue.
+            let mut new_stmts = crate::take_directives(stmts);
+            if !stmts
+                .first()
+                .is_some_and(|stmt| self.is_injected_counter_stmt(stmt))
+            {
+                stmts.splice(..0, new_stmts.drain(..));
+            }
 
             for mut stmt in stmts.drain(..) {
                 if !self.is_injected_counter_stmt(&stmt) {
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 458f3a7..d2f08f6 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -68,6 +68,7 @@ macro_rules! instrumentation_visitor {
                             expr: Box::new(b),
                         })];
                         // if arrow fn body is already blockstmt, insert stmt counter for each
+                        new_stmts.splice(..0, crate::take_directives(&mut block_stmt.stmts));
                         self.insert_stmts_counter(&mut block_stmt.stmts);
                         new_stmts.extend(block_stmt.stmts.drain(..));
                         block_stmt.stmts = new_stmts;
@@ -437,6 +438,7 @@ macro_rules! instrumentation_visitor {
                             span: swc_core::common::DUMMY_SP,
                             expr: Box::new(b),
                         })];
+                        prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                         prepended_vec.extend(body.stmts.take());
                         body.stmts = prepended_vec;
                     }
@@ -541,6 +543,7 @@ macro_rules! instrumentation_visitor {
                                     span: swc_core::common::DUMMY_SP,
                                     expr: Box::new(b),
                                 })];
+                                prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                                 prepended_vec.extend(body.stmts.take());
                                 body.stmts = prepended_vec;
                             }
@@ -573,6 +576,7 @@ macro_rules! instrumentation_visitor {
                                 span: swc_core::common::DUMMY_SP,
                                 expr: Box::new(b),
                             })];
+                            prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                             prepended_vec.extend(body.stmts.take());
                             body.stmts = prepended_vec;
                         }
@@ -627,6 +631,7 @@ macro_rules! instrumentation_visitor {
                                     span: swc_core::common::DUMMY_SP,
                                     expr: Box::new(b),
                                 })];
+                                prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                                 prepended_vec.extend(body.stmts.take());
                                 body.stmts = prepended_vec;
                             }
@@ -659,6 +664,7 @@ macro_rules! instrumentation_visitor {
                                 span: swc_core::common::DUMMY_SP,
                                 expr: Box::new(b),
                             })];
+                            prepended_vec.splice(..0, crate::take_directives(&mut body.stmts));
                             prepended_vec.extend(body.stmts.take());
                             body.stmts = prepended_vec;
                         }
diff --git a/packages/swc-coverage-instrument/src/utils/directives.rs b/packages/swc-coverage-instrument/src/utils/directives.rs
new file mode 100644
index 0000000..19b82fd
--- /dev/null
+++ b/packages/swc-coverage-instrument/src/utils/directives.rs
@@ -0,0 +1,12 @@
+use swc_core::ecma::{ast::Stmt, utils::IsDirective};
+
+/// Take directive prologue out of given body of the script, or function.
+/// Directives are effective only if there isn't any other statement before.
+pub fn take_directives(stmts: &mut Vec<Stmt>) -> Vec<Stmt> {
+    let len = stmts
+        .iter()
+        .take_while(|stmt| stmt.directive_continue())
+        .count();
+
+    stmts.drain(..len).collect()
+}
diff --git a/packages/swc-coverage-instrument/src/utils/mod.rs b/packages/swc-coverage-instrument/src/utils/mod.rs
index 1a020a5..074364d 100644
--- a/packages/swc-coverage-instrument/src/utils/mod.rs
+++ b/packages/swc-coverage-instrument/src/utils/mod.rs
@@ -1,3 +1,4 @@
+pub mod directives;
 pub mod hint_comments;
 pub mod lookup_range;
 pub mod node;
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 29903e4..3e6485f 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -185,8 +185,14 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // prepend template to the top of the code
         if items.len() >= 1 {
-            items.insert(1, ModuleItem::Stmt(coverage_template));
-            items.insert(2, ModuleItem::Stmt(call_coverage_template_stmt));
+            // do not break up the directive prologue
+            let index = items
+                .iter()
+                .take_while(|item| item.directive_continue())
+                .count()
+                .max(1);
+            items.insert(index, ModuleItem::Stmt(coverage_template));
+            items.insert(index + 1, ModuleItem::Stmt(call_coverage_template_stmt));
         } else {
             items.push(ModuleItem::Stmt(coverage_template));
             items.push(ModuleItem::Stmt(call_coverage_template_stmt));
@@ -203,7 +209,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             return;
         }
 
-        let mut new_items = vec![];
+        // do not break up the directive prologue
+        let mut new_items = crate::take_directives(&mut items.body);
+        let directives_len = new_items.len();
         for mut item in items.body.drain(..) {
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
@@ -214,8 +222,8 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
-        items.body.insert(0, coverage_template);
-        items.body.insert(1, call_coverage_template_stmt);
+        items.body.insert(directives_len, coverage_template);
+        items.body.insert(directives_len + 1, call_coverage_template_stmt);
     }
 
     // ExportDefaultDeclaration: entries(), // ignore processing only
-- 
2.43.0


From 967d083d2452a71dc5ef64754a1bf36499ab6c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:59 +0000
Subject: [PATCH 15/35] fix: instrument the children of a tagged template
 initialiser once

---
 .../src/macros/instrumentation_counter_helper.rs               | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 4a3935b..3bd96a0 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -243,8 +243,7 @@ macro_rules! instrumentation_counter_helper {
                 // This preserves the template relationship
                 let span = expr.span();
                 self.mark_prepend_stmt_counter(&span);
-                // Still visit children to instrument any inner expressions
-                expr.visit_mut_children_with(self);
+                // Callers visit children to instrument any inner expressions
                 return;
             }
 
-- 
2.43.0


From c618915b43d8771f545c102e7b2e91b449e15866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:06 +0000
Subject: [PATCH 16/35] fix: do not run getters of logical operands when
 reporting their truthiness

---
 .../src/instrument/create_increase_true_expr.rs                 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
index 9cacd16..844616b 100644
--- a/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
+++ b/packages/swc-coverage-instrument/src/instrument/create_increase_true_expr.rs
@@ -150,7 +150,7 @@ fn validate_true_non_trivial(var_name: &Ident, temp_var_name: &Ident) -> Expr {
                             ..Ident::dummy()
                         })),
                         prop: MemberProp::Ident(IdentName {
-                            sym: "values".into(),
+                            sym: "keys".into(),
                             ..IdentName::dummy()
                         }),
                         ..MemberExpr::dummy()
-- 
2.43.0


From a2bffe709139364fe2e6d77ab3a30da8b78c8d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 17/35] fix: keep merged truthiness counts on their branches,
 also when only one side has them

---
 packages/istanbul-oxide/src/file_coverage.rs | 49 ++++++++++++++------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 83e82ce..8c4a0e7 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -288,6 +288,24 @@ impl FileCoverage {
         self.f = fn_hits_merged;
         self.fn_map = fn_map_merged;
 
+        // Tracking additional information about branch truthiness
+        // can be optionally enabled. Hits are keyed by the ids of the maps before merging, resolve
+        // their locations before those maps are replaced.
+        let branches_true = match (&self.b_t, &coverage.b_t) {
+            (None, None) => None,
+            (first, second) => {
+                let empty = BranchHitMap::default();
+                let (hits, map) = merge_properties_hits_vec(
+                    first.as_ref().unwrap_or(&empty),
+                    &self.branch_map,
+                    second.as_ref().unwrap_or(&empty),
+                    &coverage.branch_map,
+                    |branch: &Branch| key_from_loc(&branch.locations[0]),
+                );
+                Some((hits, map))
+            }
+        };
+
         let (branches_hits_merged, branches_map_merged) = merge_properties_hits_vec(
             &self.b,
             &self.branch_map,
@@ -298,21 +316,22 @@ impl FileCoverage {
         self.b = branches_hits_merged;
         self.branch_map = branches_map_merged;
 
-        // Tracking additional information about branch truthiness
-        // can be optionally enabled:
-        if let Some(branches_true) = &self.b_t {
-            if let Some(coverage_branches_true) = &coverage.b_t {
-                let (branches_true_hits_merged, _) = merge_properties_hits_vec(
-                    branches_true,
-                    &self.branch_map,
-                    coverage_branches_true,
-                    &coverage.branch_map,
-                    |branch: &Branch| key_from_loc(&branch.locations[0]),
-                );
-
-                self.b_t = Some(branches_true_hits_merged);
-            }
-        }
+        // renumber truthiness hits to the ids branches have after merging
+        self.b_t = branches_true.map(|(hits, map)| {
+            let mut hits_by_loc: IndexMap<String, Vec<u32>> = map
+                .iter()
+                .map(|(id, item)| (key_from_loc(&item.locations[0]), hits[id].clone()))
+                .collect();
+
+            self.branch_map
+                .iter()
+                .filter_map(|(id, branch)| {
+                    hits_by_loc
+                        .swap_remove(&key_from_loc(&branch.locations[0]))
+                        .map(|hits| (*id, hits))
+                })
+                .collect()
+        });
     }
 
     pub fn compute_simple_totals<T>(line_map: &IndexMap<T, u32>) -> Totals {
-- 
2.43.0


From 5926bc8aef24e3ba48b88b9f94cb8f15e9317df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 18/35] fix: keep branch locations in step with the counts when
 merging adds paths

---
 packages/istanbul-oxide/src/file_coverage.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/packages/istanbul-oxide/src/file_coverage.rs b/packages/istanbul-oxide/src/file_coverage.rs
index 8c4a0e7..2b6bad7 100644
--- a/packages/istanbul-oxide/src/file_coverage.rs
+++ b/packages/istanbul-oxide/src/file_coverage.rs
@@ -45,6 +45,7 @@ fn merge_properties_hits_vec(
             .and_modify(|pair| {
                 if pair.0.len() < item_hits.len() {
                     pair.0.resize(item_hits.len(), 0);
+                    pair.1.locations = item.locations.clone();
                 }
 
                 for (h, hits) in item_hits.iter().enumerate() {
-- 
2.43.0


From 2c7ff170c41fd128c977780345b03825f468155c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 19/35] fix: read Istanbul locations without a line and column

---
 packages/istanbul-oxide/src/range.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/istanbul-oxide/src/range.rs b/packages/istanbul-oxide/src/range.rs
index 4936ecd..7955280 100644
--- a/packages/istanbul-oxide/src/range.rs
+++ b/packages/istanbul-oxide/src/range.rs
@@ -1,6 +1,8 @@
 use serde::{Deserialize, Serialize};
 
+/// Istanbul leaves `line` and `column` out for paths without a location, like a missing `else`.
 #[derive(Copy, Clone, Default, Debug, PartialEq, Serialize, Deserialize)]
+#[serde(default)]
 pub struct Location {
     pub line: u32,
     pub column: u32,
-- 
2.43.0


From 07e594f3023363237ac63fc6875cabb0e504510c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:13 +0000
Subject: [PATCH 20/35] add verif-hooks feature exposing summary internals to
 verification harnesses

---
 packages/istanbul-oxide/Cargo.toml      |  4 ++++
 packages/istanbul-oxide/src/coverage.rs |  5 +++++
 packages/istanbul-oxide/src/lib.rs      | 25 +++++++++++++++++++++++++
 3 files changed, 34 insertions(+)

diff --git a/packages/istanbul-oxide/Cargo.toml b/packages/istanbul-oxide/Cargo.toml
index f3f5bb7..e4b0ba0 100644
--- a/packages/istanbul-oxide/Cargo.toml
+++ b/packages/istanbul-oxide/Cargo.toml
@@ -10,3 +10,7 @@ version     = "0.0.31"
 [dependencies]
 indexmap = { workspace = true, features = ["serde"] }
 serde    = { workspace = true, features = ["derive"] }
+
+[features]
+# Exposes internals to external verification harnesses. Off by default.
+verif-hooks = []
diff --git a/packages/istanbul-oxide/src/coverage.rs b/packages/istanbul-oxide/src/coverage.rs
index d6ff480..ad1afc0 100644
--- a/packages/istanbul-oxide/src/coverage.rs
+++ b/packages/istanbul-oxide/src/coverage.rs
@@ -13,4 +13,9 @@ impl Coverage {
             coverage,
         }
     }
+
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn parts(&self) -> (u32, u32, f32) {
+        (self.covered, self.total, self.coverage)
+    }
 }
diff --git a/packages/istanbul-oxide/src/lib.rs b/packages/istanbul-oxide/src/lib.rs
index 4d4e998..df13dd6 100644
--- a/packages/istanbul-oxide/src/lib.rs
+++ b/packages/istanbul-oxide/src/lib.rs
@@ -14,3 +14,28 @@ use percent::*;
 pub use range::*;
 pub use source_map::SourceMap;
 pub use types::*;
+
+/// Read access to values the crate keeps private, for external verification harnesses.
+#[cfg(feature = "verif-hooks")]
+pub mod verif_hooks {
+    pub use crate::coverage_summary::{CoveragePercentage, CoverageSummary, Totals};
+    pub use crate::percent::percent;
+
+    /// lines, statements, functions, branches and branches_true of a summary
+    pub fn summary_parts(summary: &CoverageSummary) -> ([Totals; 4], Option<Totals>) {
+        (
+            [
+                summary.lines,
+                summary.statements,
+                summary.functions,
+                summary.branches,
+            ],
+            summary.branches_true,
+        )
+    }
+
+    /// covered, total and percentage of a line
+    pub fn line_coverage_parts(value: &crate::coverage::Coverage) -> (u32, u32, f32) {
+        value.parts()
+    }
+}
-- 
2.43.0


From 2b924bbff71b0ca30a87c29600a115a8675b856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 21/35] fix: honour the ignore hint on a block that is an if
 branch, a with body or an arrow body

---
 .../src/macros/instrumentation_stmt_counter_helper.rs | 11 +++++++++++
 .../src/macros/instrumentation_visitor.rs             |  6 +++---
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
index 6ff9b6d..7e49005 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_stmt_counter_helper.rs
@@ -43,5 +43,16 @@ macro_rules! instrumentation_stmt_counter_helper {
 
             *stmts = new_stmts;
         }
+
+        // Insert stmt counters into the block, unless the block itself has an ignore hint
+        #[tracing::instrument(skip_all)]
+        fn insert_block_stmts_counter(&mut self, block_stmt: &mut BlockStmt) {
+            let (old, ignore_current) = self.on_enter(block_stmt);
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => self.insert_stmts_counter(&mut block_stmt.stmts),
+            }
+            self.on_exit(old);
+        }
     };
 }
diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index d2f08f6..fca1042 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -69,7 +69,7 @@ macro_rules! instrumentation_visitor {
                         })];
                         // if arrow fn body is already blockstmt, insert stmt counter for each
                         new_stmts.splice(..0, crate::take_directives(&mut block_stmt.stmts));
-                        self.insert_stmts_counter(&mut block_stmt.stmts);
+                        self.insert_block_stmts_counter(block_stmt);
                         new_stmts.extend(block_stmt.stmts.drain(..));
                         block_stmt.stmts = new_stmts;
                     }
@@ -838,7 +838,7 @@ macro_rules! instrumentation_visitor {
 
                         let body = if let Stmt::Block(mut block_stmt) = stmt_body {
                             // if cons / alt is already blockstmt, insert stmt counter for each
-                            self.insert_stmts_counter(&mut block_stmt.stmts);
+                            self.insert_block_stmts_counter(&mut block_stmt);
 
                             let mut new_stmts = vec![expr];
                             new_stmts.extend(block_stmt.stmts.drain(..));
@@ -1064,7 +1064,7 @@ macro_rules! instrumentation_visitor {
 
                     //TODO: duplicated codes for wrapping block
                     if let Stmt::Block(body_block) = &mut *with_stmt.body {
-                        self.insert_stmts_counter(&mut body_block.stmts);
+                        self.insert_block_stmts_counter(body_block);
                     } else {
                         let mut visitor = crate::visitors::stmt_like_visitor::StmtVisitor::new(
                             self.source_map.clone(),
-- 
2.43.0


From 328eaf5e22a131e4392faa5c5f365b1fc341cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:04 +0000
Subject: [PATCH 22/35] fix: honour a file ignore hint that follows a hashbang

---
 .../swc-coverage-instrument/src/utils/hint_comments.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/utils/hint_comments.rs b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
index 2e93123..c3bd322 100644
--- a/packages/swc-coverage-instrument/src/utils/hint_comments.rs
+++ b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
@@ -3,7 +3,7 @@ use regex::Regex as Regexp;
 use swc_core::{
     common::{
         comments::{Comment, Comments},
-        Span,
+        Span, Spanned,
     },
     ecma::ast::*,
 };
@@ -20,9 +20,10 @@ pub static COMMENT_RE: Lazy<Regexp> =
     Lazy::new(|| Regexp::new(r"^\s*istanbul\s+ignore\s+(if|else|next)(\W|$)").unwrap());
 
 pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program) -> bool {
-    let pos = match &program {
-        Program::Module(module) => module.span,
-        Program::Script(script) => script.span,
+    // Span of the program starts at the hashbang if there is one, leading comments belong to the first item then
+    let (pos, first) = match &program {
+        Program::Module(module) => (module.span, module.body.first().map(|item| item.span_lo())),
+        Program::Script(script) => (script.span, script.body.first().map(|stmt| stmt.span_lo())),
     };
 
     let validate_comments = |comments: &Option<Vec<Comment>>| {
@@ -40,6 +41,7 @@ pub fn should_ignore_file<C: Clone + Comments>(comments: &C, program: &Program)
         comments.get_leading(pos.hi),
         comments.get_trailing(pos.lo),
         comments.get_trailing(pos.hi),
+        first.and_then(|lo| comments.get_leading(lo)),
     ]
     .iter()
     .any(|c| validate_comments(c))
-- 
2.43.0


From a4932441e7ee46fb53a344ba86fbab934b1c95db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:00 +0000
Subject: [PATCH 23/35] fix: give compiler-generated nodes with a reserved
 position the empty location

---
 packages/swc-coverage-instrument/src/utils/lookup_range.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/utils/lookup_range.rs b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
index 986ce1e..6913e62 100644
--- a/packages/swc-coverage-instrument/src/utils/lookup_range.rs
+++ b/packages/swc-coverage-instrument/src/utils/lookup_range.rs
@@ -10,7 +10,8 @@ pub fn get_range_from_span<S: SourceMapper>(source_map: &Arc<S>, span: &Span) ->
     // which are not able to locate original locations.
     // This'll makes to create less-accurate coverage for those types (i.e enums)
     // while waiting upstream decision instead of hard panic.
-    if span.hi.is_dummy() || span.lo.is_dummy() {
+    // This includes reserved positions (i.e the pure annotation), which are not in the source either.
+    if span.is_dummy() || span.hi.is_dummy() || span.lo.is_dummy() {
         return Default::default();
     }
 
-- 
2.43.0


From 0062d96fe079923e9c92c3d562221acc9eca1e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 24/35] fix: count debugger statements

---
 .../src/macros/instrumentation_visitor.rs        | 16 ++++++++++++++++
 .../src/visitors/coverage_visitor.rs             | 13 -------------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index fca1042..0d1d176 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -223,6 +223,22 @@ macro_rules! instrumentation_visitor {
             self.on_exit(old);
         }
 
+        // DebuggerStatement: entries(coverStatement),
+        #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
+        fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
+            let (old, ignore_current) = self.on_enter(debugger_stmt);
+
+            match ignore_current {
+                Some(crate::hint_comments::IgnoreScope::Next) => {}
+                _ => {
+                    self.mark_prepend_stmt_counter(&debugger_stmt.span);
+                }
+            }
+            debugger_stmt.visit_mut_children_with(self);
+
+            self.on_exit(old);
+        }
+
         // ConditionalExpression: entries(coverTernary),
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_cond_expr(&mut self, cond_expr: &mut CondExpr) {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 3e6485f..023f865 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -253,17 +253,4 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         self.on_exit(old);
     }
-
-    // DebuggerStatement: entries(coverStatement),
-    #[instrument(skip_all, fields(node = %self.print_node()))]
-    fn visit_mut_debugger_stmt(&mut self, debugger_stmt: &mut DebuggerStmt) {
-        let (old, ignore_current) = self.on_enter(debugger_stmt);
-        match ignore_current {
-            Some(crate::hint_comments::IgnoreScope::Next) => {}
-            _ => {
-                debugger_stmt.visit_mut_children_with(self);
-            }
-        }
-        self.on_exit(old);
-    }
 }
-- 
2.43.0


From 7b644b207d03d6e669d86618edcb7dda6faadfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 25/35] fix: count string statements which are not directives

---
 .../src/macros/instrumentation_visitor.rs            | 11 -----------
 .../src/visitors/coverage_visitor.rs                 | 12 ++++++------
 2 files changed, 6 insertions(+), 17 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 0d1d176..3d3feba 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -1,5 +1,3 @@
-pub(crate) const DIRECTIVES: &[&str] = &["use strict", "use asm", "use strong"];
-
 /// Generate common visitors to visit stmt.
 #[macro_export]
 macro_rules! instrumentation_visitor {
@@ -185,15 +183,6 @@ macro_rules! instrumentation_visitor {
         fn visit_mut_expr_stmt(&mut self, expr_stmt: &mut ExprStmt) {
             let (old, ignore_current) = self.on_enter(expr_stmt);
 
-            if let Expr::Lit(Lit::Str(Str { value, .. })) = expr_stmt.expr.as_ref() {
-                let value: &str = &*value;
-
-                if crate::macros::instrumentation_visitor::DIRECTIVES.contains(&value) {
-                    self.on_exit(old);
-                    return;
-                }
-            }
-
             match ignore_current {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 023f865..91ef306 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -144,13 +144,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
 
         // TODO: Should module_items need to be added in self.nodes?
         let mut new_items = vec![];
+        let mut in_prologue = true;
         for mut item in items.drain(..) {
-            if let ModuleItem::Stmt(stmt) = &item {
-                // Do not create coverage instrumentation for directives.
-                if stmt.directive_continue() {
-                    new_items.push(item);
-                    continue;
-                }
+            // Do not create coverage instrumentation for directives.
+            in_prologue = in_prologue && item.directive_continue();
+            if in_prologue {
+                new_items.push(item);
+                continue;
             }
 
             let (old, ignore_current) = match &mut item {
-- 
2.43.0


From 5ee193868082d0c9738e82b3b5df0bdd40c6e392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:06 +0000
Subject: [PATCH 26/35] fix: count a tagged template once, as a part of its
 statement

---
 .../src/macros/instrumentation_visitor.rs                | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 3d3feba..99c3ca9 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -284,13 +284,10 @@ macro_rules! instrumentation_visitor {
                 Some(crate::hint_comments::IgnoreScope::Next) => {}
                 _ => {
                     // For tagged template expressions like styled(...)`template`,
-                    // we need to instrument the entire expression rather than wrapping
-                    // the tag part in a sequence expression, which would break the
+                    // the tag part is not wrapped in a sequence expression, which would break the
                     // template relationship and cause emotion to lose label information.
-
-                    // Instead of calling cover_statement on the tag (which would wrap it),
-                    // we mark to prepend a statement counter before the entire tagged template
-                    self.mark_prepend_stmt_counter(&tagged_tpl.span);
+                    // Statement holding the tagged template (or cover_statement, if it is an
+                    // initializer) have its own counter, so there is none for the template itself.
 
                     // Visit children normally to instrument any inner expressions
                     tagged_tpl.visit_mut_children_with(self);
-- 
2.43.0


From 537068d58a47190a4bfb0ee51c5c1cdf7c2af02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 27/35] fix: count initialisers holding functions where they
 are evaluated

---
 .../macros/instrumentation_counter_helper.rs  | 78 +++++++++----------
 .../src/visitors/finders.rs                   | 49 ++++--------
 2 files changed, 52 insertions(+), 75 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 3bd96a0..471272a 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -236,56 +236,56 @@ macro_rules! instrumentation_counter_helper {
         }
 
         fn cover_statement(&mut self, expr: &mut Expr) {
+            let parent = self.nodes.last().unwrap().clone();
+
             // Special handling for tagged template expressions (like emotion styled components)
             // to preserve the template relationship and avoid wrapping in sequence expressions
             if let Expr::TaggedTpl(_) = expr {
-                // For tagged templates, prepend statement counter instead of wrapping
+                // For tagged templates of variables, prepend statement counter instead of wrapping
                 // This preserves the template relationship
-                let span = expr.span();
-                self.mark_prepend_stmt_counter(&span);
-                // Callers visit children to instrument any inner expressions
-                return;
+                if parent == crate::Node::VarDeclarator {
+                    let span = expr.span();
+                    self.mark_prepend_stmt_counter(&span);
+                    // Callers visit children to instrument any inner expressions
+                    return;
+                }
             }
 
             let span = expr.span();
-            // This is ugly, poor man's substitute to istanbul's `insertCounter` to determine
-            // when to replace givn expr to wrapped Paren or prepend stmt counter.
-            // We can't do insert parent node's sibling in downstream's child node.
-            // TODO: there should be a better way.
-            let mut block = crate::visitors::finders::BlockStmtFinder::new();
-            expr.visit_with(&mut block);
-            // TODO: this may not required as visit_mut_block_stmt recursively visits inner instead.
-            if block.0 {
-                //path.node.body.unshift(T.expressionStatement(increment));
-                self.mark_prepend_stmt_counter(&span);
-                return;
-            }
+            // Function takes its name from the declarator or the property it initializes,
+            // make an attempt to prepend the counter so the name is maintained.
+            // Anything else holding functions (i.e arguments of a call) is wrapped: prepended counter
+            // is executed even if preceding declarator throws, or with the class instead of its property.
+            if crate::visitors::finders::is_fn_like_expr(expr) {
+                // This is ugly, poor man's substitute to istanbul's `insertCounter` to determine
+                // when to replace givn expr to wrapped Paren or prepend stmt counter.
+                // We can't do insert parent node's sibling in downstream's child node.
+                // TODO: there should be a better way.
+                let mut block = crate::visitors::finders::BlockStmtFinder::new();
+                expr.visit_with(&mut block);
+                // TODO: this may not required as visit_mut_block_stmt recursively visits inner instead.
+                if block.0 {
+                    //path.node.body.unshift(T.expressionStatement(increment));
+                    self.mark_prepend_stmt_counter(&span);
+                    return;
+                }
 
-            let mut stmt = crate::visitors::finders::StmtFinder::new();
-            expr.visit_with(&mut stmt);
-            if stmt.0 {
-                //path.insertBefore(T.expressionStatement(increment));
-                self.mark_prepend_stmt_counter(&span);
-            }
+                if parent == crate::Node::VarDeclarator {
+                    // nodes ends with (parent of the declaration):VarDecl:VarDeclarator.
+                    // Exported declaration have its own statement counter instead.
+                    let nodes_len = self.nodes.len();
+                    let parent = if nodes_len >= 3 {
+                        self.nodes.get(nodes_len - 3)
+                    } else {
+                        None
+                    };
 
-            let mut hoist = crate::visitors::finders::HoistingFinder::new();
-            expr.visit_with(&mut hoist);
-            let parent = self.nodes.last().unwrap().clone();
-            if hoist.0 && parent == crate::Node::VarDeclarator {
-                // nodes ends with (parent of the declaration):VarDecl:VarDeclarator.
-                // Exported declaration have its own statement counter instead.
-                let nodes_len = self.nodes.len();
-                let parent = if nodes_len >= 3 {
-                    self.nodes.get(nodes_len - 3)
-                } else {
-                    None
-                };
+                    if parent != Some(&crate::Node::ExportDecl) {
+                        self.mark_prepend_stmt_counter(&span);
+                    }
 
-                if parent != Some(&crate::Node::ExportDecl) {
-                    self.mark_prepend_stmt_counter(&span);
+                    return;
                 }
-
-                return;
             }
 
             let mut expr_finder = crate::visitors::finders::ExprFinder::new();
diff --git a/packages/swc-coverage-instrument/src/visitors/finders.rs b/packages/swc-coverage-instrument/src/visitors/finders.rs
index 522f218..82b14aa 100644
--- a/packages/swc-coverage-instrument/src/visitors/finders.rs
+++ b/packages/swc-coverage-instrument/src/visitors/finders.rs
@@ -3,27 +3,19 @@ use swc_core::ecma::{
     visit::{Visit, VisitWith},
 };
 
-/// A visitor to check if counter need to be `hoisted` for certain types of nodes.
-#[derive(Debug)]
-pub struct HoistingFinder(pub bool);
-
-impl HoistingFinder {
-    pub fn new() -> HoistingFinder {
-        HoistingFinder(false)
-    }
-}
-
-impl Visit for HoistingFinder {
-    fn visit_fn_expr(&mut self, _fn_expr: &FnExpr) {
-        self.0 = true;
-    }
-
-    fn visit_arrow_expr(&mut self, _arrow_expr: &ArrowExpr) {
-        self.0 = true;
-    }
-
-    fn visit_class_expr(&mut self, _class_expr: &ClassExpr) {
-        self.0 = true;
+/// Check if counter need to be `hoisted` for given expr: function, or class which takes its name
+/// from the place it is assigned to.
+pub fn is_fn_like_expr(expr: &Expr) -> bool {
+    match expr {
+        Expr::Fn(_) | Expr::Arrow(_) | Expr::Class(_) => true,
+        Expr::Paren(ParenExpr { expr, .. })
+        | Expr::TsAs(TsAsExpr { expr, .. })
+        | Expr::TsSatisfies(TsSatisfiesExpr { expr, .. })
+        | Expr::TsConstAssertion(TsConstAssertion { expr, .. })
+        | Expr::TsNonNull(TsNonNullExpr { expr, .. })
+        | Expr::TsTypeAssertion(TsTypeAssertion { expr, .. })
+        | Expr::TsInstantiation(TsInstantiation { expr, .. }) => is_fn_like_expr(expr),
+        _ => false,
     }
 }
 
@@ -43,21 +35,6 @@ impl Visit for BlockStmtFinder {
     }
 }
 
-#[derive(Debug)]
-pub struct StmtFinder(pub bool);
-
-impl StmtFinder {
-    pub fn new() -> StmtFinder {
-        StmtFinder(false)
-    }
-}
-
-impl Visit for StmtFinder {
-    fn visit_stmt(&mut self, _block: &Stmt) {
-        self.0 = true;
-    }
-}
-
 // Check a node have expressions.
 #[derive(Debug)]
 pub struct ExprFinder(pub bool);
-- 
2.43.0


From f52780d7d12b46261976739fa9fc932f1388afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 28/35] fix: count function initialisers of exported let and
 var

---
 .../src/visitors/coverage_visitor.rs          | 29 ++++++++++++++++---
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 91ef306..64fbbd5 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -47,6 +47,25 @@ impl<C: Clone + Comments, S: SourceMapper> CoverageVisitor<C, S> {
         return false;
     }
 
+    /// Mark counters for the initializers cover_statement leaves to the exported declaration.
+    fn mark_exported_fn_initializers(&mut self, var_decl: &VarDecl) {
+        for declarator in &var_decl.decls {
+            let Some(init) = &declarator.init else {
+                continue;
+            };
+            let mut block = crate::visitors::finders::BlockStmtFinder::new();
+            init.visit_with(&mut block);
+
+            if crate::visitors::finders::is_fn_like_expr(init)
+                && !block.0
+                && crate::hint_comments::should_ignore(&self.comments, Some(&declarator.span))
+                    != Some(crate::hint_comments::IgnoreScope::Next)
+            {
+                self.mark_prepend_stmt_counter(&init.span());
+            }
+        }
+    }
+
     /// Create coverage instrumentation template exprs to be injected into the top of the transformed output.
     fn get_coverage_templates(&mut self) -> (Stmt, Stmt) {
         self.cov.borrow_mut().freeze();
@@ -165,10 +184,12 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if var_decl.kind == VarDeclKind::Const
-                        && ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
-                    {
-                        self.mark_prepend_stmt_counter(&export_decl.span);
+                    if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
+                        if var_decl.kind == VarDeclKind::Const {
+                            self.mark_prepend_stmt_counter(&export_decl.span);
+                        } else {
+                            self.mark_exported_fn_initializers(var_decl);
+                        }
                     }
                 }
             }
-- 
2.43.0


From 449957b2ee05c5e3ccde20214bf3b56943e86f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:29 +0000
Subject: [PATCH 29/35] fix: escape function names in the embedded coverage
 data

---
 .../src/coverage_template/create_coverage_data_object.rs   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
index 0857cca..51b85c6 100644
--- a/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
+++ b/packages/swc-coverage-instrument/src/coverage_template/create_coverage_data_object.rs
@@ -16,7 +16,12 @@ use crate::COVERAGE_MAGIC_VALUE;
 fn create_str(value: &str) -> Str {
     Str {
         value: value.into(),
-        raw: Some(format!(r#""{}""#, value).into()),
+        // raw is emitted as is, let codegen escape what can't be quoted verbatim (i.e name of the method `'a"b'() {}`)
+        raw: if value.contains(|c: char| c == '"' || c == '\\' || c.is_control()) {
+            None
+        } else {
+            Some(format!(r#""{}""#, value).into())
+        },
         span: DUMMY_SP,
     }
 }
-- 
2.43.0


From 776ecc781c488f8190f6a0a25192d330e2fd80ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:13 +0000
Subject: [PATCH 30/35] fix: functions without a body

An overload signature, an abstract method or an ambient function has no
body, and made the visitor panic when it runs before the types are
stripped (runPluginFirst).
---
 .../src/macros/instrumentation_counter_helper.rs             | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
index 471272a..5ce2ec7 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_counter_helper.rs
@@ -165,6 +165,11 @@ macro_rules! instrumentation_counter_helper {
         /// Common logics for the fn-like visitors to insert fn instrumentation counters.
         #[tracing::instrument(skip_all)]
         fn create_fn_instrumentation(&mut self, ident: &Option<&Ident>, function: &mut Function) {
+            // Overloads, abstract methods and ambient declarations have nothing to run.
+            if function.body.is_none() {
+                return;
+            }
+
             let (span, name) = if let Some(ident) = &ident {
                 (&ident.span, Some(ident.sym.to_string()))
             } else {
-- 
2.43.0


From 66b0c2a96685d3260101e1cd120935b32dc5ed66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:52 +0000
Subject: [PATCH 31/35] fix: one coverage template for a file with namespaces

The body of a namespace is a list of module items, so that it got a
coverage function and data of its own, which replaced the ones of the
file when the visitor runs before the types are stripped.
---
 packages/swc-coverage-instrument/src/utils/node.rs   |  1 +
 .../src/visitors/coverage_visitor.rs                 | 12 ++++++++++++
 2 files changed, 13 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/utils/node.rs b/packages/swc-coverage-instrument/src/utils/node.rs
index d7e8f92..42a766e 100644
--- a/packages/swc-coverage-instrument/src/utils/node.rs
+++ b/packages/swc-coverage-instrument/src/utils/node.rs
@@ -10,6 +10,7 @@ pub enum Node {
     VarDeclarator,
     ExprStmt,
     ModuleItems,
+    TsModuleBlock,
     ArrowExpr,
     SetterProp,
     GetterProp,
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 64fbbd5..5d0aa75 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -202,6 +202,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
         *items = new_items;
 
+        // A namespace is a part of the file and has no coverage of its own.
+        if self.nodes.last() == Some(&crate::Node::TsModuleBlock) {
+            return;
+        }
+
         let (coverage_template, call_coverage_template_stmt) = self.get_coverage_templates();
 
         // prepend template to the top of the code
@@ -224,6 +229,13 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
     }
 
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
+        self.nodes.push(crate::Node::TsModuleBlock);
+        block.visit_mut_children_with(self);
+        self.nodes.pop();
+    }
+
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_script(&mut self, items: &mut Script) {
         if self.is_instrumented_already() {
-- 
2.43.0


From 0a51467a9b1c877ecabd361d24ad960d1bf4d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:27 +0000
Subject: [PATCH 32/35] fix: ambient declarations have no coverage entries

Nothing runs in 'declare const' or in an ambient module, yet their
constants were counted as statements when the visitor runs before the
types are stripped.
---
 .../src/macros/instrumentation_visitor.rs            |  6 ++++--
 .../src/visitors/coverage_visitor.rs                 | 12 +++++++++++-
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 99c3ca9..9560f6e 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -316,8 +316,10 @@ macro_rules! instrumentation_visitor {
         #[tracing::instrument(skip_all, fields(node = %self.print_node()))]
         fn visit_mut_var_decl(&mut self, var_decl: &mut VarDecl) {
             let (old, _ignore_current) = self.on_enter(var_decl);
-            //noop?
-            var_decl.visit_mut_children_with(self);
+            // nothing runs in an ambient declaration
+            if !var_decl.declare {
+                var_decl.visit_mut_children_with(self);
+            }
             self.on_exit(old);
         }
 
diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index 5d0aa75..dbc85c3 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -184,7 +184,9 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
             // - export var: only instruments the initializer, no separate export counter
             if let ModuleItem::ModuleDecl(ModuleDecl::ExportDecl(export_decl)) = &item {
                 if let Decl::Var(var_decl) = &export_decl.decl {
-                    if ignore_current != Some(crate::hint_comments::IgnoreScope::Next) {
+                    if ignore_current != Some(crate::hint_comments::IgnoreScope::Next)
+                        && !var_decl.declare
+                    {
                         if var_decl.kind == VarDeclKind::Const {
                             self.mark_prepend_stmt_counter(&export_decl.span);
                         } else {
@@ -229,6 +231,14 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         }
     }
 
+    // Nothing runs in an ambient declaration.
+    #[instrument(skip_all, fields(node = %self.print_node()))]
+    fn visit_mut_ts_module_decl(&mut self, ts_module_decl: &mut TsModuleDecl) {
+        if !ts_module_decl.declare {
+            ts_module_decl.visit_mut_children_with(self);
+        }
+    }
+
     #[instrument(skip_all, fields(node = %self.print_node()))]
     fn visit_mut_ts_module_block(&mut self, block: &mut TsModuleBlock) {
         self.nodes.push(crate::Node::TsModuleBlock);
-- 
2.43.0


From 1eac832dc1d9625d4a713d95a1dd0199b07ba6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:55 +0000
Subject: [PATCH 33/35] fix: ignore hints before namespaces and enums of a
 script

The statements of a module look up their hints, those of a script left
that to the visitors of each kind, and namespaces and enums have none.
---
 .../swc-coverage-instrument/src/visitors/coverage_visitor.rs    | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
index dbc85c3..8fe6ff7 100644
--- a/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
+++ b/packages/swc-coverage-instrument/src/visitors/coverage_visitor.rs
@@ -256,9 +256,11 @@ impl<C: Clone + Comments, S: SourceMapper> VisitMut for CoverageVisitor<C, S> {
         let mut new_items = crate::take_directives(&mut items.body);
         let directives_len = new_items.len();
         for mut item in items.body.drain(..) {
+            let (old, _ignore_current) = self.on_enter(&mut item);
             item.visit_mut_children_with(self);
             new_items.extend(self.before.drain(..));
             new_items.push(item);
+            self.on_exit(old);
         }
         items.body = new_items;
 
-- 
2.43.0


From 5cb37db8ba40d3fd2eac85d6ddb9a4faa73b9176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 34/35] fix: ignoreClassMethods does not apply to a function
 declared by export default

`export default function render() {}` is visited as a function expression and was
left without any counter when its name is in ignoreClassMethods, although
`function render() {}` and `export function render() {}` are instrumented.
---
 .../src/macros/instrumentation_visitor.rs     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
index 9560f6e..1ca4ec1 100644
--- a/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/instrumentation_visitor.rs
@@ -157,13 +157,22 @@ macro_rules! instrumentation_visitor {
                 _ => {
                     let fn_ident = &fn_expr.ident.as_ref();
 
-                    let should_ignore_via_options = if let Some(ident) = fn_ident {
-                        self.instrument_options
+                    // `export default function name() {}` is a declaration even though its
+                    // node is a FnExpr, names of declarations aren't subject to the option.
+                    let is_declaration = self
+                        .nodes
+                        .iter()
+                        .rev()
+                        .nth(1)
+                        .map_or(false, |n| *n == crate::Node::ExportDefaultDecl);
+
+                    let should_ignore_via_options = match fn_ident {
+                        Some(ident) if !is_declaration => self
+                            .instrument_options
                             .ignore_class_methods
                             .iter()
-                            .any(|v| v.as_str() == &*ident.sym)
-                    } else {
-                        false
+                            .any(|v| v.as_str() == &*ident.sym),
+                        _ => false,
                     };
 
                     if !should_ignore_via_options {
-- 
2.43.0


From ef020a4decc1708dbe200b64b4f6fcb5c595845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:17 +0000
Subject: [PATCH 35/35] fix: honour ignore hints before the decorators of
 abstract and exported classes

---
 .../src/macros/create_instrumentation_visitor.rs   | 14 ++++++++++++--
 .../src/utils/hint_comments.rs                     |  8 ++++++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
index d5914da..ce82011 100644
--- a/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
+++ b/packages/swc-coverage-instrument/src/macros/create_instrumentation_visitor.rs
@@ -137,7 +137,18 @@ macro_rules! create_instrumentation_visitor {
          impl<C: Clone + swc_core::common::comments::Comments, S: swc_core::common::SourceMapper> CoverageInstrumentationMutVisitEnter<ClassDecl> for $name<C, S> {
             fn on_enter(&mut self, n: &mut swc_core::ecma::ast::ClassDecl) -> (Option<crate::hint_comments::IgnoreScope>, Option<crate::hint_comments::IgnoreScope>) {
                 self.nodes.push(crate::Node::ClassDecl);
-                self.on_enter_with_span(Some(&n.class.span))
+                self.on_enter_with_span(Some(&crate::hint_comments::span_with_decorators(&n.class)))
+            }
+         }
+
+         impl<C: Clone + swc_core::common::comments::Comments, S: swc_core::common::SourceMapper> CoverageInstrumentationMutVisitEnter<ExportDefaultDecl> for $name<C, S> {
+            fn on_enter(&mut self, n: &mut swc_core::ecma::ast::ExportDefaultDecl) -> (Option<crate::hint_comments::IgnoreScope>, Option<crate::hint_comments::IgnoreScope>) {
+                self.nodes.push(crate::Node::ExportDefaultDecl);
+                let span = match &n.decl {
+                    DefaultDecl::Class(class) => crate::hint_comments::span_with_decorators(&class.class).with_hi(n.span.hi),
+                    _ => n.span,
+                };
+                self.on_enter_with_span(Some(&span))
             }
          }
 
@@ -190,7 +201,6 @@ macro_rules! create_instrumentation_visitor {
          on_enter!(TryStmt);
          on_enter!(ThrowStmt);
          on_enter!(ExportDecl);
-         on_enter!(ExportDefaultDecl);
          on_enter!(DebuggerStmt);
          on_enter!(AssignPat);
          on_enter!(AssignPatProp);
diff --git a/packages/swc-coverage-instrument/src/utils/hint_comments.rs b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
index c3bd322..6e4cce1 100644
--- a/packages/swc-coverage-instrument/src/utils/hint_comments.rs
+++ b/packages/swc-coverage-instrument/src/utils/hint_comments.rs
@@ -83,6 +83,14 @@ pub fn lookup_hint_comments<C: Clone + Comments>(
     return None;
 }
 
+/// Span of a class from its first decorator, which `abstract` or `export` may separate from the class
+pub fn span_with_decorators(class: &Class) -> Span {
+    match class.decorators.first() {
+        Some(first) if first.span.lo < class.span.lo => class.span.with_lo(first.span.lo),
+        _ => class.span,
+    }
+}
+
 #[derive(Debug, Copy, Clone, PartialEq)]
 pub enum IgnoreScope {
     Next,
-- 
2.43.0

