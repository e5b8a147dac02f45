From c41edaec203463d3b9329544164b2eb151f41ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:15 +0000
Subject: [PATCH 01/35] fix: combine bounds of a negated and/or by De Morgan

The bound of 'not (a and b)' was computed as if both negated parts had to
hold, so an expression could be filed in a partition that excludes events
it matches.
---
 src/ast.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 22a5266..501088d 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1378,8 +1378,17 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     return;
                 default: abort();
             }
-        case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+        case AST_TYPE_BOOL_EXPR: {
+            enum ast_bool_e op = node->bool_expr.op;
+            if(is_reversed && op == AST_BOOL_AND) {
+                // not (a and b) is (not a or not b)
+                op = AST_BOOL_OR;
+            }
+            else if(is_reversed && op == AST_BOOL_OR) {
+                // not (a or b) is (not a and not b)
+                op = AST_BOOL_AND;
+            }
+            switch(op) {
                 case AST_BOOL_LITERAL:
                     return;
                 case AST_BOOL_VARIABLE:
@@ -1591,6 +1600,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                 }
                 default: abort();
             }
+        }
         case AST_TYPE_EQUALITY_EXPR:
             if(domain->attr_var.var != node->equality_expr.attr_var.var) {
                 return;
-- 
2.43.0


From d5b032a4820b4c2f14b3fd28a1ac3ee590fc24ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 02/35] fix: decide a negated and/or from undefined attributes
 by De Morgan

'not (a and b)' with b undefined was decided as failing although it is
true, and 'not (a or b)' as passing although it may be false.
---
 src/tree.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index f9d4a2b..ffea54c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1472,8 +1472,17 @@ static enum short_circuit_e short_circuit_for_node(
             return short_circuit_for_attr_var(id, inverted, node->compare_expr.attr_var);
         case AST_TYPE_EQUALITY_EXPR:
             return short_circuit_for_attr_var(id, inverted, node->equality_expr.attr_var);
-        case AST_TYPE_BOOL_EXPR:
-            switch(node->bool_expr.op) {
+        case AST_TYPE_BOOL_EXPR: {
+            enum ast_bool_e op = node->bool_expr.op;
+            if(inverted && op == AST_BOOL_AND) {
+                // not (a and b) is (not a or not b)
+                op = AST_BOOL_OR;
+            }
+            else if(inverted && op == AST_BOOL_OR) {
+                // not (a or b) is (not a and not b)
+                op = AST_BOOL_AND;
+            }
+            switch(op) {
                 case AST_BOOL_LITERAL:
                     return SHORT_CIRCUIT_NONE;
                 case AST_BOOL_OR: {
@@ -1509,6 +1518,7 @@ static enum short_circuit_e short_circuit_for_node(
                 default:
                     abort();
             }
+        }
         case AST_TYPE_SET_EXPR:
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 return short_circuit_for_attr_var(
-- 
2.43.0


From 443bf81e94461a6e608476d58a89e736c643c25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 03/35] fix: a frequency cap is false without 'now' also when
 there are no caps

The early exit for an empty list of caps ignored that 'now' may be
undefined, in contradiction to the short-circuit rule, so the same
predicate was true or false depending on what surrounded it.
---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 501088d..349b549 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -511,15 +511,15 @@ static bool match_special_expr(
                     if(is_caps_defined == false) {
                         return false;
                     }
-                    if(caps->size == 0) {
-                        // Optimization from looking at what within_frequency_caps does
-                        return true;
-                    }
                     int64_t now;
                     bool is_now_defined = get_integer_var(f->now.var, preds, &now);
                     if(is_now_defined == false) {
                         return false;
                     }
+                    if(caps->size == 0) {
+                        // Optimization from looking at what within_frequency_caps does
+                        return true;
+                    }
                     return within_frequency_caps(
                         caps, f->type, f->id, f->ns, f->value, f->length, now);
                 }
-- 
2.43.0


From 1f18b146e2c6d5b6acf522702c4efed19adef282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:28 +0000
Subject: [PATCH 04/35] fix: move the right subscription when several share an
 id

Splitting a leaf removed the first subscription with the same id rather
than the one being moved, so one was lost and another was freed twice.
---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index ffea54c..fde43b9 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -494,11 +494,11 @@ bool sub_has_attribute_str(struct config* config, const struct betree_sub* sub,
     return sub_has_attribute(sub, variable_id);
 }
 
-static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
+static bool remove_sub(const struct betree_sub* sub, struct lnode* lnode)
 {
     for(size_t i = 0; i < lnode->sub_count; i++) {
         const struct betree_sub* lnode_sub = lnode->subs[i];
-        if(sub == lnode_sub->id) {
+        if(sub == lnode_sub) {
             for(size_t j = i; j < lnode->sub_count - 1; j++) {
                 lnode->subs[j] = lnode->subs[j + 1];
             }
@@ -523,7 +523,7 @@ static bool remove_sub(betree_sub_t sub, struct lnode* lnode)
 
 static void move(const struct betree_sub* sub, struct lnode* origin, struct lnode* destination)
 {
-    bool isFound = remove_sub(sub->id, origin);
+    bool isFound = remove_sub(sub, origin);
     if(!isFound) {
         fprintf(stderr, "Could not find sub %" PRIu64 "\n", sub->id);
         abort();
-- 
2.43.0


From ef31313314b0ae1e81a4857c1fb566752d86d046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:00 +0000
Subject: [PATCH 05/35] fix: do not split a float domain that has no middle

A float domain narrower than 2 and not exactly 1 wide aborted the process
when its partition overflowed; one whose middle rounds to an end was split
without end.
---
 src/tree.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index fde43b9..011e2ac 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -842,7 +842,17 @@ static bool is_atomic(const struct cdir* cdir)
         case(BETREE_INTEGER_LIST):
             return cdir->bound.imin == cdir->bound.imax;
         case(BETREE_FLOAT): {
-            return feq(cdir->bound.fmin, cdir->bound.fmax);
+            double diff = fabs(cdir->bound.fmax - cdir->bound.fmin);
+            if(feq(diff, 1)) {
+                return false;
+            }
+            if(diff < 2 && !feq(diff, 2)) {
+                // Too narrow to be split
+                return true;
+            }
+            // Too far from zero for the middle to differ from the ends
+            double middle = cdir->bound.fmin + ceil(diff / 2);
+            return middle <= cdir->bound.fmin || middle >= cdir->bound.fmax;
         }
         case(BETREE_BOOLEAN): {
             return cdir->bound.bmin == cdir->bound.bmax;
-- 
2.43.0


From b1f7f5dbe4dd3a543125e7f5fe48b6b81a85250b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 06/35] fix: compute the size of a domain without overflow

The width of a domain wider than INT64_MAX wrapped to a small number and
the domain was split; wide float domains were cast out of range.
---
 src/tree.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tree.c b/src/tree.c
index 011e2ac..6336a78 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -353,7 +353,7 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(llabs(b->imax - b->imin));
+                return (size_t)b->imax - (size_t)b->imin;
             }
         case BETREE_FLOAT:
             if(feq(b->fmin, -DBL_MAX) && feq(b->fmax, DBL_MAX)) {
@@ -723,13 +723,13 @@ static bool splitable_attr_domain(
             if(attr_domain->bound.imin == INT64_MIN || attr_domain->bound.imax == INT64_MAX) {
                 return false;
             }
-            return ((uint64_t)llabs(attr_domain->bound.imax - attr_domain->bound.imin))
+            return ((uint64_t)attr_domain->bound.imax - (uint64_t)attr_domain->bound.imin)
                 < config->max_domain_for_split;
         case BETREE_FLOAT:
             if(feq(attr_domain->bound.fmin, -DBL_MAX) || feq(attr_domain->bound.fmax, DBL_MAX)) {
                 return false;
             }
-            return ((uint64_t)fabs(attr_domain->bound.fmax - attr_domain->bound.fmin))
+            return fabs(attr_domain->bound.fmax - attr_domain->bound.fmin)
                 < config->max_domain_for_split;
         case BETREE_BOOLEAN:
             return true;
-- 
2.43.0


From d1dc7095ab81c0bbf7e09484827069a9c69087cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:45 +0000
Subject: [PATCH 07/35] fix: keep leaf capacity and partition size in 64 bits

betree_make_with_parameters takes 64-bit values but the configuration kept
8 bits of them: a capacity of 256 became 0 and was divided by.
---
 src/config.c | 2 +-
 src/config.h | 6 +++---
 src/tree.c   | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/config.c b/src/config.c
index 0a9ec96..6b87efe 100644
--- a/src/config.c
+++ b/src/config.c
@@ -9,7 +9,7 @@
 #include "memoize.h"
 #include "utils.h"
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size)
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size)
 {
     struct config* config = bcalloc(sizeof(*config));
     if(config == NULL) {
diff --git a/src/config.h b/src/config.h
index 229ee66..65ea8e4 100644
--- a/src/config.h
+++ b/src/config.h
@@ -33,13 +33,13 @@ struct integer_map {
     };
 };
 
-struct config* make_config(uint8_t lnode_max_cap, uint8_t partition_min_size);
+struct config* make_config(uint64_t lnode_max_cap, uint64_t partition_min_size);
 struct config* make_default_config();
 void free_config(struct config* config);
 
 struct config {
-    uint8_t lnode_max_cap;
-    uint8_t partition_min_size;
+    uint64_t lnode_max_cap;
+    uint64_t partition_min_size;
     uint32_t max_domain_for_split;
     struct {
         size_t attr_domain_count;
diff --git a/src/tree.c b/src/tree.c
index 6336a78..3455eb3 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -788,8 +788,8 @@ static void update_cluster_capacity(const struct config* config, struct lnode* l
         return;
     }
     size_t count = lnode->sub_count;
-    size_t max = smax(config->lnode_max_cap,
-        ceil((double)count / (double)config->lnode_max_cap) * config->lnode_max_cap);
+    size_t cap = config->lnode_max_cap;
+    size_t max = smax(cap, (count / cap + (count % cap != 0)) * cap);
     lnode->max = max;
 }
 
-- 
2.43.0


From d8939d1e2ae87433472bb8d59017b536eeb57e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:50 +0000
Subject: [PATCH 08/35] fix: remove repeated elements from the lists of an
 expression

'all of' with a repeated element never matched, because the lists of events
are free of duplicates and those of expressions were only sorted.
---
 src/ast.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 349b549..be9b8ec 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2500,10 +2500,10 @@ void sort_lists(struct ast_node* node)
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
                 switch(node->set_expr.right_value.value_type) {
                     case AST_SET_RIGHT_VALUE_INTEGER_LIST:
-                        sort_integer_list(node->set_expr.right_value.integer_list_value);
+                        sort_and_remove_duplicate_integer_list(node->set_expr.right_value.integer_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_STRING_LIST:
-                        sort_string_list(node->set_expr.right_value.string_list_value);
+                        sort_and_remove_duplicate_string_list(node->set_expr.right_value.string_list_value);
                         return;
                     case AST_SET_RIGHT_VALUE_VARIABLE:
                         return;
@@ -2517,10 +2517,10 @@ void sort_lists(struct ast_node* node)
         case AST_TYPE_LIST_EXPR:
             switch(node->list_expr.value.value_type) {
                 case AST_LIST_VALUE_INTEGER_LIST:
-                    sort_integer_list(node->list_expr.value.integer_list_value);
+                    sort_and_remove_duplicate_integer_list(node->list_expr.value.integer_list_value);
                     return;
                 case AST_LIST_VALUE_STRING_LIST:
-                    sort_string_list(node->list_expr.value.string_list_value);
+                    sort_and_remove_duplicate_string_list(node->list_expr.value.string_list_value);
                     return;
                 default: abort();
             }
-- 
2.43.0


From c36e7c918a1ebb2e22249939203edeab76a38ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:02 +0000
Subject: [PATCH 09/35] fix: keep the unknown strings of an event apart

All strings that no expression mentions have the same invalid id, so a
string list kept only one of them. When the event was used again after an
insertion that mentions the others, they were missing.
---
 src/value.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/value.c b/src/value.c
index a5bdd80..856711a 100644
--- a/src/value.c
+++ b/src/value.c
@@ -432,7 +432,8 @@ void remove_duplicates_string_list(struct betree_string_list* list)
     }
     size_t r = 0;
     for (size_t i = 1; i < list->count; i++) {
-        if (list->strings[r].str != list->strings[i].str) {
+        // Strings without an id all look alike, they may be different and get an id later on
+        if (list->strings[r].str != list->strings[i].str || list->strings[i].str == INVALID_STR) {
             list->strings[++ r] = list->strings[i]; // copy-in next unique number
         }
         else {
-- 
2.43.0


From 70da929fdff25613f7cfc43b9966a4e73c64ea9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:13 +0000
Subject: [PATCH 10/35] fix: keep frequency cap namespaces apart when inserting
 one expression at a time

---
 src/config.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/config.c b/src/config.c
index 6b87efe..a01abb0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -194,7 +194,8 @@ void add_attr_domain_segments(struct config* config, const char* attr, bool allo
 
 void add_attr_domain_frequency(struct config* config, const char* attr, bool allow_undefined)
 {
-    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS };
+    // The number of namespaces is not limited
+    struct value_bound bound = { .value_type = BETREE_FREQUENCY_CAPS, .smin = 0, .smax = SIZE_MAX - 1 };
     add_attr_domain(config, attr, bound, allow_undefined);
 }
 
-- 
2.43.0


From e4cb9eb23c7c4353420a0112261fde0c657a35db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:30 +0000
Subject: [PATCH 11/35] fix: refuse ill-typed expressions inserted directly

---
 src/ast.c    | 28 +++++++++++++++++++++-------
 src/ast.h    |  1 +
 src/betree.c |  7 ++++++-
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index be9b8ec..afd84ff 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2560,15 +2560,17 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
-bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+static bool exprs_valid(
+    const struct config* config, const struct ast_node* node, bool null_needs_undefined)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR: {
             const struct attr_domain* attr_domain = config->attr_domains[node->is_null_expr.attr_var.var];
             enum betree_value_type_e var_type = attr_domain->bound.value_type;
-            return (node->is_null_expr.type == AST_IS_NULL && attr_domain->allow_undefined)
-                || (node->is_null_expr.type == AST_IS_NOT_NULL && attr_domain->allow_undefined)
-                || (node->is_null_expr.type == AST_IS_EMPTY && is_list_type(var_type));
+            if(node->is_null_expr.type == AST_IS_EMPTY) {
+                return is_list_type(var_type);
+            }
+            return attr_domain->allow_undefined || !null_needs_undefined;
         }
         case AST_TYPE_COMPARE_EXPR: {
             enum betree_value_type_e var_type = config->attr_domains[node->compare_expr.attr_var.var]->bound.value_type;
@@ -2582,6 +2584,7 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
             return (var_type == BETREE_STRING && val_type == AST_EQUALITY_VALUE_STRING)
                 || (var_type == BETREE_FLOAT && val_type == AST_EQUALITY_VALUE_FLOAT)
                 || (var_type == BETREE_INTEGER && val_type == AST_EQUALITY_VALUE_INTEGER)
+                || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER)
                 || (var_type == BETREE_INTEGER_ENUM && val_type == AST_EQUALITY_VALUE_INTEGER_ENUM);
         }
         case AST_TYPE_LIST_EXPR: {
@@ -2600,10 +2603,10 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
                     return true;
                 case AST_BOOL_OR:
                 case AST_BOOL_AND:
-                    return all_exprs_valid(config, node->bool_expr.binary.lhs)
-                        && all_exprs_valid(config, node->bool_expr.binary.rhs);
+                    return exprs_valid(config, node->bool_expr.binary.lhs, null_needs_undefined)
+                        && exprs_valid(config, node->bool_expr.binary.rhs, null_needs_undefined);
                 case AST_BOOL_NOT:
-                    return all_exprs_valid(config, node->bool_expr.unary.expr);
+                    return exprs_valid(config, node->bool_expr.unary.expr, null_needs_undefined);
                 default: abort();
             }
         }
@@ -2636,6 +2639,17 @@ bool all_exprs_valid(const struct config* config, const struct ast_node* node)
     }
 }
 
+bool all_exprs_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, true);
+}
+
+// Like all_exprs_valid, but "is null" is also fine for an attribute that is always defined
+bool all_types_valid(const struct config* config, const struct ast_node* node)
+{
+    return exprs_valid(config, node, false);
+}
+
 bool all_variables_in_config(const struct config* config, const struct ast_node* node)
 {
     switch(node->type) {
diff --git a/src/ast.h b/src/ast.h
index acda1a8..b79820a 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -342,3 +342,4 @@ bool fast_eq_expr(const struct ast_node* a, const struct ast_node* b);
 bool all_variables_in_config(const struct config* config, const struct ast_node* node);
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node);
 bool all_exprs_valid(const struct config* config, const struct ast_node* node);
+bool all_types_valid(const struct config* config, const struct ast_node* node);
diff --git a/src/betree.c b/src/betree.c
index acf6a28..323e0fe 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -494,9 +494,14 @@ bool betree_insert_with_constants(struct betree* tree,
         return false;
     }
     assign_str_id(tree->config, node, false);
+    fix_float_with_no_fractions(tree->config, node);
+    if(!all_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_ienum_id(tree->config, node, false);
     sort_lists(node);
-    fix_float_with_no_fractions(tree->config, node);
     assign_pred_id(tree->config, node);
     struct betree_sub* sub = make_sub(tree->config, id, node);
     return insert_be_tree(tree->config, sub, tree->cnode, NULL);
-- 
2.43.0


From 2889c1cc703df2abfe772c3ad2b502120244739e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:26 +0000
Subject: [PATCH 12/35] fix: check the operands of functions and of set
 expressions

---
 src/ast.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index afd84ff..0ad80b4 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2560,6 +2560,12 @@ bool is_list_type(enum betree_value_type_e type) {
     return type == BETREE_INTEGER_LIST || type == BETREE_STRING_LIST;
 }
 
+static bool is_var_of_type(
+    const struct config* config, struct attr_var attr_var, enum betree_value_type_e type)
+{
+    return config->attr_domains[attr_var.var]->bound.value_type == type;
+}
+
 static bool exprs_valid(
     const struct config* config, const struct ast_node* node, bool null_needs_undefined)
 {
@@ -2628,11 +2634,17 @@ static bool exprs_valid(
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
                 case AST_SPECIAL_FREQUENCY:
-                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID;
+                    return node->special_expr.frequency.type != FREQUENCY_TYPE_INVALID
+                        && is_var_of_type(config, node->special_expr.frequency.attr_var, BETREE_FREQUENCY_CAPS)
+                        && is_var_of_type(config, node->special_expr.frequency.now, BETREE_INTEGER);
                 case AST_SPECIAL_SEGMENT:
+                    return is_var_of_type(config, node->special_expr.segment.attr_var, BETREE_SEGMENTS)
+                        && is_var_of_type(config, node->special_expr.segment.now, BETREE_INTEGER);
                 case AST_SPECIAL_GEO:
+                    return is_var_of_type(config, node->special_expr.geo.latitude_var, BETREE_FLOAT)
+                        && is_var_of_type(config, node->special_expr.geo.longitude_var, BETREE_FLOAT);
                 case AST_SPECIAL_STRING:
-                    return true;
+                    return is_var_of_type(config, node->special_expr.string.attr_var, BETREE_STRING);
                 default: abort();
             }
         default: abort();
@@ -2670,18 +2682,21 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
                 default: abort();
             }
         case AST_TYPE_SET_EXPR:
+            // Exactly one side is a variable, the other one is the value or the list
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE) {
-                return is_variable_valid(node->set_expr.left_value.variable_value);
+                return node->set_expr.right_value.value_type != AST_SET_RIGHT_VALUE_VARIABLE
+                    && is_variable_valid(node->set_expr.left_value.variable_value);
             }
             else if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE) {
                 return is_variable_valid(node->set_expr.right_value.variable_value);
             }
             fprintf(stderr, "Invalid set expr");
-            abort();
             return false;
         case AST_TYPE_SPECIAL_EXPR:
             switch(node->special_expr.type) {
-                case AST_SPECIAL_GEO: return true;
+                case AST_SPECIAL_GEO:
+                    return is_variable_valid(node->special_expr.geo.latitude_var)
+                        && is_variable_valid(node->special_expr.geo.longitude_var);
                 case AST_SPECIAL_STRING: return is_variable_valid(node->special_expr.string.attr_var);
                 case AST_SPECIAL_FREQUENCY:
                     return is_variable_valid(node->special_expr.frequency.attr_var)
-- 
2.43.0


From 4f8ff0b5c51a9810fddfe16ebbe17bf2ec97f8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:50 +0000
Subject: [PATCH 13/35] fix: count the distinct new strings of a whole
 expression against the capacity

---
 src/ast.c | 126 ++++++++++++++++++++++++++++--------------------------
 1 file changed, 66 insertions(+), 60 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 0ad80b4..77e5860 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2710,84 +2710,80 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-static size_t get_attr_string_bound(const struct config* config, const char* attr)
+// The distinct strings of an expression that are still unknown to their attribute
+struct new_strings {
+    size_t count;
+    struct string_value* strings;
+};
+
+static size_t get_attr_string_bound(const struct config* config, betree_var_t var)
 {
-    for(size_t i = 0; i < config->attr_domain_count; i++) {
-        if(strcmp(attr, config->attr_domains[i]->attr_var.attr) == 0) {
-            size_t count = config->attr_domains[i]->bound.smax;
-            if(count == SIZE_MAX) {
-                return count;
-            }
-            return count + 1;
-        }
-    }
-    return SIZE_MAX;
+    size_t smax = config->attr_domains[var]->bound.smax;
+    return smax == SIZE_MAX ? smax : smax + 1;
 }
 
-static struct string_map* get_string_map_for_attr(const struct config* config, const char* attr)
+static struct string_map* get_string_map_for_attr(const struct config* config, betree_var_t var)
 {
     for(size_t i = 0; i < config->string_map_count; i++) {
         struct string_map* string_map = &config->string_maps[i];
-        if(strcmp(attr, string_map->attr_var.attr) == 0) {
+        if(string_map->attr_var.var == var) {
             return string_map;
         }
     }
     return NULL;
 }
 
-static bool str_valid(const struct config* config, const char* attr, const char* string)
+static bool str_valid(const struct config* config, struct attr_var attr_var, const char* string, struct new_strings* news)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    if(string_map != NULL) {
-        betree_str_t* str = map_get(&string_map->m, string);
-        if(str != NULL) {
-            return true;
+    size_t bound = get_attr_string_bound(config, attr_var.var);
+    if(bound == SIZE_MAX) {
+        return true;
+    }
+    struct string_map* string_map = get_string_map_for_attr(config, attr_var.var);
+    if(string_map != NULL && map_get(&string_map->m, string) != NULL) {
+        return true;
+    }
+    size_t used = string_map == NULL ? 0 : string_map->string_value_count;
+    for(size_t i = 0; i < news->count; i++) {
+        if(news->strings[i].var == attr_var.var) {
+            if(strcmp(news->strings[i].string, string) == 0) {
+                return true;
+            }
+            used++;
         }
     }
-    bool within_bound = space_left > 0;
-    if(within_bound == false) {
+    if(used >= bound) {
         fprintf(stderr,
             "For attr '%s', string '%s' could not fit within the bound %zu\n",
-            attr,
+            attr_var.attr,
             string,
             bound);
+        return false;
+    }
+    news->strings = brealloc(news->strings, sizeof(*news->strings) * (news->count + 1));
+    if(news->strings == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
     }
-    return within_bound;
+    news->strings[news->count].string = string;
+    news->strings[news->count].var = attr_var.var;
+    news->count++;
+    return true;
 }
 
 static bool strs_valid(
-    const struct config* config, const char* attr, const struct betree_string_list* strings)
+    const struct config* config, struct attr_var attr_var, const struct betree_string_list* strings, struct new_strings* news)
 {
-    size_t bound = get_attr_string_bound(config, attr);
-    if(bound == SIZE_MAX) {
-        return true;
-    }
-    struct string_map* string_map = get_string_map_for_attr(config, attr);
-    size_t space_left = string_map == NULL ? bound : bound - string_map->string_value_count;
-    size_t found = 0;
-    if(string_map != NULL) {
-        for(size_t i = 0; i < strings->count; i++) {
-            const char* string = strings->strings[i].string;
-            betree_str_t* str = map_get(&string_map->m, string);
-            if(str != NULL) {
-                found++;
-            }
+    for(size_t i = 0; i < strings->count; i++) {
+        if(!str_valid(config, attr_var, strings->strings[i].string, news)) {
+            return false;
         }
     }
-    size_t needed = strings->count - found;
-    bool within_bound = space_left >= needed;
-    if(within_bound == false) {
-        fprintf(stderr,
-            "For attr '%s', not all strings could not fit within the bound %zu\n",
-            attr,
-            bound);
-    }
-    return within_bound;
+    return true;
 }
 
-bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+static bool bounded_strings_valid(
+    const struct config* config, const struct ast_node* node, struct new_strings* news)
 {
     switch(node->type) {
         case AST_TYPE_IS_NULL_EXPR:
@@ -2796,22 +2792,23 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
         case AST_TYPE_EQUALITY_EXPR:
             if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_STRING) {
                 return str_valid(config,
-                    node->equality_expr.attr_var.attr,
-                    node->equality_expr.value.string_value.string);
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.string_value.string,
+                    news);
             }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
                 case AST_BOOL_OR:
                 case AST_BOOL_AND: {
-                    bool lhs = all_bounded_strings_valid(config, node->bool_expr.binary.lhs);
+                    bool lhs = bounded_strings_valid(config, node->bool_expr.binary.lhs, news);
                     if(lhs == false) {
                         return false;
                     }
-                    return all_bounded_strings_valid(config, node->bool_expr.binary.rhs);
+                    return bounded_strings_valid(config, node->bool_expr.binary.rhs, news);
                 }
                 case AST_BOOL_NOT:
-                    return all_bounded_strings_valid(config, node->bool_expr.unary.expr);
+                    return bounded_strings_valid(config, node->bool_expr.unary.expr, news);
                 case AST_BOOL_VARIABLE:
                 case AST_BOOL_LITERAL:
                     return true;
@@ -2821,20 +2818,22 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
             if(node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_VARIABLE
                 && node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) {
                 return strs_valid(config,
-                    node->set_expr.left_value.variable_value.attr,
-                    node->set_expr.right_value.string_list_value);
+                    node->set_expr.left_value.variable_value,
+                    node->set_expr.right_value.string_list_value,
+                    news);
             }
             if(node->set_expr.right_value.value_type == AST_SET_RIGHT_VALUE_VARIABLE
                 && node->set_expr.left_value.value_type == AST_SET_LEFT_VALUE_STRING) {
                 return str_valid(config,
-                    node->set_expr.right_value.variable_value.attr,
-                    node->set_expr.left_value.string_value.string);
+                    node->set_expr.right_value.variable_value,
+                    node->set_expr.left_value.string_value.string,
+                    news);
             }
             return true;
         case AST_TYPE_LIST_EXPR:
             if(node->list_expr.value.value_type == AST_LIST_VALUE_STRING_LIST) {
                 return strs_valid(
-                    config, node->list_expr.attr_var.attr, node->list_expr.value.string_list_value);
+                    config, node->list_expr.attr_var, node->list_expr.value.string_list_value, news);
             }
             return true;
         case AST_TYPE_SPECIAL_EXPR:
@@ -2843,3 +2842,10 @@ bool all_bounded_strings_valid(const struct config* config, const struct ast_nod
     }
 }
 
+bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
+{
+    struct new_strings news = { .count = 0, .strings = NULL };
+    bool valid = bounded_strings_valid(config, node, &news);
+    bfree(news.strings);
+    return valid;
+}
-- 
2.43.0


From e04ac107321c08045a1ae5f375322d6b92470dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:23 +0000
Subject: [PATCH 14/35] fix: initialise the map of strings when it is created

---
 src/config.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/config.c b/src/config.c
index a01abb0..d129b55 100644
--- a/src/config.c
+++ b/src/config.c
@@ -251,6 +251,7 @@ static void add_string_map(struct attr_var attr_var, struct config* config)
     config->string_maps[config->string_map_count].attr_var.attr = bstrdup(attr_var.attr);
     config->string_maps[config->string_map_count].attr_var.var = attr_var.var;
     config->string_maps[config->string_map_count].string_value_count = 0;
+    map_init(&config->string_maps[config->string_map_count].m);
     config->string_map_count++;
 }
 
@@ -278,9 +279,6 @@ static void add_to_integer_map(struct integer_map* integer_map, int64_t integer)
 
 static void add_to_string_map(struct string_map* string_map, const char* string)
 {
-    if(string_map->string_value_count == 0) {
-        map_init(&string_map->m);
-    }
     map_set(&string_map->m, string, string_map->string_value_count);
     string_map->string_value_count++;
 }
-- 
2.43.0


From d8cbc4cb5f47c24f274e7c4726800e5a32f205b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:52 +0000
Subject: [PATCH 15/35] fix: enforce the capacity of integer enums

---
 src/ast.c | 54 ++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 52 insertions(+), 2 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 77e5860..43e919b 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1,4 +1,5 @@
 #include <ctype.h>
+#include <inttypes.h>
 #include <math.h>
 #include <stdbool.h>
 #include <stdint.h>
@@ -2710,10 +2711,12 @@ bool all_variables_in_config(const struct config* config, const struct ast_node*
     }
 }
 
-// The distinct strings of an expression that are still unknown to their attribute
+// The distinct strings and integer enums of an expression that are still unknown to their attribute
 struct new_strings {
     size_t count;
     struct string_value* strings;
+    size_t ienum_count;
+    struct integer_enum_value* ienums;
 };
 
 static size_t get_attr_string_bound(const struct config* config, betree_var_t var)
@@ -2782,6 +2785,45 @@ static bool strs_valid(
     return true;
 }
 
+static bool ienum_valid(const struct config* config, struct attr_var attr_var, int64_t integer, struct new_strings* news)
+{
+    size_t bound = get_attr_string_bound(config, attr_var.var);
+    if(bound == SIZE_MAX || try_get_id_for_ienum(config, attr_var, integer) != INVALID_IENUM) {
+        return true;
+    }
+    size_t used = 0;
+    for(size_t i = 0; i < config->integer_map_count; i++) {
+        if(config->integer_maps[i].attr_var.var == attr_var.var) {
+            used = config->integer_maps[i].integer_value_count;
+        }
+    }
+    for(size_t i = 0; i < news->ienum_count; i++) {
+        if(news->ienums[i].var == attr_var.var) {
+            if(news->ienums[i].integer == integer) {
+                return true;
+            }
+            used++;
+        }
+    }
+    if(used >= bound) {
+        fprintf(stderr,
+            "For attr '%s', integer enum '%" PRId64 "' could not fit within the bound %zu\n",
+            attr_var.attr,
+            integer,
+            bound);
+        return false;
+    }
+    news->ienums = brealloc(news->ienums, sizeof(*news->ienums) * (news->ienum_count + 1));
+    if(news->ienums == NULL) {
+        fprintf(stderr, "%s brealloc failed\n", __func__);
+        abort();
+    }
+    news->ienums[news->ienum_count].integer = integer;
+    news->ienums[news->ienum_count].var = attr_var.var;
+    news->ienum_count++;
+    return true;
+}
+
 static bool bounded_strings_valid(
     const struct config* config, const struct ast_node* node, struct new_strings* news)
 {
@@ -2796,6 +2838,13 @@ static bool bounded_strings_valid(
                     node->equality_expr.value.string_value.string,
                     news);
             }
+            if(node->equality_expr.value.value_type == AST_EQUALITY_VALUE_INTEGER
+                && is_var_of_type(config, node->equality_expr.attr_var, BETREE_INTEGER_ENUM)) {
+                return ienum_valid(config,
+                    node->equality_expr.attr_var,
+                    node->equality_expr.value.integer_value,
+                    news);
+            }
             return true;
         case AST_TYPE_BOOL_EXPR:
             switch(node->bool_expr.op) {
@@ -2844,8 +2893,9 @@ static bool bounded_strings_valid(
 
 bool all_bounded_strings_valid(const struct config* config, const struct ast_node* node)
 {
-    struct new_strings news = { .count = 0, .strings = NULL };
+    struct new_strings news = { .count = 0, .strings = NULL, .ienum_count = 0, .ienums = NULL };
     bool valid = bounded_strings_valid(config, node, &news);
     bfree(news.strings);
+    bfree(news.ienums);
     return valid;
 }
-- 
2.43.0


From 1781591e25c790b748c02797f30a4e523fc916b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:58 +0000
Subject: [PATCH 16/35] fix: release an expression refused for want of a
 constant

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 323e0fe..9777ab2 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -491,6 +491,7 @@ bool betree_insert_with_constants(struct betree* tree,
     }
     if(!assign_constants(constant_count, constants, node)) {
         fprintf(stderr, "Can't assign constants %ld\n", id);
+        free_ast_node(node);
         return false;
     }
     assign_str_id(tree->config, node, false);
-- 
2.43.0


From b1b86e51a321f6475e8e1100051bd7e5060e8655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 17/35] fix: a refused preparation takes no strings or enums

---
 src/betree.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/betree.c b/src/betree.c
index 9777ab2..02a49db 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -521,8 +521,6 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
-    assign_str_id(tree->config, node, true);
-    assign_ienum_id(tree->config, node, true);
     fix_float_with_no_fractions(tree->config, node);
     if(!all_exprs_valid(tree->config, node)) {
         fprintf(stderr, "Invalid expression found\n");
@@ -534,6 +532,8 @@ const struct betree_sub* betree_make_sub(struct betree* tree, betree_sub_t id, s
         free_ast_node(node);
         return NULL;
     }
+    assign_str_id(tree->config, node, true);
+    assign_ienum_id(tree->config, node, true);
     sort_lists(node);
     change_boundaries(tree->config, node);
     assign_pred_id(tree->config, node);
-- 
2.43.0


From 2a248b0968c44130ae12526cf0a002c44de88790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:55 +0000
Subject: [PATCH 18/35] fix: validate an expression before adjusting boundaries
 with it

---
 src/betree.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/betree.c b/src/betree.c
index 02a49db..350b7ad 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -463,10 +463,20 @@ bool betree_change_boundaries(struct betree* tree, const char* expr)
         return false;
     }
     assign_variable_id(tree->config, node);
+    if(!all_variables_in_config(tree->config, node)) {
+        fprintf(stderr, "Missing variable in config\n");
+        free_ast_node(node);
+        return false;
+    }
+    fix_float_with_no_fractions(tree->config, node);
+    if(!all_types_valid(tree->config, node)) {
+        fprintf(stderr, "Invalid expression found\n");
+        free_ast_node(node);
+        return false;
+    }
     assign_str_id(tree->config, node, true);
     assign_ienum_id(tree->config, node, true);
     sort_lists(node);
-    fix_float_with_no_fractions(tree->config, node);
     change_boundaries(tree->config, node);
     free_ast_node(node);
     return true;
-- 
2.43.0


From c051c23cd1b2f8d772325e54fe560f1819913cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:32 +0000
Subject: [PATCH 19/35] fix: refuse an expression with an unknown character
 instead of truncating it

---
 src/lexer.c | 2 +-
 src/lexer.l | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index 9661314..b0f1cff 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -1304,7 +1304,7 @@ SAVE_FLOAT; return TFLOAT;
 case 39:
 YY_RULE_SETUP
 #line 73 "src/lexer.l"
-printf("Unknown token! (%s)\n", yytext); yyterminate();
+if(yytext[0] != '\r') { printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0]; }
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 60b5e95..6e55fcf 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -70,7 +70,7 @@
 [a-zA-Z_][a-zA-Z0-9_-]*     SAVE_IDENTIFIER; return TIDENTIFIER;
 [0-9]+                      SAVE_INTEGER; return TINTEGER;
 [0-9]+\.[0-9]*              SAVE_FLOAT; return TFLOAT;
-.                           printf("Unknown token! (%s)\n", yytext); yyterminate();
+.                           if(yytext[0] != '\r') { printf("Unknown token! (%s)\n", yytext); return (unsigned char)yytext[0]; }
 
 %%
 
-- 
2.43.0


From 6077c21d829b1ebd117f71cae09aa3c6b626da62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 20/35] fix: read 'not' before an attribute whose name starts
 with 'in'

---
 src/lexer.c | 5 ++++-
 src/lexer.l | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lexer.c b/src/lexer.c
index b0f1cff..2b4d806 100644
--- a/src/lexer.c
+++ b/src/lexer.c
@@ -749,6 +749,7 @@ static const flex_int16_t yy_chk[239] =
 #define YY_RESTORE_YY_MORE_OFFSET
 #line 1 "src/lexer.l"
 #line 2 "src/lexer.l"
+    #include <ctype.h>
     #include <stdlib.h>
     #include "alloc.h"
     #include "ast.h"
@@ -762,6 +763,8 @@ static const flex_int16_t yy_chk[239] =
     #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
+    // "not in" followed by more of an identifier is "not" and an attribute such as "in_stock"
+    #define IS_IDENTIFIER_CHAR(c) (isalnum((unsigned char)(c)) || (c) == '_' || (c) == '-')
     #define YYSTYPE XXSTYPE
 #if defined(__clang__)
     #pragma clang diagnostic push
@@ -1202,7 +1205,7 @@ return TOKEN(TCOMMA);
 case 19:
 YY_RULE_SETUP
 #line 53 "src/lexer.l"
-return TOKEN(TNOTIN);
+if(IS_IDENTIFIER_CHAR(yyg->yy_hold_char)) { yyless(3); return TOKEN(TNOT); } return TOKEN(TNOTIN);
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
diff --git a/src/lexer.l b/src/lexer.l
index 6e55fcf..bb44c31 100644
--- a/src/lexer.l
+++ b/src/lexer.l
@@ -1,4 +1,5 @@
 %{
+    #include <ctype.h>
     #include <stdlib.h>
     #include "alloc.h"
     #include "ast.h"
@@ -12,6 +13,8 @@
     #define SAVE_INTEGER yylval->integer_value = strtoll(yytext, NULL, 10)
     #define SAVE_FLOAT yylval->float_value = atof(yytext)
     #define TOKEN(t) (yylval->token = t)
+    // "not in" followed by more of an identifier is "not" and an attribute such as "in_stock"
+    #define IS_IDENTIFIER_CHAR(c) (isalnum((unsigned char)(c)) || (c) == '_' || (c) == '-')
     #define YYSTYPE XXSTYPE
 #if defined(__clang__)
     #pragma clang diagnostic push
@@ -50,7 +53,7 @@
 "("                         return TOKEN(TLPAREN);
 ")"                         return TOKEN(TRPAREN);
 ","                         return TOKEN(TCOMMA);
-"not in"                    return TOKEN(TNOTIN);
+"not in"                    if(IS_IDENTIFIER_CHAR(yyg->yy_hold_char)) { yyless(3); return TOKEN(TNOT); } return TOKEN(TNOTIN);
 "in"                        return TOKEN(TIN);
 "one of"                    return TOKEN(TONEOF);
 "none of"                   return TOKEN(TNONEOF);
-- 
2.43.0


From 54c3d966b1d6778c112768bf5834cdd9de81dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 21/35] fix: release the variables of a refused event

---
 src/betree.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/betree.c b/src/betree.c
index 350b7ad..51dd1bf 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -578,6 +578,7 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
         = make_environment(betree->config->attr_domain_count, event);
     if(validate_variables(betree->config, variables) == false) {
         fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
         return false;
     }
     return betree_search_with_preds(betree->config, variables, betree->cnode, report);
-- 
2.43.0


From b44d035c63b507d7c314716da2c88210dc26da37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 22/35] fix: an event that lacks a required attribute has no
 match to report

---
 src/betree.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 51dd1bf..4e50acb 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -587,6 +587,11 @@ static bool betree_search_with_event_filled(const struct betree* betree, struct
 static bool betree_exists_with_event_filled(const struct betree* betree, struct betree_event* event)
 {
     const struct betree_variable** variables = make_environment(betree->config->attr_domain_count, event);
+    if(validate_variables(betree->config, variables) == false) {
+        fprintf(stderr, "Failed to validate event\n");
+        bfree(variables);
+        return false;
+    }
     return betree_exists_with_preds(betree->config, variables, betree->cnode);
 }
 
-- 
2.43.0


From 84e73f1dc1c728fecf6e8b78f317e441e6bcb7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:25 +0000
Subject: [PATCH 23/35] fix: release what was parsed of an invalid expression

---
 src/parser.c | 114 ++++++++++++++++++++++++++++++++++++++++++++++++++-
 src/parser.y |  19 +++++++++
 2 files changed, 132 insertions(+), 1 deletion(-)

diff --git a/src/parser.c b/src/parser.c
index 6c74de6..3a0b69c 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -78,6 +78,7 @@
     #include "alloc.h"
     #include "ast.h"
     #include "betree.h"
+    #include "config.h"
     #include "parser.h"
     #include "value.h"
     extern int xxlex();
@@ -1188,7 +1189,115 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, void *scanner, str
   YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  switch (yytype)
+    {
+    case 33: /* TSTRING  */
+            { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 34: /* TIDENTIFIER  */
+            { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 39: /* ident  */
+            { bfree(((*yyvaluep).string)); }
+        break;
+
+    case 42: /* string  */
+            { bfree((char*)((*yyvaluep).string_value).string); }
+        break;
+
+    case 43: /* integer_list_value  */
+            { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 44: /* integer_list_loop  */
+            { free_integer_list(((*yyvaluep).integer_list_value)); }
+        break;
+
+    case 45: /* string_list_value  */
+            { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 46: /* string_list_loop  */
+            { free_string_list(((*yyvaluep).string_list_value)); }
+        break;
+
+    case 47: /* expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 48: /* is_null_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 50: /* num_comp_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 51: /* eq_value  */
+            { if(((*yyvaluep).equality_value).value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)((*yyvaluep).equality_value).string_value.string); }
+        break;
+
+    case 52: /* eq_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 53: /* variable_value  */
+            { free_attr_var(((*yyvaluep).variable_value)); }
+        break;
+
+    case 54: /* set_left_value  */
+            { if(((*yyvaluep).set_left_value).value_type == AST_SET_LEFT_VALUE_STRING) bfree((char*)((*yyvaluep).set_left_value).string_value.string); 
+              if(((*yyvaluep).set_left_value).value_type == AST_SET_LEFT_VALUE_VARIABLE) free_attr_var(((*yyvaluep).set_left_value).variable_value); }
+        break;
+
+    case 55: /* set_right_value  */
+            { if(((*yyvaluep).set_right_value).value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) free_integer_list(((*yyvaluep).set_right_value).integer_list_value);
+              if(((*yyvaluep).set_right_value).value_type == AST_SET_RIGHT_VALUE_STRING_LIST) free_string_list(((*yyvaluep).set_right_value).string_list_value);
+              if(((*yyvaluep).set_right_value).value_type == AST_SET_RIGHT_VALUE_VARIABLE) free_attr_var(((*yyvaluep).set_right_value).variable_value); }
+        break;
+
+    case 56: /* set_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 57: /* list_value  */
+            { if(((*yyvaluep).list_value).value_type == AST_LIST_VALUE_INTEGER_LIST) free_integer_list(((*yyvaluep).list_value).integer_list_value);
+              if(((*yyvaluep).list_value).value_type == AST_LIST_VALUE_STRING_LIST) free_string_list(((*yyvaluep).list_value).string_list_value); }
+        break;
+
+    case 58: /* list_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 59: /* bool_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 60: /* special_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 61: /* s_frequency_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 62: /* s_segment_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 63: /* s_geo_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+    case 64: /* s_string_expr  */
+            { free_ast_node(((*yyvaluep).node)); }
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -2143,6 +2252,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -2151,6 +2261,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
diff --git a/src/parser.y b/src/parser.y
index fc6cbc6..9da3d0b 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -6,6 +6,7 @@
     #include "alloc.h"
     #include "ast.h"
     #include "betree.h"
+    #include "config.h"
     #include "parser.h"
     #include "value.h"
     extern int xxlex();
@@ -84,6 +85,21 @@
 %type<integer_list_value> integer_list_value integer_list_loop
 %type<string_list_value> string_list_value string_list_loop
 
+%destructor { bfree($$); } <string>
+%destructor { bfree((char*)$$.string); } <string_value>
+%destructor { free_integer_list($$); } <integer_list_value>
+%destructor { free_string_list($$); } <string_list_value>
+%destructor { free_attr_var($$); } <variable_value>
+%destructor { if($$.value_type == AST_EQUALITY_VALUE_STRING) bfree((char*)$$.string_value.string); } <equality_value>
+%destructor { if($$.value_type == AST_SET_LEFT_VALUE_STRING) bfree((char*)$$.string_value.string); 
+              if($$.value_type == AST_SET_LEFT_VALUE_VARIABLE) free_attr_var($$.variable_value); } <set_left_value>
+%destructor { if($$.value_type == AST_SET_RIGHT_VALUE_INTEGER_LIST) free_integer_list($$.integer_list_value);
+              if($$.value_type == AST_SET_RIGHT_VALUE_STRING_LIST) free_string_list($$.string_list_value);
+              if($$.value_type == AST_SET_RIGHT_VALUE_VARIABLE) free_attr_var($$.variable_value); } <set_right_value>
+%destructor { if($$.value_type == AST_LIST_VALUE_INTEGER_LIST) free_integer_list($$.integer_list_value);
+              if($$.value_type == AST_LIST_VALUE_STRING_LIST) free_string_list($$.string_list_value); } <list_value>
+%destructor { free_ast_node($$); } <node>
+
 %left TCEQ TCNE TCGT TCGE TCLT TCLE
 %left TOR
 %left TAND 
@@ -242,6 +258,7 @@ int parse(const char *text, struct ast_node **node)
     yyscan_t scanner;
     xxlex_init(&scanner);
     YY_BUFFER_STATE buffer = xx_scan_string(text, scanner);
+    *node = NULL;
     int rc = xxparse(scanner, node);
     xx_delete_buffer(buffer, scanner);
     xxlex_destroy(scanner);
@@ -250,6 +267,8 @@ int parse(const char *text, struct ast_node **node)
         return 0;
     }
     else {
+        free_ast_node(*node);
+        *node = NULL;
         return -1;
     }
 }
-- 
2.43.0


From 0fdf0e4917cc33c0c6c375e16a31fbcc67adab59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 24/35] fix: bounds of comparisons with the largest integer do
 not overflow

---
 src/ast.c    |  8 ++++----
 src/betree.c |  4 ++--
 src/utils.c  | 10 ++++++++++
 src/utils.h  |  3 +++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 43e919b..1180da2 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -1723,7 +1723,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->min_dirty = true;
                             }
                             else {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = previous_integer(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             break;
@@ -1745,7 +1745,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = next_integer(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             else {
@@ -1775,7 +1775,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                                 dirty->max_dirty = true;
                             }
                             else {
-                                bound->imin = node->compare_expr.value.integer_value + 1;
+                                bound->imin = next_integer(node->compare_expr.value.integer_value);
                                 dirty->min_dirty = true;
                             }
                             break;
@@ -1797,7 +1797,7 @@ static void get_variable_bound_inner(const struct attr_domain* domain,
                     switch(node->compare_expr.value.value_type) {
                         case AST_COMPARE_VALUE_INTEGER:
                             if(is_reversed) {
-                                bound->imax = node->compare_expr.value.integer_value - 1;
+                                bound->imax = previous_integer(node->compare_expr.value.integer_value);
                                 dirty->max_dirty = true;
                             }
                             else {
diff --git a/src/betree.c b/src/betree.c
index 4e50acb..1669e01 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -189,9 +189,9 @@ static struct value_bound compare_simple_bound(struct compare_value value, enum
         case AST_COMPARE_VALUE_INTEGER: {
             int64_t i = value.integer_value;
             switch(op) {
-                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(i - 1);
+                case AST_COMPARE_LT: return inverted ? compare_simple_bound(value, AST_COMPARE_GE, false) : integer_bound(previous_integer(i));
                 case AST_COMPARE_LE: return inverted ? compare_simple_bound(value, AST_COMPARE_GT, false) : integer_bound(i);
-                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(i + 1);
+                case AST_COMPARE_GT: return inverted ? compare_simple_bound(value, AST_COMPARE_LE, false) : integer_bound(next_integer(i));
                 case AST_COMPARE_GE: return inverted ? compare_simple_bound(value, AST_COMPARE_LT, false) : integer_bound(i);
                 default: abort();
             }
diff --git a/src/utils.c b/src/utils.c
index 8d8ceca..183b7e1 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -35,6 +35,16 @@ size_t smax(size_t a, size_t b)
     return a > b ? a : b;
 }
 
+int64_t next_integer(int64_t value)
+{
+    return value == INT64_MAX ? INT64_MAX : value + 1;
+}
+
+int64_t previous_integer(int64_t value)
+{
+    return value == INT64_MIN ? INT64_MIN : value - 1;
+}
+
 bool feq(double a, double b)
 {
     return fabs(a - b) < __DBL_EPSILON__;
diff --git a/src/utils.h b/src/utils.h
index ac20c15..aa4c721 100644
--- a/src/utils.h
+++ b/src/utils.h
@@ -13,6 +13,9 @@ uint64_t u64max(uint64_t a, uint64_t b);
 size_t smin(size_t a, size_t b);
 size_t smax(size_t a, size_t b);
 
+int64_t next_integer(int64_t value);
+int64_t previous_integer(int64_t value);
+
 bool feq(double a, double b);
 bool fne(double a, double b);
 
-- 
2.43.0


From b461023a83d5a9e99ed05619f26501f8d9650d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:16 +0000
Subject: [PATCH 25/35] fix: a negative frequency window is a non-positive
 window

---
 src/special.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/special.c b/src/special.c
index 5192ae6..920cfbd 100644
--- a/src/special.c
+++ b/src/special.c
@@ -21,7 +21,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
         if(content->id == id && 
             content->namespace.str == namespace.str &&
             content->type == type) {
-            if(length <= 0) {
+            if((int64_t)length <= 0) {
                 return value > content->value;
             }
             if(!content->timestamp_defined) {
-- 
2.43.0


From f6cca152176b483cde2872ea6a6d5c6d4e995ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 26/35] fix: time differences do not overflow

---
 src/special.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/special.c b/src/special.c
index 920cfbd..e60c8ed 100644
--- a/src/special.c
+++ b/src/special.c
@@ -8,6 +8,16 @@
 #include "special.h"
 #include "utils.h"
 
+// a - b, or the closest representable value
+static int64_t difference(int64_t a, int64_t b)
+{
+    int64_t result;
+    if(__builtin_sub_overflow(a, b, &result)) {
+        return a < 0 ? INT64_MIN : INT64_MAX;
+    }
+    return result;
+}
+
 bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
@@ -27,7 +37,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
             if(!content->timestamp_defined) {
                 return true;
             }
-            if((now - (content->timestamp / 1000000)) > (int64_t)length) {
+            if(difference(now, content->timestamp / 1000000) > (int64_t)length) {
                 return true;
             }
             if(value > content->value) {
@@ -47,7 +57,7 @@ bool segment_within(
             continue;
         }
         if(segments->content[i]->id == segment_id) {
-            return (now - after_seconds) <= (segments->content[i]->timestamp / 1000000);
+            return difference(now, after_seconds) <= (segments->content[i]->timestamp / 1000000);
         }
         return false;
     }
@@ -62,7 +72,7 @@ bool segment_before(
             continue;
         }
         if(segments->content[i]->id == segment_id) {
-            return (now - before_seconds) > (segments->content[i]->timestamp / 1000000);
+            return difference(now, before_seconds) > (segments->content[i]->timestamp / 1000000);
         }
         return false;
     }
-- 
2.43.0


From 4d18fd5100e995938e4091fb9fec66ee2f75560d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 27/35] fix: looking up a string does not write to the map

---
 src/map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.h b/src/map.h
index fdd40db..bb8da7a 100644
--- a/src/map.h
+++ b/src/map.h
@@ -39,7 +39,7 @@ typedef struct {
 
 
 #define map_get(m, key)\
-    ( (m)->ref = map_get_(&(m)->base, key) )
+    ( (__typeof__((m)->ref))map_get_(&(m)->base, key) )
 
 
 #define map_set(m, key, value)\
-- 
2.43.0


From bb41791c15d845ab4f0cb505a71f3308a768dc95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:12 +0000
Subject: [PATCH 28/35] fix: parse events of several threads at the same time

---
 src/event_parser.c | 2 +-
 src/event_parser.y | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/event_parser.c b/src/event_parser.c
index 84e3e00..91dbe70 100644
--- a/src/event_parser.c
+++ b/src/event_parser.c
@@ -84,7 +84,7 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    static __thread struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
diff --git a/src/event_parser.y b/src/event_parser.y
index 5c1c2ef..747c66b 100644
--- a/src/event_parser.y
+++ b/src/event_parser.y
@@ -9,7 +9,7 @@
     #include "event_parser.h"
     #include "tree.h"
     #include "value.h"
-    struct betree_event *root;
+    static __thread struct betree_event *root;
     extern int zzlex();
     void zzerror(void *scanner, const char *s) { (void)scanner; printf("ERROR: %s\n", s); }
 #if defined(__GNUC__)
-- 
2.43.0


From f7b1d5d72f4f2c14e5644d1d70eefdf2f8ae6dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:48 +0000
Subject: [PATCH 29/35] fix: read an integer given for a float attribute as a
 float

---
 src/tree.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 3455eb3..96f8a2c 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -1903,14 +1903,20 @@ void fill_event(const struct config* config, struct betree_event* event)
         }
         pred->attr_var.var = var;
         struct attr_domain* domain = config->attr_domains[var];
+        bool is_integer = pred->value.value_type == BETREE_INTEGER;
         pred->value.value_type = domain->bound.value_type;
         switch(pred->value.value_type) {
             case BETREE_BOOLEAN:
             case BETREE_INTEGER:
-            case BETREE_FLOAT:
             case BETREE_INTEGER_LIST:
             case BETREE_SEGMENTS:
                 break;
+            case BETREE_FLOAT:
+                // A float may be written without a fraction
+                if(is_integer) {
+                    pred->value.float_value = (double)pred->value.integer_value;
+                }
+                break;
             case BETREE_INTEGER_ENUM: {
                 betree_ienum_t ienum
                     = try_get_id_for_ienum(config, pred->attr_var, pred->value.integer_enum_value.integer);
-- 
2.43.0


From 401f05d8d243b9976d7120ab00f22c09b819c895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:35 +0000
Subject: [PATCH 30/35] fix: adjusting boundaries does not limit how many
 strings fit

---
 src/ast.c    |  3 +--
 src/config.c | 10 ++++++++--
 src/config.h |  2 ++
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 1180da2..43672ae 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -2721,8 +2721,7 @@ struct new_strings {
 
 static size_t get_attr_string_bound(const struct config* config, betree_var_t var)
 {
-    size_t smax = config->attr_domains[var]->bound.smax;
-    return smax == SIZE_MAX ? smax : smax + 1;
+    return config->attr_domains[var]->capacity;
 }
 
 static struct string_map* get_string_map_for_attr(const struct config* config, betree_var_t var)
diff --git a/src/config.c b/src/config.c
index d129b55..9c158f0 100644
--- a/src/config.c
+++ b/src/config.c
@@ -80,6 +80,12 @@ static struct attr_domain* make_attr_domain(
     attr_domain->attr_var.var = variable_id;
     attr_domain->bound = bound;
     attr_domain->allow_undefined = allow_undefined;
+    attr_domain->capacity = SIZE_MAX;
+    bool is_counted = bound.value_type == BETREE_STRING || bound.value_type == BETREE_STRING_LIST
+        || bound.value_type == BETREE_INTEGER_ENUM;
+    if(is_counted && bound.smax != SIZE_MAX) {
+        attr_domain->capacity = bound.smax + 1;
+    }
     return attr_domain;
 }
 
@@ -336,7 +342,7 @@ betree_ienum_t get_id_for_ienum(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == integer_map->integer_value_count) {
+    if(!always_assign && attr_domain->capacity <= integer_map->integer_value_count) {
         return INVALID_IENUM;
     }
     add_to_integer_map(integer_map, integer);
@@ -362,7 +368,7 @@ betree_str_t get_id_for_string(struct config* config, struct attr_var attr_var,
     }
     const struct attr_domain* attr_domain
         = get_attr_domain((const struct attr_domain**)config->attr_domains, attr_var.var);
-    if(!always_assign && attr_domain->bound.smax + 1 == string_map->string_value_count) {
+    if(!always_assign && attr_domain->capacity <= string_map->string_value_count) {
         return INVALID_STR;
     }
     add_to_string_map(string_map, string);
diff --git a/src/config.h b/src/config.h
index 65ea8e4..1167205 100644
--- a/src/config.h
+++ b/src/config.h
@@ -12,6 +12,8 @@ struct attr_domain {
     struct attr_var attr_var;
     struct value_bound bound;
     bool allow_undefined;
+    // Declared number of distinct strings or enums, `bound` moves with the boundaries
+    size_t capacity;
 };
 
 struct ast_node;
-- 
2.43.0


From 0e30965a25e6118576c276067e704a6be720fae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:47 +0000
Subject: [PATCH 31/35] fix: boundaries at the extreme integers do not make a
 domain unbounded

---
 src/betree.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/betree.c b/src/betree.c
index 1669e01..895a3b6 100644
--- a/src/betree.c
+++ b/src/betree.c
@@ -392,6 +392,9 @@ static void change_boundaries(struct config* config, const struct ast_node* node
                 break;
             case BETREE_INTEGER:
             case BETREE_INTEGER_LIST:
+                // The extremes are kept for domains without bounds
+                bound.imin = bound.imin == INT64_MIN ? INT64_MIN + 1 : bound.imin;
+                bound.imax = bound.imax == INT64_MAX ? INT64_MAX - 1 : bound.imax;
                 if(attr_domain->bound.imin != INT64_MIN) {
                     attr_domain->bound.imin = bound.imin < attr_domain->bound.imin ? bound.imin : attr_domain->bound.imin;
                 }
-- 
2.43.0


From 47c9c7a4881324d6bcba7fcaf3ffba996a32661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:26 +0000
Subject: [PATCH 32/35] fix: the size of an enormous float domain does not
 overflow

---
 src/tree.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tree.c b/src/tree.c
index 96f8a2c..27520ea 100644
--- a/src/tree.c
+++ b/src/tree.c
@@ -360,7 +360,8 @@ static size_t domain_bound_diff(const struct attr_domain* attr_domain)
                 return SIZE_MAX;
             }
             else {
-                return (size_t)(fabs(b->fmax - b->fmin));
+                double diff = fabs(b->fmax - b->fmin);
+                return diff < (double)SIZE_MAX ? (size_t)diff : SIZE_MAX;
             }
         case BETREE_STRING:
         case BETREE_STRING_LIST:
-- 
2.43.0


From ee13796bef81a44926da5edf4903f3ebf4d95dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 33/35] fix: segment ages beyond 32 bits are not truncated

---
 src/special.c | 4 ++--
 src/special.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/special.c b/src/special.c
index e60c8ed..f0eba56 100644
--- a/src/special.c
+++ b/src/special.c
@@ -50,7 +50,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
 }
 
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
@@ -65,7 +65,7 @@ bool segment_within(
 }
 
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now)
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now)
 {
     for(size_t i = 0; i < segments->size; i++) {
         if(segments->content[i]->id < segment_id) {
diff --git a/src/special.h b/src/special.h
index 688aa9c..e1fd560 100644
--- a/src/special.h
+++ b/src/special.h
@@ -14,9 +14,9 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     size_t length,
     int64_t now);
 bool segment_within(
-    int64_t segment_id, int32_t after_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t after_seconds, const struct betree_segments* segments, int64_t now);
 bool segment_before(
-    int64_t segment_id, int32_t before_seconds, const struct betree_segments* segments, int64_t now);
+    int64_t segment_id, int64_t before_seconds, const struct betree_segments* segments, int64_t now);
 bool geo_within_radius(double lat1, double lon1, double lat2, double lon2, double distance);
 bool contains(const char* value, const char* pattern);
 bool starts_with(const char* value, const char* pattern);
-- 
2.43.0


From 4f8411ce6bfeb8bda50ac92411d5880e5cd124a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 34/35] fix: frequency limits beyond 32 bits are not truncated

---
 src/special.c | 2 +-
 src/special.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/special.c b/src/special.c
index f0eba56..e7e54ac 100644
--- a/src/special.c
+++ b/src/special.c
@@ -22,7 +22,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now)
 {
diff --git a/src/special.h b/src/special.h
index e1fd560..869c28f 100644
--- a/src/special.h
+++ b/src/special.h
@@ -10,7 +10,7 @@ bool within_frequency_caps(const struct betree_frequency_caps* caps,
     enum frequency_type_e type,
     uint32_t id,
     const struct string_value namespace,
-    uint32_t value,
+    int64_t value,
     size_t length,
     int64_t now);
 bool segment_within(
-- 
2.43.0


From 5c1df147ae81e7c666c9c46d2aba2eafd3127209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:23 +0000
Subject: [PATCH 35/35] fix: refuse an expression too deep for the stack

---
 src/ast.c    | 2 ++
 src/ast.h    | 4 ++++
 src/parser.c | 7 ++++---
 src/parser.y | 7 ++++---
 4 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/ast.c b/src/ast.c
index 43672ae..e07648c 100644
--- a/src/ast.c
+++ b/src/ast.c
@@ -88,6 +88,7 @@ struct ast_node* ast_bool_expr_unary_create(struct ast_node* expr)
 {
     struct ast_node* node = ast_bool_expr_create(AST_BOOL_NOT);
     node->bool_expr.unary.expr = expr;
+    node->depth = expr->depth + 1;
     return node;
 }
 
@@ -149,6 +150,7 @@ struct ast_node* ast_bool_expr_binary_create(
         node->bool_expr.binary.lhs = lhs;
         node->bool_expr.binary.rhs = rhs;
     }
+    node->depth = (lhs->depth > rhs->depth ? lhs->depth : rhs->depth) + 1;
     return node;
 }
 
diff --git a/src/ast.h b/src/ast.h
index b79820a..fa8bc06 100644
--- a/src/ast.h
+++ b/src/ast.h
@@ -273,9 +273,13 @@ enum ast_node_type_e {
     AST_TYPE_IS_NULL_EXPR,
 };
 
+// Expressions are walked recursively, this keeps the walks within the stack
+#define AST_MAX_DEPTH 10000
+
 struct ast_node {
     betree_pred_t global_id;
     betree_pred_t memoize_id;
+    size_t depth;
     enum ast_node_type_e type;
     union {
         struct ast_compare_expr compare_expr;
diff --git a/src/parser.c b/src/parser.c
index 3a0b69c..6d5b1ba 100644
--- a/src/parser.c
+++ b/src/parser.c
@@ -83,6 +83,7 @@
     #include "value.h"
     extern int xxlex();
     void xxerror(void *scanner, struct ast_node** node, const char *s) { (void)node; (void)scanner; printf("ERROR: %s\n", s); }
+    #define REFUSE_TOO_DEEP(node) do { if((node)->depth > AST_MAX_DEPTH) { free_ast_node(node); YYERROR; } } while(0)
 #ifdef NIF
     #include "erl_nif.h"
     #define YYMALLOC enif_alloc
@@ -1888,19 +1889,19 @@ yyreduce:
 
   case 57:
 #line 187 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
+    { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_AND, (yyvsp[-2].node), (yyvsp[0].node)); REFUSE_TOO_DEEP((yyval.node)); }
 #line 1784 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 58:
 #line 188 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
+    { (yyval.node) = ast_bool_expr_binary_create(AST_BOOL_OR, (yyvsp[-2].node), (yyvsp[0].node)); REFUSE_TOO_DEEP((yyval.node)); }
 #line 1790 "src/parser.c" /* yacc.c:1646  */
     break;
 
   case 59:
 #line 189 "src/parser.y" /* yacc.c:1646  */
-    { (yyval.node) = ast_bool_expr_unary_create((yyvsp[0].node)); }
+    { (yyval.node) = ast_bool_expr_unary_create((yyvsp[0].node)); REFUSE_TOO_DEEP((yyval.node)); }
 #line 1796 "src/parser.c" /* yacc.c:1646  */
     break;
 
diff --git a/src/parser.y b/src/parser.y
index 9da3d0b..392a943 100644
--- a/src/parser.y
+++ b/src/parser.y
@@ -11,6 +11,7 @@
     #include "value.h"
     extern int xxlex();
     void xxerror(void *scanner, struct ast_node** node, const char *s) { (void)node; (void)scanner; printf("ERROR: %s\n", s); }
+    #define REFUSE_TOO_DEEP(node) do { if((node)->depth > AST_MAX_DEPTH) { free_ast_node(node); YYERROR; } } while(0)
 #ifdef NIF
     #include "erl_nif.h"
     #define YYMALLOC enif_alloc
@@ -200,9 +201,9 @@ list_expr           : ident TONEOF list_value               { $$ = ast_list_expr
                     | ident TALLOF list_value               { $$ = ast_list_expr_create(AST_LIST_ALL_OF, $1, $3); bfree($1);}
 ;
 
-bool_expr           : expr TAND expr                        { $$ = ast_bool_expr_binary_create(AST_BOOL_AND, $1, $3); }
-                    | expr TOR expr                         { $$ = ast_bool_expr_binary_create(AST_BOOL_OR, $1, $3); }
-                    | TNOT expr                             { $$ = ast_bool_expr_unary_create($2); }
+bool_expr           : expr TAND expr                        { $$ = ast_bool_expr_binary_create(AST_BOOL_AND, $1, $3); REFUSE_TOO_DEEP($$); }
+                    | expr TOR expr                         { $$ = ast_bool_expr_binary_create(AST_BOOL_OR, $1, $3); REFUSE_TOO_DEEP($$); }
+                    | TNOT expr                             { $$ = ast_bool_expr_unary_create($2); REFUSE_TOO_DEEP($$); }
                     | ident                                 { $$ = ast_bool_expr_variable_create($1); bfree($1); }
                     | TTRUE                                 { $$ = ast_bool_expr_literal_create(true); }
                     | TFALSE                                { $$ = ast_bool_expr_literal_create(false); }
-- 
2.43.0

