From defd439bf312ebb25afbf49cb28ac030733954a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 01/32] fix: MAKE stores the right node of a three node pattern
 instead of the left node twice

---
 wiggle_query_language/clauses/make/make.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/make/make.py b/wiggle_query_language/clauses/make/make.py
index a183a23..8c827bd 100644
--- a/wiggle_query_language/clauses/make/make.py
+++ b/wiggle_query_language/clauses/make/make.py
@@ -43,7 +43,7 @@ def make_nodes(make_pre: MakePre) -> list[Node]:
         nodes.append(make_node(make_pre.middle_node))
 
     if make_pre.right_node:
-        nodes.append(make_node(make_pre.left_node))
+        nodes.append(make_node(make_pre.right_node))
 
     return nodes
 
-- 
2.43.0


From 19c5e3d300f8104c724ca7547f1f0732d5f347e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 02/32] fix: FIND builds the right node from the right node's
 own handle, label and properties

---
 .../clauses/find/transform/find_pre.py                 | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 6edd793..20afbfe 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -94,14 +94,10 @@ def process_parsed_find(
         find_pre.node_labels.add(middle_label)
 
     # Right Node
-    if parsed_pattern.middle_node:
-        right_handle = parsed_pattern.middle_node_handle
-        right_props_dict = get_property_dict(parsed_pattern.left_node_props)
+    if parsed_pattern.right_node:
+        right_handle = parsed_pattern.right_node_handle
+        right_props_dict = get_property_dict(parsed_pattern.right_node_props)
         right_label = parsed_pattern.right_node_label
-        if parsed_criteria:
-            right_props_dict.update(
-                parsed_criteria.criteria_handle_props.get(right_handle, None)
-            )
 
         right = FindNodePre(
             node_handle=right_handle,
-- 
2.43.0


From 7e2d7d5d71999aed9ff0f78c53b2a1378c2ff993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 03/32] fix: CRITERIA can add properties to a FIND node or
 relationship that was written without any

---
 .../clauses/find/transform/find_pre.py                 | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/find/transform/find_pre.py b/wiggle_query_language/clauses/find/transform/find_pre.py
index 20afbfe..47249f1 100644
--- a/wiggle_query_language/clauses/find/transform/find_pre.py
+++ b/wiggle_query_language/clauses/find/transform/find_pre.py
@@ -31,10 +31,16 @@ def add_criteria_yes_no_props(
 
     if criteria := criteria.criteria_handle_props.get(handle, None):
         if props_dict_yes := criteria.props_dict_yes_match:
-            find_pre_model.props_dict_yes.update(props_dict_yes)
+            find_pre_model.props_dict_yes = {
+                **(find_pre_model.props_dict_yes or {}),
+                **props_dict_yes,
+            }
         # no
         if props_dict_no := criteria.props_dict_no_match:
-            find_pre_model.props_dict_no.update(props_dict_no)
+            find_pre_model.props_dict_no = {
+                **(find_pre_model.props_dict_no or {}),
+                **props_dict_no,
+            }
 
     return find_pre_model
 
-- 
2.43.0


From 900c17e15bb33e316129fd25259feb07327fb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 04/32] fix: FIND only short circuits when none of its
 relationship names is in the index

---
 .../clauses/find/short_circuits/find_short_circuits.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
index ddedb46..d01201b 100644
--- a/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
+++ b/wiggle_query_language/clauses/find/short_circuits/find_short_circuits.py
@@ -26,7 +26,7 @@ def find_short_circuit(
     if not node_label_is_in_index(find_pre.node_labels, node_label_index):
         return False
 
-    if relationship_name_is_in_index(
+    if find_pre.relationship_names and not relationship_name_is_in_index(
         find_pre.relationship_names, relationship_name_index
     ):
         return False
-- 
2.43.0


From bbc7c0dfe9aad1da8c59c108a19fe09797c3a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:56 +0000
Subject: [PATCH 05/32] fix: whitespace after an arrow no longer reverses the
 relationship's direction

---
 .../clauses/transform_helpers/relationships.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/transform_helpers/relationships.py b/wiggle_query_language/clauses/transform_helpers/relationships.py
index 7c7416b..a84e7e4 100644
--- a/wiggle_query_language/clauses/transform_helpers/relationships.py
+++ b/wiggle_query_language/clauses/transform_helpers/relationships.py
@@ -12,4 +12,4 @@ def relationship_is_left_to_right(parsed_relationship_pattern: str) -> bool:
             f"Non directed relationship found: {parsed_relationship_pattern}"
         )
 
-    return True if parsed_relationship_pattern[-1] == ">" else False
+    return True if parsed_relationship_pattern.rstrip()[-1] == ">" else False
-- 
2.43.0


From 3040b932c155cd85961edeaaa1cf713d4445c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 06/32] fix: relationships are checked in every statement, not
 only up to the first one without any

---
 .../clauses/parsing_helpers/parse_statement_checks.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 45930ec..3d81f39 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -114,7 +114,7 @@ def check_relationships(stmt_matches: list[str]) -> bool:
 
     for stmt in stmt_matches:
         if not (rels_matches := RELATIONSHIP_DIR_CHECK_REGEX.findall(stmt)):
-            return True
+            continue
         for rel in rels_matches:
             rel_pattern: str = rel[0]
             rel_name: str = rel[1]
-- 
2.43.0


From 9dd17507d62cbaf74dfbf835dd15584466db0989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 07/32] fix: a query with only MAKE is executed, and a REPORT
 without a FIND is rejected before anything is written

---
 wiggle_shell/core/query/query.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 53b93c9..72a63e3 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -35,7 +35,9 @@ def parse_query_string(query_string: str) -> ParsedQuery:
     find_parsed = parse_find_statement_from_query_string(query_string)
     criteria_parsed = None
 
-    find_query_handles = find_parsed.parsed_pattern.pattern_handles
+    find_query_handles = (
+        find_parsed.parsed_pattern.pattern_handles if find_parsed else None
+    )
     report_parsed = parse_report_statement_from_query_string(
         query_string, find_handles=find_query_handles
     )
@@ -51,6 +53,11 @@ def parse_query_string(query_string: str) -> ParsedQuery:
 
 
 def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) -> bool:
+    # Reject before anything is written
+    if not parsed_query.find_parsed:
+        if parsed_query.report_parsed or not parsed_query.make_parsed:
+            raise Exception("You must provide a FIND with a RETURN! FUBAR")
+
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
 
@@ -65,8 +72,6 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
             report(
                 parsed_report=query_report, found=found, gdbms_file_path=gdbms_file_path
             )
-    else:
-        raise Exception("You must provide a FIND with a RETURN! FUBAR")
 
     return True
 
-- 
2.43.0


From e8b4504c0e2a11930ced7d6596a00418894d64a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 08/32] fix: an invalid FIND is rejected before the MAKE of the
 same query is written

---
 wiggle_shell/core/query/query.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/wiggle_shell/core/query/query.py b/wiggle_shell/core/query/query.py
index 72a63e3..ee658da 100644
--- a/wiggle_shell/core/query/query.py
+++ b/wiggle_shell/core/query/query.py
@@ -10,6 +10,7 @@ from wiggle_query_language.clauses.find import (
     find,
     parse_find_statement_from_query_string,
 )
+from wiggle_query_language.clauses.find.transform.find_pre import process_parsed_find
 from wiggle_query_language.clauses.make import (
     make,
     parse_make_statement_from_query_string,
@@ -57,6 +58,11 @@ def execute_query(parsed_query: ParsedQuery, gdbms_file_path: GDBMSFilePath) ->
     if not parsed_query.find_parsed:
         if parsed_query.report_parsed or not parsed_query.make_parsed:
             raise Exception("You must provide a FIND with a RETURN! FUBAR")
+    else:
+        process_parsed_find(
+            parsed_find=parsed_query.find_parsed,
+            parsed_criteria=parsed_query.criteria_parsed,
+        )
 
     if query_make := parsed_query.make_parsed:
         make(parsed_make_list=query_make, gdbms_file_path=gdbms_file_path)
-- 
2.43.0


From 38b3326d059cc6f9be8e289325ad7b0cc6bedd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 09/32] fix: a value that cannot be stored no longer leaves a
 half written database

---
 wiggle_query_language/graph/database/database.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index 4ffe09b..cba0a32 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -1,4 +1,4 @@
-from json import dump, load
+from json import dump, dumps, load
 from json.decoder import JSONDecodeError
 from pathlib import Path
 from typing import Any
@@ -49,8 +49,9 @@ def add_item_to_database(
             else:
                 database[wiggle_number_to_add] = node
 
+        database_json = dumps(database, indent=4)
         file_handle.seek(0)
-        dump(database, file_handle, indent=4)
+        file_handle.write(database_json)
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
-- 
2.43.0


From d4265671f1852acdaad2aefc911a9e610f26b203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 10/32] fix: nothing of the previous text is left behind the
 database when the new text is shorter

---
 wiggle_query_language/graph/database/database.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiggle_query_language/graph/database/database.py b/wiggle_query_language/graph/database/database.py
index cba0a32..5d9bdb6 100644
--- a/wiggle_query_language/graph/database/database.py
+++ b/wiggle_query_language/graph/database/database.py
@@ -52,6 +52,7 @@ def add_item_to_database(
         database_json = dumps(database, indent=4)
         file_handle.seek(0)
         file_handle.write(database_json)
+        file_handle.truncate()
 
     graph_logger.info(
         f"Successfully added {len(items_to_add)} records to the database."
-- 
2.43.0


From 925fe3255af9d5a550db2857d79cd266cf8a232e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:23 +0000
Subject: [PATCH 11/32] fix: adding no relationships no longer corrupts the
 indexes file

---
 .../graph/database/indexes/node_relationships_index.py          | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/graph/database/indexes/node_relationships_index.py b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
index 108a7be..1f93e9d 100644
--- a/wiggle_query_language/graph/database/indexes/node_relationships_index.py
+++ b/wiggle_query_language/graph/database/indexes/node_relationships_index.py
@@ -39,7 +39,7 @@ def add_items_to_node_relationships_index(
             else:
                 rel_indexes_dict[node_wn] = list(new_rels_wn_set)
 
-            file_handle.seek(0)
+        file_handle.seek(0)
 
         indexes_dict[NODE_RELATIONSHIPS_INDEX_NAME] = rel_indexes_dict
 
-- 
2.43.0


From a2d65da513d1e1977d501cb98561452d0f5efe0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 12/32] fix: a clause ends at its own semicolon instead of
 swallowing the clauses after it on the same line

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 wiggle_query_language/clauses/regexes/report/report_patterns.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 9a993e7..bcc8076 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -7,7 +7,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+\);)"
+    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 97018fd..3267f01 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -8,7 +8,7 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+;)",
+    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+?;)",
     flags=IGNORECASE,
 )
 
-- 
2.43.0


From 7abb96cce460e6ca5e326c098000de76d400de3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 13/32] fix: a clause name inside a label or a property value
 does not start a clause

---
 .../clauses/parsing_helpers/extract_statements.py            | 2 +-
 .../clauses/regexes/patterns/clause_helpers.py               | 5 ++++-
 .../clauses/regexes/report/report_patterns.py                | 5 +++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 25c9e0b..74462a1 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -32,7 +32,7 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group() for x in clause_all_regex.finditer(query_string)]:
+    if make_matches := [x.group(1) for x in clause_all_regex.finditer(query_string)]:
         return make_matches
 
     check_clause_spelling(query_string, clause)
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index bcc8076..bb189ce 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -1,5 +1,8 @@
 from itertools import permutations
 
+# A clause starts the query, follows the previous clause's semicolon or starts a line
+CLAUSE_START_REGEX = r"(?:\A|(?<=[;\n]))\s*"
+
 
 def get_clause_all_regex(clause: str) -> str:
     """
@@ -7,7 +10,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\)\s*;)"
+    return rf"{CLAUSE_START_REGEX}(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 3267f01..87a281a 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -1,6 +1,7 @@
 from re import compile, IGNORECASE
 
 from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
+    CLAUSE_START_REGEX,
     get_clause_permutations,
 )
 
@@ -8,12 +9,12 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+?;)",
+    pattern=rf"{CLAUSE_START_REGEX}(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+?;)",
     flags=IGNORECASE,
 )
 
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
-    pattern=rf"(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
+    pattern=rf"{CLAUSE_START_REGEX}(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
     flags=IGNORECASE,
 )
-- 
2.43.0


From 91dd4da4e3e102f9c441a47cee14a794b6a52113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:56 +0000
Subject: [PATCH 14/32] fix: clauses are case insensitive, mixed case included

---
 models/wql/parsing/parsed_query.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/models/wql/parsing/parsed_query.py b/models/wql/parsing/parsed_query.py
index 64de6cf..2e17edb 100644
--- a/models/wql/parsing/parsed_query.py
+++ b/models/wql/parsing/parsed_query.py
@@ -87,13 +87,13 @@ class ParsedPattern(BaseModel):
 
 
 class ParsedMake(BaseModel):
-    raw_statement: str = Field(regex=MAKE_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex="(?i)" + MAKE_STATEMENT_ALL_REGEX.pattern)
     clause: Clause = Clause.MAKE
     parsed_pattern_list: list[ParsedPattern]
 
 
 class ParsedFind(BaseModel):
-    raw_statement: str = Field(regex=FIND_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex="(?i)" + FIND_STATEMENT_ALL_REGEX.pattern)
     clause: Clause = Clause.FIND
     parsed_pattern: ParsedPattern
     parsed_pattern_handles: set[str] = Field(default=set())
@@ -118,7 +118,7 @@ class ParsedCriteria(BaseModel):
 
 
 class ParsedReport(BaseModel):
-    raw_statement: str = Field(regex=REPORT_STATEMENT_ALL_REGEX.pattern)
+    raw_statement: str = Field(regex="(?i)" + REPORT_STATEMENT_ALL_REGEX.pattern)
     clause: Clause = Clause.REPORT
     extracted_report: str
 
-- 
2.43.0


From e0a524d6e9982e9a7a4c6c8c52e5309a3296a0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:54 +0000
Subject: [PATCH 15/32] fix: a statement written over several lines is no
 longer silently ignored

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 wiggle_query_language/clauses/regexes/report/report_patterns.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index bb189ce..e091b46 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -10,7 +10,7 @@ def get_clause_all_regex(clause: str) -> str:
     :param clause: The WQL clause.
     :return: A regex expression.
     """
-    return rf"{CLAUSE_START_REGEX}(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\(.+?\)\s*;)"
+    return rf"{CLAUSE_START_REGEX}(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\((?s:.+?)\)\s*;)"
 
 
 def get_clause_permutations(clause: str) -> str:
diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 87a281a..8ea65f1 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -9,7 +9,7 @@ CLAUSE = "REPORT"
 
 # REPORT .*;
 REPORT_STATEMENT_ALL_REGEX = compile(
-    pattern=rf"{CLAUSE_START_REGEX}(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()}).+?;)",
+    pattern=rf"{CLAUSE_START_REGEX}(?P<report_stmt_all>({CLAUSE.upper()}|{CLAUSE.lower()})(?s:.+?);)",
     flags=IGNORECASE,
 )
 
-- 
2.43.0


From b0f72881102de11f5413ba7b5e81003fadd1e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 16/32] fix: a statement with a part that cannot be understood
 is rejected instead of storing or finding only the rest

---
 .../parsing_helpers/parse_statement_checks.py | 24 ++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
index 3d81f39..e4c3d7b 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_statement_checks.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import split
+from re import fullmatch, split
 
 from exceptions.wql.parsing import (
     ClauseSyntaxError,
@@ -15,6 +15,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.patterns import (
+    NODES_RELS_PATTERN_REGEX,
+)
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     CHECK_PROPERTIES_SYNTAX_REGEX,
     PROPERTIES_LIST_VALUE_REGEX,
@@ -185,6 +188,24 @@ def check_statement_syntax(stmt_matches: list[str]) -> bool:
     return True
 
 
+def check_nothing_left_over(stmt_matches: list[str]) -> bool:
+    """
+    Checks that the whole of the MAKE/FIND statement is made of patterns, as what is not would be ignored.
+    :param stmt_matches: The extracted MAKE statements.
+    :return: True or raises and exception.
+    """
+    for stmt in stmt_matches:
+        left_over = NODES_RELS_PATTERN_REGEX.sub(
+            lambda match: "," if match.group() else "", stmt
+        )
+        if not fullmatch(r"[a-zA-Z]+[\s,]*;", left_over):
+            raise ClauseSyntaxError(
+                f"Could not be understood: ---> {left_over} <--- in ---> {stmt} <---"
+            )
+
+    return True
+
+
 def validate_statement(stmt_matches: list[str]) -> bool:
     """
     Handles the validation for the MAKE/FIND statement.
@@ -195,6 +216,7 @@ def validate_statement(stmt_matches: list[str]) -> bool:
     check_illegal_characters(stmt_matches)
     check_node_rel_properties(stmt_matches)
     check_relationships(stmt_matches)
+    check_nothing_left_over(stmt_matches)
 
     return True
 
-- 
2.43.0


From bd637366fe96dac6a247783a691935ab05045f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:23 +0000
Subject: [PATCH 17/32] fix: properties that cannot be understood are rejected
 instead of silently dropped or misread

---
 .../clauses/parsing_helpers/parse_properties.py            | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 9487cde..3492538 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,4 +1,5 @@
 from ast import literal_eval
+from re import fullmatch
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -30,6 +31,12 @@ def parse_properties(properties_string: str) -> dict:
     :param properties_string: The raw params string.
     :return: A dictionary ready for export.
     """
+    left_over = ALL_PROPERTIES_KEY_VALUE_REGEX.sub(",", properties_string)
+    if not fullmatch(r"[{}\s,]*", left_over):
+        raise WiggleGraphIllegalPropertyValue(
+            f"Error for setting property in {properties_string} could not understand {left_over}"
+        )
+
     primitive_property_dictionary = dict()
     if props_primitive := ALL_PROPERTIES_KEY_VALUE_REGEX.finditer(properties_string):
         for match in props_primitive:
-- 
2.43.0


From 28777f7c7a4d542069fc19141e4f02d9c7b7e043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:25 +0000
Subject: [PATCH 18/32] fix: a string property is stored without its quotes and
 otherwise as written

---
 .../clauses/parsing_helpers/parse_properties.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index 3492538..dfa00c2 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -67,7 +67,11 @@ def handle_extracted_property(
     """
     extracted_property = make_property.yield_extracted_property()
 
-    striped_value = extracted_property.property_value.strip('"').strip("'").strip()
+    striped_value = extracted_property.property_value.strip()
+    if len(striped_value) > 1 and striped_value[0] in ('"', "'"):
+        # only the pair of quotes around the string is not part of it
+        if striped_value[-1] == striped_value[0]:
+            striped_value = striped_value[1:-1]
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From 887df95f53262d5fa561cc3cb5df83d207f4c23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:27 +0000
Subject: [PATCH 19/32] fix: true, false and null inside a string of a list are
 left as written

---
 .../clauses/parsing_helpers/parse_properties.py      | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index dfa00c2..c303546 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -1,5 +1,5 @@
 from ast import literal_eval
-from re import fullmatch
+from re import fullmatch, sub
 from typing import Optional
 
 from exceptions.wql.parsing import WiggleGraphIllegalPropertyValue
@@ -177,10 +177,12 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
-    value = (
-        value_in.replace("true", "True")
-        .replace("false", "False")
-        .replace("null", "None")
+    keywords = {"true": "True", "false": "False", "null": "None"}
+    # only outside of the quoted strings
+    value = sub(
+        r"'[^']*'|\"[^\"]*\"|\w+",
+        lambda match: keywords.get(match.group(), match.group()),
+        value_in,
     )
     try:
         found_list = literal_eval(value)
-- 
2.43.0


From 2a05aaacee4684f8b14f5e5f9ce0426824cf5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:29 +0000
Subject: [PATCH 20/32] fix: an empty list is stored instead of silently
 dropped

---
 wiggle_query_language/clauses/regexes/patterns/properties.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index 4ad1774..ed4e863 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -6,7 +6,7 @@ from wiggle_query_language.clauses.regexes import EXTRA_ALLOWED_CHARS
 ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
     pattern=(
         r"(?P<property_name>\w+)\s*:\s*(?P<property_value>(?P<none_type>null)|(?P<bool_type>true|false)|"
-        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]+\])|"
+        r"(?P<float_type>\d+\.\d+)|(?P<int_type>[0-9]+)|(?P<list_type>\[[\w,\s'\"\.@\+]*\])|"
         r"(?P<string_type>[\w+\'\"@\.\s]+))"
     ),
     flags=IGNORECASE,
@@ -22,5 +22,5 @@ CHECK_PROPERTIES_SYNTAX_REGEX = compile(
 
 # [1, '2', "2_4", "3 4", 3.14]
 PROPERTIES_LIST_VALUE_REGEX = compile(
-    pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]+])", flags=IGNORECASE
+    pattern=rf"(?P<list_value>\[[\w,\s'\"\.{EXTRA_ALLOWED_CHARS}]*])", flags=IGNORECASE
 )
-- 
2.43.0


From 0b4954c04f73706b123fc3c19fe74ceaa96fa317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 21/32] fix: deleting a DBMS whose name has wildcards in it
 only removes its own files

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index c4d0e89..3e1f045 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -1,5 +1,4 @@
 import os
-from glob import glob
 from pathlib import Path
 from string import ascii_uppercase
 from typing import Optional
@@ -172,10 +171,8 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     if not db_path.is_dir():
         raise Exception()
 
-    files = glob(f"{db_path}/*")
-    if files:
-        for file in files:
-            os.remove(file)
+    for file in list(db_path.iterdir()):
+        os.remove(file)
 
     db_path.rmdir()
 
-- 
2.43.0


From 3684486f2b2b702d3919bc777e3a5fa844f8a54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 22/32] fix: listing the databases before the first one was
 created finds none instead of crashing

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 3e1f045..93bb63a 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -31,6 +31,9 @@ def list_existing_dbms(
 
     if not skips:
         skips = set()
+    if not path_to_dbms_dir.is_dir():
+        return []
+
     existing_databases = [
         x.name for x in path_to_dbms_dir.iterdir() if x.is_dir() and x.name not in skips
     ]
-- 
2.43.0


From 6aedd3095d5042886c34ee4ff8aa557de8fae015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 23/32] fix: an existing DBMS is selected from the folder that
 was asked for

---
 wiggle_shell/core/select_gdbms/select_gdbms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 93bb63a..782a3d8 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -119,7 +119,7 @@ def get_existing_gdbms(path_to_gdbms_dir: Path = DBMS_FOLDER) -> GDBMSFilePath:
     """
     # todo test for this and break up
     while True:
-        choices = get_and_display_available_dbms()
+        choices = get_and_display_available_dbms(path_to_gdbms_dir)
 
         if not choices:
             print("There are no databases, please create a new database.")
-- 
2.43.0


From d68df6518b1d98e986e7532228ae6c41f286a583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:43 +0000
Subject: [PATCH 24/32] fix: a DBMS name cannot point outside of the DBMS
 folder

---
 wiggle_shell/core/select_gdbms/gdbms_name.py           | 10 ++++++++++
 wiggle_shell/core/select_gdbms/select_database_file.py |  2 ++
 wiggle_shell/core/select_gdbms/select_gdbms.py         |  2 ++
 wiggle_shell/core/select_gdbms/select_index_file.py    |  2 ++
 .../core/select_gdbms/select_wiggle_number_file.py     |  2 ++
 5 files changed, 18 insertions(+)
 create mode 100644 wiggle_shell/core/select_gdbms/gdbms_name.py

diff --git a/wiggle_shell/core/select_gdbms/gdbms_name.py b/wiggle_shell/core/select_gdbms/gdbms_name.py
new file mode 100644
index 0000000..9696a17
--- /dev/null
+++ b/wiggle_shell/core/select_gdbms/gdbms_name.py
@@ -0,0 +1,10 @@
+def check_gdbms_name(gdbms_name: str) -> str:
+    """
+    Checks that the name is that of a folder directly in the DBMS folder.
+    :param gdbms_name: The name of the DBMS.
+    :return: The name, or raises an exception.
+    """
+    if gdbms_name in {"", ".", ".."} or "/" in gdbms_name or "\\" in gdbms_name:
+        raise ValueError(f"{gdbms_name!r} cannot be the name of a DBMS")
+
+    return gdbms_name
diff --git a/wiggle_shell/core/select_gdbms/select_database_file.py b/wiggle_shell/core/select_gdbms/select_database_file.py
index 5b868b1..de07e61 100644
--- a/wiggle_shell/core/select_gdbms/select_database_file.py
+++ b/wiggle_shell/core/select_gdbms/select_database_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 
 def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> Path:
@@ -12,6 +13,7 @@ def create_new_database(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_database_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/database_{gdbms_name}.json"
diff --git a/wiggle_shell/core/select_gdbms/select_gdbms.py b/wiggle_shell/core/select_gdbms/select_gdbms.py
index 782a3d8..a4bd492 100644
--- a/wiggle_shell/core/select_gdbms/select_gdbms.py
+++ b/wiggle_shell/core/select_gdbms/select_gdbms.py
@@ -5,6 +5,7 @@ from typing import Optional
 
 from models.wigish import GDBMSFilePath
 from wiggle_shell import DBMS_FOLDER, INPUT_PROMPT_SPACING
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 from wiggle_shell.core.select_gdbms.select_database_file import (
     create_new_database,
     get_existing_db_file_path,
@@ -169,6 +170,7 @@ def delete_gdbms(gdbms_name: str, path_to_dbms_dir: Path = DBMS_FOLDER) -> int:
     :return: An integer.
     """
 
+    check_gdbms_name(gdbms_name)
     db_path = path_to_dbms_dir.joinpath(f"{gdbms_name}/")
 
     if not db_path.is_dir():
diff --git a/wiggle_shell/core/select_gdbms/select_index_file.py b/wiggle_shell/core/select_gdbms/select_index_file.py
index 462e898..48b945f 100644
--- a/wiggle_shell/core/select_gdbms/select_index_file.py
+++ b/wiggle_shell/core/select_gdbms/select_index_file.py
@@ -2,6 +2,7 @@ from json import dumps
 from pathlib import Path
 
 from wiggle_shell import DBMS_FOLDER
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 
 def create_new_indexes_file(
@@ -14,6 +15,7 @@ def create_new_indexes_file(
     :return : The path to the new database file.
     """
 
+    check_gdbms_name(gdbms_name)
     path_to_dbms_dir.joinpath(f"{gdbms_name}").mkdir(parents=True, exist_ok=True)
     new_indexes_file_path = path_to_dbms_dir.joinpath(
         f"{gdbms_name}/indexes_{gdbms_name}.json"
diff --git a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
index 2dc51eb..87aa010 100644
--- a/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
+++ b/wiggle_shell/core/select_gdbms/select_wiggle_number_file.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 
 from project_root import get_project_root
+from wiggle_shell.core.select_gdbms.gdbms_name import check_gdbms_name
 
 DBMS_FOLDER = Path(f"{get_project_root()}/dbms/")
 INPUT_PROMPT_SPACING = " " * 5
@@ -15,6 +16,7 @@ def create_new_wiggle_number_file(
     :param path_to_dbms_dir The directory of the DBMS folder.
     :return The path to the new Wiggle number file.
     """
+    check_gdbms_name(dbms_name)
     path_to_dbms_dir.joinpath(f"{dbms_name}").mkdir(parents=True, exist_ok=True)
     new_wn_state_file_path = path_to_dbms_dir.joinpath(
         f"{dbms_name}/wiggle_number_{dbms_name}.txt"
-- 
2.43.0


From a3d93800fba7ec215f11a4458be84967f9a9811f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 25/32] fix: a record's creation time is when it was made, not
 when the program was started

---
 models/wql/data/wiggle_metadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/wql/data/wiggle_metadata.py b/models/wql/data/wiggle_metadata.py
index 67e3eba..09e3498 100644
--- a/models/wql/data/wiggle_metadata.py
+++ b/models/wql/data/wiggle_metadata.py
@@ -1,10 +1,10 @@
 from datetime import datetime
 from typing import Optional
 
-from pydantic import BaseModel
+from pydantic import BaseModel, Field
 
 
 class WiggleGraphMetalData(BaseModel):
     wn: int
-    created_at: float = datetime.now().timestamp()
+    created_at: float = Field(default_factory=lambda: datetime.now().timestamp())
     updated_at: Optional[float] = None
-- 
2.43.0


From ee0514ea2cdb439b90c50ac0f7be61f108c6f3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 26/32] fix: REPORT is checked against the handles of the FIND,
 every reported handle has to be one of them

---
 .../clauses/regexes/report/report_patterns.py        |  5 +++++
 .../report/parse_report/parse_report_statement.py    | 12 ++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/report/report_patterns.py b/wiggle_query_language/clauses/regexes/report/report_patterns.py
index 8ea65f1..c2ea648 100644
--- a/wiggle_query_language/clauses/regexes/report/report_patterns.py
+++ b/wiggle_query_language/clauses/regexes/report/report_patterns.py
@@ -13,6 +13,11 @@ REPORT_STATEMENT_ALL_REGEX = compile(
     flags=IGNORECASE,
 )
 
+# foo and qux in: REPORT foo.bar, wn(qux);
+REPORT_HANDLES_REGEX = compile(
+    pattern=r"(?<=[\s,(])(?P<report_handle>\w+)\s*[.,;)]", flags=IGNORECASE
+)
+
 # TROPER foo;
 REPORT_STATEMENT_CHECK_CLAUSE_SYNTAX_REGEX = compile(
     pattern=rf"{CLAUSE_START_REGEX}(?P<report_stmt_all>({get_clause_permutations(CLAUSE)}).+;)",
diff --git a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
index d171f6d..a9913b6 100644
--- a/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
+++ b/wiggle_query_language/clauses/report/parse_report/parse_report_statement.py
@@ -6,14 +6,18 @@ from models.wql import ParsedReport, Clause
 from wiggle_query_language.clauses.parsing_helpers.extract_statements import (
     extract_all_statements,
 )
+from wiggle_query_language.clauses.regexes.report.report_patterns import (
+    REPORT_HANDLES_REGEX,
+)
 
 
 def check_find_report_handles(find_handles: set[str], extracted_report: str) -> True:
-    if find_handles:
-        for find_handle in find_handles:
-            if find_handle not in extracted_report:
+    # None when there is no FIND
+    if find_handles is not None:
+        for report_handle in REPORT_HANDLES_REGEX.findall(extracted_report):
+            if report_handle not in find_handles:
                 raise FindReportHandleMissmatch(
-                    f"FIND handle {find_handle} was not found not in the ---> {extracted_report} <---"
+                    f"REPORT handle {report_handle} was not found in the FIND ---> {extracted_report} <---"
                 )
 
     return True
-- 
2.43.0


From 1ed24fd1f68036c0b124d04fdf7594af9527d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:46 +0000
Subject: [PATCH 27/32] fix: only help itself asks for help, a query with help
 in it is executed

---
 wiggle_shell/wiggleshell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_shell/wiggleshell.py b/wiggle_shell/wiggleshell.py
index 0a149d6..83dcc58 100644
--- a/wiggle_shell/wiggleshell.py
+++ b/wiggle_shell/wiggleshell.py
@@ -31,7 +31,7 @@ def start_wiggle_shell() -> None:
             print("Good Bye!")
             break
 
-        if "help" in query_string.lower():
+        if query_string.strip().lower() == "help":
             print("A helpful guide is on the way!\n")
             continue
 
-- 
2.43.0


From 8d023c3785b973eb8f13871a11f543e60870ee94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:16 +0000
Subject: [PATCH 28/32] fix: a string whose quotes do not match is rejected

---
 .../clauses/parsing_helpers/parse_properties.py        | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index c303546..b372627 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -68,10 +68,14 @@ def handle_extracted_property(
     extracted_property = make_property.yield_extracted_property()
 
     striped_value = extracted_property.property_value.strip()
-    if len(striped_value) > 1 and striped_value[0] in ('"', "'"):
+    if striped_value[:1] in ("'", '"'):
         # only the pair of quotes around the string is not part of it
-        if striped_value[-1] == striped_value[0]:
-            striped_value = striped_value[1:-1]
+        quote, striped_value = striped_value[0], striped_value[1:]
+        if striped_value.count(quote) != 1 or not striped_value.endswith(quote):
+            raise WiggleGraphIllegalPropertyValue(
+                f"{extracted_property.property_value} is not closed by the quote it was opened with"
+            )
+        striped_value = striped_value[:-1]
 
     match extracted_property.property_type:
         case PropertyType.NONE_TYPE:
-- 
2.43.0


From 21109d68baaa6a8f701af0830d5bb866e13590fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 29/32] fix: a list with anything but documented values, or
 without its commas, is rejected

---
 .../clauses/parsing_helpers/parse_properties.py             | 5 +++++
 .../clauses/regexes/patterns/properties.py                  | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
index b372627..32ae158 100644
--- a/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
+++ b/wiggle_query_language/clauses/parsing_helpers/parse_properties.py
@@ -7,6 +7,7 @@ from wiggle_graph_logger.graph_logger import graph_logger
 from models.wql import WG_ALLOWED_TYPES, PropertyType, WiggleGraphPropertyPre
 from wiggle_query_language.clauses.regexes.patterns.properties import (
     ALL_PROPERTIES_KEY_VALUE_REGEX,
+    LIST_OF_VALUES_REGEX,
 )
 
 
@@ -181,6 +182,10 @@ def handle_list_property(value_in: str) -> list[WG_ALLOWED_TYPES]:
     :return: A Python list.
     """
     # params validation happens in check_node_rel_properties
+    if not LIST_OF_VALUES_REGEX.fullmatch(value_in):
+        raise WiggleGraphIllegalPropertyValue(
+            f"{value_in} is not a list. List property example: {{foo: [1, 3.14, true, null, 'bar']}}"
+        )
     keywords = {"true": "True", "false": "False", "null": "None"}
     # only outside of the quoted strings
     value = sub(
diff --git a/wiggle_query_language/clauses/regexes/patterns/properties.py b/wiggle_query_language/clauses/regexes/patterns/properties.py
index ed4e863..43fa7da 100644
--- a/wiggle_query_language/clauses/regexes/patterns/properties.py
+++ b/wiggle_query_language/clauses/regexes/patterns/properties.py
@@ -13,6 +13,12 @@ ALL_PROPERTIES_KEY_VALUE_REGEX = compile(
 )
 
 
+# [1, '2', "2_4", "3 4", 3.14, true, null]
+LIST_VALUE_REGEX = r"(?:'[^']*'|\"[^\"]*\"|[0-9]+\.[0-9]+|[0-9]+|true|false|null)"
+LIST_OF_VALUES_REGEX = compile(
+    pattern=rf"\[\s*(?:{LIST_VALUE_REGEX}(?:\s*,\s*{LIST_VALUE_REGEX})*\s*)?\]"
+)
+
 # {first_name:'Harry' , last_name:'Watkinson' , favourite_number: 6 , favourite_color: 'green'}
 CHECK_PROPERTIES_SYNTAX_REGEX = compile(
     pattern=rf"(?P<all_props>{{[\w:\s,'\"\.\[\]{EXTRA_ALLOWED_CHARS}]+}})",
-- 
2.43.0


From 38b2392f0bab4ecf24761e1d0a7bbd7674757a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 30/32] fix: a label, handle or property name at the start of a
 line does not start a clause

---
 .../clauses/regexes/patterns/clause_helpers.py                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index e091b46..0c32689 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -1,7 +1,7 @@
 from itertools import permutations
 
-# A clause starts the query, follows the previous clause's semicolon or starts a line
-CLAUSE_START_REGEX = r"(?:\A|(?<=[;\n]))\s*"
+# A clause starts the query or follows the previous clause's semicolon
+CLAUSE_START_REGEX = r"(?:\A|(?<=;))\s*"
 
 
 def get_clause_all_regex(clause: str) -> str:
-- 
2.43.0


From 9c5405cf434a5f43614056e0328331abe42c6e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 31/32] fix: a clause that has lost a bracket or its semicolon
 is rejected instead of ignored next to others

---
 .../clauses/parsing_helpers/extract_statements.py  | 14 +++++++++++++-
 .../clauses/regexes/patterns/clause_helpers.py     |  9 +++++++++
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
index 74462a1..22fcb5c 100644
--- a/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
+++ b/wiggle_query_language/clauses/parsing_helpers/extract_statements.py
@@ -1,5 +1,7 @@
+from re import findall
 from typing import Optional
 
+from exceptions.wql.parsing import ClauseSyntaxError
 from models.wql import Clause
 from wiggle_query_language.clauses.parsing_helpers.parse_statement_checks import (
     check_clause_spelling,
@@ -10,6 +12,9 @@ from wiggle_query_language.clauses.regexes.find.find_patterns import (
 from wiggle_query_language.clauses.regexes.make.make_patterns import (
     MAKE_STATEMENT_ALL_REGEX,
 )
+from wiggle_query_language.clauses.regexes.patterns.clause_helpers import (
+    get_clause_start_regex,
+)
 from wiggle_query_language.clauses.regexes.report.report_patterns import (
     REPORT_STATEMENT_ALL_REGEX,
 )
@@ -32,7 +37,14 @@ def extract_all_statements(query_string: str, clause: Clause) -> Optional[list[s
         case _:
             raise Exception()
 
-    if make_matches := [x.group(1) for x in clause_all_regex.finditer(query_string)]:
+    make_matches = [x.group(1) for x in clause_all_regex.finditer(query_string)]
+    if len(findall(get_clause_start_regex(clause.value), query_string)) > len(
+        make_matches
+    ):
+        raise ClauseSyntaxError(
+            message=f"SyntaxError: a {clause.value} could not be understood, is a bracket or semicolon missing?"
+        )
+    if make_matches:
         return make_matches
 
     check_clause_spelling(query_string, clause)
diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index 0c32689..ed2424c 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -13,6 +13,15 @@ def get_clause_all_regex(clause: str) -> str:
     return rf"{CLAUSE_START_REGEX}(?P<clause_stmt_all>({clause.upper()}|{clause.lower()})\s*\((?s:.+?)\)\s*;)"
 
 
+def get_clause_start_regex(clause: str) -> str:
+    """
+    Gets the regex for where a $CLAUSE starts, whether it is well formed or not.
+    :param clause: The WQL clause.
+    :return: A regex expression.
+    """
+    return rf"(?i:{CLAUSE_START_REGEX}{clause}\b)"
+
+
 def get_clause_permutations(clause: str) -> str:
     """
     Gets the $CLAUSE regex for checking for a spelling mistake.
-- 
2.43.0


From a02ce10e9fbdc5f483be2e34ea2ec599b2e127f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:17 +0000
Subject: [PATCH 32/32] fix: a name followed by a bracket inside a clause is
 not taken for a misspelt clause

---
 .../clauses/regexes/patterns/clause_helpers.py                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
index ed2424c..ef6f0c1 100644
--- a/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
+++ b/wiggle_query_language/clauses/regexes/patterns/clause_helpers.py
@@ -41,7 +41,7 @@ def get_clause_permutations_regex(clause: str) -> str:
     all_permutations_joined = get_clause_permutations(clause)
 
     clause_permutations_regex = (
-        rf"\s?(?P<clause_syntax_error>{all_permutations_joined})\s?\("
+        rf"{CLAUSE_START_REGEX}(?P<clause_syntax_error>{all_permutations_joined})\s?\("
     )
 
     return clause_permutations_regex
-- 
2.43.0

