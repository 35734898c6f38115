From a9e69de9eeef50f322888902767ff773797f65c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:31 +0000
Subject: [PATCH 01/61] fix: decode double columns by unscaling before the
 inverse compression, negative values included

---
 scheduler/crypto/encrypt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..5656e1d 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
@@ -80,8 +80,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From 3903624abe2014ea7b13570e1751df66b7d5d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:41 +0000
Subject: [PATCH 02/61] fix: parenthesise right operands and comparison
 operands so that formatted SQL keeps the parsed tree

---
 sql_parsing/formatting.py | 38 ++++++++++++++++++++++++--------------
 sql_parsing/keywords.py   | 23 ++++++++++++-----------
 2 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..119685b 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -75,11 +75,12 @@ def Operator(_op):
             k, v = first(json.items())
             json = [k, {"literal": v}]
 
+        # OPERATORS OF THE SAME PRECEDENCE READ FROM LEFT TO RIGHT, COMPARISONS DO NOT CHAIN
         for i, v in enumerate(listwrap(json)):
-            if i == 0:
-                acc.append(self.dispatch(v, op_prec + 0.25))
-            else:
+            if i == 0 and op_prec != precedence["eq"]:
                 acc.append(self.dispatch(v, op_prec))
+            else:
+                acc.append(self.dispatch(v, op_prec - 0.25))
         if prec >= op_prec:
             return op.join(acc)
         else:
@@ -292,13 +293,22 @@ class Formatter:
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
-        return "~{0}".format(self.dispatch(value))
+        return "~{0}".format(self.dispatch(value, precedence["interval"]))
+
+    def _neg(self, value, prec):
+        sql = self.dispatch(value, precedence["interval"])
+        if sql.startswith("-"):
+            sql = f"({sql})"
+        return f"-{sql}"
+
+    def _not(self, value, prec):
+        return "NOT({0})".format(self.dispatch(value))
 
     def _exists(self, value, prec):
-        return "{0} IS NOT NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NOT NULL".format(self.dispatch(value, precedence["binary_or"]))
 
     def _missing(self, value, prec):
-        return "{0} IS NULL".format(self.dispatch(value, precedence["is"]))
+        return "{0} IS NULL".format(self.dispatch(value, precedence["binary_or"]))
 
     def _collate(self, pair, prec):
         return "{0} COLLATE {1}".format(
@@ -310,7 +320,7 @@ class Formatter:
         if "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, precedence["binary_or"])
             + " IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -323,7 +333,7 @@ class Formatter:
         if "literal" in set:
             set = {"literal": listwrap(set["literal"])}
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, precedence["binary_or"])
             + " NOT IN "
             + self.dispatch(set, precedence["in"])
         )
@@ -387,9 +397,9 @@ class Formatter:
 
     def _between(self, json, prec):
         return "{0} BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], precedence["binary_or"]),
+            self.dispatch(json[1], precedence["binary_or"]),
+            self.dispatch(json[2], precedence["binary_or"]),
         )
 
     def _trim(self, json, prec):
@@ -411,9 +421,9 @@ class Formatter:
 
     def _not_between(self, json, prec):
         return "{0} NOT BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], precedence["binary_or"]),
+            self.dispatch(json[1], precedence["binary_or"]),
+            self.dispatch(json[2], precedence["binary_or"]),
         )
 
     def _distinct(self, json, prec):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 9f4eaff..da4ff92 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -247,22 +247,22 @@ precedence = {
     "collate": 0,
     "concat": 1,
     "mul": 2,
-    "div": 1.5,
+    "div": 2,
     "mod": 2,
     "neg": 3,
     "add": 3,
-    "sub": 2.5,
+    "sub": 3,
     "binary_not": 4,
     "binary_and": 4,
-    "binary_or": 4,
-    "gte": 5,
-    "lte": 5,
-    "lt": 5,
-    "gt": 6,
-    "eq": 7,
-    "neq": 7,
-    "missing": 7,
-    "exists": 7,
+    "binary_or": 4.5,
+    "gte": 8,
+    "lte": 8,
+    "lt": 8,
+    "gt": 8,
+    "eq": 8,
+    "neq": 8,
+    "missing": 8,
+    "exists": 8,
     "at_time_zone": 8,
     "between": 8,
     "not_between": 8,
@@ -275,6 +275,7 @@ precedence = {
     "not_rlike": 8,
     "similar_to": 8,
     "not_similar_to": 8,
+    "not": 9,
     "and": 10,
     "or": 11,
     "lambda": 12,
-- 
2.43.0


From 0e73b13afd3a007026218285b93ff257ac20faaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:05 +0000
Subject: [PATCH 03/61] fix: escape backslashes and line breaks in generated
 string literals

---
 sql_parsing/formatting.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 119685b..0aa9aeb 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -383,7 +383,10 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
-            return "'{0}'".format(json.replace("'", "''"))
+            # BACKSLASH IS THE ESCAPE CHARACTER OF MYSQL (AND THIS PARSER'S) STRINGS
+            for char, escaped in (("\\", "\\\\"), ("'", "''"), ("\n", "\\n"), ("\r", "\\r")):
+                json = json.replace(char, escaped)
+            return f"'{json}'"
         elif isinstance(json, dict):
             return self._literal(json["literal"])
         else:
-- 
2.43.0


From cc8223447b1269503b147a5fd27ae97b44bfd89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 04/61] fix: INSERT of NULL and of expressions into plaintext
 columns, NULL into encrypted columns

---
 scheduler/handers/clause/sql_values.py | 2 ++
 sql_parsing/formatting.py              | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..0e64b8e 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -20,6 +20,8 @@ class SQLValues(Rewriter):
     def encrypt_value(self, table, col, value, enc):
         key = self.db_meta[table]['columns'][col]['key']
         if isinstance(value, dict):
+            if 'null' in value:
+                return {'value': value}
             value = value['literal']
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
         if enc == "order-preserving":
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 0aa9aeb..3a03eaa 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -631,7 +631,7 @@ class Formatter:
                         acc.append("IF EXISTS")
                     acc.append("VALUES")
                     acc.append(
-                        "(" + ", ".join(self._literal(v['value']) for v in values) + ")"
+                        "(" + ", ".join(self.dispatch(v["value"]) for v in values) + ")"
                     )
 
         else:
-- 
2.43.0


From aa87df7f80123231a886c979d18f78c32725566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 05/61] fix: write the sm4 ciphertext of an inserted value

---
 scheduler/handers/clause/sql_values.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 0e64b8e..e5fd9d7 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -33,3 +33,7 @@ class SQLValues(Rewriter):
         if enc == "arithmetic":
             homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
             return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
+        if enc == "sm4":
+            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
+            return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
+        raise Exception("no cipher {} for column {}".format(enc, col))
-- 
2.43.0


From f2db3b495308e3fc724e89a8ae412433e7bd4fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 06/61] fix: INSERT with a single column

---
 scheduler/handers/rewrite_hander.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..2adf31b 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -28,6 +28,11 @@ class Rewriter(Clause):
         json = parse(query) if not alter_key_json else alter_key_json
         # if 'limit' in json.keys():
         #     self.limit = abs(int(json['limit']))
+        if 'insert' in json and not isinstance(json.get('columns', []), list):
+            # one column is parsed as a bare name
+            json['columns'] = [json['columns']]
+            if 'select' in json['query']:
+                json['query']['select'] = [json['query']['select']]
         source_json = copy.deepcopy(json)
         for key in table_key:
             if key in json.keys():
-- 
2.43.0


From 479b281e3fd288461f3d6fc9dd6f8831069234bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:47 +0000
Subject: [PATCH 07/61] fix: encrypt the rows of a multi-row INSERT instead of
 sending them in the clear

---
 scheduler/handers/clause/__init__.py   |  3 ++-
 scheduler/handers/clause/sql_values.py | 18 ++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index d8df19e..dcf6e5f 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -5,7 +5,7 @@ from scheduler.handers.clause.sql_from import SQLFrom
 from scheduler.handers.clause.anonymous_table import AnonymousTable
 from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
-from scheduler.handers.clause.sql_values import SQLValues
+from scheduler.handers.clause.sql_values import SQLValues, SQLRows
 from scheduler.handers.clause.sql_drop import SQLDrop
 
 clause = {
@@ -21,6 +21,7 @@ clause = {
     'columns': SQLColumns,
     'drop': SQLDrop,
     'query': {'select': SQLValues},
+    'values': SQLRows,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
     'add primary key': SQLSelect,
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index e5fd9d7..bbde806 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -37,3 +37,21 @@ class SQLValues(Rewriter):
             sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
             return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
         raise Exception("no cipher {} for column {}".format(enc, col))
+
+
+class SQLRows(SQLValues):
+    """The rows of a multi-row INSERT, one {column: value} mapping per row"""
+
+    def rewrite(self, values, table, json=None):
+        columns = self.db_meta[table]['columns']
+        new_values = []
+        for row in values:
+            new_row = {}
+            for col, value in row.items():
+                if columns[col]['plaintext']:
+                    new_row[col] = value
+                else:
+                    for enc, enc_col in columns[col]['enc-cols'].items():
+                        new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']
+            new_values.append(new_row)
+        return new_values
-- 
2.43.0


From 46ffcccec0c0b26e8ebb7c3de18c402a3ea8f0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:09 +0000
Subject: [PATCH 08/61] fix: WHERE on an encrypted column compares with the
 stored ciphertext of the literal or is refused, never sent in the clear

---
 scheduler/handers/clause/sql_where.py | 101 +++++++++++++++-----------
 1 file changed, 59 insertions(+), 42 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..feed374 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -20,9 +20,9 @@ class SQLWhere(Rewriter):
             for k, v in where_value.items():
                 if k == 'eq':
                     if col:
-                        if not col[v[0]]['plaintext']:
+                        if self.is_encrypted(v[0], col):
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.encrypt_literal(v[1], col[v[0]], 'symmetric')]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -38,52 +38,69 @@ class SQLWhere(Rewriter):
                                    ]}
 
                 if k in ['gt', 'lt', 'gte', 'lte']:
-                    if not col[v[0]]['plaintext']:
+                    if self.is_encrypted(v[0], col):
                         if col[v[0]]['type'] == 'int':
                             return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
+                                        self.encrypt_literal(v[1], col[v[0]], 'order-preserving')]}
                 if k == 'like':
-                    if not col[v[0]]['plaintext']:
+                    if self.is_encrypted(v[0], col):
                         return {
                             'like': [col[v[0]]['enc-cols']["fuzzy"],
-                                     self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
+                                     self.encrypt_literal(v[1], col[v[0]], 'fuzzy')]
                         }
                 if k in Logical_Operation:
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
-                if k == 'literal':
-                    return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
-        if isinstance(where_value, int):
-            if cipher == 'fuzzy':
-                partial_list = str(where_value).split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(str(partial)))
-                return "%".join(result)
-            if cipher == 'symmetric':
-                return encrypt.AESCipher(key).encrypt(str(where_value))
-            if cipher == 'order-preserving':
-                return encrypt.OPECipher(key).encrypt(where_value)
-        if isinstance(where_value, str):
-            if cipher == 'fuzzy':
-                partial_list = where_value.split("%")
-                result = []
-                for partial in partial_list:
-                    if partial == "":
-                        result.append("")
-                        continue
-                    else:
-                        if len(str(partial)) < 3:
-                            raise Exception("The length of fuzzy search word {} is {} <3"
-                                            .format(partial, len(str(partial))))
-                        result.append(encrypt.FuzzyCipher(key).encrypt(partial))
-                return "%".join(result)
-            if cipher == 'symmetric':
-                return encrypt.AESCipher(key).encrypt(where_value)
+            if self.mentions_encrypted(where_value, col):
+                raise Exception("condition {} on an encrypted column is not supported".format(list(where_value)))
+        elif isinstance(where_value, str) and self.mentions_encrypted(where_value, col):
+            raise Exception("an encrypted column is no condition by itself")
         return where_value
+
+    @staticmethod
+    def is_encrypted(operand, col):
+        """whether an operand is the name of an encrypted column"""
+        return isinstance(operand, str) and not col[operand]['plaintext']
+
+    def mentions_encrypted(self, value, col):
+        """whether a column name anywhere in a condition names an encrypted column"""
+        if isinstance(value, str):
+            name = value.split('.')[-1]
+            tables = [col] if col else [table['columns'] for table in self.db_meta.values()]
+            return any(name in columns and not columns[name]['plaintext'] for columns in tables)
+        if isinstance(value, dict):
+            return any(k != 'literal' and self.mentions_encrypted(v, col) for k, v in value.items())
+        if isinstance(value, list):
+            return any(self.mentions_encrypted(v, col) for v in value)
+        return False
+
+    def encrypt_literal(self, value, column, cipher):
+        """the ciphertext an INSERT stores for a value that is compared with an encrypted column"""
+        if isinstance(value, dict) and 'literal' in value:
+            value = value['literal']
+        elif not isinstance(value, (int, float)):
+            raise Exception("an encrypted column is only compared with a literal")
+        if isinstance(value, list):
+            raise Exception("an encrypted column is only compared with a single literal")
+        key = column['key']
+        if cipher == 'fuzzy':
+            return {'literal': self.encrypt_pattern(str(value), key)}
+        if isinstance(value, float) and column['type'] not in ['float', 'double']:
+            raise Exception("a {} column is not compared with a fraction".format(column['type']))
+        if isinstance(value, str) and (cipher == 'order-preserving' or column['type'] in ['float', 'double']):
+            raise Exception("a {} column is not compared with a text".format(column['type']))
+        value = encrypt.encode(value, column['type'])
+        if cipher == 'order-preserving':
+            return encrypt.OPECipher(key).encrypt(value)
+        return {'literal': encrypt.AESCipher(key).encrypt(str(value))}
+
+    @staticmethod
+    def encrypt_pattern(pattern, key):
+        result = []
+        for partial in pattern.split("%"):
+            if partial == "":
+                result.append("")
+                continue
+            if len(partial) < 3:
+                raise Exception("The length of fuzzy search word {} is {} <3".format(partial, len(partial)))
+            result.append(encrypt.FuzzyCipher(key).encrypt(partial))
+        return "%".join(result)
-- 
2.43.0


From 70df14a62e8d4886d8916bd243aadf7adf6370a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 09/61] fix: UPDATE stores the same ciphertexts as INSERT for
 every cipher of an encrypted column

---
 scheduler/handers/clause/sql_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..8bebaf8 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -14,6 +14,8 @@ class SQLSet(Rewriter):
             if enc_table_meta['columns'][k]['plaintext']:
                 result[k] = v
             else:
+                if isinstance(v, str):
+                    raise Exception("encrypted column {} is not assigned from another column".format(k))
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
         return result
-- 
2.43.0


From f8deee25934714e0650b289764c1506c8e1b7e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 10/61] fix: keep the direction of ORDER BY on an encrypted
 column

---
 scheduler/handers/clause/function.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..9e97e74 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -10,4 +10,4 @@ class OrderBy(Rewriter):
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return {**orderby_val, 'value': col['enc-cols']['order-preserving']}
-- 
2.43.0


From b2162a294a759456956d89721dea5eb1725b3990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:10 +0000
Subject: [PATCH 11/61] fix: quote identifiers for MySQL with back quotes

---
 scheduler/handers/rewrite_hander.py | 2 +-
 scheduler/schema/metadata.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 2adf31b..89f99fb 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -79,7 +79,7 @@ class Rewriter(Clause):
         Delta.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
-        return format(json), table
+        return format(json, ansi_quotes=False), table
 
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..988ac11 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -234,7 +234,7 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
-            enc_query = format(json)
+            enc_query = format(json, ansi_quotes=False)
             table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
 
-- 
2.43.0


From 3dcc467ac9b796b74574c29b6cda49c16bd3ad27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 12/61] fix: report a statement the database rejects instead of
 treating it as executed

---
 scheduler/backend/executors/remote_executor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..def4640 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -106,6 +106,7 @@ class RemoteExecutor(AbstractQueryExecutor):
             logger.info(e)
             if query_type == QueryType.CREATE:
                 self.meta.delete_delta(self.str_db, self.table['table'])
+            raise e
         if query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
         elif query_type == QueryType.SELECT:
-- 
2.43.0


From e2eb52c7bc8031a1bdb33cb51a14d45b9eea03c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 13/61] fix: key the connection pools by every connection
 parameter, the password included

---
 scheduler/backend/executors/remote_executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index def4640..f45fa7f 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -46,13 +46,13 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], str(conn_info['port']), conn_info['db'], conn_info['user'], conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
             connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            logging.info("mysql connected from {}".format(db_key[:4]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From 2de11f730bbec650175fe74d87f17d7e5db95858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 14/61] fix: give every encrypted query an id of its own

---
 scheduler/backend/execution_context.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..e7010ae 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -5,6 +5,7 @@ from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
 import time
+import uuid
 
 id_sql_map = {}
 
@@ -52,8 +53,7 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
+    curr_id = str(int(round(time.time() * 1000))) + '-' + uuid.uuid4().hex
     id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
     return enc_query, table, curr_id
 
-- 
2.43.0


From d12eceed5fadf9eb5490ceebe35e61cb2fe5350d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 15/61] fix: decrypt later results with NULL and non-text cells

---
 scheduler/handers/decrypt_handler.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..0e62f46 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -46,7 +46,6 @@ class DecryptHandler(Handler):
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = eval(col_val.__str__())
-- 
2.43.0


From 310c58875ff4c40eac7a1c021fd19850b9042657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 16/61] fix: do not exceed maxconnections when the shared cache
 is not full

---
 dbutils/pooled_db.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..96e38b2 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -290,7 +290,9 @@ class PooledDB:
                 while (not self._shared_cache and self._maxconnections
                         and self._connections >= self._maxconnections):
                     self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
+                if len(self._shared_cache) < self._maxshared and not (
+                        self._maxconnections
+                        and self._connections >= self._maxconnections):
                     # shared cache is not full, get a dedicated connection
                     try:  # first try to get it from the idle cache
                         con = self._idle_cache.pop(0)
-- 
2.43.0


From 4a90850a84642687610b289e92e813129257bb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 17/61] fix: do not count and cache a shared connection again
 that the closed pool has given up

---
 dbutils/pooled_db.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 96e38b2..4de841b 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -346,7 +346,7 @@ class PooledDB:
                 try:  # so try to remove it
                     self._shared_cache.remove(con)  # from shared cache
                 except ValueError:
-                    pass  # pool has already been closed
+                    return  # pool has already been closed
         if not shared:  # connection has become idle,
             self.cache(con.con)  # so add it to the idle cache
 
-- 
2.43.0


From 2b721bd630dfa43cb4e20c7e942ce729733d0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 18/61] fix: keep the table metadata an encrypted query was
 made with, whatever is dropped or created before its result is decrypted

---
 scheduler/backend/execution_context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index e7010ae..a4c62da 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -54,7 +54,7 @@ def encrypt_sql2(db, sql):
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
     curr_id = str(int(round(time.time() * 1000))) + '-' + uuid.uuid4().hex
-    id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
+    id_sql_map[curr_id] = [select_columns, select_types, dict(db_meta), table, select_state]
     return enc_query, table, curr_id
 
 
-- 
2.43.0


From e7f4d37e1b77cb0dd4b45c41113535d0381ffd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 19/61] fix: drop the metadata of a CREATE TABLE that gets no
 cursor

---
 scheduler/backend/executors/remote_executor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index f45fa7f..88a67bf 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -95,12 +95,12 @@ class RemoteExecutor(AbstractQueryExecutor):
                 if not isinstance(self.table, dict):
                     # todo: 长达支持table为dict
                     enc_query = self.inject_procedure(enc_query, use_cursor)
-            cursor = self.conn.cursor()
         except Exception as e:
             logger.info(e)
             raise e
         start_time = time.time()
         try:
+            cursor = self.conn.cursor()
             cursor.execute(enc_query)
         except Exception as e:
             logger.info(e)
-- 
2.43.0


From 44010ac9118097e45550d5b48a76c44187d3931d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 20/61] fix: keep using the sqlite metadata store instead of
 connecting to MySQL

---
 scheduler/schema/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 988ac11..58bfafa 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -28,6 +28,8 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
-- 
2.43.0


From 6f0133c3549f43e028798f192ddd811d45c31dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 21/61] fix: delete the metadata rows of a table whatever
 characters its name contains

---
 scheduler/schema/metadata.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 58bfafa..f4ae3db 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -22,9 +22,11 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
               port=int(config['meta']['mysql']["port"])
             )
         insert_sql = 'insert into p_db_meta values(%s,%s,%s,%s,%s,%s)'
+        delete_sql = 'delete from p_db_meta where database_name = %s and table_name = %s'
     else:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
         insert_sql = 'insert into p_db_meta values (?,?,?,?,?,?)'
+        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
 
 
 def test_connection(_db_conn):
@@ -125,8 +127,7 @@ class Delta(object):
         self.meta[db].pop(table, None)
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
+        cu.execute(delete_sql, (db, table))
         if config['meta']['type'] == 'mysql':
             self.db_conn.commit()
         else:
-- 
2.43.0


From 4170e6b322d6ca87963eaea25d2217e8c9757e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 22/61] fix: do not mix the stored metadata of a table with
 that of an earlier table of the same name

---
 scheduler/schema/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index f4ae3db..439a6c3 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -140,6 +140,8 @@ class Delta(object):
         for t_name, t_value in table_meta.items():
             table_name = t_name
             table_anonymous = t_value['anonymous']
+            # a table created again replaces what is stored for its name
+            cu.execute(delete_sql, (db_name, table_name))
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-- 
2.43.0


From 90aa74ba4960fcc9ef7f71bf2de5ee17e64604ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 23/61] fix: write decimal(m,d) columns of a created table with
 both numbers

---
 scheduler/handers/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..ea73a79 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -37,7 +37,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         if col['name'] not in encrypted_cols:
             for t_k, t_v in col_type.items():
                 if t_v:
-                    enc_col_type = t_k + '(' + str(t_v) + ')'
+                    sizes = t_v if isinstance(t_v, list) else [t_v]
+                    enc_col_type = t_k + '(' + ','.join(str(size) for size in sizes) + ')'
                 else:
                     enc_col_type = t_k
                 if col.get('default'):
-- 
2.43.0


From d3851f18152b733c00e85b83d79f4e19647d00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 24/61] fix: create encrypted columns of types with a display
 width such as int(11)

---
 scheduler/handers/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index ea73a79..be09ffd 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -61,7 +61,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
                 columns_kv[col_name]['type'] = t_k
-                if t_v:
+                if t_v and callable(v):
                     t_k, t_l = v(t_k, t_v)
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
-- 
2.43.0


From bd75ba4d4c6e8e508e50e8384466d5dc1b4f8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 25/61] fix: write the defaults of a created table as SQL
 literals, encrypted per column like inserted values

---
 scheduler/handers/table.py | 67 +++++++++++++-------------------------
 1 file changed, 22 insertions(+), 45 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index be09ffd..87f3427 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -4,7 +4,8 @@ import string
 import random
 
 from sql_parsing import parse_mysql as parse
-from scheduler.crypto import encrypt
+from sql_parsing.formatting import Formatter
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
@@ -41,14 +42,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + ','.join(str(size) for size in sizes) + ')'
                 else:
                     enc_col_type = t_k
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    default_value = ' DEFAULT ' + default_value
-                else:
-                    default_value = ''
+                default_value = get_default(col)
                 enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
@@ -66,58 +60,26 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
                     enc_col_type = v
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    key = encrypted_cols[col['name']]['key']
-                    default_value = ' DEFAULT ' + encrypt.AESCipher(key).encrypt(default_value)
-                else:
-                    default_value = ''
+                default_value = get_default(col, encrypted_cols[col['name']], k)
                 enc_columns.append(enc_col_name + ' ' + enc_col_type + is_nullable + primary_key_plus + default_value)
                 columns_kv[col_name]['enc-cols'].update({k: enc_col_name})
         if encrypted_cols[col['name']]['fuzzy']:
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols[col['name']], 'fuzzy')
             enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('homomorphic_key', "")
-                default_value = ' DEFAULT ' + encrypt.HomomorphicCipher(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols[col['name']], 'arithmetic')
             enc_columns.append(enc_col_name + ' ' + arithmetic_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"arithmetic": enc_col_name})
             columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
         if encrypted_cols[col['name']].get('sm4'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4_key', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_default(col, encrypted_cols[col['name']], 'sm4')
             enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
             columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
@@ -149,6 +111,21 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def get_default(col, keys=None, enc=None):
+    """the DEFAULT phrase of a column, encrypted like an inserted value when the keys of the column are given"""
+    if 'default' not in col:
+        return ''
+    value = col['default']
+    if isinstance(value, str):
+        if keys is not None:
+            raise Exception("the default {} of column {} can not be encrypted".format(value, col['name']))
+        return ' DEFAULT ' + value
+    if keys is not None:
+        info = dict(keys, type=list(col['type'].keys())[0])
+        value = SQLValues({'': {'columns': {col['name']: info}}}).encrypt_value('', col['name'], value, enc)['value']
+    return ' DEFAULT ' + Formatter(ansi_quotes=False).dispatch(value)
+
+
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
     if not isinstance(columns, list):
         columns = [columns]
-- 
2.43.0


From 6f912057a40ad79bde5fb8b8a1c915011ceb9a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:49 +0000
Subject: [PATCH 26/61] fix: quote the column and constraint names of a created
 table that need it

---
 scheduler/handers/table.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 87f3427..a62355f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -43,7 +43,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                 else:
                     enc_col_type = t_k
                 default_value = get_default(col)
-                enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
+                enc_columns.append(quote(col_name) + ' ' + enc_col_type + is_nullable + primary_key + default_value)
                 columns_kv[col_name]['plaintext'] = True
                 columns_kv[col_name]['type'] = t_k
                 columns_kv[col_name]['key'] = ""
@@ -111,6 +111,10 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def quote(name):
+    return Formatter(ansi_quotes=False).dispatch(name)
+
+
 def get_default(col, keys=None, enc=None):
     """the DEFAULT phrase of a column, encrypted like an inserted value when the keys of the column are given"""
     if 'default' not in col:
@@ -132,13 +136,13 @@ def get_enc_columns(columns, columns_info, cipher='symmetric'):
     enc_columns = []
     for i in columns:
         feature_info = columns_info.get(i, {})
-        enc_feature = i if feature_info.get('plaintext') else feature_info['enc-cols'][cipher]
+        enc_feature = quote(i) if feature_info.get('plaintext') else feature_info['enc-cols'][cipher]
         enc_columns.append(enc_feature)
     return enc_columns
 
 
 def get_constraint_key(constraint, columns_info, db=None):
-    constraint_name = f"CONSTRAINT {constraint['name']} " if constraint.get('name') else ''
+    constraint_name = f"CONSTRAINT {quote(constraint['name'])} " if constraint.get('name') else ''
     key_cons = constraint.get('foreign_key', constraint.get('primary_key'))
     assert key_cons is not None, 'constraint only support primary/foreign key'
     reference = key_cons.get('references')
-- 
2.43.0


From a6799b61c1109275f6f05498f160c5cefa00313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:31 +0000
Subject: [PATCH 27/61] fix: parenthesise a LIKE pattern that is not a simple
 expression

---
 sql_parsing/formatting.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3a03eaa..223d4ef 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -66,6 +66,8 @@ def escape(ident, ansi_quotes, should_quote):
 def Operator(_op):
     op_prec = precedence[binary_ops[_op]]
     op = " {0} ".format(_op).replace("_", " ").upper()
+    # THE PATTERN OF LIKE IS A SIMPLE EXPRESSION
+    last_prec = precedence["collate"] if _op in ("like", "not like") else op_prec - 0.25
 
     def func(self, json, prec):
         acc = []
@@ -79,8 +81,10 @@ def Operator(_op):
         for i, v in enumerate(listwrap(json)):
             if i == 0 and op_prec != precedence["eq"]:
                 acc.append(self.dispatch(v, op_prec))
-            else:
+            elif i == 0:
                 acc.append(self.dispatch(v, op_prec - 0.25))
+            else:
+                acc.append(self.dispatch(v, last_prec))
         if prec >= op_prec:
             return op.join(acc)
         else:
-- 
2.43.0


From 8523d88a0d143e977160696e9447928d7760df34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 28/61] fix: keep the metadata of the first created table where
 every reader looks for it

---
 scheduler/schema/metadata.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 439a6c3..11283d2 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -116,7 +116,8 @@ class Delta(object):
                 self.meta[db_name].update(table_meta)
 
         else:
-            self.meta = {
+            # one store for the class: get_paillier_procedure_info reads it there
+            Delta.meta = {
                 db_name: table_meta
             }
         # update database meta
-- 
2.43.0


From 204494fe1ced96504d1e00624d827f9aee5324bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:44 +0000
Subject: [PATCH 29/61] fix: tokenise an unterminated string with many
 backslashes in linear time

---
 scheduler/compile/parse/keywords.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scheduler/compile/parse/keywords.py b/scheduler/compile/parse/keywords.py
index d078d59..179f174 100644
--- a/scheduler/compile/parse/keywords.py
+++ b/scheduler/compile/parse/keywords.py
@@ -66,9 +66,10 @@ SQL_REGEX = {
         (r'(?![_A-ZÀ-Ü])-?(\d+(\.\d*)|\.\d+)(?![_A-ZÀ-Ü])',
          tokens.Number.Float),
         (r'(?![_A-ZÀ-Ü])-?\d+(?![_A-ZÀ-Ü])', tokens.Number.Integer),
-        (r"'(''|\\\\|\\'|[^'])*'", tokens.String.Single),
+        # a backslash is read in one way only: backtracking must not be exponential
+        (r"'(''|\\\\|\\'|[^'\\]|\\(?!\\))*'", tokens.String.Single),
         # not a real string literal in ANSI SQL:
-        (r'"(""|\\\\|\\"|[^"])*"', tokens.String.Symbol),
+        (r'"(""|\\\\|\\"|[^"\\]|\\(?!\\))*"', tokens.String.Symbol),
         (r'(""|".*?[^\\]")', tokens.String.Symbol),
         # sqlite names can be escaped with [square brackets]. left bracket
         # cannot be preceded by word character or a right bracket --
-- 
2.43.0


From ace1e30274a59ac6c96f688ddbd9aeb77b4c31f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:41 +0000
Subject: [PATCH 30/61] fix: keep the alias of a single selected item out of
 the column rewriting

---
 scheduler/handers/clause/sql_select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..8269555 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -101,6 +101,9 @@ class SQLSelect(Rewriter):
                         return t_name + col['enc-cols'][cipher]
 
         if isinstance(select_val, dict):
+            if 'value' in select_val:
+                # a single item, possibly under an alias
+                return {**select_val, 'value': self.rewrite(select_val['value'], table)}
             result = {}
             for k, v in select_val.items():
                 if k in FUNC_CIPHERS.keys():
-- 
2.43.0


From 217042c7feb44e64bde59910bacb6360dd743eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:46 +0000
Subject: [PATCH 31/61] fix: a COUNT of an encrypted column is not decrypted

---
 scheduler/handers/clause/sql_select.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 8269555..b544a77 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -108,6 +108,11 @@ class SQLSelect(Rewriter):
             for k, v in select_val.items():
                 if k in FUNC_CIPHERS.keys():
                     result[k] = self.rewrite(v, table, FUNC_CIPHERS[k])
+                elif k == 'count' and isinstance(v, str):
+                    # the number of values is no ciphertext
+                    result[k] = self.rewrite(v, table)
+                    self.select_state[-1] = "plaintext"
+                    self.select_types[-1] = "int"
                 elif k == 'add':
                     v0, v1 = self.rewrite(v[0], table), self.rewrite(v[1], table)
                     cipher_text = self.select_state.pop()
-- 
2.43.0


From 566b784d6f1821b4417186e26ec441d68d0692df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:30 +0000
Subject: [PATCH 32/61] fix: an identifier ending in a newline is quoted

---
 sql_parsing/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 223d4ef..52800d2 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -19,7 +19,7 @@ from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 MAX_PRECEDENCE = 100
-VALID = re.compile(r"^[a-zA-Z_]\w*$")
+VALID = re.compile(r"^[a-zA-Z_]\w*\Z")
 
 
 def is_keyword(identifier):
-- 
2.43.0


From 9e3c996926f342ad36a3d2cea3d3354b4c14c754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 33/61] fix: a path that only goes up is split, appended and
 made relative like the others

---
 dots/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index 171ffde..0cd77b6 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -155,6 +155,8 @@ def split_field(field):
         if field.startswith(".."):
             remainder = field.lstrip(".")
             back = len(field) - len(remainder) - 1
+            if not remainder:
+                return [-1] * back
             return [-1] * back + [
                 k.replace("\a", ".") for k in remainder.replace("\\.", "\a").replace("\b", "\\.").split(".")
             ]
@@ -197,7 +199,7 @@ def concat_field(prefix, suffix):
         back = len(suffix) - len(remainder) - 1
         prefix_path = split_field(prefix)
         if len(prefix_path) >= back:
-            return join_field(split_field(prefix)[:-back] + split_field(remainder))
+            return join_field(split_field(prefix)[:-back] + (split_field(remainder) if remainder else []))
         else:
             return "." * (back - len(prefix_path)) + "." + remainder
     else:
@@ -244,7 +246,8 @@ def relative_field(field, parent):
         return join_field(field_path[common:])
     else:
         dots = "." * (len(parent_path) - common)
-        return dots + "." + join_field(field_path[common:])
+        rest = field_path[common:]
+        return dots + "." + (join_field(rest) if rest else "")
 
 
 def hash_value(v):
-- 
2.43.0


From 720e5a948ea875d74b6fe72bfac9ffcbd8159139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 34/61] fix: the tail of a path keeps the dots of its names
 escaped

---
 dots/__init__.py | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index 0cd77b6..5ee1eb5 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -130,19 +130,10 @@ def tail_field(field):
     RETURN THE FIRST STEP IN PATH, ALONG WITH THE REMAINING TAIL
     IN (first, rest) PAIR
     """
-    if field == "." or field == None:
+    path = split_field(field)
+    if not path:
         return ".", "."
-    elif "." in field:
-        if "\\." in field:
-            path = field.replace("\\.", "\a").replace("\b", "\\.").split(".", 1)
-            if len(path) == 1:
-                return path[0].replace("\a", "."), "."
-            else:
-                return tuple(k.replace("\a", ".") for k in path)
-        else:
-            return field.split(".", 1)
-    else:
-        return field, "."
+    return path[0], join_field(path[1:])
 
 
 def split_field(field):
-- 
2.43.0


From 84068df9baeab47a7fdc50e5fb669c7624217bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:30 +0000
Subject: [PATCH 35/61] fix: compare paths step by step, names ending in a
 backslash included

---
 dots/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/dots/__init__.py b/dots/__init__.py
index 5ee1eb5..11788d1 100644
--- a/dots/__init__.py
+++ b/dots/__init__.py
@@ -212,10 +212,8 @@ def startswith_field(field, prefix):
         # else:
         #     return True
 
-    if field.startswith(prefix):
-        if len(field) == len(prefix) or field[len(prefix)] == ".":
-            return True
-    return False
+    prefix_path = split_field(prefix)
+    return split_field(field)[:len(prefix_path)] == prefix_path
 
 
 def relative_field(field, parent):
-- 
2.43.0


From 0dea223e3a50ba465e62f71d2d699cc3e699eced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 36/61] fix: INSERT writes single values, rows without column
 names and queries

---
 sql_parsing/formatting.py | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 52800d2..b7cfc43 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -607,7 +607,7 @@ class Formatter:
         acc.append(json["insert"])
 
         if "columns" in json:
-            acc.append(self.sql_list(json["columns"]))
+            acc.append(self.sql_list(listwrap(json["columns"])))
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
@@ -624,24 +624,20 @@ class Formatter:
                 if "if exists" in json:
                     acc.append("IF EXISTS")
                 acc.append("VALUES")
-                for row in values:
-                    acc.append("(" + ", ".join(self._literal(row)) + ")")
+                acc.append(",\n".join(self._literal(row) for row in values))
         elif "query" in json:
-            query_values = json["query"]
-            if "select" in query_values:
-                values = query_values["select"]
-                if all(isinstance(row, dict) for row in values):
-                    if "if exists" in json:
-                        acc.append("IF EXISTS")
-                    acc.append("VALUES")
-                    acc.append(
-                        "(" + ", ".join(self.dispatch(v["value"]) for v in values) + ")"
-                    )
-
-        else:
             if "if exists" in json:
                 acc.append("IF EXISTS")
-            acc.append(self.dispatch(json["query"]))
+            query_values = json["query"]
+            values = listwrap(query_values.get("select"))
+            if list(query_values) == ["select"] and all(isinstance(v, dict) for v in values):
+                # VALUES ( ... ) IS PARSED AS A SELECT OF NOTHING BUT VALUES
+                acc.append("VALUES")
+                acc.append(
+                    "(" + ", ".join(self.dispatch(v["value"]) for v in values) + ")"
+                )
+            else:
+                acc.append(self.dispatch(query_values))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From 144e13503bdd181a90e73ef09e95d98ebf99f4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 37/61] fix: FETCH writes its own row count

---
 sql_parsing/formatting.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index b7cfc43..a8569f9 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -595,8 +595,8 @@ class Formatter:
         return f"OFFSET {num}"
 
     def fetch(self, json, prec):
-        num = self.dispatch(json["offset"], precedence["order"])
-        return f"FETCH {num} ROWS ONLY"
+        num = self.dispatch(json["fetch"], precedence["order"])
+        return f"FETCH FIRST {num} ROWS ONLY"
 
     def insert(self, json, prec=precedence["from"]):
         acc = ["INSERT"]
-- 
2.43.0


From 5923fd55b3bc2655171a2f4def7cee75db3142e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 38/61] fix: ORDER BY writes NULLS FIRST and NULLS LAST

---
 sql_parsing/formatting.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index a8569f9..8d3ce55 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -582,6 +582,7 @@ class Formatter:
                 + " "
                 + s.get("sort", "").upper()
             ).strip()
+            + (" NULLS " + s["nulls"].upper() if "nulls" in s else "")
             for s in listwrap(json["orderby"])
         )
         return f"ORDER BY {param}"
-- 
2.43.0


From a7332c4d44d6c86d91b80711cda76f40ed6eaa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 39/61] fix: window frames that start at the current row,
 PARTITION BY with several expressions

---
 sql_parsing/formatting.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 8d3ce55..0073989 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -216,7 +216,9 @@ class Formatter:
             window = []
             if "partitionby" in over:
                 window.append("PARTITION BY")
-                window.append(self.dispatch(over["partitionby"]))
+                window.append(
+                    ", ".join(self.dispatch(p) for p in listwrap(over["partitionby"]))
+                )
             if "orderby" in over:
                 window.append(self.orderby(over, precedence["window"]))
             if "range" in over:
@@ -244,10 +246,11 @@ class Formatter:
                         window.extend(wordy(max))
                 elif min == 0:
                     if max is None:
-                        window.append("UNBOUNDED FOLLOWING")
+                        window.append("BETWEEN CURRENT ROW AND UNBOUNDED FOLLOWING")
                     elif max == 0:
                         window.append("CURRENT ROW")
                     else:
+                        window.append("BETWEEN CURRENT ROW AND")
                         window.extend(wordy(max))
                 else:
                     if max is None:
-- 
2.43.0


From 6fe167177668543580236f69120448b37841d0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 40/61] fix: JOIN ... USING writes its columns in parentheses

---
 sql_parsing/formatting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 0073989..f3c95f0 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -470,7 +470,7 @@ class Formatter:
             acc.append(self.dispatch(json["on"]))
         if json.get("using"):
             acc.append("USING")
-            acc.append(self.dispatch(json["using"]))
+            acc.append(self.sql_list(listwrap(json["using"])))
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
-- 
2.43.0


From 9e92369004e0b30096d5803d0891b094ea5c7830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:35 +0000
Subject: [PATCH 41/61] fix: DROP writes IF EXISTS and the kind of what is
 dropped

---
 sql_parsing/formatting.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index f3c95f0..2f5022b 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -647,9 +647,12 @@ class Formatter:
     def drop(self, json, prec=precedence["from"]):
         acc = ["DROP"]
         values = json['drop']
-        if 'table' in values:
-            acc.append("TABLE")
-            acc.append(values['table'])
+        for kind in ("table", "view", "index"):
+            if kind in values:
+                acc.append(kind.upper())
+                if "if_exists" in values:
+                    acc.append("IF EXISTS")
+                acc.append(values[kind])
         return " ".join(acc)
 
 
-- 
2.43.0


From e3b8e4cd2ec8ac2b30369675f2818be16b878432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:41 +0000
Subject: [PATCH 42/61] fix: the comparison <=> is written as an operator

---
 sql_parsing/formatting.py | 1 +
 sql_parsing/keywords.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 2f5022b..a369d8a 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -656,5 +656,6 @@ class Formatter:
         return " ".join(acc)
 
 
+setattr(Formatter, "_eq!", Operator("<=>"))
 setattr(Formatter, "with", Formatter.with_)
 setattr(Formatter, "from", Formatter.from_)
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index da4ff92..3be2869 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -260,6 +260,7 @@ precedence = {
     "lt": 8,
     "gt": 8,
     "eq": 8,
+    "eq!": 8,
     "neq": 8,
     "missing": 8,
     "exists": 8,
-- 
2.43.0


From 7357eee1dbd1125d09972ee7130d98f2da959520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:51 +0000
Subject: [PATCH 43/61] fix: IS DISTINCT FROM and IS NOT DISTINCT FROM have
 their own meanings

---
 sql_parsing/formatting.py | 5 +++++
 sql_parsing/keywords.py   | 4 ++--
 sql_parsing/utils.py      | 8 ++++----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index a369d8a..f2a38a4 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -311,6 +311,10 @@ class Formatter:
     def _not(self, value, prec):
         return "NOT({0})".format(self.dispatch(value))
 
+    def _not_same(self, value, prec):
+        # MYSQL HAS NO IS DISTINCT FROM
+        return "NOT({0})".format(self.dispatch({"eq!": value}))
+
     def _exists(self, value, prec):
         return "{0} IS NOT NULL".format(self.dispatch(value, precedence["binary_or"]))
 
@@ -657,5 +661,6 @@ class Formatter:
 
 
 setattr(Formatter, "_eq!", Operator("<=>"))
+setattr(Formatter, "_ne!", Formatter._not_same)
 setattr(Formatter, "with", Formatter.with_)
 setattr(Formatter, "from", Formatter.from_)
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 3be2869..2991c8b 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -101,12 +101,12 @@ DEQ = (
 IDF = (
     # decisive equality
     # https://prestodb.io/docs/current/functions/comparison.html#is-distinct-from-and-is-not-distinct-from
-    keyword("is distinct from").set_parser_name("eq!")
+    keyword("is distinct from").set_parser_name("ne!")
 )
 INDF = (
     # decisive equality
     # https://prestodb.io/docs/current/functions/comparison.html#is-distinct-from-and-is-not-distinct-from
-    keyword("is not distinct from").set_parser_name("ne!")
+    keyword("is not distinct from").set_parser_name("eq!")
 )
 NEQ = (Literal("!=") | Literal("<>")).set_parser_name("neq")
 LAMBDA = Literal("->").set_parser_name("lambda")
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..e6b68dc 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -257,10 +257,10 @@ binary_ops = {
     ">=": "gte",
     "=": "eq",
     "==": "eq",
-    "is distinct from": "eq!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
-    "is_distinct_from": "eq!",
-    "is not distinct from": "ne!",
-    "is_not_distinct_from": "ne!",
+    "is distinct from": "ne!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
+    "is_distinct_from": "ne!",
+    "is not distinct from": "eq!",
+    "is_not_distinct_from": "eq!",
     "<=>": "eq!",  # https://sparkbyexamples.com/apache-hive/hive-relational-arithmetic-logical-operators/
     "!=": "neq",
     "<>": "neq",
-- 
2.43.0


From 583140dd0f92bcb7a2ff8b1ab122120b52257d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:50 +0000
Subject: [PATCH 44/61] fix: a query in the place of an expression stands in
 parentheses

---
 sql_parsing/__init__.py   |  2 +-
 sql_parsing/formatting.py | 19 ++++++++++++++-----
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 919d09c..6fbbeec 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -86,7 +86,7 @@ def _parse(parser, sql, null, calls):
 def format(json, **kwargs):
     from sql_parsing.formatting import Formatter
 
-    return Formatter(**kwargs).dispatch(json)
+    return Formatter(**kwargs).format(json)
 
 
 def parse_alter_key(sql):
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index f2a38a4..f7314b1 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -132,6 +132,8 @@ ordered_clauses = [
     "fetch",
 ]
 
+query_clauses = {"select", "select_distinct", "from"} | set(is_set_op)
+
 
 class Formatter:
     # infix operators
@@ -172,6 +174,9 @@ class Formatter:
         if isinstance(json, list):
             return self.sql_list(json, prec=precedence["list"])
         if isinstance(json, dict):
+            if prec == MAX_PRECEDENCE and json.keys() & query_clauses:
+                # A QUERY IN THE PLACE OF AN EXPRESSION
+                prec = precedence["list"]
             if len(json) == 0:
                 return ""
             elif "drop" in json:
@@ -296,7 +301,9 @@ class Formatter:
                 key.upper() + "()"
             )  # NOT SURE IF AN EMPTY dict SHOULD BE DELT WITH HERE, OR IN self.format()
         else:
-            params = ", ".join(self.dispatch(p) for p in listwrap(value))
+            # THE PARENTHESES OF THESE ARE THE ONES OF THEIR QUERY
+            prec = precedence["order"] if key in ("any", "all", "some", "array") else MAX_PRECEDENCE
+            params = ", ".join(self.dispatch(p, prec) for p in listwrap(value))
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
@@ -442,7 +449,7 @@ class Formatter:
 
     def _distinct(self, json, prec):
         return "DISTINCT " + ", ".join(
-            self.dispatch(v, precedence["select"]) for v in listwrap(json)
+            self.dispatch(v) for v in listwrap(json)
         )
 
     def _select_distinct(self, json, prec):
@@ -517,7 +524,9 @@ class Formatter:
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"]))
+                "{0} AS ({1})".format(
+                    part["name"], self.dispatch(part["value"], precedence["order"])
+                )
                 for part in with_
             )
             return "WITH {0}".format(parts)
@@ -585,7 +594,7 @@ class Formatter:
     def orderby(self, json, prec):
         param = ", ".join(
             (
-                self.dispatch(s["value"], precedence["order"])
+                self.dispatch(s["value"])
                 + " "
                 + s.get("sort", "").upper()
             ).strip()
@@ -645,7 +654,7 @@ class Formatter:
                     "(" + ", ".join(self.dispatch(v["value"]) for v in values) + ")"
                 )
             else:
-                acc.append(self.dispatch(query_values))
+                acc.append(self.dispatch(query_values, precedence["order"]))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From 5fb08828b68252b2827488d9a929b2d82a80df20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:29 +0000
Subject: [PATCH 45/61] fix: UNION DISTINCT, INTERSECT ALL and the other set
 operations are written as such

---
 sql_parsing/formatting.py |  5 +++++
 sql_parsing/keywords.py   |  5 +++++
 sql_parsing/utils.py      | 18 +++++++++++++++++-
 3 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index f7314b1..25c5f5c 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -159,9 +159,14 @@ class Formatter:
     _not_rlike = Operator("not rlike")
     _union = Operator("union")
     _union_all = Operator("union all")
+    _union_distinct = Operator("union distinct")
     _intersect = Operator("intersect")
+    _intersect_all = Operator("intersect all")
+    _intersect_distinct = Operator("intersect distinct")
     _minus = Operator("minus")
     _except = Operator("except")
+    _except_all = Operator("except all")
+    _except_distinct = Operator("except distinct")
 
     def __init__(self, ansi_quotes=True, should_quote=should_quote):
         self.ansi_quotes = ansi_quotes
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 2991c8b..e816d50 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -287,9 +287,14 @@ precedence = {
     "window": 35,
     "union": 40,
     "union_all": 40,
+    "union_distinct": 40,
     "except": 40,
+    "except_all": 40,
+    "except_distinct": 40,
     "minus": 40,
     "intersect": 40,
+    "intersect_all": 40,
+    "intersect_distinct": 40,
     "order": 50,
 }
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index e6b68dc..e2aa478 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -282,12 +282,28 @@ binary_ops = {
     "union": "union",
     "union_all": "union_all",
     "union all": "union_all",
+    "union distinct": "union_distinct",
     "except": "except",
+    "except all": "except_all",
+    "except distinct": "except_distinct",
     "minus": "minus",
     "intersect": "intersect",
+    "intersect all": "intersect_all",
+    "intersect distinct": "intersect_distinct",
 }
 
-is_set_op = ("union", "union_all", "except", "minus", "intersect")
+is_set_op = (
+    "union",
+    "union_all",
+    "union_distinct",
+    "except",
+    "except_all",
+    "except_distinct",
+    "minus",
+    "intersect",
+    "intersect_all",
+    "intersect_distinct",
+)
 
 
 def to_trim_call(tokens):
-- 
2.43.0


From 9631d1614a7d46a68e1aef0da7880c6cfdb712e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:23 +0000
Subject: [PATCH 46/61] fix: comparing with NULL is not IS NULL

---
 sql_parsing/utils.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index e2aa478..063bbdc 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -154,13 +154,14 @@ def to_json_operator(tokens):
     op = tokens[1]
     if not isinstance(op, text):
         op = op.type.parser_name
+    is_op = op in ("is", "is_not")
     op = binary_ops.get(op, op)
-    if op == "eq":
+    if op == "eq" and is_op:  # COMPARING WITH NULL IS NOT IS NULL
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
         elif tokens[0] is SQL_NULL:
             return Call("missing", tokens[2], {})
-    elif op == "neq":
+    elif op == "neq" and is_op:
         if tokens[2] is SQL_NULL:
             return Call("exists", tokens[0], {})
         elif tokens[0] is SQL_NULL:
-- 
2.43.0


From 2de565fc5425c91b3a1c1b69fa3e51b773616fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:34 +0000
Subject: [PATCH 47/61] fix: IN and NOT IN of a single value keep their
 parentheses

---
 sql_parsing/formatting.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 25c5f5c..73f8cc3 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -338,10 +338,17 @@ class Formatter:
             self.dispatch(pair[0], precedence["collate"]), pair[1]
         )
 
+    def _in_set(self, set):
+        if isinstance(set, dict) and "literal" in set:
+            return {"literal": listwrap(set["literal"])}
+        if isinstance(set, list) or isinstance(set, dict) and set.keys() & query_clauses:
+            return set
+        # A SET OF ONE VALUE IS PARSED AS THAT VALUE
+        return [set]
+
     def _in(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
+        set = self._in_set(set)
         sql = (
             self.dispatch(member, precedence["binary_or"])
             + " IN "
@@ -353,8 +360,7 @@ class Formatter:
 
     def _nin(self, json, prec):
         member, set = json
-        if "literal" in set:
-            set = {"literal": listwrap(set["literal"])}
+        set = self._in_set(set)
         sql = (
             self.dispatch(member, precedence["binary_or"])
             + " NOT IN "
-- 
2.43.0


From f5e3bbf9d7b4da281eb17f762986f5813d7c3611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:15 +0000
Subject: [PATCH 48/61] fix: a set operation keeps LIMIT 0 and FETCH

---
 sql_parsing/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 063bbdc..f520115 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -13,6 +13,7 @@ from dots import is_data, is_null, Data, from_data
 from parsing_future import text, number_types, binary_type, flatten
 from imports import expect
 from parsing import *
+from parsing.core import NO_RESULTS
 from parsing.utils import is_number, listwrap
 
 unary_ops = expect("unary_ops")
@@ -530,7 +531,8 @@ def to_union_call(tokens):
                 acc = {op: [acc, so]}
             last_union = op
 
-        if not tokens["orderby"] and not tokens["offset"] and not tokens["limit"]:
+        clauses = ["orderby", "limit", "offset", "fetch"]
+        if all(tokens[c] is NO_RESULTS for c in clauses):
             return acc
         else:
             output = {"from": acc}
-- 
2.43.0


From 39806c9bfb6fe8f8f57e3bf9cc46a25e225f986d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:01 +0000
Subject: [PATCH 49/61] fix: EXISTS of a query is not IS NOT NULL

---
 sql_parsing/formatting.py |  2 ++
 sql_parsing/utils.py      | 14 +++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 73f8cc3..d961338 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -328,6 +328,8 @@ class Formatter:
         return "NOT({0})".format(self.dispatch({"eq!": value}))
 
     def _exists(self, value, prec):
+        if isinstance(value, dict) and value.keys() & query_clauses:
+            return "EXISTS {0}".format(self.dispatch(value, precedence["in"]))
         return "{0} IS NOT NULL".format(self.dispatch(value, precedence["binary_or"]))
 
     def _missing(self, value, prec):
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index f520115..e9f1853 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -135,6 +135,15 @@ def to_lambda(tokens):
     return Call("lambda", [expr], {"params": list(params)})
 
 
+def _is_query(token):
+    while isinstance(token, ParseResults) and isinstance(token.type, Group):
+        # PARENTHESES CAUSE EXTRA GROUP LAYERS
+        token = token[0]
+    return isinstance(token, dict) and bool(
+        token.keys() & {"select", "select_distinct", "from", "union"}
+    )
+
+
 def to_json_operator(tokens):
     # ARRANGE INTO {op: params} FORMAT
     length = len(tokens.tokens)
@@ -163,7 +172,10 @@ def to_json_operator(tokens):
         elif tokens[0] is SQL_NULL:
             return Call("missing", tokens[2], {})
     elif op == "neq" and is_op:
-        if tokens[2] is SQL_NULL:
+        if tokens[2] is SQL_NULL and _is_query(tokens[0]):
+            # exists OF A QUERY IS EXISTS
+            return Call("not", [Call("missing", tokens[0], {})], {})
+        elif tokens[2] is SQL_NULL:
             return Call("exists", tokens[0], {})
         elif tokens[0] is SQL_NULL:
             return Call("exists", tokens[2], {})
-- 
2.43.0


From c070eaa0fa03f46c0916bd3f91baa20f5509af02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:01 +0000
Subject: [PATCH 50/61] fix: a number with a negative exponent is one number

---
 sql_parsing/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index e9f1853..81cbc72 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -621,7 +621,7 @@ def to_string(tokens):
 
 # NUMBERS
 real_num = (
-    Regex(r"[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?").set_parser_name("float")
+    Regex(r"[+-]?((\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE]-\d+)").set_parser_name("float")
     / (lambda t: float(t[0]))
 )
 
-- 
2.43.0


From e497bb596186cfa1d06407103298399aa7800d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:37 +0000
Subject: [PATCH 51/61] fix: names of statements' tables and of WITH are
 identifiers

The table of DELETE, UPDATE, INSERT and DROP and the name of a common
table expression were written as they are, unlike every other name: one
with a space, a dot or a keyword in it gave a statement that names
something else or cannot be read.
---
 sql_parsing/formatting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index d961338..9b2aa23 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -538,7 +538,7 @@ class Formatter:
                 with_ = [with_]
             parts = ", ".join(
                 "{0} AS ({1})".format(
-                    part["name"], self.dispatch(part["value"], precedence["order"])
+                    self.dispatch(part["name"]), self.dispatch(part["value"], precedence["order"])
                 )
                 for part in with_
             )
@@ -555,11 +555,11 @@ class Formatter:
             return f"SELECT {param}"
 
     def delete(self, json, prec):
-        param = "FROM " + json['delete']
+        param = "FROM " + self.dispatch(json['delete'])
         return f"DELETE {param}"
 
     def update(self, json, prec):
-        param = json['update']
+        param = self.dispatch(json['update'])
         return f"UPDATE {param}"
 
     def set(self, json, prec):
@@ -634,7 +634,7 @@ class Formatter:
             acc.append("OVERWRITE")
         else:
             acc.append("INTO")
-        acc.append(json["insert"])
+        acc.append(self.dispatch(json["insert"]))
 
         if "columns" in json:
             acc.append(self.sql_list(listwrap(json["columns"])))
@@ -678,7 +678,7 @@ class Formatter:
                 acc.append(kind.upper())
                 if "if_exists" in values:
                     acc.append("IF EXISTS")
-                acc.append(values[kind])
+                acc.append(self.dispatch(values[kind]))
         return " ".join(acc)
 
 
-- 
2.43.0


From 1b133bda542662e1519e94d476c6a972d2215f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:50 +0000
Subject: [PATCH 52/61] fix: a name with columns keeps its case, also in WITH

t AS x(a, b) was written as t AS X(a, b), which is another name, and
WITH w(a, b) AS (...) as the repr of a dictionary.
---
 sql_parsing/formatting.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 9b2aa23..69bb357 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -279,10 +279,17 @@ class Formatter:
             window = " ".join(window)
             parts.append(f"({window})")
         if "name" in json:
-            parts.extend(["AS", self.dispatch(json["name"])])
+            parts.extend(["AS", self._name(json["name"])])
 
         return " ".join(parts)
 
+    def _name(self, name):
+        if isinstance(name, dict):
+            # {NAME: COLUMNS} FORM
+            name, columns = first(name.items())
+            return f"{self.dispatch(name)}{self.sql_list(listwrap(columns))}"
+        return self.dispatch(name)
+
     def op(self, json, prec):
         if len(json) > 1:
             raise Exception("Operators should have only one key!")
@@ -538,7 +545,7 @@ class Formatter:
                 with_ = [with_]
             parts = ", ".join(
                 "{0} AS ({1})".format(
-                    self.dispatch(part["name"]), self.dispatch(part["value"], precedence["order"])
+                    self._name(part["name"]), self.dispatch(part["value"], precedence["order"])
                 )
                 for part in with_
             )
-- 
2.43.0


From 723e9b6fb34522426f9b3eeafc309f3143562ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:22 +0000
Subject: [PATCH 53/61] fix: WITH before a set operation keeps the query, WITH
 RECURSIVE is written

WITH w AS (...) SELECT ... UNION SELECT ... was written as the WITH alone
(or, with an ORDER BY, as WITH ... FROM (...)), and WITH RECURSIVE was
left out.
---
 sql_parsing/formatting.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 69bb357..b8871ef 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -112,7 +112,6 @@ def isolate(expr, sql, prec):
 
 
 unordered_clauses = [
-    "with",
     "distinct_on",
     "select_distinct",
     "select",
@@ -184,6 +183,8 @@ class Formatter:
                 prec = precedence["list"]
             if len(json) == 0:
                 return ""
+            elif "with" in json or "with_recursive" in json:
+                return self.with_query(json, prec)
             elif "drop" in json:
                 return self.drop(json)
             elif "value" in json:
@@ -538,18 +539,27 @@ class Formatter:
         else:
             return f"({sql})"
 
+    def with_query(self, json, prec):
+        # WHAT FOLLOWS WITH IS A QUERY, OR A SET OPERATION
+        query = {k: v for k, v in json.items() if k not in ("with", "with_recursive")}
+        sql = "{0} {1}".format(self.with_(json, prec), self.dispatch(query, precedence["order"]))
+        if prec >= precedence["order"]:
+            return sql
+        else:
+            return f"({sql})"
+
     def with_(self, json, prec):
         if "with" in json:
-            with_ = json["with"]
-            if not isinstance(with_, list):
-                with_ = [with_]
-            parts = ", ".join(
-                "{0} AS ({1})".format(
-                    self._name(part["name"]), self.dispatch(part["value"], precedence["order"])
-                )
-                for part in with_
+            keyword, with_ = "WITH", json["with"]
+        else:
+            keyword, with_ = "WITH RECURSIVE", json["with_recursive"]
+        parts = ", ".join(
+            "{0} AS ({1})".format(
+                self._name(part["name"]), self.dispatch(part["value"], precedence["order"])
             )
-            return "WITH {0}".format(parts)
+            for part in listwrap(with_)
+        )
+        return "{0} {1}".format(keyword, parts)
 
     def select(self, json, prec):
         param = ", ".join(self.dispatch(s) for s in listwrap(json["select"]))
@@ -585,7 +595,7 @@ class Formatter:
         is_join = False
         from_ = json["from"]
         if isinstance(from_, dict) and is_set_op & from_.keys():
-            source = self.op(from_, precedence["from"])
+            source = self.dispatch(from_, precedence["from"])
             return f"FROM {source}"
 
         from_ = listwrap(from_)
@@ -691,5 +701,4 @@ class Formatter:
 
 setattr(Formatter, "_eq!", Operator("<=>"))
 setattr(Formatter, "_ne!", Formatter._not_same)
-setattr(Formatter, "with", Formatter.with_)
 setattr(Formatter, "from", Formatter.from_)
-- 
2.43.0


From d2c9df37c8ae35fcf32b77bef2d800c523796512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:24 +0000
Subject: [PATCH 54/61] fix: a query in parentheses keeps what follows and
 precedes it

(SELECT ...) ORDER BY a LIMIT 2 was read as the query in the parentheses
alone, and (WITH w AS (...) SELECT ...) lost its WITH.
---
 sql_parsing/formatting.py |  5 +++--
 sql_parsing/utils.py      | 26 ++++++++++++++++++++++----
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index b8871ef..af8a49d 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -510,8 +510,9 @@ class Formatter:
             # regular query
             acc = [self.unordered_query(json, precedence["order"])]
         else:
-            # set-op expression
-            acc = [self.dispatch(json["from"], precedence["order"])]
+            # set-op expression, or a query with clauses of its own
+            from_ = json["from"]
+            acc = [self.dispatch(from_, precedence["order" if from_.keys() <= set(is_set_op) else "from"])]
 
         acc.extend(
             part
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 81cbc72..a906ba1 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -526,8 +526,16 @@ def to_select_call(tokens):
 
 def to_union_call(tokens):
     unions = tokens["union"]
+    clauses = ["orderby", "limit", "offset", "fetch"]
     if isinstance(unions, dict):
-        return unions
+        # A QUERY IN PARENTHESES
+        if all(tokens[c] is NO_RESULTS for c in clauses):
+            return unions
+        own = {k for k, v in unions.items() if v is not NO_RESULTS}
+        if own & {"with", "with_recursive", *clauses, *is_set_op}:
+            output = {"from": unions}
+        else:
+            output = dict(unions)
     elif unions.type.parser_name == "unordered sql":
         output = {k: v for k, v in unions.items()}  # REMOVE THE Group()
     else:
@@ -543,7 +551,6 @@ def to_union_call(tokens):
                 acc = {op: [acc, so]}
             last_union = op
 
-        clauses = ["orderby", "limit", "offset", "fetch"]
         if all(tokens[c] is NO_RESULTS for c in clauses):
             return acc
         else:
@@ -581,8 +588,19 @@ def to_insert_call(tokens):
 def to_query(tokens):
     output = tokens["query"][0]
     try:
-        output["with"] = tokens["with"]
-        output["with_recursive"] = tokens["with_recursive"]
+        for clause in ("with", "with_recursive"):
+            if tokens[clause] is NO_RESULTS:
+                continue
+            # THE QUERY CAN BE ONE IN PARENTHESES, WITH ITS OWN
+            parts = [tokens[clause], output.get(clause, NO_RESULTS)]
+            if parts[1] is NO_RESULTS:
+                output[clause] = tokens[clause]
+            else:
+                output[clause] = [
+                    part
+                    for with_ in parts
+                    for part in (list(with_) if with_["name"] is NO_RESULTS else [with_])
+                ]
 
         return output
     except Exception as cause:
-- 
2.43.0


From 567c61de6607675a4b68df0add02a50c4389ec52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:09 +0000
Subject: [PATCH 55/61] fix: an ALTER TABLE key statement is recognised only
 with its keywords and names apart

The patterns let keywords and names run together and names be empty:
'alter table t drop indexed' was read as DROP INDEX ed.
---
 sql_parsing/__init__.py | 118 ++++++++++++++++++++--------------------
 1 file changed, 59 insertions(+), 59 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 6fbbeec..ff8e6d4 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -91,40 +91,40 @@ def format(json, **kwargs):
 
 def parse_alter_key(sql):
     add_primary_key_pattern = re.compile(r'[ \t\n\r]*'
-                                         r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                         r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                         r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                         r'[aA][dD][dD][ \t\n\r]*'
-                                         r'[pP][rR][iI][mM][aA][rR][yY][ \t\n\r]*'
-                                         r'[kK][eE][yY][ \t\n\r]*'
-                                         r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*;?$')
+                                         r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                         r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                         r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                         r'\b[aA][dD][dD][ \t\n\r]*'
+                                         r'\b[pP][rR][iI][mM][aA][rR][yY][ \t\n\r]*'
+                                         r'\b[kK][eE][yY][ \t\n\r]*'
+                                         r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*;?$')
     add_primary_key = add_primary_key_pattern.match(sql)
     if add_primary_key:
         return {'alter': add_primary_key.group(2),
                 'add primary key': [{'value': i} for i in add_primary_key.group(3).split(',')]}
     drop_primary_key_pattern = re.compile(r'[ \t\n\r]*'
-                                          r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                          r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                          r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                          r'[dD][rR][oO][pP][ \t\n\r]*'
-                                          r'[pP][rR][iI][mM][aA][rR][yY][ \t\n\r]*'
-                                          r'[kK][eE][yY][ \t\n\r]*;?$')
+                                          r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                          r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                          r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                          r'\b[dD][rR][oO][pP][ \t\n\r]*'
+                                          r'\b[pP][rR][iI][mM][aA][rR][yY][ \t\n\r]*'
+                                          r'\b[kK][eE][yY][ \t\n\r]*;?$')
     drop_primary_key = drop_primary_key_pattern.match(sql)
     if drop_primary_key:
         return {'alter': drop_primary_key.group(2), 'drop primary key': True}
     add_foreign_key_pattern = re.compile(r'[ \t\n\r]*'
-                                         r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                         r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                         r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                         r'[aA][dD][dD][ \t\n\r]*'
-                                         r'[cC][oO][nN][sS][tT][rR][aA][iI][nN][tT][ \t\n\r]*'
-                                         r'(\w*)[ \t\n\r]*'
-                                         r'[fF][oO][rR][eE][iI][gG][nN][ \t\n\r]*'
-                                         r'[kK][eE][yY][ \t\n\r]*'
-                                         r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*'
-                                         r'[rR][eE][fF][eE][rR][eE][nN][cC][eE][sS][ \t\n\r]*'
-                                         r'(\w*)[ \t\n\r]*'
-                                         r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*;?$')
+                                         r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                         r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                         r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                         r'\b[aA][dD][dD][ \t\n\r]*'
+                                         r'\b[cC][oO][nN][sS][tT][rR][aA][iI][nN][tT][ \t\n\r]*'
+                                         r'(\b\w+|)[ \t\n\r]*'
+                                         r'\b[fF][oO][rR][eE][iI][gG][nN][ \t\n\r]*'
+                                         r'\b[kK][eE][yY][ \t\n\r]*'
+                                         r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*'
+                                         r'\b[rR][eE][fF][eE][rR][eE][nN][cC][eE][sS][ \t\n\r]*'
+                                         r'\b(\w+)[ \t\n\r]*'
+                                         r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*;?$')
     add_foreign_key = add_foreign_key_pattern.match(sql)
     if add_foreign_key:
         return {'alter': add_foreign_key.group(2), 'add constraint': add_foreign_key.group(3),
@@ -132,24 +132,24 @@ def parse_alter_key(sql):
                 'reference_table': add_foreign_key.group(5),
                 'reference_feature': [{'value': i} for i in add_foreign_key.group(6).split(',')]}
     drop_foreign_key_pattern = re.compile(r'[ \t\n\r]*'
-                                          r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                          r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                          r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                          r'[dD][rR][oO][pP][ \t\n\r]*'
-                                          r'[fF][oO][rR][eE][iI][gG][nN][ \t\n\r]*'
-                                          r'[kK][eE][yY][ \t\n\r]*'
-                                          r'(\w*)[ \t\n\r]*;?$')
+                                          r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                          r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                          r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                          r'\b[dD][rR][oO][pP][ \t\n\r]*'
+                                          r'\b[fF][oO][rR][eE][iI][gG][nN][ \t\n\r]*'
+                                          r'\b[kK][eE][yY][ \t\n\r]*'
+                                          r'\b(\w+)[ \t\n\r]*;?$')
     drop_foreign_key = drop_foreign_key_pattern.match(sql)
     if drop_foreign_key:
         return {'alter': drop_foreign_key.group(2), 'drop foreign key': drop_foreign_key.group(3)}
     add_index_pattern = re.compile(r'[ \t\n\r]*'
-                                   r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                   r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                   r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                   r'[aA][dD][dD][ \t\n\r]*'
-                                   r'[iI][nN][dD][eE][xX][ \t\n\r]*'
-                                   r'(\w*)[ \t\n\r]*'
-                                   r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*;?$')
+                                   r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                   r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                   r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                   r'\b[aA][dD][dD][ \t\n\r]*'
+                                   r'\b[iI][nN][dD][eE][xX][ \t\n\r]*'
+                                   r'(\b\w+|)[ \t\n\r]*'
+                                   r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*;?$')
     add_index = add_index_pattern.match(sql)
     if add_index:
         return {'alter': add_index.group(2),
@@ -157,13 +157,13 @@ def parse_alter_key(sql):
                 'add index feature': [{'value': i} for i in add_index.group(4).split(',')]}
 
     add_fulltext_pattern = re.compile(r'[ \t\n\r]*'
-                                      r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                      r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                      r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                      r'[aA][dD][dD][ \t\n\r]*'
-                                      r'[fF][uU][lL][lL][tT][eE][xX][tT][ \t\n\r]*'
-                                      r'(\w*)[ \t\n\r]*'
-                                      r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*;?$')
+                                      r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                      r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                      r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                      r'\b[aA][dD][dD][ \t\n\r]*'
+                                      r'\b[fF][uU][lL][lL][tT][eE][xX][tT][ \t\n\r]*'
+                                      r'(\b\w+|)[ \t\n\r]*'
+                                      r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*;?$')
     add_fulltext = add_fulltext_pattern.match(sql)
     if add_fulltext:
         return {'alter': add_fulltext.group(2),
@@ -171,13 +171,13 @@ def parse_alter_key(sql):
                 'add fulltext feature': [{'value': i} for i in add_fulltext.group(4).split(',')]}
 
     add_unique_pattern = re.compile(r'[ \t\n\r]*'
-                                    r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                    r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                    r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                    r'[aA][dD][dD][ \t\n\r]*'
-                                    r'[uU][nN][iI][qQ][uU][eE][ \t\n\r]*'
-                                    r'(\w*)[ \t\n\r]*'
-                                    r'\([ \t\n\r]*(\w*)[ \t\n\r]*\)[ \t\n\r]*;?$')
+                                    r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                    r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                    r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                    r'\b[aA][dD][dD][ \t\n\r]*'
+                                    r'\b[uU][nN][iI][qQ][uU][eE][ \t\n\r]*'
+                                    r'(\b\w+|)[ \t\n\r]*'
+                                    r'\([ \t\n\r]*(\w+)[ \t\n\r]*\)[ \t\n\r]*;?$')
     add_unique = add_unique_pattern.match(sql)
     if add_unique:
         return {'alter': add_unique.group(2),
@@ -185,12 +185,12 @@ def parse_alter_key(sql):
                 'add unique feature': [{'value': i} for i in add_unique.group(4).split(',')]}
 
     drop_index_pattern = re.compile(r'[ \t\n\r]*'
-                                    r'[aA][lL][tT][eE][rR][ \t\n\r]*'
-                                    r'[tT][aA][bB][lL][eE][ \t\n\r]*'
-                                    r'(`|\b)(\w*)\1[ \t\n\r]*'
-                                    r'[dD][rR][oO][pP][ \t\n\r]*'
-                                    r'[iI][nN][dD][eE][xX][ \t\n\r]*'
-                                    r'(\w*)[ \t\n\r]*;?$')
+                                    r'\b[aA][lL][tT][eE][rR][ \t\n\r]*'
+                                    r'\b[tT][aA][bB][lL][eE][ \t\n\r]*'
+                                    r'(`|\b)(\w+)\1[ \t\n\r]*'
+                                    r'\b[dD][rR][oO][pP][ \t\n\r]*'
+                                    r'\b[iI][nN][dD][eE][xX][ \t\n\r]*'
+                                    r'\b(\w+)[ \t\n\r]*;?$')
     drop_index = drop_index_pattern.match(sql)
     if drop_index:
         return {'alter': drop_index.group(2), 'drop index': drop_index.group(3)}
-- 
2.43.0


From 0977ea2805c3220ff5a652437f53031c30cb6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:55:09 +0000
Subject: [PATCH 56/61] fix: write back ALTER TABLE ADD INDEX/UNIQUE/FULLTEXT
 without a name, and quote the table

An index without a name was written back as None, a quoted reserved
table name without its quotes.
---
 sql_parsing/__init__.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index ff8e6d4..c7300a2 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -199,29 +199,32 @@ def parse_alter_key(sql):
 
 
 def format_alter_key(json):
+    from sql_parsing.formatting import escape, should_quote
+
+    table = escape(json['alter'], False, should_quote)
     if json.get('add primary key'):
-        return f"alter table {json['alter']} " \
+        return f"alter table {table} " \
                f"add primary key({','.join([i['value'] for i in json['add primary key']])});"
     if json.get('drop primary key'):
-        return f"alter table {json['alter']} drop primary key;"
+        return f"alter table {table} drop primary key;"
     if json.get('add foreign key'):
-        return f"alter table {json['alter']} add constraint {json['add constraint']} " \
+        return f"alter table {table} add constraint {json['add constraint']} " \
                f"foreign key({','.join([i['value'] for i in json['add foreign key']])}) " \
                f"REFERENCES {json['reference_table']}" \
                f"({','.join([i['value'] for i in json['reference_feature']])});"
     if json.get('drop foreign key'):
-        return f"alter table {json['alter']} drop foreign key {json['drop foreign key']};"
-    if json.get('add index'):
-        return f"alter table {json['alter']} " \
+        return f"alter table {table} drop foreign key {json['drop foreign key']};"
+    if 'add index' in json:
+        return f"alter table {table} " \
                f"add index {json['add index']}({','.join([i['value'] for i in json['add index feature']])});"
-    if json.get('add unique'):
-        return f"alter table {json['alter']} " \
+    if 'add unique' in json:
+        return f"alter table {table} " \
                f"add unique {json['add unique']}({','.join([i['value'] for i in json['add unique feature']])});"
-    if json.get('add fulltext'):
-        return f"alter table {json['alter']} " \
+    if 'add fulltext' in json:
+        return f"alter table {table} " \
                f"add fulltext {json['add fulltext']}({','.join([i['value'] for i in json['add fulltext feature']])});"
     if json.get('drop index'):
-        return f"alter table {json['alter']} drop index {json['drop index']};"
+        return f"alter table {table} drop index {json['drop index']};"
 
 
 _ = json.dumps
-- 
2.43.0


From 421140c610c1761e30c085a2c1ae612f63c8608d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 57/61] fix: change and store the shared metadata under a lock

Requests run in threads. Delta was published before its metadata was loaded, two requests adding the first tables of a
database lost one of them, and two requests changing tables mixed their transactions on the one connection to the store.
---
 scheduler/schema/metadata.py | 59 +++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 25 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 11283d2..7e34dac 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -2,6 +2,7 @@ import re
 import json
 import yaml
 import sqlite3
+import threading
 from copy import deepcopy
 
 from sql_parsing import parse_mysql as parse
@@ -95,44 +96,52 @@ FUNC_CIPHERS = {
 }
 
 
+# the requests of a process share the metadata and the connection to its store: they are changed and used by one request at a time
+meta_lock = threading.RLock()
+
+
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
         if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
-            cls.meta = cls.load_delta()
+            with meta_lock:
+                if Delta.__instance is None:
+                    cls.db_conn = db_conn
+                    cls.meta = cls.load_delta()
+                    # published once the metadata is loaded: another request does not take the lock
+                    Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
+        with meta_lock:
+            if self.meta:
+                if db_name not in self.meta.keys():
+                    self.meta.update({db_name: table_meta})
+                else:
+                    self.meta[db_name].update(table_meta)
 
-        else:
-            # one store for the class: get_paillier_procedure_info reads it there
-            Delta.meta = {
-                db_name: table_meta
-            }
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
-        return self.meta
+            else:
+                # one store for the class: get_paillier_procedure_info reads it there
+                Delta.meta = {
+                    db_name: table_meta
+                }
+            # update database meta
+            self.update_db_meta(db_name, table_meta)
+            return self.meta
 
     def delete_delta(self, db, table):
-        self.meta[db].pop(table, None)
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
-        cu.execute(delete_sql, (db, table))
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        with meta_lock:
+            self.meta[db].pop(table, None)
+            self.db_conn = test_connection(self.db_conn)
+            cu = self.db_conn.cursor()
+            cu.execute(delete_sql, (db, table))
+            if config['meta']['type'] == 'mysql':
+                self.db_conn.commit()
+            else:
+                cu.connection.commit()
 
     def update_db_meta(self, db_name, table_meta):
         self.db_conn = test_connection(self.db_conn)
-- 
2.43.0


From f84a6792745d5c27b464c3ee9793188b2d81f16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:25 +0000
Subject: [PATCH 58/61] fix: look through a copy of the tables while others may
 add one

A request creating or dropping a table in the same database made the condition's rewriting end with
'dictionary changed size during iteration'.
---
 scheduler/handers/clause/sql_where.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index feed374..4752e8f 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -65,7 +65,7 @@ class SQLWhere(Rewriter):
         """whether a column name anywhere in a condition names an encrypted column"""
         if isinstance(value, str):
             name = value.split('.')[-1]
-            tables = [col] if col else [table['columns'] for table in self.db_meta.values()]
+            tables = [col] if col else [table['columns'] for table in list(self.db_meta.values())]
             return any(name in columns and not columns[name]['plaintext'] for columns in tables)
         if isinstance(value, dict):
             return any(k != 'literal' and self.mentions_encrypted(v, col) for k, v in value.items())
-- 
2.43.0


From bdd6318ce291f809fdaca494c435a57f6f3fa4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:35 +0000
Subject: [PATCH 59/61] fix: keep the statement an aggregate is computed from
 with its request

The last rewritten statement was kept on the class: a request between rewriting and aggregating took the columns and the
FROM part of whatever statement another thread had rewritten last.
---
 scheduler/backend/executors/remote_executor.py | 2 +-
 scheduler/handers/rewrite_hander.py            | 7 +++----
 scheduler/schema/metadata.py                   | 6 +++---
 3 files changed, 7 insertions(+), 8 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 88a67bf..957e924 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -191,7 +191,7 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
+            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 89f99fb..e53194e 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -8,13 +8,12 @@ from scheduler.handers.clause.sql_clause import Clause
 from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
-from scheduler.schema.metadata import Delta
-
 
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.table_json = None
 
     def rewrite_query(self, query):
         """
@@ -75,8 +74,8 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
-        # record json in Delta
-        Delta.table_json = json
+        # record json: the procedures of an aggregate are written from it
+        self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json, ansi_quotes=False), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 7e34dac..d6dee50 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -220,11 +220,11 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
+        if table_json:
+            json = deepcopy(table_json)
         else:
             json = parse(enc_query)
         json.pop('limit', None)
-- 
2.43.0


From 171079d12b09c64a9de87a78798b3b79d2eb70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:50 +0000
Subject: [PATCH 60/61] fix: a request goes by the tables it began with

The rows of a SELECT are decrypted, and its aggregates taken, with the
recorded tables looked up again after the statement was sent: a table that
another request dropped meanwhile made it fail (KeyError), one created anew
made it decrypt with other keys.
---
 scheduler/backend/executors/remote_executor.py | 10 +++++++---
 scheduler/handers/clause/sql_clause.py         |  3 ++-
 scheduler/schema/metadata.py                   |  4 ++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 957e924..815b73d 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -191,7 +191,8 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
+            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json,
+                                              self.rewriter.db_meta)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
@@ -208,7 +209,10 @@ class RemoteExecutor(AbstractQueryExecutor):
         return enc_query
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        if self.rewriter is None:
+            return Delta().meta[self.str_db], self.table
+        # the tables the query was rewritten with: another request may have dropped or created one since
+        return self.rewriter.db_meta, self.table
 
     @property
     def str_db(self):
@@ -239,7 +243,7 @@ class ConvertExecutor(AbstractQueryExecutor):
         return self.rewriter.select.select_types
 
     def get_db_meta(self):
-        return Delta().meta[self.str_db], self.table
+        return self.rewriter.db_meta, self.table
 
 
 if __name__ == '__main__':
diff --git a/scheduler/handers/clause/sql_clause.py b/scheduler/handers/clause/sql_clause.py
index 3b06b1d..f89357d 100644
--- a/scheduler/handers/clause/sql_clause.py
+++ b/scheduler/handers/clause/sql_clause.py
@@ -10,7 +10,8 @@ class Clause(object):
         self.encrypted_cols = encrypted_cols
         self.origin_query = None
         if Delta().meta:
-            self.db_meta = Delta().meta.get(db, {})
+            # the tables as they are when the request begins: others may drop or create one meanwhile
+            self.db_meta = dict(Delta().meta.get(db, {}))
         for key, value in clause.items():
             if isinstance(value, dict):
                 for k, v in value.items():
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index d6dee50..d5160df 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -220,7 +220,7 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
+    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None, db_meta=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
         if table_json:
@@ -232,7 +232,7 @@ class Delta(object):
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
         homo_enc_dict = {}
-        columns_info = cls.meta[db][table_name]['columns']
+        columns_info = (cls.meta[db] if db_meta is None else db_meta)[table_name]['columns']
         for col, col_info in columns_info.items():
             if col_info['enc-cols'].get('arithmetic'):
                 n_square = (col_info['homomorphic_key'][0] * col_info['homomorphic_key'][1])**2
-- 
2.43.0


From eacadf6394980d3bdc6304f26693c6544ec2f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:53 +0000
Subject: [PATCH 61/61] fix: a dropped table takes only its own entry out of
 the metadata

DROP TABLE, and a CREATE TABLE the database refuses, deleted whatever was
recorded under the name: a table that another request had created anew after
the DROP was executed was lost.
---
 scheduler/backend/executors/remote_executor.py | 10 ++++++++--
 scheduler/handers/table.py                     |  2 +-
 scheduler/schema/metadata.py                   |  6 +++++-
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 815b73d..eadb80e 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -105,10 +105,10 @@ class RemoteExecutor(AbstractQueryExecutor):
         except Exception as e:
             logger.info(e)
             if query_type == QueryType.CREATE:
-                self.meta.delete_delta(self.str_db, self.table['table'])
+                self.delete_table_meta()
             raise e
         if query_type == QueryType.DROP:
-            self.meta.delete_delta(self.str_db, self.table['table'])
+            self.delete_table_meta()
         elif query_type == QueryType.SELECT:
             self.result = cursor.fetchall()
         else:
@@ -116,6 +116,12 @@ class RemoteExecutor(AbstractQueryExecutor):
         logger.info("Execute:{}".format(time.time() - start_time))
         self.conn.close()
 
+    def delete_table_meta(self):
+        # the table this request has recorded or dropped, not one of this name that another request has created since
+        name = self.table['table']
+        entry = self.table if 'anonymous' in self.table else self.rewriter.db_meta[name]
+        self.meta.delete_delta(self.str_db, name, entry['anonymous'])
+
     def encrypt_sql(self, query):
         try:
             logger.info("SQL:{}".format(query))
diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index a62355f..a3b703f 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -108,7 +108,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         }
     }
     Delta().update_delta(db, table_meta)
-    return query, {'table': table_name}
+    return query, {'table': table_name, 'anonymous': anonymous_table}
 
 
 def quote(name):
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index d5160df..d3a5202 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -132,8 +132,12 @@ class Delta(object):
             self.update_db_meta(db_name, table_meta)
             return self.meta
 
-    def delete_delta(self, db, table):
+    def delete_delta(self, db, table, anonymous=None):
         with meta_lock:
+            recorded = self.meta[db].get(table)
+            if anonymous is not None and recorded is not None and recorded['anonymous'] != anonymous:
+                # another request has created the table anew since
+                return
             self.meta[db].pop(table, None)
             self.db_conn = test_connection(self.db_conn)
             cu = self.db_conn.cursor()
-- 
2.43.0

