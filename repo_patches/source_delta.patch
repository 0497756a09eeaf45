From b73a396d214b5b12848ba7ce4eef707e2ecbd0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:56 +0000
Subject: [PATCH 01/67] fix: encode WHERE constants as the encrypted column
 stores them, never send them in clear

---
 scheduler/handers/clause/sql_where.py | 28 +++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index fc6cfb6..ea8076d 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -22,7 +22,7 @@ class SQLWhere(Rewriter):
                     if col:
                         if not col[v[0]]['plaintext']:
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
-                                           self.rewrite(v[1], table, key=col[v[0]]['key'])]}
+                                           self.operand(v[1], table, 'symmetric', col[v[0]])]}
                     else:
                         # We don't handle the situation when the join items are plaintext and cipher, but the sql still
                         # works. It just returns empty result...
@@ -39,14 +39,14 @@ class SQLWhere(Rewriter):
 
                 if k in ['gt', 'lt', 'gte', 'lte']:
                     if not col[v[0]]['plaintext']:
-                        if col[v[0]]['type'] == 'int':
+                        if col[v[0]]['type'] in ['int', 'float', 'double']:
                             return {k: [col[v[0]]['enc-cols']["order-preserving"],
-                                        self.rewrite(v[1], table, cipher='order-preserving', key=col[v[0]]['key'])]}
+                                        self.operand(v[1], table, 'order-preserving', col[v[0]])]}
                 if k == 'like':
                     if not col[v[0]]['plaintext']:
                         return {
                             'like': [col[v[0]]['enc-cols']["fuzzy"],
-                                     self.rewrite(v[1], table, cipher='fuzzy', key=col[v[0]]['key'])]
+                                     self.operand(v[1], table, 'fuzzy', col[v[0]])]
                         }
                 if k in Logical_Operation:
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
@@ -87,3 +87,23 @@ class SQLWhere(Rewriter):
             if cipher == 'symmetric':
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
+
+    def operand(self, value, table, cipher, column):
+        """
+        Encrypt the constant compared with an encrypted column, in the encoding the column is stored in.
+        """
+        if isinstance(value, dict) and 'null' in value:
+            return value
+        if isinstance(value, dict) and 'literal' in value:
+            literal = value['literal']
+            if column['type'] not in ['int', 'float', 'double'] or cipher == 'fuzzy':
+                if cipher == 'order-preserving' or not isinstance(literal, str):
+                    raise Exception("un support constant for an encrypted {} column".format(column['type']))
+                return self.rewrite(value, table, cipher=cipher, key=column['key'])
+            value = int(literal) if column['type'] == 'int' else float(literal)
+        if not isinstance(value, (int, float)):
+            raise Exception("un support operand for an encrypted {} column".format(column['type']))
+        value = encrypt.encode(value, column['type'])
+        if not isinstance(value, int):
+            raise Exception("un support constant for an encrypted {} column".format(column['type']))
+        return self.rewrite(value, table, cipher=cipher, key=column['key'])
-- 
2.43.0


From 08586a046b623e30a15c8ecbba296877bc3cd592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:54 +0000
Subject: [PATCH 02/67] fix: WHERE operators other than = < > LIKE sent the
 constants of encrypted columns in clear

---
 scheduler/handers/clause/sql_where.py | 51 +++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index ea8076d..8148bb0 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -52,6 +52,9 @@ class SQLWhere(Rewriter):
                     return {k: [self.rewrite(a_v, table, cipher=cipher) for a_v in v]}
                 if k == 'literal':
                     return {'literal': self.rewrite(v, table, cipher=cipher, key=key)}
+                if k not in ['eq', 'gt', 'lt', 'gte', 'lte', 'like']:
+                    return {k: self.other_operator(k, v, table, col, cipher)}
+                self.refuse_encrypted(v, col)
         if isinstance(where_value, int):
             if cipher == 'fuzzy':
                 partial_list = str(where_value).split("%")
@@ -88,6 +91,54 @@ class SQLWhere(Rewriter):
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
 
+    def other_operator(self, k, v, table, col, cipher):
+        """
+        The operators without a branch of their own: the constants an encrypted column is compared with are encrypted,
+        and a condition on an encrypted column which cannot be expressed on ciphertext is refused.
+        """
+        if k == 'not':
+            return self.rewrite(v, table, cipher=cipher)
+        name = v[0] if isinstance(v, list) else v
+        if not col or not isinstance(name, str) or name not in col or col[name]['plaintext']:
+            self.refuse_encrypted(v, col)
+            return v
+        column = col[name]
+        if k in ['missing', 'exists']:
+            return column['enc-cols']['symmetric']
+        if k in ['neq', 'in', 'nin']:
+            cipher = 'symmetric'
+        elif k in ['between', 'not_between']:
+            cipher = 'order-preserving'
+        elif k == 'not_like':
+            cipher = 'fuzzy'
+        else:
+            raise Exception("un support operator {} for an encrypted {} column".format(k, column['type']))
+        operands = []
+        for operand in v[1:]:
+            if isinstance(operand, dict) and isinstance(operand.get('literal'), list):
+                operand = [{'literal': i} for i in operand['literal']]
+            if isinstance(operand, list):
+                operands.append([self.operand(i, table, cipher, column) for i in operand])
+            else:
+                operands.append(self.operand(operand, table, cipher, column))
+        return [column['enc-cols'][cipher]] + operands
+
+    def refuse_encrypted(self, value, col):
+        """
+        raise if an expression that is sent as it is reads an encrypted column or selects from a table
+        """
+        if isinstance(value, dict):
+            if 'select' in value or 'select_distinct' in value or not col:
+                raise Exception("un support condition {}".format(list(value)))
+            for k, v in value.items():
+                if k != 'literal':
+                    self.refuse_encrypted(v, col)
+        if isinstance(value, list):
+            for v in value:
+                self.refuse_encrypted(v, col)
+        if isinstance(value, str) and (not col or not col.get(value.split('.')[-1], {'plaintext': True})['plaintext']):
+            raise Exception("un support column {} in a condition".format(value))
+
     def operand(self, value, table, cipher, column):
         """
         Encrypt the constant compared with an encrypted column, in the encoding the column is stored in.
-- 
2.43.0


From 3be555bb419e89e6d00951aa3c944b7eff1a3ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 03/67] fix: a ciphertext constant of a WHERE clause is a
 string literal, not an identifier

---
 scheduler/handers/clause/sql_where.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 8148bb0..45082e4 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -157,4 +157,5 @@ class SQLWhere(Rewriter):
         value = encrypt.encode(value, column['type'])
         if not isinstance(value, int):
             raise Exception("un support constant for an encrypted {} column".format(column['type']))
-        return self.rewrite(value, table, cipher=cipher, key=column['key'])
+        value = self.rewrite(value, table, cipher=cipher, key=column['key'])
+        return {'literal': value} if isinstance(value, str) else value
-- 
2.43.0


From 44f297d0c39dad1d0ce9c2561ab844196ea64cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 04/67] fix: INSERT wrote nothing into the sm4 column and
 failed on NULL

---
 scheduler/handers/clause/sql_values.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 5f37443..b81d9a3 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -20,6 +20,8 @@ class SQLValues(Rewriter):
     def encrypt_value(self, table, col, value, enc):
         key = self.db_meta[table]['columns'][col]['key']
         if isinstance(value, dict):
+            if 'null' in value:
+                return {'value': value}
             value = value['literal']
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
         if enc == "order-preserving":
@@ -31,3 +33,7 @@ class SQLValues(Rewriter):
         if enc == "arithmetic":
             homomorphic_key = self.db_meta[table]['columns'][col]['homomorphic_key']
             return {'value': {'literal': encrypt.HomomorphicCipher(homomorphic_key).encrypt(int(value))}}
+        if enc == "sm4":
+            sm4_key = self.db_meta[table]['columns'][col]['sm4_key']
+            return {'value': {'literal': encrypt.SM4CipherBytes(sm4_key).encrypt(str(value))}}
+        raise Exception("un support cipher {}".format(enc))
-- 
2.43.0


From aa5845171c76d4bd37b5d3d03ae70d00c43b9593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:24 +0000
Subject: [PATCH 05/67] fix: UPDATE stores an encrypted column the way INSERT
 does, with every physical column encrypted

---
 scheduler/handers/clause/sql_set.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index f821e05..821ec93 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,11 +1,11 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
 
 
 class SQLSet(Rewriter):
     def __init__(self, db_meta):
         super().__init__(db_meta)
-        self.where = SQLWhere(db_meta)
+        self.values = SQLValues(db_meta)
 
     def rewrite(self, set_value, table, json=None):
         result = {}
@@ -15,5 +15,7 @@ class SQLSet(Rewriter):
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
-                    result[v1] = self.where.rewrite(v, table, k1, key=enc_table_meta['columns'][k]['key'])
+                    if isinstance(v, str) or (isinstance(v, dict) and not {'literal', 'null'} & v.keys()):
+                        raise Exception("un support expression for an encrypted column {}".format(k))
+                    result[v1] = self.values.encrypt_value(table, k, v, k1)['value']
         return result
-- 
2.43.0


From 05eb730d96fbca421159db29ca5530a8b33212c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:21 +0000
Subject: [PATCH 06/67] fix: INSERT of several rows stored the plaintext under
 the logical columns

---
 scheduler/handers/clause/__init__.py |  2 ++
 scheduler/handers/clause/sql_rows.py | 23 +++++++++++++++++++++++
 2 files changed, 25 insertions(+)
 create mode 100644 scheduler/handers/clause/sql_rows.py

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index d8df19e..2c36794 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -6,6 +6,7 @@ from scheduler.handers.clause.anonymous_table import AnonymousTable
 from scheduler.handers.clause.function import OrderBy
 from scheduler.handers.clause.sql_columns import SQLColumns
 from scheduler.handers.clause.sql_values import SQLValues
+from scheduler.handers.clause.sql_rows import SQLRows
 from scheduler.handers.clause.sql_drop import SQLDrop
 
 clause = {
@@ -21,6 +22,7 @@ clause = {
     'columns': SQLColumns,
     'drop': SQLDrop,
     'query': {'select': SQLValues},
+    'values': SQLRows,
     'alter': AnonymousTable,
     'reference_table': AnonymousTable,
     'add primary key': SQLSelect,
diff --git a/scheduler/handers/clause/sql_rows.py b/scheduler/handers/clause/sql_rows.py
new file mode 100644
index 0000000..8f8da92
--- /dev/null
+++ b/scheduler/handers/clause/sql_rows.py
@@ -0,0 +1,23 @@
+from scheduler.handers.clause.sql_values import SQLValues
+
+
+class SQLRows(SQLValues):
+    """the rows of an INSERT of several rows"""
+
+    def rewrite(self, values, table, json=None):
+        columns = self.db_meta[table]['columns']
+        new_rows = []
+        for row in values:
+            if not isinstance(row, dict):
+                if len(row) != len(columns):
+                    raise Exception("the row has {} values, the table {} columns".format(len(row), len(columns)))
+                row = dict(zip(columns, row))
+            new_row = {}
+            for col, value in row.items():
+                if columns[col]['plaintext']:
+                    new_row[col] = value
+                else:
+                    for enc, enc_col in columns[col]['enc-cols'].items():
+                        new_row[enc_col] = self.encrypt_value(table, col, value, enc)['value']
+            new_rows.append(new_row)
+        return new_rows
-- 
2.43.0


From 7f14801ed898fc8294d17066eff9f40027ff6061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:52 +0000
Subject: [PATCH 07/67] fix: INSERT of a single column failed

---
 scheduler/handers/rewrite_hander.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index cab970b..8bc8f68 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -26,6 +26,11 @@ class Rewriter(Clause):
             return rewrite_table(self.db, self.db_meta, query, self.encrypted_cols)
         alter_key_json = parse_alter_key(query)
         json = parse(query) if not alter_key_json else alter_key_json
+        if isinstance(json.get('columns'), str):
+            # INSERT of one column: the parser does not wrap single elements
+            json['columns'] = [json['columns']]
+            if isinstance(json.get('query', {}).get('select'), dict):
+                json['query']['select'] = [json['query']['select']]
         # if 'limit' in json.keys():
         #     self.limit = abs(int(json['limit']))
         source_json = copy.deepcopy(json)
-- 
2.43.0


From 380d7c6d1662aea88dcd3d2cf59afb7c9829eb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:34 +0000
Subject: [PATCH 08/67] fix: GROUP BY, HAVING and WITH were sent unrewritten

---
 scheduler/handers/clause/__init__.py  |  6 ++++--
 scheduler/handers/clause/function.py  | 13 +++++++++++++
 scheduler/handers/clause/sql_where.py |  7 +++++++
 scheduler/handers/rewrite_hander.py   |  2 ++
 4 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/__init__.py b/scheduler/handers/clause/__init__.py
index 2c36794..1d942c0 100644
--- a/scheduler/handers/clause/__init__.py
+++ b/scheduler/handers/clause/__init__.py
@@ -1,9 +1,9 @@
-from scheduler.handers.clause.sql_where import SQLWhere
+from scheduler.handers.clause.sql_where import SQLWhere, SQLHaving
 from scheduler.handers.clause.sql_set import SQLSet
 from scheduler.handers.clause.sql_select import SQLSelect
 from scheduler.handers.clause.sql_from import SQLFrom
 from scheduler.handers.clause.anonymous_table import AnonymousTable
-from scheduler.handers.clause.function import OrderBy
+from scheduler.handers.clause.function import OrderBy, GroupBy
 from scheduler.handers.clause.sql_columns import SQLColumns
 from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.sql_rows import SQLRows
@@ -19,6 +19,8 @@ clause = {
     'where': SQLWhere,
     'set': SQLSet,
     'orderby': OrderBy,
+    'groupby': GroupBy,
+    'having': SQLHaving,
     'columns': SQLColumns,
     'drop': SQLDrop,
     'query': {'select': SQLValues},
diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 2211909..64606d2 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -11,3 +11,16 @@ class OrderBy(Rewriter):
             return orderby_val
         else:
             return {'value': col['enc-cols']['order-preserving']}
+
+
+class GroupBy(Rewriter):
+    def __init__(self, db_meta):
+        super().__init__(db_meta)
+
+    def rewrite(self, groupby_val, table, json=None):
+        if isinstance(groupby_val, list):
+            return [self.rewrite(v, table) for v in groupby_val]
+        col = self.db_meta[table]['columns'][groupby_val['value']]
+        if col['plaintext']:
+            return groupby_val
+        return {'value': col['enc-cols']['symmetric']}
diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index 45082e4..ec0ca19 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -159,3 +159,10 @@ class SQLWhere(Rewriter):
             raise Exception("un support constant for an encrypted {} column".format(column['type']))
         value = self.rewrite(value, table, cipher=cipher, key=column['key'])
         return {'literal': value} if isinstance(value, str) else value
+
+
+class SQLHaving(SQLWhere):
+    def rewrite(self, having_value, table, cipher='symmetric', json=None, key=""):
+        col = self.db_meta[table]['columns'] if isinstance(table, str) else None
+        self.refuse_encrypted(having_value, col)
+        return having_value
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 8bc8f68..1b41380 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -26,6 +26,8 @@ class Rewriter(Clause):
             return rewrite_table(self.db, self.db_meta, query, self.encrypted_cols)
         alter_key_json = parse_alter_key(query)
         json = parse(query) if not alter_key_json else alter_key_json
+        if 'with' in json:
+            raise Exception("un support WITH in sql {}".format(self.origin_query))
         if isinstance(json.get('columns'), str):
             # INSERT of one column: the parser does not wrap single elements
             json['columns'] = [json['columns']]
-- 
2.43.0


From 1db7aa8e363ae7533382c8fb6e6f41045205203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:11 +0000
Subject: [PATCH 09/67] fix: ORDER BY of an encrypted column lost its
 direction, and several sort keys failed

---
 scheduler/handers/clause/function.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/function.py b/scheduler/handers/clause/function.py
index 64606d2..a2037dd 100644
--- a/scheduler/handers/clause/function.py
+++ b/scheduler/handers/clause/function.py
@@ -6,11 +6,13 @@ class OrderBy(Rewriter):
         super().__init__(db_meta)
 
     def rewrite(self, orderby_val, table, json=None):
+        if isinstance(orderby_val, list):
+            return [self.rewrite(v, table) for v in orderby_val]
         col = self.db_meta[table]['columns'][orderby_val['value']]
         if col['plaintext']:
             return orderby_val
         else:
-            return {'value': col['enc-cols']['order-preserving']}
+            return {**orderby_val, 'value': col['enc-cols']['order-preserving']}
 
 
 class GroupBy(Rewriter):
-- 
2.43.0


From 57a48a6d89715c354e0752d448c2b72b8a520c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 10/67] fix: decoding a double did not invert its encoding

---
 scheduler/crypto/encrypt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 2a7094e..5656e1d 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -49,7 +49,7 @@ def stretch(val):
 def inverse_stretch(val):
     # piecewise linear function [10**15, 10**19, 10**22, 10**24], [10**15, 10**42, 10**56, 10**65]
     if val < 0:
-        return -stretch(-val)
+        return -inverse_stretch(-val)
     if 10**15 >= val >= 0:
         return val
     if 10**19 >= val > 10**15:
@@ -80,8 +80,7 @@ def decode(val, val_type):
     if val_type == 'float':
         return val / 10 ** 12
     if val_type == 'double':
-        val = inverse_stretch(val)
-        return val / 10 ** 12
+        return inverse_stretch(val / 10 ** 12)
     return val
 
 
-- 
2.43.0


From 0536e93b4b4b1aab3f222b81ed8b60dba3bd5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 11/67] fix: stored values and request fields were evaluated as
 Python code

---
 controller/rewriter.py               | 3 ++-
 scheduler/crypto/encrypt.py          | 3 ++-
 scheduler/handers/decrypt_handler.py | 5 +++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/controller/rewriter.py b/controller/rewriter.py
index f1c8a0c..86281b8 100644
--- a/controller/rewriter.py
+++ b/controller/rewriter.py
@@ -1,5 +1,6 @@
 from scheduler.backend import execution_context
 import yaml
+from ast import literal_eval
 
 with open("config.yaml", 'r', encoding='utf-8') as f:
     cfg = f.read()
@@ -30,7 +31,7 @@ class ControllerDatabase(object):
     def do_create(self):
         query = self.query_info['query']
         encrypted_cols = self.query_info['encrypted_columns']
-        encrypted_cols = eval(encrypted_cols) if isinstance(encrypted_cols, str) else encrypted_cols
+        encrypted_cols = literal_eval(encrypted_cols) if isinstance(encrypted_cols, str) else encrypted_cols
         execution_context.invoke(self.query_info, query, encrypted_cols, columns_info=True)
 
 
diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 5656e1d..96eb0c7 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -13,6 +13,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+from ast import literal_eval
 from base64 import b64decode
 from base64 import b64encode
 from hashlib import sha256
@@ -72,7 +73,7 @@ def encode(val, val_type):
 def decode(val, val_type):
     if val_type in ['int', 'float', 'double']:
         try:
-            val = eval(val)
+            val = literal_eval(val)
         except:
             val = val
     if val_type == 'int':
diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index 2f3d2c5..c96f39d 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -1,5 +1,6 @@
 import datetime
 
+from ast import literal_eval
 from decimal import Decimal
 from scheduler.crypto import encrypt
 from scheduler.handers.base import Handler
@@ -26,7 +27,7 @@ class DecryptHandler(Handler):
             for col_name, state, col_val in zip(select_columns, result_state, row):
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
-                        col_val = eval(col_val.__str__())
+                        col_val = literal_eval(col_val.__str__())
 
                     if isinstance(col_val, datetime.datetime):
                         new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
@@ -49,7 +50,7 @@ class DecryptHandler(Handler):
                 print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
-                        col_val = eval(col_val.__str__())
+                        col_val = literal_eval(col_val.__str__())
 
                     if isinstance(col_val, datetime.datetime):
                         new_row.append(col_val.strftime("%Y-%m-%d %H:%M:%S"))
-- 
2.43.0


From 7f01dc11ede95058acbf5613dc14d7e8c8a5980f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:27 +0000
Subject: [PATCH 12/67] fix: decrypting uploaded rows failed on NULL and
 numbers and printed the stored values

---
 scheduler/handers/decrypt_handler.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/scheduler/handers/decrypt_handler.py b/scheduler/handers/decrypt_handler.py
index c96f39d..16d4f50 100644
--- a/scheduler/handers/decrypt_handler.py
+++ b/scheduler/handers/decrypt_handler.py
@@ -42,12 +42,10 @@ class DecryptHandler(Handler):
         self.db_meta = db_meta
 
         enc_result = data.get("rows", [])
-        print(f"enc_data:{enc_result}")
         for row in enc_result:
             new_row = []
             # row1 = row.split(",")
             for col_name, state, col_val in zip(select_columns, select_state, row):
-                print("密文解密：" + col_val)
                 if state == "plaintext":
                     if isinstance(col_val, Decimal):
                         col_val = literal_eval(col_val.__str__())
-- 
2.43.0


From 72cbfd625c81649848907966cae9af9d5c09a2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 13/67] fix: names from requests were pasted into the SQL run
 on the metadata store

---
 handler.py                   | 15 +++++++++------
 scheduler/schema/metadata.py |  5 +++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/handler.py b/handler.py
index 7710c6a..6792f41 100644
--- a/handler.py
+++ b/handler.py
@@ -31,8 +31,10 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
             passwd=config['meta']['mysql']["passwd"],
             port=int(config['meta']['mysql']["port"])
         )
+        placeholder = '%s'
     else:
         db_conn = sqlite3.connect(config['meta']['sqlite'])
+        placeholder = '?'
 
 
 def test_connection(_db_conn):
@@ -226,7 +228,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
         cx = test_connection(db_conn)
         cu = cx.cursor()
         cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
         db_info = cu.fetchall()
         cx.commit()
         cu.close()
@@ -336,7 +338,7 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
         cx = test_connection(db_conn)
         cu = cx.cursor()
         cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
         db_info = cu.fetchall()
         cx.commit()
         cu.close()
@@ -544,7 +546,7 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
         cx = test_connection(db_conn)
         cu = cx.cursor()
         cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(data_source_id))
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
         db_info = cu.fetchall()
         cx.commit()
         cu.close()
@@ -652,7 +654,7 @@ class QueryComponentHandler(tornado.web.RequestHandler, ABC):
         cx = test_connection(db_conn)
         cu = cx.cursor()
         cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (component_id,))
         db_info = cu.fetchall()
         cx.commit()
         cu.close()
@@ -743,13 +745,14 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         cx = test_connection(db_conn)
         cu = cx.cursor()
         cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id={}".format(component_id))
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (component_id,))
         db_info = cu.fetchall()
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
             db = connection_url[13:]
             cu.execute(
-                "SELECT table_name, col_info FROM p_db_meta WHERE database_name='{}' order by table_name".format(db))
+                "SELECT table_name, col_info FROM p_db_meta WHERE database_name=" + placeholder
+                + " order by table_name", (db,))
             self.write(self.format_result(cu.fetchall()))
         else:
             self.write({})
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 0ad152d..1844420 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -22,9 +22,11 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
               port=int(config['meta']['mysql']["port"])
             )
         insert_sql = 'insert into p_db_meta values(%s,%s,%s,%s,%s,%s)'
+        delete_sql = 'delete from p_db_meta where database_name = %s and table_name = %s'
     else:
         db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
         insert_sql = 'insert into p_db_meta values (?,?,?,?,?,?)'
+        delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
 
 
 def test_connection(_db_conn):
@@ -123,8 +125,7 @@ class Delta(object):
         self.meta[db].pop(table, None)
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
-        sql = "delete from p_db_meta where database_name = '{}' and table_name = '{}'".format(db, table)
-        cu.execute(sql)
+        cu.execute(delete_sql, (db, table))
         if config['meta']['type'] == 'mysql':
             self.db_conn.commit()
         else:
-- 
2.43.0


From b03364a3bec642df9ea427b8b47343743e4dcf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/67] fix: two conversions in the same millisecond shared one
 query id

---
 scheduler/backend/execution_context.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index 2a65655..ee8ef9f 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -4,7 +4,7 @@ from scheduler.backend.executors import DecryptQueryExecutor
 from scheduler.compile.parser import Parser
 from scheduler.handers.decrypt_handler import DecryptHandler
 
-import time
+import uuid
 
 id_sql_map = {}
 
@@ -52,8 +52,7 @@ def encrypt_sql2(db, sql):
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
     select_state = executor.rewriter.select.select_state
-    curr_id = lambda: int(round(time.time() * 1000))
-    curr_id = str(curr_id())
+    curr_id = uuid.uuid4().hex
     id_sql_map[curr_id] = [select_columns, select_types, db_meta, table, select_state]
     return enc_query, table, curr_id
 
-- 
2.43.0


From cf8c89213cbc451590f7419f4dedf518d8ad4ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 15/67] fix: rewrite() called the executor with arguments it
 does not take

---
 scheduler/backend/execution_context.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index ee8ef9f..c413074 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -69,4 +69,6 @@ def batch_process(query_info):
 
 
 def rewrite(query, db, encrypted_cols=None):
-    return RemoteExecutor(None).dispatch(query, db, encrypted_cols)
+    executor = ConvertExecutor()
+    executor.encrypted_cols = encrypted_cols
+    return executor.dispatch(db, query)
-- 
2.43.0


From ea905e09c64cef258eb343b5adc352a88f27fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 16/67] fix: a pooled connection was handed out without
 comparing the password, on a key that concatenates

---
 scheduler/backend/executors/remote_executor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 8231a78..cf53440 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -46,13 +46,13 @@ class RemoteExecutor(AbstractQueryExecutor):
     def connect_db(conn_info):
         if not conn_info:
             return conn_info
-        db_key = conn_info['host'] + str(conn_info['port']) + conn_info['db'] + conn_info['user']
+        db_key = (conn_info['host'], conn_info['port'], conn_info['db'], conn_info['user'], conn_info['password'])
         if db_key not in connection_pool:
             connection = PooledDB(
                 mysql.connector, 5, host=conn_info['host'], user=conn_info['user'],
                 passwd=conn_info['password'], db=conn_info['db'], port=conn_info['port'])
             connection_pool[db_key] = connection
-            logging.info("mysql connected from {}".format(db_key))
+            logging.info("mysql connected from {}".format(db_key[:-1]))
         else:
             connection = connection_pool[db_key]
         return connection.connection()
-- 
2.43.0


From 794b55d7a833dc28ebae5a4fe048362967622952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 17/67] fix: the rewritten statement of one request was read by
 another through a class attribute

---
 scheduler/backend/executors/remote_executor.py | 2 +-
 scheduler/handers/rewrite_hander.py            | 7 +++----
 scheduler/schema/metadata.py                   | 7 +++----
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index cf53440..076ac5b 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -190,7 +190,7 @@ class RemoteExecutor(AbstractQueryExecutor):
         if ' SUM(' not in enc_query and ' AVG(' not in enc_query:
             return enc_query
         sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query = \
-            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table)
+            Delta.get_paillier_procedure_info(enc_query, self.str_db, self.table, self.rewriter.table_json)
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 1b41380..1ed0ea7 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -8,13 +8,12 @@ from scheduler.handers.clause.sql_clause import Clause
 from scheduler.handers.clause import clause
 from scheduler.handers.clause import table_key
 
-from scheduler.schema.metadata import Delta
-
 
 class Rewriter(Clause):
     def __init__(self, db, encrypted_cols=None):
         super().__init__(db, encrypted_cols)
         self.limit = float('-inf')
+        self.table_json = None
 
     def rewrite_query(self, query):
         """
@@ -77,8 +76,8 @@ class Rewriter(Clause):
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
 
-        # record json in Delta
-        Delta.table_json = json
+        # the rewritten json, for the aggregates on arithmetic columns
+        self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
         return format(json), table
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 1844420..3ee4098 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -96,7 +96,6 @@ FUNC_CIPHERS = {
 class Delta(object):
     __instance = None
     meta = None
-    table_json = None
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
@@ -206,11 +205,11 @@ class Delta(object):
         cursor.execute(call_query)
 
     @classmethod
-    def get_paillier_procedure_info(cls, enc_query, db, table_name):
+    def get_paillier_procedure_info(cls, enc_query, db, table_name, table_json=None):
         sum_feature_name_list = []
         avg_feature_name_list = []
-        if cls.table_json:
-            json = deepcopy(cls.table_json)
+        if table_json:
+            json = deepcopy(table_json)
         else:
             json = parse(enc_query)
         json.pop('limit', None)
-- 
2.43.0


From 822f306757ec42ffa50596ed7b5f1632767d118e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 18/67] fix: a statement the backend rejected was reported as
 successful, a failed DROP lost the table metadata

---
 scheduler/backend/executors/remote_executor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 076ac5b..c168f2f 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -106,6 +106,7 @@ class RemoteExecutor(AbstractQueryExecutor):
             logger.info(e)
             if query_type == QueryType.CREATE:
                 self.meta.delete_delta(self.str_db, self.table['table'])
+            raise e
         if query_type == QueryType.DROP:
             self.meta.delete_delta(self.str_db, self.table['table'])
         elif query_type == QueryType.SELECT:
-- 
2.43.0


From c837679f906a0007a445eb5a7f10301816414bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 19/67] fix: a failing request did not give its pooled
 connection back

---
 scheduler/backend/executors/remote_executor.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index c168f2f..1e255f3 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -74,6 +74,12 @@ class RemoteExecutor(AbstractQueryExecutor):
         return connection.connection()
 
     def call(self, query, parser, encrypted_cols, use_cursor=True):
+        try:
+            self.execute(query, parser, encrypted_cols, use_cursor)
+        finally:
+            self.conn.close()
+
+    def execute(self, query, parser, encrypted_cols, use_cursor=True):
         """
 
         """
@@ -114,7 +120,6 @@ class RemoteExecutor(AbstractQueryExecutor):
         else:
             self.conn.commit()
         logger.info("Execute:{}".format(time.time() - start_time))
-        self.conn.close()
 
     def encrypt_sql(self, query):
         try:
@@ -123,9 +128,17 @@ class RemoteExecutor(AbstractQueryExecutor):
         except Exception as e:
             logger.info(e)
             raise e
+        finally:
+            self.conn.close()
         return enc_query
 
     def batch_insert(self, batch_info):
+        try:
+            self.insert_chunks(batch_info)
+        finally:
+            self.conn.close()
+
+    def insert_chunks(self, batch_info):
         columns = batch_info['columns']
         delta, table = self.get_db_meta()
         table = batch_info['table']
@@ -167,7 +180,6 @@ class RemoteExecutor(AbstractQueryExecutor):
             for idx, i in enumerate(enc_data):
                 cursor.execute(query, tuple(i))
             self.conn.commit()
-        self.conn.close()
 
     @staticmethod
     def batch_enc(func, input_type, data):
-- 
2.43.0


From eec0885a992f3ca831ab6262390f34ba1077d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:36 +0000
Subject: [PATCH 20/67] fix: the bulk load skipped the numeric encoding and the
 arithmetic and sm4 columns

---
 scheduler/backend/executors/remote_executor.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 1e255f3..e3362e6 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -159,19 +159,28 @@ class RemoteExecutor(AbstractQueryExecutor):
             enc_data = []
             for idx, col in enumerate(columns):
                 if not columns_info[col]['plaintext']:
+                    values = [encrypt.encode(i, columns_info[col]['type']) for i in data[idx]]
                     for enc, value in columns_info[col]['enc-cols'].items():
                         if enc == "order-preserving":
                             enc_data.append(
                                 self.batch_enc(
-                                    encrypt.OPECipher(columns_info[col]['key']).encrypt, int, (data[idx])))
+                                    encrypt.OPECipher(columns_info[col]['key']).encrypt, int, values))
                         if enc == "symmetric":
                             enc_data.append(
                                 self.batch_enc(
-                                    encrypt.AESCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
+                                    encrypt.AESCipher(columns_info[col]['key']).encrypt, str, values))
                         if enc == "fuzzy":
                             enc_data.append(
                                 self.batch_enc(
-                                    encrypt.FuzzyCipher(columns_info[col]['key']).encrypt, str, (data[idx])))
+                                    encrypt.FuzzyCipher(columns_info[col]['key']).encrypt, str, values))
+                        if enc == "arithmetic":
+                            enc_data.append(
+                                self.batch_enc(
+                                    encrypt.HomomorphicCipher(columns_info[col]['homomorphic_key']).encrypt, int, values))
+                        if enc == "sm4":
+                            enc_data.append(
+                                self.batch_enc(
+                                    encrypt.SM4CipherBytes(columns_info[col]['sm4_key']).encrypt, str, values))
                 else:
                     enc_data.append(data[idx])
             query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
-- 
2.43.0


From 16ef489d3fe7068a1ef445acbc11342272626046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 21/67] fix: the local fallback of the distributed decryption
 did not decode the values

---
 scheduler/utils/decrypt_support.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/utils/decrypt_support.py b/scheduler/utils/decrypt_support.py
index e1215ac..50bac3e 100644
--- a/scheduler/utils/decrypt_support.py
+++ b/scheduler/utils/decrypt_support.py
@@ -94,9 +94,9 @@ class OfflineDecryption:
             except Exception as e:
                 print(e)
                 print('decrypt data in local')
-                res = np.array([key.decrypt(i) for i in data])
+                res = np.array([encrypt.decode(key.decrypt(i), data_type) for i in data])
                 return res
-        return np.array([key.decrypt(i) for i in data])
+        return np.array([encrypt.decode(key.decrypt(i), data_type) for i in data])
 
     @staticmethod
     def pool_decrypt(data, key, data_type):
-- 
2.43.0


From f6f3b77c4d2f3e63dc9ba619218d409d0f008325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 22/67] fix: SELECT kept the logical table name of a qualified
 column, and lost the dot after an alias

---
 scheduler/handers/clause/sql_select.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index d237736..bebd194 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -64,7 +64,7 @@ class SQLSelect(Rewriter):
                 t_name, col_name = self.split_table_col(select_val, table)
                 true_table_name = get_origin_table(t_name, table)
                 col = self.db_meta[true_table_name]['columns'][col_name]
-                t_name = t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous'] + "."
+                t_name = (t_name if t_name != true_table_name else self.db_meta[true_table_name]['anonymous']) + "."
                 self.select_types.append(col['type'])
                 if col['plaintext']:
                     self.select_state.append("plaintext")
@@ -76,7 +76,7 @@ class SQLSelect(Rewriter):
                 if isinstance(table, str):  # which means table is true table name or some nest table without join
                     t_name, select_val = select_val.split('.') if '.' in select_val else ('',  select_val)
                     col = self.db_meta[table]['columns'][select_val]
-                    t_name = t_name + '.' if t_name else ''
+                    t_name = self.db_meta[table]['anonymous'] + '.' if t_name else ''
                     self.select_types.append(col['type'])
                     if col['plaintext']:
                         self.select_state.append("plaintext")
-- 
2.43.0


From 9fb9f8a6e29625f502263d4a5971ad47ab78604b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 23/67] fix: COUNT of a column and functions of ciphertext were
 decrypted as column values

---
 scheduler/handers/clause/sql_select.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index bebd194..20a3c09 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -105,6 +105,10 @@ class SQLSelect(Rewriter):
             for k, v in select_val.items():
                 if k in FUNC_CIPHERS.keys():
                     result[k] = self.rewrite(v, table, FUNC_CIPHERS[k])
+                elif k == 'count' and isinstance(v, str):
+                    result[k] = self.rewrite(v, table)
+                    self.select_state[-1] = "plaintext"
+                    self.select_types[-1] = "int"
                 elif k == 'add':
                     v0, v1 = self.rewrite(v[0], table), self.rewrite(v[1], table)
                     cipher_text = self.select_state.pop()
@@ -132,4 +136,6 @@ class SQLSelect(Rewriter):
                         result['mod'] = [{'mul': [v0, v1]}, p]
                 else:
                     result[k] = self.rewrite(v, table)
+                    if k != 'value' and self.select_state[-1:] != ["plaintext"]:
+                        raise Exception("un support function {} of an encrypted column".format(k))
             return result
-- 
2.43.0


From 1d75a25079137382693e34150858927f1a0d08a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 24/67] fix: SELECT of a sum of two columns shifted the names
 of the columns after it

---
 scheduler/handers/clause/sql_select.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_select.py b/scheduler/handers/clause/sql_select.py
index 20a3c09..79e9a04 100644
--- a/scheduler/handers/clause/sql_select.py
+++ b/scheduler/handers/clause/sql_select.py
@@ -110,10 +110,13 @@ class SQLSelect(Rewriter):
                     self.select_state[-1] = "plaintext"
                     self.select_types[-1] = "int"
                 elif k == 'add':
+                    assert all(isinstance(i, str) for i in v), f'{v[0]}+{v[1]} not allowed'
                     v0, v1 = self.rewrite(v[0], table), self.rewrite(v[1], table)
+                    added = self.select_columns.pop()
+                    self.select_columns[-1] += '+' + added
                     cipher_text = self.select_state.pop()
                     self.select_types.pop()
-                    assert self.select_state[-1] == self.select_state[-2] and \
+                    assert self.select_state[-1] == cipher_text and \
                            cipher_text in ['plaintext', 'arithmetic'], f'{v[0]}+{v[1]} not allowed'
 
                     if cipher_text == 'plaintext':
@@ -132,7 +135,7 @@ class SQLSelect(Rewriter):
                         else:
                             p1 = self.db_meta[table]['columns'][v1]['homomorphic_key']
                         assert p0 == p1, 'two columns to be added need to have the same key'
-                        p = (p1[0] * p1[0]) ** 2
+                        p = (p1[0] * p1[1]) ** 2
                         result['mod'] = [{'mul': [v0, v1]}, p]
                 else:
                     result[k] = self.rewrite(v, table)
-- 
2.43.0


From 4438586ccf13f5eb97ed8ef509f22bc233ae5135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 25/67] fix: the columns of a derived table were reported as
 result columns

---
 scheduler/handers/rewrite_hander.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index 1ed0ea7..b778191 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -84,6 +84,8 @@ class Rewriter(Clause):
 
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
+        recorded = [self.select.select_columns, self.select.select_types, self.select.select_state]
+        outer = [len(i) for i in recorded]
         if isinstance(json, str):
             return self.db_meta[json]['anonymous']
         for key in table_key:
@@ -118,6 +120,9 @@ class Rewriter(Clause):
                 json = __inner__(json, key, func)
             else:
                 json[key] = func.rewrite(json[key], table, json=source_json)
+        # the columns of a nested select are not columns of the result
+        for i, length in zip(recorded, outer):
+            del i[length:]
         return json
 
 
-- 
2.43.0


From 5af750e17f1a464f28f04b81633906ef31967de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 26/67] fix: CREATE TABLE with a length on an encrypted INT,
 FLOAT or DOUBLE column failed

---
 scheduler/handers/table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 0424c3b..b7f3ef2 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -60,7 +60,7 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
                 columns_kv[col_name]['type'] = t_k
-                if t_v:
+                if callable(v):
                     t_k, t_l = v(t_k, t_v)
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
-- 
2.43.0


From d87a36c7c49d7a554ba814dda340bee6fa834347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 27/67] fix: the default value of an encrypted column was
 stored as one ciphertext in all its physical columns

---
 scheduler/handers/table.py | 50 ++++++++++----------------------------
 1 file changed, 13 insertions(+), 37 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index b7f3ef2..3287428 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -4,7 +4,6 @@ import string
 import random
 
 from sql_parsing import parse_mysql as parse
-from scheduler.crypto import encrypt
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
@@ -65,58 +64,26 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
                     enc_col_type = t_k + '(' + str(t_l) + ')'
                 else:
                     enc_col_type = v
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    key = encrypted_cols[col['name']]['key']
-                    default_value = ' DEFAULT ' + encrypt.AESCipher(key).encrypt(default_value)
-                else:
-                    default_value = ''
+                default_value = get_encrypted_default(col)
                 enc_columns.append(enc_col_name + ' ' + enc_col_type + is_nullable + primary_key_plus + default_value)
                 columns_kv[col_name]['enc-cols'].update({k: enc_col_name})
         if encrypted_cols[col['name']]['fuzzy']:
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_encrypted_default(col)
             enc_columns.append(enc_col_name + ' ' + fuzzy_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"fuzzy": enc_col_name})
         if encrypted_cols[col['name']].get('arithmetic'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('homomorphic_key', "")
-                default_value = ' DEFAULT ' + encrypt.HomomorphicCipher(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_encrypted_default(col)
             enc_columns.append(enc_col_name + ' ' + arithmetic_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"arithmetic": enc_col_name})
             columns_kv[col_name]['homomorphic_key'] = encrypted_cols[col['name']].get('homomorphic_key', "")
         if encrypted_cols[col['name']].get('sm4'):
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
-            if col.get('default'):
-                default_value = col['default']
-                if isinstance(default_value, dict):
-                    if 'null' in default_value:
-                        default_value = 'NULL '
-                key = encrypted_cols[col['name']].get('sm4_key', "")
-                default_value = ' DEFAULT ' + encrypt.SM4CipherBytes(key).encrypt(default_value)
-            else:
-                default_value = ''
+            default_value = get_encrypted_default(col)
             enc_columns.append(enc_col_name + ' ' + sm4_type_fixed + is_nullable + default_value)
             columns_kv[col_name]['enc-cols'].update({"sm4": enc_col_name})
             columns_kv[col_name]['sm4_key'] = encrypted_cols[col['name']].get('sm4_key', "")
@@ -148,6 +115,15 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def get_encrypted_default(col):
+    # the same value would be stored in every physical column, none of them could decrypt it
+    if 'default' not in col:
+        return ''
+    if isinstance(col['default'], dict) and 'null' in col['default']:
+        return ' DEFAULT NULL '
+    raise Exception("un support default value of encrypted column {}".format(col['name']))
+
+
 def get_enc_columns(columns, columns_info, cipher='symmetric'):
     if not isinstance(columns, list):
         columns = [columns]
-- 
2.43.0


From ca0641ffff45677aeda2ced281cbc1c6318eed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 28/67] fix: CREATE of an existing table replaced its metadata
 and keys

---
 scheduler/handers/table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 3287428..01dccc4 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -14,8 +14,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         raise Exception("Bad create table query: {}".format(query))
     create_table = json['create table']
     table_name = create_table['name']
-    # if table_name in db_meta.keys():
-    #     raise Exception("Table {} already exists".format(table_name))
+    if table_name in db_meta.keys():
+        raise Exception("Table {} already exists".format(table_name))
     columns = create_table['columns']
     enc_columns = []
     columns_kv = {}
-- 
2.43.0


From 2b8b97c58cfd6e8c4f6b83d15aec7245aa0e3cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 29/67] fix: a column listed for encryption under another
 spelling was created in clear

---
 scheduler/handers/table.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 01dccc4..3631e62 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -20,6 +20,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     enc_columns = []
     columns_kv = {}
     columns = columns if isinstance(columns, list) else [columns]
+    for name in encrypted_cols:
+        if name not in [col['name'] for col in columns]:
+            raise Exception("no column {} to encrypt in table {}".format(name, table_name))
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
         primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
-- 
2.43.0


From d9ae50560f062a256b33eb4deeca84d666b5cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:38 +0000
Subject: [PATCH 30/67] fix: a failing metadata store left the metadata in
 memory changed

---
 scheduler/schema/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 3ee4098..a71ed47 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -106,6 +106,8 @@ class Delta(object):
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
+        # update database meta, first: when the store fails the memory keeps describing what is stored
+        self.update_db_meta(db_name, table_meta)
         if self.meta:
             if db_name not in self.meta.keys():
                 self.meta.update({db_name: table_meta})
@@ -116,12 +118,9 @@ class Delta(object):
             self.meta = {
                 db_name: table_meta
             }
-        # update database meta
-        self.update_db_meta(db_name, table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
-        self.meta[db].pop(table, None)
         self.db_conn = test_connection(self.db_conn)
         cu = self.db_conn.cursor()
         cu.execute(delete_sql, (db, table))
@@ -129,6 +128,7 @@ class Delta(object):
             self.db_conn.commit()
         else:
             cu.connection.commit()
+        self.meta[db].pop(table, None)
 
     def update_db_meta(self, db_name, table_meta):
         self.db_conn = test_connection(self.db_conn)
-- 
2.43.0


From a4e024b64f93e257df3ef67903bf76b72010d48f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 31/67] fix: the metadata of the first table was not visible to
 the sums of arithmetic columns

---
 scheduler/schema/metadata.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index a71ed47..b00826b 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -108,16 +108,10 @@ class Delta(object):
     def update_delta(self, db_name, table_meta):
         # update database meta, first: when the store fails the memory keeps describing what is stored
         self.update_db_meta(db_name, table_meta)
-        if self.meta:
-            if db_name not in self.meta.keys():
-                self.meta.update({db_name: table_meta})
-            else:
-                self.meta[db_name].update(table_meta)
-
+        if db_name not in self.meta.keys():
+            self.meta.update({db_name: table_meta})
         else:
-            self.meta = {
-                db_name: table_meta
-            }
+            self.meta[db_name].update(table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
-- 
2.43.0


From 2c3c64c517d914344677d28a6fc315197ea0dc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:26 +0000
Subject: [PATCH 32/67] fix: a query the classifier fails on did not give its
 pooled connection back

---
 scheduler/backend/execution_context.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scheduler/backend/execution_context.py b/scheduler/backend/execution_context.py
index c413074..c8832f4 100644
--- a/scheduler/backend/execution_context.py
+++ b/scheduler/backend/execution_context.py
@@ -23,8 +23,9 @@ def invoke(query_info, query_sql, encrypted_cols=None, columns_info=False):
     Of course, the returned results may also include plaintext results, so we need to keep these results
     without doing anything
     """
+    parser = Parser(query_sql)
     executor = RemoteExecutor(query_info)
-    executor.call(query_sql, Parser(query_sql), encrypted_cols)
+    executor.call(query_sql, parser, encrypted_cols)
     select_columns = executor.get_select_columns()
     select_types = executor.get_select_types()
     db_meta, table = executor.get_db_meta()
-- 
2.43.0


From 324bb79a68d77c8cc2986ee0f1c013689d7be1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:07 +0000
Subject: [PATCH 33/67] fix: the formatter regrouped nested operators, and
 wrote unary minus as a function

---
 sql_parsing/formatting.py | 45 ++++++++++++++++++++++++++-------------
 sql_parsing/keywords.py   | 42 +++++++++++++++++++-----------------
 2 files changed, 52 insertions(+), 35 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 17e2443..adaa06a 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -65,6 +65,9 @@ def escape(ident, ansi_quotes, should_quote):
 
 def Operator(_op):
     op_prec = precedence[binary_ops[_op]]
+    # a LIKE b LIKE c IS NOT GRAMMATICAL
+    first_prec = op_prec if "like" not in _op else op_prec - 1
+    rest_prec = op_prec - 0.5 if "like" not in _op else precedence["concat"]
     op = " {0} ".format(_op).replace("_", " ").upper()
 
     def func(self, json, prec):
@@ -77,9 +80,9 @@ def Operator(_op):
 
         for i, v in enumerate(listwrap(json)):
             if i == 0:
-                acc.append(self.dispatch(v, op_prec + 0.25))
+                acc.append(self.dispatch(v, first_prec))
             else:
-                acc.append(self.dispatch(v, op_prec))
+                acc.append(self.dispatch(v, rest_prec))
         if prec >= op_prec:
             return op.join(acc)
         else:
@@ -292,7 +295,15 @@ class Formatter:
             return f"{key.upper()}({params})"
 
     def _binary_not(self, value, prec):
-        return "~{0}".format(self.dispatch(value))
+        return "~{0}".format(self.dispatch(value, prec))
+
+    def _neg(self, value, prec):
+        sql = self.dispatch(value, prec)
+        # TWO DASHES START A COMMENT
+        return f"-({sql})" if sql.startswith("-") else f"-{sql}"
+
+    def _not(self, value, prec):
+        return "NOT({0})".format(self.dispatch(value))
 
     def _exists(self, value, prec):
         return "{0} IS NOT NULL".format(self.dispatch(value, precedence["is"]))
@@ -307,12 +318,14 @@ class Formatter:
 
     def _in(self, json, prec):
         member, set = json
-        if "literal" in set:
+        if isinstance(set, dict) and "literal" in set:
             set = {"literal": listwrap(set["literal"])}
+        elif not isinstance(set, (list, dict)):
+            set = [set]
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, precedence["in"] - 1)
             + " IN "
-            + self.dispatch(set, precedence["in"])
+            + self.dispatch(set, precedence["in"] - 1)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -320,12 +333,14 @@ class Formatter:
 
     def _nin(self, json, prec):
         member, set = json
-        if "literal" in set:
+        if isinstance(set, dict) and "literal" in set:
             set = {"literal": listwrap(set["literal"])}
+        elif not isinstance(set, (list, dict)):
+            set = [set]
         sql = (
-            self.dispatch(member, precedence["in"])
+            self.dispatch(member, precedence["in"] - 1)
             + " NOT IN "
-            + self.dispatch(set, precedence["in"])
+            + self.dispatch(set, precedence["in"] - 1)
         )
         if prec < precedence["in"]:
             sql = f"({sql})"
@@ -387,9 +402,9 @@ class Formatter:
 
     def _between(self, json, prec):
         return "{0} BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], precedence["binary_or"]),
+            self.dispatch(json[1], precedence["binary_or"]),
+            self.dispatch(json[2], precedence["binary_or"]),
         )
 
     def _trim(self, json, prec):
@@ -411,9 +426,9 @@ class Formatter:
 
     def _not_between(self, json, prec):
         return "{0} NOT BETWEEN {1} AND {2}".format(
-            self.dispatch(json[0], precedence["between"]),
-            self.dispatch(json[1], precedence["between"]),
-            self.dispatch(json[2], precedence["between"]),
+            self.dispatch(json[0], precedence["binary_or"]),
+            self.dispatch(json[1], precedence["binary_or"]),
+            self.dispatch(json[2], precedence["binary_or"]),
         )
 
     def _distinct(self, json, prec):
diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 9f4eaff..7648105 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -240,41 +240,43 @@ join_keywords = {
 }
 
 precedence = {
-    # https://www.sqlite.org/lang_expr.html
+    # https://dev.mysql.com/doc/refman/8.0/en/operator-precedence.html
     "literal": -1,
     "interval": 0,
     "cast": 0,
     "collate": 0,
     "concat": 1,
+    "neg": 1,
+    "binary_not": 1,
     "mul": 2,
-    "div": 1.5,
+    "div": 2,
     "mod": 2,
-    "neg": 3,
     "add": 3,
-    "sub": 2.5,
-    "binary_not": 4,
+    "sub": 3,
     "binary_and": 4,
-    "binary_or": 4,
-    "gte": 5,
-    "lte": 5,
-    "lt": 5,
-    "gt": 6,
+    "binary_or": 5,
+    "at_time_zone": 6,
+    # COMPARISONS BIND ALIKE
+    "gte": 7,
+    "lte": 7,
+    "lt": 7,
+    "gt": 7,
     "eq": 7,
     "neq": 7,
     "missing": 7,
     "exists": 7,
-    "at_time_zone": 8,
     "between": 8,
     "not_between": 8,
-    "in": 8,
-    "nin": 8,
-    "is": 8,
-    "like": 8,
-    "not_like": 8,
-    "rlike": 8,
-    "not_rlike": 8,
-    "similar_to": 8,
-    "not_similar_to": 8,
+    "in": 7,
+    "nin": 7,
+    "is": 7,
+    "like": 7,
+    "not_like": 7,
+    "rlike": 7,
+    "not_rlike": 7,
+    "similar_to": 7,
+    "not_similar_to": 7,
+    "not": 9,
     "and": 10,
     "or": 11,
     "lambda": 12,
-- 
2.43.0


From 94f4095a9a054eaeae1a231eba219589d8f4c6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:10 +0000
Subject: [PATCH 34/67] fix: the formatter lost the value of a one-column
 INSERT and the source of INSERT ... SELECT, and failed on NULL

---
 sql_parsing/formatting.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index adaa06a..e9a4ddf 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -390,7 +390,9 @@ class Formatter:
         elif isinstance(json, string_types):
             return "'{0}'".format(json.replace("'", "''"))
         elif isinstance(json, dict):
-            return self._literal(json["literal"])
+            return self._literal(json["literal"]) if "literal" in json else self.dispatch(json)
+        elif json is None:
+            return "NULL"
         else:
             return str(json)
 
@@ -605,7 +607,7 @@ class Formatter:
         acc.append(json["insert"])
 
         if "columns" in json:
-            acc.append(self.sql_list(json["columns"]))
+            acc.append(self.sql_list(listwrap(json["columns"])))
         if "values" in json:
             values = json["values"]
             if all(isinstance(row, dict) for row in values):
@@ -622,24 +624,21 @@ class Formatter:
                 if "if exists" in json:
                     acc.append("IF EXISTS")
                 acc.append("VALUES")
-                for row in values:
-                    acc.append("(" + ", ".join(self._literal(row)) + ")")
+                acc.append(",\n".join(
+                    "(" + ", ".join(self._literal(v) for v in listwrap(row)) + ")"
+                    for row in values
+                ))
         elif "query" in json:
             query_values = json["query"]
-            if "select" in query_values:
-                values = query_values["select"]
-                if all(isinstance(row, dict) for row in values):
-                    if "if exists" in json:
-                        acc.append("IF EXISTS")
-                    acc.append("VALUES")
-                    acc.append(
-                        "(" + ", ".join(self._literal(v['value']) for v in values) + ")"
-                    )
-
-        else:
             if "if exists" in json:
                 acc.append("IF EXISTS")
-            acc.append(self.dispatch(json["query"]))
+            if query_values.keys() == {"select"}:
+                acc.append("VALUES")
+                acc.append(
+                    "(" + ", ".join(self.dispatch(v) for v in listwrap(query_values["select"])) + ")"
+                )
+            else:
+                acc.append(self.dispatch(query_values, precedence["order"]))
         return " ".join(acc)
 
     def drop(self, json, prec=precedence["from"]):
-- 
2.43.0


From ac40aacdc2adb72e2c98b2af4e1012fb14640114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 35/67] fix: identifiers, backslashes and || were sent in a
 dialect MySQL reads differently

---
 scheduler/handers/rewrite_hander.py |  2 +-
 scheduler/schema/metadata.py        |  2 +-
 sql_parsing/formatting.py           | 11 ++++++++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index b778191..fa9718a 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -80,7 +80,7 @@ class Rewriter(Clause):
         self.table_json = json
         if 'alter' in json:
             return format_alter_key(json), table
-        return format(json), table
+        return format(json, ansi_quotes=False), table
 
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index b00826b..a750088 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -228,7 +228,7 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
-            enc_query = format(json)
+            enc_query = format(json, ansi_quotes=False)
             table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
 
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index e9a4ddf..0d66ebd 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -133,7 +133,7 @@ ordered_clauses = [
 
 class Formatter:
     # infix operators
-    _concat = Operator("||")
+    _ansi_concat = Operator("||")
     _mul = Operator("*")
     _div = Operator("/")
     _mod = Operator("%")
@@ -294,6 +294,12 @@ class Formatter:
             params = ", ".join(self.dispatch(p) for p in listwrap(value))
             return f"{key.upper()}({params})"
 
+    def _concat(self, json, prec):
+        if self.ansi_quotes:
+            return self._ansi_concat(json, prec)
+        # MySQL: || IS THE LOGICAL OR
+        return "CONCAT({0})".format(", ".join(self.dispatch(v) for v in listwrap(json)))
+
     def _binary_not(self, value, prec):
         return "~{0}".format(self.dispatch(value, prec))
 
@@ -388,6 +394,9 @@ class Formatter:
                 self._literal(v, precedence["literal"]) for v in json
             ))
         elif isinstance(json, string_types):
+            if not self.ansi_quotes:
+                # MySQL: THE BACKSLASH ESCAPES
+                json = json.replace("\\", "\\\\")
             return "'{0}'".format(json.replace("'", "''"))
         elif isinstance(json, dict):
             return self._literal(json["literal"]) if "literal" in json else self.dispatch(json)
-- 
2.43.0


From 54647ed1cb4b26c2ea56a57c1e00113019b6d637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:49 +0000
Subject: [PATCH 36/67] fix: the formatter lost USING parentheses, the FETCH
 count and DROP IF EXISTS

---
 sql_parsing/formatting.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 0d66ebd..3988b44 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -476,7 +476,7 @@ class Formatter:
             acc.append(self.dispatch(json["on"]))
         if json.get("using"):
             acc.append("USING")
-            acc.append(self.dispatch(json["using"]))
+            acc.append("(" + ", ".join(self.dispatch(c) for c in listwrap(json["using"])) + ")")
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
@@ -604,7 +604,7 @@ class Formatter:
         return f"OFFSET {num}"
 
     def fetch(self, json, prec):
-        num = self.dispatch(json["offset"], precedence["order"])
+        num = self.dispatch(json["fetch"], precedence["order"])
         return f"FETCH {num} ROWS ONLY"
 
     def insert(self, json, prec=precedence["from"]):
@@ -655,6 +655,8 @@ class Formatter:
         values = json['drop']
         if 'table' in values:
             acc.append("TABLE")
+            if values.get('if_exists'):
+                acc.append("IF EXISTS")
             acc.append(values['table'])
         return " ".join(acc)
 
-- 
2.43.0


From 9eeee13597357c065fdc4f46b6d9de50dcbadacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:13 +0000
Subject: [PATCH 37/67] fix: the formatter lost parentheses of subqueries,
 window frames, WITH before UNION and commas before joins

---
 sql_parsing/__init__.py   |  2 +-
 sql_parsing/formatting.py | 87 ++++++++++++++++-----------------------
 2 files changed, 36 insertions(+), 53 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 919d09c..6fbbeec 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -86,7 +86,7 @@ def _parse(parser, sql, null, calls):
 def format(json, **kwargs):
     from sql_parsing.formatting import Formatter
 
-    return Formatter(**kwargs).dispatch(json)
+    return Formatter(**kwargs).format(json)
 
 
 def parse_alter_key(sql):
diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 3988b44..2b8e1e2 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -19,6 +19,8 @@ from sql_parsing.keywords import RESERVED, join_keywords, precedence
 from sql_parsing.utils import binary_ops, is_set_op
 
 MAX_PRECEDENCE = 100
+# AN EXPRESSION NEEDS NO PARENTHESES WHERE A QUERY DOES
+EXPRESSION = precedence["from"] - 1
 VALID = re.compile(r"^[a-zA-Z_]\w*$")
 
 
@@ -166,7 +168,7 @@ class Formatter:
     def format(self, json):
         return self.dispatch(json, 50)
 
-    def dispatch(self, json, prec=100):
+    def dispatch(self, json, prec=EXPRESSION):
         if isinstance(json, list):
             return self.sql_list(json, prec=precedence["list"])
         if isinstance(json, dict):
@@ -214,52 +216,26 @@ class Formatter:
             window = []
             if "partitionby" in over:
                 window.append("PARTITION BY")
-                window.append(self.dispatch(over["partitionby"]))
+                window.append(", ".join(self.dispatch(c) for c in listwrap(over["partitionby"])))
             if "orderby" in over:
                 window.append(self.orderby(over, precedence["window"]))
             if "range" in over:
 
-                def wordy(v):
-                    if v < 0:
-                        return [text(abs(v)), "PRECEDING"]
-                    elif v > 0:
-                        return [text(v), "FOLLOWING"]
+                def bound(v, unbounded):
+                    if v is None:
+                        return f"UNBOUNDED {unbounded}"
+                    elif v == 0:
+                        return "CURRENT ROW"
+                    elif v < 0:
+                        return f"{text(abs(v))} PRECEDING"
+                    else:
+                        return f"{text(v)} FOLLOWING"
 
-                window.append("ROWS")
                 range = over["range"]
-                min = range.get("min")
-                max = range.get("max")
-
-                if min is None:
-                    if max is None:
-                        window.pop()  # not expected, but deal
-                    elif max == 0:
-                        window.append("UNBOUNDED PRECEDING")
-                    else:
-                        window.append("BETWEEN")
-                        window.append("UNBOUNDED PRECEDING")
-                        window.append("AND")
-                        window.extend(wordy(max))
-                elif min == 0:
-                    if max is None:
-                        window.append("UNBOUNDED FOLLOWING")
-                    elif max == 0:
-                        window.append("CURRENT ROW")
-                    else:
-                        window.extend(wordy(max))
-                else:
-                    if max is None:
-                        window.append("BETWEEN")
-                        window.extend(wordy(min))
-                        window.append("AND")
-                        window.append("UNBOUNDED FOLLOWING")
-                    elif max == 0:
-                        window.extend(wordy(min))
-                    else:
-                        window.append("BETWEEN")
-                        window.extend(wordy(min))
-                        window.append("AND")
-                        window.extend(wordy(max))
+                window.append("ROWS BETWEEN")
+                window.append(bound(range.get("min"), "PRECEDING"))
+                window.append("AND")
+                window.append(bound(range.get("max"), "FOLLOWING"))
 
             window = " ".join(window)
             parts.append(f"({window})")
@@ -290,6 +266,9 @@ class Formatter:
             return (
                 key.upper() + "()"
             )  # NOT SURE IF AN EMPTY dict SHOULD BE DELT WITH HERE, OR IN self.format()
+        elif key in ("all", "any", "some"):
+            # THE PARENTHESES ARE THOSE OF THE SUBQUERY
+            return f"{key.upper()}({self.dispatch(value, MAX_PRECEDENCE)})"
         else:
             params = ", ".join(self.dispatch(p) for p in listwrap(value))
             return f"{key.upper()}({params})"
@@ -480,12 +459,13 @@ class Formatter:
         return " ".join(acc)
 
     def ordered_query(self, json, prec):
-        if json.keys() & set(unordered_clauses) - {"from"}:
+        if json.keys() & set(unordered_clauses) - {"from", "with"}:
             # regular query
             acc = [self.unordered_query(json, precedence["order"])]
         else:
             # set-op expression
-            acc = [self.dispatch(json["from"], precedence["order"])]
+            acc = [self.with_(json, prec)] if "with" in json else []
+            acc.append(self.dispatch(json["from"], precedence["order"]))
 
         acc.extend(
             part
@@ -501,6 +481,13 @@ class Formatter:
             return f"({sql})"
 
     def unordered_query(self, json, prec):
+        set_op = json.keys() & set(is_set_op)
+        if set_op:
+            # WITH ... UNION ...
+            query = {k: v for k, v in json.items() if k in set_op}
+            sql = self.with_(json, prec) + " " + self.dispatch(query, precedence["order"])
+            return sql if prec >= precedence["order"] else f"({sql})"
+
         sql = " ".join(
             part
             for clause in unordered_clauses
@@ -519,7 +506,7 @@ class Formatter:
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"]))
+                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"], MAX_PRECEDENCE))
                 for part in with_
             )
             return "WITH {0}".format(parts)
@@ -555,22 +542,18 @@ class Formatter:
         return f"SELECT DISTINCT {param}"
 
     def from_(self, json, prec):
-        is_join = False
         from_ = json["from"]
         if isinstance(from_, dict) and is_set_op & from_.keys():
             source = self.op(from_, precedence["from"])
             return f"FROM {source}"
 
         from_ = listwrap(from_)
-        parts = []
+        rest = ""
         for v in from_:
             if join_keywords & set(v):
-                is_join = True
-                parts.append(self._join_on(v, precedence["from"] - 1))
+                rest += " " + self._join_on(v, precedence["from"] - 1)
             else:
-                parts.append(self.dispatch(v, precedence["from"] - 1))
-        joiner = " " if is_join else ", "
-        rest = joiner.join(parts)
+                rest += (", " if rest else "") + self.dispatch(v, precedence["from"] - 1)
         return f"FROM {rest}"
 
     def where(self, json, prec):
@@ -587,7 +570,7 @@ class Formatter:
     def orderby(self, json, prec):
         param = ", ".join(
             (
-                self.dispatch(s["value"], precedence["order"])
+                self.dispatch(s["value"])
                 + " "
                 + s.get("sort", "").upper()
             ).strip()
-- 
2.43.0


From 7bfe84aefb37672c91aa29ea3141d05c6c6be44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:23 +0000
Subject: [PATCH 38/67] fix: table names were sent unquoted in INSERT, UPDATE,
 DELETE, DROP and WITH

---
 sql_parsing/formatting.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index 2b8e1e2..d447da0 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -21,7 +21,7 @@ from sql_parsing.utils import binary_ops, is_set_op
 MAX_PRECEDENCE = 100
 # AN EXPRESSION NEEDS NO PARENTHESES WHERE A QUERY DOES
 EXPRESSION = precedence["from"] - 1
-VALID = re.compile(r"^[a-zA-Z_]\w*$")
+VALID = re.compile(r"^[a-zA-Z_]\w*\Z")
 
 
 def is_keyword(identifier):
@@ -506,7 +506,7 @@ class Formatter:
             if not isinstance(with_, list):
                 with_ = [with_]
             parts = ", ".join(
-                "{0} AS ({1})".format(part["name"], self.dispatch(part["value"], MAX_PRECEDENCE))
+                "{0} AS ({1})".format(self.dispatch(part["name"]), self.dispatch(part["value"], MAX_PRECEDENCE))
                 for part in with_
             )
             return "WITH {0}".format(parts)
@@ -522,11 +522,11 @@ class Formatter:
             return f"SELECT {param}"
 
     def delete(self, json, prec):
-        param = "FROM " + json['delete']
+        param = "FROM " + self.dispatch(json['delete'])
         return f"DELETE {param}"
 
     def update(self, json, prec):
-        param = json['update']
+        param = self.dispatch(json['update'])
         return f"UPDATE {param}"
 
     def set(self, json, prec):
@@ -596,7 +596,7 @@ class Formatter:
             acc.append("OVERWRITE")
         else:
             acc.append("INTO")
-        acc.append(json["insert"])
+        acc.append(self.dispatch(json["insert"]))
 
         if "columns" in json:
             acc.append(self.sql_list(listwrap(json["columns"])))
@@ -640,7 +640,7 @@ class Formatter:
             acc.append("TABLE")
             if values.get('if_exists'):
                 acc.append("IF EXISTS")
-            acc.append(values['table'])
+            acc.append(self.dispatch(values['table']))
         return " ".join(acc)
 
 
-- 
2.43.0


From ab025ae564ca94b42881a3249fdf1ca01c22bc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:23 +0000
Subject: [PATCH 39/67] fix: string constants and backquoted names were read
 with Python's escapes instead of MySQL's

---
 sql_parsing/utils.py | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 78640a0..f315da5 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -573,7 +573,8 @@ def unquote(tokens):
     elif val.startswith('"') and val.endswith('"'):
         val = '"' + val[1:-1].replace('""', '\\"') + '"'
     elif val.startswith("`") and val.endswith("`"):
-        val = '"' + val[1:-1].replace("``", "`").replace('"', '\\"') + '"'
+        # NO ESCAPES IN HERE
+        return val[1:-1].replace("``", "`").replace(".", "\\.")
     elif val.startswith("[") and val.endswith("]"):
         val = '"' + val[1:-1].replace("]]", "]").replace('"', '\\"') + '"'
     elif val.startswith("+"):
@@ -582,10 +583,33 @@ def unquote(tokens):
     return un
 
 
+# https://dev.mysql.com/doc/refman/8.0/en/string-literals.html
+MYSQL_ESCAPES = {
+    "0": "\0",
+    "b": "\b",
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "Z": "\x1a",
+    "%": "\\%",
+    "_": "\\_",
+}
+
+
 def to_string(tokens):
-    val = tokens[0]
-    val = "'" + val[1:-1].replace("''", "\\'") + "'"
-    return {"literal": ast.literal_eval(val)}
+    quote, val = tokens[0][0], tokens[0][1:-1]
+    acc = []
+    i = 0
+    while i < len(val):
+        c = val[i]
+        if c == "\\" or c == quote:
+            # ESCAPED CHARACTER, OR DOUBLED QUOTE
+            i += 1
+            if c == "\\":
+                c = MYSQL_ESCAPES.get(val[i], val[i])
+        acc.append(c)
+        i += 1
+    return {"literal": "".join(acc)}
 
 
 # NUMBERS
@@ -608,8 +632,8 @@ hex_num = (
 )
 
 # STRINGS
-ansi_string = Regex(r"\'(\'\'|[^'])*\'") / to_string
-mysql_doublequote_string = Regex(r'\"(\"\"|[^"])*\"') / to_string
+ansi_string = Regex(r"\'(\'\'|\\[\s\S]|[^'\\])*\'") / to_string
+mysql_doublequote_string = Regex(r'\"(\"\"|\\[\s\S]|[^"\\])*\"') / to_string
 
 # BASIC IDENTIFIERS
 ansi_ident = Regex(r'\"(\"\"|[^"])*\"') / unquote
-- 
2.43.0


From 912b78763e21e6ac6d0d81f1a86a4466bddf4b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:08 +0000
Subject: [PATCH 40/67] fix: a--1, 1e-3 and /*! ... */ were read differently
 from MySQL

---
 sql_parsing/sql_parser.py | 6 ++++--
 sql_parsing/utils.py      | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 9d0558c..6da9663 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -71,9 +71,11 @@ def sqlserver_parser():
 
 def parser(literal_string, ident, sqlserver=False):
     with Whitespace() as engine:
-        engine.add_ignore(Literal("--") + restOfLine)
+        # TWO DASHES WITHOUT A SPACE ARE TWO MINUS SIGNS
+        engine.add_ignore(Regex(r"--(?=\s|$)") + restOfLine)
         engine.add_ignore(Literal("#") + restOfLine)
-        engine.add_ignore(Literal("/*") + SkipTo("*/", include=True))
+        # /*! IS NOT A COMMENT FOR MYSQL
+        engine.add_ignore(Regex(r"/\*(?!!)") + SkipTo("*/", include=True))
 
         var_name = ~RESERVED + ident
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index f315da5..f6e77ed 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -614,7 +614,7 @@ def to_string(tokens):
 
 # NUMBERS
 real_num = (
-    Regex(r"[+-]?(\d+\.\d*|\.\d+)([eE][+-]?\d+)?").set_parser_name("float")
+    Regex(r"[+-]?((\d+\.\d*|\.\d+)([eE][+-]?\d+)?|\d+[eE]-\d+)").set_parser_name("float")
     / (lambda t: float(t[0]))
 )
 
-- 
2.43.0


From 34faf6b25f590170ef797fca71116b6462ca1984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 41/67] fix: operators were not grouped as MySQL groups them
 when a statement was read, and || was read as concatenation

---
 sql_parsing/keywords.py   | 12 ++++++------
 sql_parsing/sql_parser.py |  8 +++++---
 sql_parsing/types.py      |  6 ++----
 sql_parsing/utils.py      |  7 ++++++-
 4 files changed, 19 insertions(+), 14 deletions(-)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 7648105..f550d8d 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -83,6 +83,7 @@ NEG = Literal("-").set_parser_name("neg")
 ADD = Literal("+").set_parser_name("add")
 SUB = Literal("-").set_parser_name("sub")
 BINARY_NOT = Literal("~").set_parser_name("binary_not")
+SIGN = NEG | BINARY_NOT
 BINARY_AND = Literal("&").set_parser_name("binary_and")
 BINARY_OR = Literal("|").set_parser_name("binary_or")
 GTE = Literal(">=").set_parser_name("gte")
@@ -121,6 +122,7 @@ IN = keyword("in")
 IS = keyword("is")
 NOT = keyword("not")
 OR = keyword("or")
+MYSQL_OR = OR | (Literal("||") / (lambda: "or"))
 LATERAL = keyword("lateral")
 VIEW = keyword("view")
 
@@ -294,29 +296,27 @@ precedence = {
 }
 
 KNOWN_OPS = [
+    # TIGHTEST FIRST https://dev.mysql.com/doc/refman/8.0/en/operator-precedence.html
     COLLATE,
     CONCAT,
+    SIGN,
     MUL | DIV | MOD,
-    NEG,
     ADD | SUB,
-    BINARY_NOT,
     BINARY_AND,
     BINARY_OR,
-    GTE | LTE | LT | GT,
-    EEQ | NEQ | DEQ | IDF | INDF,
     AT_TIME_ZONE,
     (BETWEEN, AND),
     (NOT_BETWEEN, AND),
     IN,
     NOT_IN,
-    IS_NOT,
-    IS,
     LIKE,
     NOT_LIKE,
     RLIKE,
     NOT_RLIKE,
     SIMILAR_TO,
     NOT_SIMILAR_TO,
+    # COMPARISONS BIND ALIKE, LONGER ONES ARE TRIED FIRST
+    DEQ | NEQ | GTE | LTE | LT | GT | EEQ | IDF | INDF | IS_NOT | IS,
     NOT,
     AND,
     OR,
diff --git a/sql_parsing/sql_parser.py b/sql_parsing/sql_parser.py
index 6da9663..83a595a 100644
--- a/sql_parsing/sql_parser.py
+++ b/sql_parsing/sql_parser.py
@@ -53,7 +53,9 @@ def mysql_parser():
         combine=True,
     )).set_parser_name("mysql identifier")
 
-    return parser(mysql_string, mysql_ident)
+    # || IS NOT CONCATENATION FOR MYSQL
+    operators = [MYSQL_OR if o is OR else o for o in KNOWN_OPS if o is not CONCAT]
+    return parser(mysql_string, mysql_ident, operators=operators)
 
 
 def sqlserver_parser():
@@ -69,7 +71,7 @@ def sqlserver_parser():
     return parser(ansi_string, combined_ident, sqlserver=True)
 
 
-def parser(literal_string, ident, sqlserver=False):
+def parser(literal_string, ident, sqlserver=False, operators=KNOWN_OPS):
     with Whitespace() as engine:
         # TWO DASHES WITHOUT A SPACE ARE TWO MINUS SIGNS
         engine.add_ignore(Regex(r"--(?=\s|$)") + restOfLine)
@@ -349,7 +351,7 @@ def parser(literal_string, ident, sqlserver=False):
                             unary_ops.get(o, LEFT_ASSOC),
                             to_lambda if o is LAMBDA else to_json_operator,
                         )
-                        for o in KNOWN_OPS
+                        for o in operators
                     ],
                 )
             )("value").set_parser_name("expression")
diff --git a/sql_parsing/types.py b/sql_parsing/types.py
index d8761a0..da4a338 100644
--- a/sql_parsing/types.py
+++ b/sql_parsing/types.py
@@ -15,12 +15,11 @@ from parsing.infix import delimited_list, RIGHT_ASSOC, LEFT_ASSOC
 from sql_parsing.keywords import (
     RB,
     LB,
-    NEG,
     NOT,
-    BINARY_NOT,
     NULL,
     EQ,
     KNOWN_OPS,
+    SIGN,
     LT,
     GT,
 )
@@ -146,9 +145,8 @@ CASTING = (Literal("::").suppress() + simple_types("params")).set_parser_name("c
 KNOWN_OPS.insert(0, CASTING)
 
 unary_ops = {
-    NEG: RIGHT_ASSOC,
+    SIGN: RIGHT_ASSOC,
     NOT: RIGHT_ASSOC,
-    BINARY_NOT: RIGHT_ASSOC,
     CASTING: LEFT_ASSOC,
 }
 
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index f6e77ed..47eb7de 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -141,7 +141,10 @@ def to_json_operator(tokens):
         if tokens.tokens[1].type.parser_name == "cast":
             return Call("cast", list(tokens), {})
         # UNARY OPERATOR
-        op = tokens.tokens[0].type.parser_name
+        op = tokens[0]
+        if not isinstance(op, text):
+            op = op.type.parser_name
+        op = unary_names.get(op, op)
         if op == "neg" and is_number(tokens[1]):
             return -tokens[1]
         return Call(op, [tokens[1]], {})
@@ -240,6 +243,8 @@ def to_tuple_call(tokens):
     return [tokens]
 
 
+unary_names = {"-": "neg", "~": "binary_not"}
+
 binary_ops = {
     "::": "cast",
     "COLLATE": "collate",
-- 
2.43.0


From f7499afb45de2be4b0efbc76ff90bf956d83356d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:59 +0000
Subject: [PATCH 42/67] fix: a = NULL was read as a IS NULL, and a IS TRUE as a
 = TRUE

---
 sql_parsing/formatting.py |  2 ++
 sql_parsing/utils.py      | 26 ++++++++------------------
 2 files changed, 10 insertions(+), 18 deletions(-)

diff --git a/sql_parsing/formatting.py b/sql_parsing/formatting.py
index d447da0..ea828ad 100644
--- a/sql_parsing/formatting.py
+++ b/sql_parsing/formatting.py
@@ -147,6 +147,8 @@ class Formatter:
     _gte = Operator(">=")
     _lte = Operator("<=")
     _eq = Operator("=")
+    _is = Operator("is")
+    _is_not = Operator("is_not")
     _or = Operator("or")
     _and = Operator("and")
     _binary_and = Operator("&")
diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 47eb7de..fc127c4 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -157,18 +157,18 @@ def to_json_operator(tokens):
     op = tokens[1]
     if not isinstance(op, text):
         op = op.type.parser_name
-    op = binary_ops.get(op, op)
-    if op == "eq":
+    if op == "is":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("missing", tokens[2], {})
-    elif op == "neq":
+        return Call("is", [tokens[0], tokens[2]], {})
+    elif op == "is_not":
         if tokens[2] is SQL_NULL:
             return Call("exists", tokens[0], {})
-        elif tokens[0] is SQL_NULL:
-            return Call("exists", tokens[2], {})
-    elif op == "eq!":
+        return Call("is_not", [tokens[0], tokens[2]], {})
+
+    # a = NULL IS NOT a IS NULL
+    op = binary_ops.get(op, op)
+    if op == "eq!":
         if tokens[2] is SQL_NULL:
             return Call("missing", tokens[0], {})
         elif tokens[0] is SQL_NULL:
@@ -178,16 +178,6 @@ def to_json_operator(tokens):
             return Call("exists", tokens[0], {})
         elif tokens[0] is SQL_NULL:
             return Call("exists", tokens[2], {})
-    elif op == "is":
-        if tokens[2] is SQL_NULL:
-            return Call("missing", tokens[0], {})
-        else:
-            return Call("exists", tokens[0], {})
-    elif op == "is_not":
-        if tokens[2] is SQL_NULL:
-            return Call("exists", tokens[0], {})
-        else:
-            return Call("missing", tokens[0], {})
 
     operands = [tokens[0], tokens[2]]
     binary_op = Call(op, operands, {})
-- 
2.43.0


From 3bdab03dbe0b1e05cbfb051354bf1b81f5ad2b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:36 +0000
Subject: [PATCH 43/67] fix: COUNT(DISTINCT a) was sent with parentheses MySQL
 rejects

---
 sql_parsing/keywords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index f550d8d..378cf2a 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -244,6 +244,7 @@ join_keywords = {
 precedence = {
     # https://dev.mysql.com/doc/refman/8.0/en/operator-precedence.html
     "literal": -1,
+    "distinct": -1,
     "interval": 0,
     "cast": 0,
     "collate": 0,
@@ -272,6 +273,7 @@ precedence = {
     "in": 7,
     "nin": 7,
     "is": 7,
+    "is_not": 7,
     "like": 7,
     "not_like": 7,
     "rlike": 7,
-- 
2.43.0


From 1a705cddff92b62b9e2dc152d9a19dd68d280393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 44/67] fix: INSERT of several rows dropped values without a
 column, and columns named twice

---
 sql_parsing/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index fc127c4..666935e 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -530,10 +530,20 @@ def to_insert_call(tokens):
         values = query["from"]["literal"]
         if values:
             if columns:
+                for row in values:
+                    if len(row) != len(set(columns)) or len(row) != len(list(columns)):
+                        raise ParseException(
+                            tokens.type,
+                            tokens.start,
+                            "",
+                            "Expecting one value for each column, and each column once",
+                        )
                 data = [dict(zip(columns, row)) for row in values]
                 return Call("insert", [tokens["table"]], {"values": data, **options})
             else:
                 return Call("insert", [tokens["table"]], {"values": values, **options})
+    except ParseException:
+        raise
     except Exception:
         pass
 
-- 
2.43.0


From 2b7213071a628eabf4ec77c34e5c9b2d510f940f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 45/67] fix: NATURAL JOIN was read as an alias and a join
 without condition

---
 sql_parsing/keywords.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sql_parsing/keywords.py b/sql_parsing/keywords.py
index 378cf2a..f79a2c6 100644
--- a/sql_parsing/keywords.py
+++ b/sql_parsing/keywords.py
@@ -41,6 +41,7 @@ LEFT = keyword("left")
 LIKE = keyword("like")
 LIMIT = keyword("limit").suppress()
 MINUS = keyword("minus")
+NATURAL = keyword("natural")
 OFFSET = keyword("offset").suppress()
 ON = keyword("on").suppress()
 ORDER = keyword("order").suppress()
@@ -198,6 +199,7 @@ RESERVED = MatchFirst([
     LIKE,
     LIMIT,
     MINUS,
+    NATURAL,
     NOCASE,
     NOT,
     NULL,
-- 
2.43.0


From b24c32d2d0d995b5c439aa67255418e512970496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:54 +0000
Subject: [PATCH 46/67] fix: clauses and values the rewriter does not rewrite
 were sent as the client wrote them

---
 scheduler/handers/clause/sql_set.py    |  2 ++
 scheduler/handers/clause/sql_values.py |  2 ++
 scheduler/handers/clause/utils.py      | 18 ++++++++++++++++++
 scheduler/handers/rewrite_hander.py    | 15 +++++++++++++--
 4 files changed, 35 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_set.py b/scheduler/handers/clause/sql_set.py
index 821ec93..b6b788f 100644
--- a/scheduler/handers/clause/sql_set.py
+++ b/scheduler/handers/clause/sql_set.py
@@ -1,5 +1,6 @@
 from scheduler.handers.clause.sql_values import SQLValues
 from scheduler.handers.clause.rewriter import Rewriter
+from scheduler.handers.clause.utils import check_plain
 
 
 class SQLSet(Rewriter):
@@ -12,6 +13,7 @@ class SQLSet(Rewriter):
         enc_table_meta = self.db_meta[table]
         for k, v in set_value.items():
             if enc_table_meta['columns'][k]['plaintext']:
+                check_plain(v, enc_table_meta['columns'])
                 result[k] = v
             else:
                 for k1, v1 in enc_table_meta['columns'][k]['enc-cols'].items():
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index b81d9a3..c55f84a 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -1,5 +1,6 @@
 from scheduler.handers.clause.rewriter import Rewriter
 from scheduler.crypto import encrypt
+from scheduler.handers.clause.utils import check_plain
 
 
 class SQLValues(Rewriter):
@@ -11,6 +12,7 @@ class SQLValues(Rewriter):
         enc_table_meta = self.db_meta[table]
         for col, value in zip(json['columns'], values):
             if enc_table_meta['columns'][col]['plaintext']:
+                check_plain(value, enc_table_meta['columns'])
                 new_values.append(value)
             else:
                 for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
diff --git a/scheduler/handers/clause/utils.py b/scheduler/handers/clause/utils.py
index 40668af..6518023 100644
--- a/scheduler/handers/clause/utils.py
+++ b/scheduler/handers/clause/utils.py
@@ -40,3 +40,21 @@ def get_origin_table(table_name, table):
             res = table
     return res
 
+
+def check_plain(value, columns):
+    """
+    the value of a plaintext column is sent as it is, so it must not need a rewriting of its own
+    """
+    if isinstance(value, str):
+        name = value.split('.')[-1]
+        if name in columns and not columns[name]['plaintext']:
+            raise Exception("un support encrypted column {} in a value".format(name))
+    elif isinstance(value, dict):
+        if {'select', 'select_distinct', 'from', 'with', 'union', 'union_all'} & value.keys():
+            raise Exception("un support subquery in a value")
+        for k, v in value.items():
+            if k != 'literal':
+                check_plain(v, columns)
+    elif isinstance(value, (list, tuple)):
+        for v in value:
+            check_plain(v, columns)
diff --git a/scheduler/handers/rewrite_hander.py b/scheduler/handers/rewrite_hander.py
index fa9718a..604199a 100644
--- a/scheduler/handers/rewrite_hander.py
+++ b/scheduler/handers/rewrite_hander.py
@@ -25,8 +25,7 @@ class Rewriter(Clause):
             return rewrite_table(self.db, self.db_meta, query, self.encrypted_cols)
         alter_key_json = parse_alter_key(query)
         json = parse(query) if not alter_key_json else alter_key_json
-        if 'with' in json:
-            raise Exception("un support WITH in sql {}".format(self.origin_query))
+        self.check_clauses(json)
         if isinstance(json.get('columns'), str):
             # INSERT of one column: the parser does not wrap single elements
             json['columns'] = [json['columns']]
@@ -82,12 +81,24 @@ class Rewriter(Clause):
             return format_alter_key(json), table
         return format(json, ansi_quotes=False), table
 
+    def check_clauses(self, json):
+        # the clauses which are not rewritten
+        for key in ('with', 'with_recursive', 'distinct_on', 'top', 'fetch'):
+            if key in json:
+                raise Exception("un support {} in sql {}".format(key.upper(), self.origin_query))
+        for key in ('limit', 'offset'):
+            value = json.get(key)
+            for i in value if isinstance(value, list) else [value]:
+                if i is not None and not isinstance(i, int):
+                    raise Exception("un support {} in sql {}".format(key.upper(), self.origin_query))
+
     def rewrite_clause(self, json):
         source_json = copy.deepcopy(json)
         recorded = [self.select.select_columns, self.select.select_types, self.select.select_state]
         outer = [len(i) for i in recorded]
         if isinstance(json, str):
             return self.db_meta[json]['anonymous']
+        self.check_clauses(json)
         for key in table_key:
             if key in json.keys():
                 table = json[key]
-- 
2.43.0


From 3c13cd97d4feef1d83f25d941b283d05ba8a437a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:56 +0000
Subject: [PATCH 47/67] fix: INSERT with more values than columns dropped the
 last values

---
 scheduler/handers/clause/sql_values.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index c55f84a..9e64851 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -10,6 +10,8 @@ class SQLValues(Rewriter):
     def rewrite(self, values, table, json=None):
         new_values = []
         enc_table_meta = self.db_meta[table]
+        if len(values) != len(json['columns']):
+            raise Exception("{} values for {} columns".format(len(values), len(json['columns'])))
         for col, value in zip(json['columns'], values):
             if enc_table_meta['columns'][col]['plaintext']:
                 check_plain(value, enc_table_meta['columns'])
-- 
2.43.0


From b2bd2989aa5f67ecd3c8dbd8537d12f044fd5184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:18 +0000
Subject: [PATCH 48/67] fix: constants of an encrypted column were stored in
 the spelling of the client

TRUE, 2.0 and '05' gave other ciphertexts than 1, 2 and 5, a string in a
numeric column was multiplied, and DEFAULT and names were stored as text.
---
 scheduler/crypto/encrypt.py            | 7 +++++++
 scheduler/handers/clause/sql_values.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/scheduler/crypto/encrypt.py b/scheduler/crypto/encrypt.py
index 96eb0c7..e1198dc 100644
--- a/scheduler/crypto/encrypt.py
+++ b/scheduler/crypto/encrypt.py
@@ -62,6 +62,13 @@ def inverse_stretch(val):
 
 
 def encode(val, val_type):
+    if isinstance(val, bool):
+        # TRUE and FALSE are the numbers 1 and 0
+        val = int(val)
+    if val_type == 'int' and isinstance(val, float):
+        if val != int(val):
+            raise ValueError("{} is not an integer".format(val))
+        return int(val)
     if val_type == 'float':
         return int(val * 10 ** 12)
     if val_type == 'double':
diff --git a/scheduler/handers/clause/sql_values.py b/scheduler/handers/clause/sql_values.py
index 9e64851..b000fbd 100644
--- a/scheduler/handers/clause/sql_values.py
+++ b/scheduler/handers/clause/sql_values.py
@@ -17,6 +17,9 @@ class SQLValues(Rewriter):
                 check_plain(value, enc_table_meta['columns'])
                 new_values.append(value)
             else:
+                if isinstance(value['value'], str):
+                    # a string constant is a literal, this is a name or DEFAULT
+                    raise Exception("un support expression for an encrypted column {}".format(col))
                 for enc in enc_table_meta['columns'][col]['enc-cols'].keys():
                     new_values.append(self.encrypt_value(table, col, value['value'], enc))
         return new_values
@@ -27,6 +30,10 @@ class SQLValues(Rewriter):
             if 'null' in value:
                 return {'value': value}
             value = value['literal']
+        if not isinstance(value, (str, int, float)):
+            raise Exception("un support value for an encrypted column {}".format(col))
+        if isinstance(value, str) and self.db_meta[table]['columns'][col]['type'] in ['int', 'float', 'double']:
+            value = int(value) if self.db_meta[table]['columns'][col]['type'] == 'int' else float(value)
         value = encrypt.encode(value, self.db_meta[table]['columns'][col]['type'])
         if enc == "order-preserving":
             return {'value': encrypt.OPECipher(key).encrypt(int(value))}
-- 
2.43.0


From 4a7b9214b7e2409ac52f5d7f9866958908816eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:29 +0000
Subject: [PATCH 49/67] fix: LIMIT 0 of a UNION, and the clauses around a query
 in parentheses, were dropped

---
 sql_parsing/utils.py | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/sql_parsing/utils.py b/sql_parsing/utils.py
index 666935e..61cccde 100644
--- a/sql_parsing/utils.py
+++ b/sql_parsing/utils.py
@@ -492,7 +492,18 @@ def to_select_call(tokens):
 def to_union_call(tokens):
     unions = tokens["union"]
     if isinstance(unions, dict):
-        return unions
+        # QUERY IN PARENTHESES
+        clauses = ("orderby", "offset", "limit", "fetch")
+        if all(tokens[k] == None for k in clauses):
+            return unions
+        if any(unions.get(k) != None for k in clauses):
+            raise ParseException(
+                tokens.type, tokens.start, "", "Can not order or limit a query twice"
+            )
+        if unions.get("select") != None or unions.get("select_distinct") != None:
+            output = dict(unions)
+        else:
+            output = {"from": unions}
     elif unions.type.parser_name == "unordered sql":
         output = {k: v for k, v in unions.items()}  # REMOVE THE Group()
     else:
@@ -508,7 +519,7 @@ def to_union_call(tokens):
                 acc = {op: [acc, so]}
             last_union = op
 
-        if not tokens["orderby"] and not tokens["offset"] and not tokens["limit"]:
+        if all(tokens[k] == None for k in ("orderby", "offset", "limit", "fetch")):
             return acc
         else:
             output = {"from": acc}
@@ -555,12 +566,17 @@ def to_insert_call(tokens):
 def to_query(tokens):
     output = tokens["query"][0]
     try:
+        if tokens["with"] == None and tokens["with_recursive"] == None:
+            # A QUERY IN PARENTHESES KEEPS ITS OWN
+            return output
+        twice = output.get("with") != None or output.get("with_recursive") != None
         output["with"] = tokens["with"]
         output["with_recursive"] = tokens["with_recursive"]
-
-        return output
     except Exception as cause:
         return
+    if twice:
+        raise ParseException(tokens.type, tokens.start, "", "Can not have WITH twice")
+    return output
 
 
 def to_table(tokens):
-- 
2.43.0


From 0d459e157dcb320763dea1a97cde9efcc17bc05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:01 +0000
Subject: [PATCH 50/67] fix: a shared pool exceeded maxconnections, and failed
 when the session it waited for was given back

---
 dbutils/pooled_db.py | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/dbutils/pooled_db.py b/dbutils/pooled_db.py
index 3265fac..a1570c9 100644
--- a/dbutils/pooled_db.py
+++ b/dbutils/pooled_db.py
@@ -287,30 +287,30 @@ class PooledDB:
         """
         if shareable and self._maxshared:
             with self._lock:
-                while (not self._shared_cache and self._maxconnections
-                        and self._connections >= self._maxconnections):
-                    self._wait_lock()
-                if len(self._shared_cache) < self._maxshared:
-                    # shared cache is not full, get a dedicated connection
-                    try:  # first try to get it from the idle cache
-                        con = self._idle_cache.pop(0)
-                    except IndexError:  # else get a fresh connection
-                        con = self.steady_connection()
-                    else:
-                        con._ping_check()  # check this connection
-                    con = SharedDBConnection(con)
-                    self._connections += 1
-                else:  # shared cache full or no more connections allowed
+                while True:
+                    if (len(self._shared_cache) < self._maxshared
+                            and not (self._maxconnections and
+                                     self._connections >= self._maxconnections)):
+                        # shared cache is not full, get a dedicated connection
+                        try:  # first try to get it from the idle cache
+                            con = self._idle_cache.pop(0)
+                        except IndexError:  # else get a fresh connection
+                            con = self.steady_connection()
+                        else:
+                            con._ping_check()  # check this connection
+                        con = SharedDBConnection(con)
+                        self._connections += 1
+                        break
+                    # shared cache full or no more connections allowed
                     self._shared_cache.sort()  # least shared connection first
-                    con = self._shared_cache.pop(0)  # get it
-                    while con.con._transaction:
-                        # do not share connections which are in a transaction
-                        self._shared_cache.insert(0, con)
-                        self._wait_lock()
-                        self._shared_cache.sort()
-                        con = self._shared_cache.pop(0)
-                    con.con._ping_check()  # check the underlying connection
-                    con.share()  # increase share of this connection
+                    # do not share connections which are in a transaction
+                    if (self._shared_cache
+                            and not self._shared_cache[0].con._transaction):
+                        con = self._shared_cache.pop(0)  # get it
+                        con.con._ping_check()  # check the underlying connection
+                        con.share()  # increase share of this connection
+                        break
+                    self._wait_lock()
                 # put the connection (back) into the shared cache
                 self._shared_cache.append(con)
                 self._lock.notify()
-- 
2.43.0


From e4c489c5edef03f24b9118cd56efb24b7d8b4575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:31 +0000
Subject: [PATCH 51/67] fix: with a sqlite metadata store every write asked a
 MySQL server for a connection

---
 scheduler/schema/metadata.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index a750088..16a3ffb 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -30,6 +30,8 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
 
 
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
-- 
2.43.0


From d714e7529d03ea1b7259e4082cb2f97934eea2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:31 +0000
Subject: [PATCH 52/67] fix: requests shared the connection of the metadata
 store, and left the rows of a failed write to be committed by the next one

---
 scheduler/schema/metadata.py | 55 ++++++++++++++++++++----------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 16a3ffb..8c866d1 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -2,6 +2,7 @@ import re
 import json
 import yaml
 import sqlite3
+import threading
 from copy import deepcopy
 
 from sql_parsing import parse_mysql as parse
@@ -29,6 +30,10 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
         delete_sql = 'delete from p_db_meta where database_name = ? and table_name = ?'
 
 
+# the connection to the store is one for all requests: a request uses it alone, until its writes are committed
+store_lock = threading.RLock()
+
+
 def test_connection(_db_conn):
     if config['meta']['type'] != 'mysql':
         return _db_conn
@@ -101,34 +106,29 @@ class Delta(object):
     db_conn = None
 
     def __new__(cls, *args, **kwargs):
-        if Delta.__instance is None:
-            Delta.__instance = object.__new__(cls, *args, **kwargs)
-            cls.db_conn = db_conn
-            cls.meta = cls.load_delta()
+        with store_lock:
+            if Delta.__instance is None:
+                cls.db_conn = db_conn
+                cls.meta = cls.load_delta()
+                Delta.__instance = object.__new__(cls, *args, **kwargs)
         return Delta.__instance
 
     def update_delta(self, db_name, table_meta):
-        # update database meta, first: when the store fails the memory keeps describing what is stored
-        self.update_db_meta(db_name, table_meta)
-        if db_name not in self.meta.keys():
-            self.meta.update({db_name: table_meta})
-        else:
-            self.meta[db_name].update(table_meta)
+        with store_lock:
+            # update database meta, first: when the store fails the memory keeps describing what is stored
+            self.update_db_meta(db_name, table_meta)
+            if db_name not in self.meta.keys():
+                self.meta.update({db_name: table_meta})
+            else:
+                self.meta[db_name].update(table_meta)
         return self.meta
 
     def delete_delta(self, db, table):
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
-        cu.execute(delete_sql, (db, table))
-        if config['meta']['type'] == 'mysql':
-            self.db_conn.commit()
-        else:
-            cu.connection.commit()
-        self.meta[db].pop(table, None)
+        with store_lock:
+            self.write_store(lambda cu: cu.execute(delete_sql, (db, table)))
+            self.meta[db].pop(table, None)
 
     def update_db_meta(self, db_name, table_meta):
-        self.db_conn = test_connection(self.db_conn)
-        cu = self.db_conn.cursor()
         rows = []
         for t_name, t_value in table_meta.items():
             table_name = t_name
@@ -136,11 +136,18 @@ class Delta(object):
             for key, value in t_value['columns'].items():
                 col_str = json.dumps({key: value})
                 rows.append((db_name, 'mysql', table_name, table_anonymous, col_str, ''))
-        cu.executemany(insert_sql, rows)
-        if config['meta']['type'] == 'mysql':
+        with store_lock:
+            self.write_store(lambda cu: cu.executemany(insert_sql, rows))
+
+    def write_store(self, write):
+        self.db_conn = test_connection(self.db_conn)
+        try:
+            write(self.db_conn.cursor())
             self.db_conn.commit()
-        else:
-            cu.connection.commit()
+        except Exception:
+            # what was written of it must not be committed with the next write
+            self.db_conn.rollback()
+            raise
 
     @classmethod
     def load_delta(cls):
-- 
2.43.0


From 55e3c91225a0a88d972ebf72874fdb5b9772770c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:14 +0000
Subject: [PATCH 53/67] fix: requests shared the connection the data sources
 are read from, and with sqlite could not use it

---
 handler.py | 69 ++++++++++++++++++++++++------------------------------
 1 file changed, 30 insertions(+), 39 deletions(-)

diff --git a/handler.py b/handler.py
index 6792f41..dbaa653 100644
--- a/handler.py
+++ b/handler.py
@@ -3,6 +3,7 @@ import abc
 import json
 import logging
 import sqlite3
+import threading
 import yaml
 
 import tornado.web
@@ -33,11 +34,20 @@ with open("config.yaml", 'r', encoding='utf-8') as f:
         )
         placeholder = '%s'
     else:
-        db_conn = sqlite3.connect(config['meta']['sqlite'])
+        db_conn = sqlite3.connect(config['meta']['sqlite'], check_same_thread=False)
         placeholder = '?'
 
 
+# the connection to the store is one for all requests: a request uses it alone
+store_lock = threading.Lock()
+
+DATASOURCE_QUERY = "SELECT id, name, connection_url, driver_class_name, " \
+                   "username, password, ping FROM p_datasource WHERE id=" + placeholder
+
+
 def test_connection(_db_conn):
+    if config['meta']['type'] != 'mysql':
+        return _db_conn
     try:
         _db_conn.ping()
     except:
@@ -51,6 +61,18 @@ def test_connection(_db_conn):
     return _db_conn
 
 
+def query_store(sql, parameters):
+    global db_conn
+    with store_lock:
+        db_conn = test_connection(db_conn)
+        cu = db_conn.cursor()
+        cu.execute(sql, parameters)
+        rows = cu.fetchall()
+        db_conn.commit()
+        cu.close()
+    return rows
+
+
 class BasePostRequestHandler(tornado.web.RequestHandler):
 
     def set_default_headers(self):
@@ -225,13 +247,7 @@ class QueryHandler(tornado.web.RequestHandler, ABC):
             data_source_id = query_para["jdbcDataSourceId"]
             ciphertext = query_para['ciphertext']
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_store(DATASOURCE_QUERY, (data_source_id,))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -335,13 +351,7 @@ class EncryptSqlHandler(tornado.web.RequestHandler, ABC):
             query = query[:-1]
         data_source_id = query_para["jdbcDataSourceId"]
         query = query
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_store(DATASOURCE_QUERY, (data_source_id,))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -543,13 +553,7 @@ class CreateHandler(tornado.web.RequestHandler, ABC):
         data_source_id = query_para['selectedJdbcDataSource']['value']
         query, encrypted_columns = self.generate_table(query_para['dataSource'], query_para['count'],
                                                        query_para['table_name'])
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (data_source_id,))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_store(DATASOURCE_QUERY, (data_source_id,))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -651,13 +655,7 @@ class QueryComponentHandler(tornado.web.RequestHandler, ABC):
     @run_on_executor
     def _post(self, component_id=None):
         query_para = json.loads(self.request.body)
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (component_id,))
-        db_info = cu.fetchall()
-        cx.commit()
-        cu.close()
+        db_info = query_store(DATASOURCE_QUERY, (component_id,))
         jdbc = db_info[0][2]
         if jdbc[:13] == "jdbc:mysql://":
             host_port = jdbc[13:].split("/")[0]
@@ -742,22 +740,15 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
 
     @run_on_executor
     def get(self, component_id=None):
-        cx = test_connection(db_conn)
-        cu = cx.cursor()
-        cu.execute("SELECT id, name, connection_url, driver_class_name, "
-                   "username, password, ping FROM p_datasource WHERE id=" + placeholder, (component_id,))
-        db_info = cu.fetchall()
+        db_info = query_store(DATASOURCE_QUERY, (component_id,))
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
             db = connection_url[13:]
-            cu.execute(
+            self.write(self.format_result(query_store(
                 "SELECT table_name, col_info FROM p_db_meta WHERE database_name=" + placeholder
-                + " order by table_name", (db,))
-            self.write(self.format_result(cu.fetchall()))
+                + " order by table_name", (db,))))
         else:
             self.write({})
-        cx.commit()
-        cu.close()
 
     @staticmethod
     def format_result(tables_info):
-- 
2.43.0


From 45715c1384660ec851658e67aecc489949d1415f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:24 +0000
Subject: [PATCH 54/67] fix: the schema of a data source was always empty, and
 columns of other types than INT and VARCHAR were listed as {}

---
 handler.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/handler.py b/handler.py
index dbaa653..3389907 100644
--- a/handler.py
+++ b/handler.py
@@ -743,7 +743,7 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
         db_info = query_store(DATASOURCE_QUERY, (component_id,))
         connection_url = db_info[0][2]
         if connection_url[:13] == "jdbc:mysql://":
-            db = connection_url[13:]
+            db = connection_url[13:].split("/")[1]
             self.write(self.format_result(query_store(
                 "SELECT table_name, col_info FROM p_db_meta WHERE database_name=" + placeholder
                 + " order by table_name", (db,))))
@@ -776,11 +776,19 @@ class SchemaHandler(tornado.web.RequestHandler, ABC):
                         "dbType": "INT UNSIGNED",
                         "length": 20
                     }
+                else:
+                    format_col = {
+                        "name": key if value['plaintext'] else key + " *",
+                        "javaType": value['type'].upper(),
+                        "dbType": value['type'].upper(),
+                        "length": 258
+                    }
             if row[0] == table["name"]:
                 table["columns"].append(format_col)
             else:
                 res.append(json.dumps(table))
                 table = {"name": row[0], "type": "USER TABLE", "columns": []}
                 table["columns"].append(format_col)
-        res.append(json.dumps(table))
+        if table:
+            res.append(json.dumps(table))
         return "[" + ",".join(res) + "]"
-- 
2.43.0


From 04e7d223b7ff9417edd04f6b05da36c86e36dc05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:00 +0000
Subject: [PATCH 55/67] fix: /rewrite_query never answered, its result was a
 tuple tornado does not write

---
 controller/rewriter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/controller/rewriter.py b/controller/rewriter.py
index 86281b8..41092b1 100644
--- a/controller/rewriter.py
+++ b/controller/rewriter.py
@@ -133,4 +133,5 @@ class ControllerRewriter(object):
         encrypted_cols = None
         if "encrypt_cols" in self.query_info.keys():
             encrypted_cols = self.query_info['encrypt_cols']
-        return execution_context.rewrite(query, db, encrypted_cols)
+        result = execution_context.rewrite(query, db, encrypted_cols)
+        return {'encrypt_sql': result[0], 'table': result[1]}
-- 
2.43.0


From 74579e0c2142d4369455eba6626c2e5fa46843e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:37 +0000
Subject: [PATCH 56/67] fix: CREATE TABLE lost or garbled UNIQUE,
 AUTO_INCREMENT, defaults, UNSIGNED, precisions, collations and table options

---
 scheduler/handers/table.py | 81 +++++++++++++++++++++++++-------------
 1 file changed, 54 insertions(+), 27 deletions(-)

diff --git a/scheduler/handers/table.py b/scheduler/handers/table.py
index 3631e62..aec4e39 100644
--- a/scheduler/handers/table.py
+++ b/scheduler/handers/table.py
@@ -3,7 +3,7 @@ import hashlib
 import string
 import random
 
-from sql_parsing import parse_mysql as parse
+from sql_parsing import parse_mysql as parse, format
 from scheduler.schema.metadata import Delta
 from scheduler.schema.metadata import element_type, fuzzy_type_fixed, arithmetic_type_fixed, sm4_type_fixed
 
@@ -13,6 +13,8 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     if 'create table' not in json.keys():
         raise Exception("Bad create table query: {}".format(query))
     create_table = json['create table']
+    if create_table.get('temporary') or create_table.get('query'):
+        raise Exception("un support create table query: {}".format(query))
     table_name = create_table['name']
     if table_name in db_meta.keys():
         raise Exception("Table {} already exists".format(table_name))
@@ -25,9 +27,13 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
             raise Exception("no column {} to encrypt in table {}".format(name, table_name))
     for col in columns:
         auto_increment = '' if not col.get('auto_increment') else ' auto_increment '
-        primary_key = '' if not col.get('primary_key') else ' primary key' + auto_increment
+        primary_key = '' if not col.get('primary_key') else ' primary key'
+        unique = '' if not col.get('unique') else ' unique'
         col_name = col['name']
-        col_type = col['type']
+        col_type = col['type'] if isinstance(col['type'], dict) else {col['type']: {}}
+        for option in ('check', 'identity'):
+            if option in col:
+                raise Exception("un support {} of column {}".format(option, col_name))
         columns_kv[col_name] = {}
         columns_kv[col_name]['enc-cols'] = {}
         if 'nullable' in col:
@@ -37,27 +43,18 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         if col.get('comment'):
             columns_kv[col_name]['comment'] = col.get('comment', {}).get('literal')
         if col['name'] not in encrypted_cols:
-            for t_k, t_v in col_type.items():
-                if t_v:
-                    enc_col_type = t_k + '(' + str(t_v) + ')'
-                else:
-                    enc_col_type = t_k
-                if col.get('default'):
-                    default_value = col['default']
-                    if isinstance(default_value, dict):
-                        if 'null' in default_value:
-                            default_value = 'NULL '
-                    default_value = ' DEFAULT ' + default_value
-                else:
-                    default_value = ''
-                enc_columns.append(col_name + ' ' + enc_col_type + is_nullable + primary_key + default_value)
-                columns_kv[col_name]['plaintext'] = True
-                columns_kv[col_name]['type'] = t_k
-                columns_kv[col_name]['key'] = ""
+            collate = ' COLLATE ' + col['collate'] if col.get('collate') else ''
+            enc_columns.append(col_name + ' ' + get_column_type(col_type) + collate + is_nullable + auto_increment
+                               + unique + primary_key + get_plaintext_default(col))
+            columns_kv[col_name]['plaintext'] = True
+            columns_kv[col_name]['type'] = [t_k for t_k in col_type if t_k != 'unsigned'][0]
+            columns_kv[col_name]['key'] = ""
             continue
-        val = element_type.get(list(col['type'].keys())[0].upper())
+        if auto_increment:
+            raise Exception("un support auto_increment of encrypted column {}".format(col_name))
+        val = element_type.get(list(col_type.keys())[0].upper())
         for k, v in val.items():
-            primary_key_plus = primary_key if k == 'symmetric' else ''
+            primary_key_plus = unique + primary_key if k == 'symmetric' else ''
             enc_col_name = random.choice(string.ascii_letters) + \
                            hashlib.md5(str(time.perf_counter()).encode('utf-8')).hexdigest()
             for t_k, t_v in col_type.items():
@@ -101,11 +98,9 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
         # print('constraint', constraint)
         enc_constraint.append(get_constraint_key(constraint, columns_kv, db))
     enc_constraint = "," + ",".join(enc_constraint) if enc_constraint else ""
-    engine = 'ENGINE = ' + json.get('engine') if json.get('engine') else ''
-    table_auto_increment = 'AUTO_INCREMENT = ' + json.get('auto_increment') if json.get('auto_increment') else ''
-    table_collate = 'COLLATE = ' + json.get('collate') if json.get('collate') else ''
+    table_options = get_table_options(create_table)
     query = 'CREATE TABLE IF NOT EXISTS ' + anonymous_table + '(' + ",".join(enc_columns) + enc_constraint + ')' \
-            + engine + table_auto_increment + table_collate + ';'
+            + table_options + ';'
 
     table_meta = {
         table_name: {
@@ -118,6 +113,36 @@ def rewrite_table(db, db_meta, query, encrypted_cols):
     return query, {'table': table_name}
 
 
+def get_column_type(col_type):
+    unsigned = ' unsigned' if col_type.get('unsigned') else ''
+    for t_k, t_v in col_type.items():
+        if t_k == 'unsigned':
+            continue
+        size = ','.join(str(i) for i in t_v) if isinstance(t_v, list) else str(t_v) if t_v else ''
+        return t_k.replace('_', ' ') + ('(' + size + ')' if size else '') + unsigned
+
+
+def get_plaintext_default(col):
+    if 'default' not in col:
+        return ''
+    default = col['default']
+    default_value = format(default)
+    # mysql takes expressions in parentheses only, but literals and the functions that give the time
+    if isinstance(default, dict) and not default.keys() & {'null', 'literal', 'now', 'current_timestamp'}:
+        default_value = '(' + default_value + ')'
+    return ' DEFAULT ' + default_value
+
+
+def get_table_options(create_table):
+    table_options = ''
+    for option, phrase in (('engine', 'ENGINE'), ('auto_increment', 'AUTO_INCREMENT'),
+                           ('default_character_set', 'DEFAULT CHARACTER SET'),
+                           ('default_charset', 'DEFAULT CHARSET'), ('collate', 'COLLATE')):
+        if option in create_table:
+            table_options += ' ' + phrase + ' = ' + str(create_table[option])
+    return table_options
+
+
 def get_encrypted_default(col):
     # the same value would be stored in every physical column, none of them could decrypt it
     if 'default' not in col:
@@ -147,7 +172,9 @@ def get_constraint_key(constraint, columns_info, db=None):
     reference_phrase = get_reference_phrase(reference, db) if reference else ''
     columns = key_cons.get('columns')
     enc_columns = get_enc_columns(columns, columns_info)
-    key_cons_phrase = constraint_name + key + '(' + ','.join(enc_columns) + ')' + reference_phrase
+    on_delete = ' ON DELETE ' + key_cons['on_delete'].replace('_', ' ') if key_cons.get('on_delete') else ''
+    index_name = ' ' + key_cons['index_name'] if key_cons.get('index_name') else ''
+    key_cons_phrase = constraint_name + key + index_name + '(' + ','.join(enc_columns) + ')' + reference_phrase + on_delete
     return key_cons_phrase
 
 
-- 
2.43.0


From 418031763ba4c1d0ed8ae3a4c099c95e8bb8edcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:37 +0000
Subject: [PATCH 57/67] fix: col_info held 256 characters, less than the
 columns of a table it describes

---
 README.md             | 2 +-
 data/schema-mysql.sql | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 6238bcd..1c2f8b3 100644
--- a/README.md
+++ b/README.md
@@ -14,7 +14,7 @@ create table p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 ```
diff --git a/data/schema-mysql.sql b/data/schema-mysql.sql
index 78cd1a3..efd21ad 100644
--- a/data/schema-mysql.sql
+++ b/data/schema-mysql.sql
@@ -156,7 +156,7 @@ IF NOT EXISTS p_db_meta (
     database_type VARCHAR(256),
     table_name VARCHAR(256) ,
     table_anonymous VARCHAR(256),
-    col_info VARCHAR(256),
+    col_info TEXT,
     key_info VARCHAR(256)
 );
 
-- 
2.43.0


From e41828012584a3e02a9077197ab9d0d5cecc8a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:37 +0000
Subject: [PATCH 58/67] fix: two requests that created the same table overwrote
 each other's metadata

---
 scheduler/schema/metadata.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 8c866d1..f304a56 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -115,6 +115,10 @@ class Delta(object):
 
     def update_delta(self, db_name, table_meta):
         with store_lock:
+            for table_name in table_meta:
+                # another request has created it since this one was checked
+                if table_name in self.meta.get(db_name, {}):
+                    raise Exception("Table {} already exists".format(table_name))
             # update database meta, first: when the store fails the memory keeps describing what is stored
             self.update_db_meta(db_name, table_meta)
             if db_name not in self.meta.keys():
-- 
2.43.0


From 2daa29dad01fd06102a32619feae99c34475b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:18 +0000
Subject: [PATCH 59/67] fix: the schema of a data source with an id of several
 digits could not be listed

---
 service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/service.py b/service.py
index e8c765e..e905686 100644
--- a/service.py
+++ b/service.py
@@ -23,9 +23,9 @@ HANDLERS = [
             name=QueryHandler.__name__),
     URLSpec(r'/create_table', CreateHandler,
             name=CreateHandler.__name__),
-    URLSpec(r'/jdbc_query/component/?([?P<component_id>\w])?', QueryComponentHandler,
+    URLSpec(r'/jdbc_query/component/?(?P<component_id>\w+)?', QueryComponentHandler,
             name=QueryComponentHandler.__name__),
-    URLSpec(r'/jdbc_query/schema/?([?P<component_id>\w])?', SchemaHandler,
+    URLSpec(r'/jdbc_query/schema/?(?P<component_id>\w+)?', SchemaHandler,
             name=SchemaHandler.__name__),
     URLSpec(r'/encrypt_sql', EncryptSqlHandler,
             name=SchemaHandler.__name__),
-- 
2.43.0


From 1639fd736ea98931e4c24c7b8b41645b1cadc10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:54 +0000
Subject: [PATCH 60/67] fix: the metadata store on MySQL took table names that
 differ in case only for one table

---
 README.md             | 2 +-
 data/schema-mysql.sql | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index 1c2f8b3..0fa2547 100644
--- a/README.md
+++ b/README.md
@@ -16,7 +16,7 @@ create table p_db_meta (
     table_anonymous VARCHAR(256),
     col_info TEXT,
     key_info VARCHAR(256)
-);
+) DEFAULT CHARACTER SET utf8mb4 COLLATE utf8mb4_bin;
 ```
 
 
diff --git a/data/schema-mysql.sql b/data/schema-mysql.sql
index efd21ad..ed45ee2 100644
--- a/data/schema-mysql.sql
+++ b/data/schema-mysql.sql
@@ -158,7 +158,7 @@ IF NOT EXISTS p_db_meta (
     table_anonymous VARCHAR(256),
     col_info TEXT,
     key_info VARCHAR(256)
-);
+) DEFAULT CHARACTER SET utf8mb4 COLLATE utf8mb4_bin;
 
 
 INSERT INTO p_user(username, temp_password, sys_role)
-- 
2.43.0


From ef5a2eb282177e7db5a441c19ce6fab3f5447bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:08:30 +0000
Subject: [PATCH 61/67] fix: JOIN ... USING was sent as a join without
 condition

---
 scheduler/handers/clause/sql_from.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scheduler/handers/clause/sql_from.py b/scheduler/handers/clause/sql_from.py
index 5ca9d98..0ef5cd6 100644
--- a/scheduler/handers/clause/sql_from.py
+++ b/scheduler/handers/clause/sql_from.py
@@ -48,8 +48,10 @@ class SQLFrom(Rewriter):
             for key, value in t_value.items():
                 if key in join_list:
                     result[key] = self.db_meta[value]['anonymous']
-                if key in on_list:
+                elif key in on_list:
                     result[key] = self.sql_where.rewrite(value, [])
+                else:
+                    raise Exception("un support {} in join".format(key))
         else:
              raise Exception("un support sql json in join: {}".format(t_value))
         return result
-- 
2.43.0


From ca1530eeff9beacb506c69ad8c505b84a958d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:41 +0000
Subject: [PATCH 62/67] fix: joins of columns with different keys, or of a
 plain and an encrypted one, silently matched nothing

---
 scheduler/handers/clause/sql_where.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/scheduler/handers/clause/sql_where.py b/scheduler/handers/clause/sql_where.py
index ec0ca19..a92d0a7 100644
--- a/scheduler/handers/clause/sql_where.py
+++ b/scheduler/handers/clause/sql_where.py
@@ -24,12 +24,13 @@ class SQLWhere(Rewriter):
                             return {'eq': [col[v[0]]['enc-cols']["symmetric"],
                                            self.operand(v[1], table, 'symmetric', col[v[0]])]}
                     else:
-                        # We don't handle the situation when the join items are plaintext and cipher, but the sql still
-                        # works. It just returns empty result...
                         t_name, col_name = self.split_table_col(v[0], table)
                         t_name1, col_name1 = self.split_table_col(v[1], table)
                         col = self.db_meta[t_name]['columns'][col_name]
                         col1 = self.db_meta[t_name1]['columns'][col_name1]
+                        if not self.comparable(col, col1):
+                            raise Exception("un support join of {} and {}: equal values are not stored equal"
+                                            .format(v[0], v[1]))
                         col_name = col_name if col['plaintext'] else col['enc-cols'][cipher]
                         col_name1 = col_name1 if col1['plaintext'] else col1['enc-cols'][cipher]
                         return {
@@ -91,6 +92,16 @@ class SQLWhere(Rewriter):
                 return encrypt.AESCipher(key).encrypt(where_value)
         return where_value
 
+    @staticmethod
+    def comparable(col, col1):
+        """
+        Are equal values of the two columns equal on the backend, and no others?
+        """
+        if col['plaintext'] or col1['plaintext']:
+            return col['plaintext'] and col1['plaintext']
+        same_type = col['type'] == col1['type'] or {col['type'], col1['type']} == {'char', 'varchar'}
+        return same_type and col['key'] == col1['key']
+
     def other_operator(self, k, v, table, col, cipher):
         """
         The operators without a branch of their own: the constants an encrypted column is compared with are encrypted,
-- 
2.43.0


From 0f62895e20d895320f79a4621e7f9f6f3a349ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:58 +0000
Subject: [PATCH 63/67] fix: bulk load guessed types: '007' of a varchar column
 was stored as 7, empty and NA cells as the text nan

---
 .../backend/executors/remote_executor.py      | 23 +++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index e3362e6..3e3867e 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -154,12 +154,13 @@ class RemoteExecutor(AbstractQueryExecutor):
                 new_columns.append(col)
         chunk_size = 10 ** 4 * 2
         cursor = self.conn.cursor()
-        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None):
+        # the cells as they are written: pandas would take '007' of a varchar column for 7, 'NA' for a missing value
+        for chunk in pd.read_csv(batch_info['input'], chunksize=chunk_size, header=None, dtype=str, keep_default_na=False):
             data = np.transpose(chunk.values)
             enc_data = []
             for idx, col in enumerate(columns):
                 if not columns_info[col]['plaintext']:
-                    values = [encrypt.encode(i, columns_info[col]['type']) for i in data[idx]]
+                    values = [self.batch_value(i, columns_info[col]['type']) for i in data[idx]]
                     for enc, value in columns_info[col]['enc-cols'].items():
                         if enc == "order-preserving":
                             enc_data.append(
@@ -182,7 +183,7 @@ class RemoteExecutor(AbstractQueryExecutor):
                                 self.batch_enc(
                                     encrypt.SM4CipherBytes(columns_info[col]['sm4_key']).encrypt, str, values))
                 else:
-                    enc_data.append(data[idx])
+                    enc_data.append([None if i == '' else i for i in data[idx]])
             query = "insert into {} (".format(new_table) + ",".join(new_columns) + ") values(" \
                     + ",".join(["%s"] * len(new_columns)) + ")"
             enc_data = np.transpose(np.asarray(enc_data)).tolist()
@@ -194,9 +195,23 @@ class RemoteExecutor(AbstractQueryExecutor):
     def batch_enc(func, input_type, data):
         enc_data = []
         for i in data:
-            enc_data.append(func(input_type(i)))
+            enc_data.append(None if i is None else func(input_type(i)))
         return enc_data
 
+    @staticmethod
+    def batch_value(text, col_type):
+        """
+        The stored encoding of a cell of the file, None for an empty one
+        """
+        if text == '':
+            return None
+        if col_type in ['int', 'float', 'double']:
+            try:
+                text = int(text)
+            except ValueError:
+                text = float(text)
+        return encrypt.encode(text, col_type)
+
     def dispatch(self, query):
         self.rewriter = Rewriter(self.str_db, self.encrypted_cols)
         return self.rewriter.rewrite_query(query)
-- 
2.43.0


From 531dc4c6a2039db312180414181bc10bc7149531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:07 +0000
Subject: [PATCH 64/67] fix: refuse GROUP BY, HAVING, OFFSET and LIMIT 0 with
 SUM or AVG of an encrypted column, drop ORDER BY of the one row

---
 scheduler/schema/metadata.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index f304a56..1e7b3b4 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -219,7 +219,7 @@ class Delta(object):
             json = deepcopy(table_json)
         else:
             json = parse(enc_query)
-        json.pop('limit', None)
+        limit = json.pop('limit', None)
         json_select = json['select']
         if not isinstance(json_select, list):
             json_select = [json_select['value']]
@@ -241,6 +241,14 @@ class Delta(object):
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
         table_name = None
         if need_paillier_procedure:
+            # the session variables hold one total over all the rows
+            for key in ('groupby', 'having', 'offset'):
+                if key in json:
+                    raise Exception("un support {} with SUM or AVG of an encrypted column".format(key.upper()))
+            if limit is not None and limit < 1:
+                raise Exception("un support LIMIT {} with SUM or AVG of an encrypted column".format(limit))
+            # one row needs no order
+            json.pop('orderby', None)
             enc_query = format(json, ansi_quotes=False)
             table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
-- 
2.43.0


From 92adf7919485f39ae25fcddd91eb03eef52f4f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:07 +0000
Subject: [PATCH 65/67] fix: SUM and AVG of encrypted columns skip NULL values

---
 scheduler/backend/executors/remote_executor.py |  8 ++++----
 scheduler/schema/metadata.py                   | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index 3e3867e..bbf506b 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -231,15 +231,15 @@ class RemoteExecutor(AbstractQueryExecutor):
         if not need_paillier_procedure:
             return enc_query
         for feature in set(sum_feature_name_list+avg_feature_name_list):
-            Delta.set_sum_feature(self.conn.cursor(), feature, table_name)
-        if avg_feature_name_list:
-            Delta.set_total_feature_num(self.conn.cursor(), table_name)
+            Delta.set_sum_feature(self.conn.cursor(), feature, table_name[feature[0]])
+        for feature in set(avg_feature_name_list):
+            Delta.set_total_feature_num(self.conn.cursor(), feature, table_name[feature[0]])
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
-            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, 'TotalFeature')
+            enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, feature[0].replace('.', '_'))
         enc_query = enc_query + ' limit 1'
         return enc_query
 
diff --git a/scheduler/schema/metadata.py b/scheduler/schema/metadata.py
index 1e7b3b4..b853bc2 100644
--- a/scheduler/schema/metadata.py
+++ b/scheduler/schema/metadata.py
@@ -186,9 +186,9 @@ class Delta(object):
         cursor.execute(set_sql)
 
     @staticmethod
-    def set_total_feature_num(cursor, table_name):
-        cursor.execute(f'SET @numTotalFeature = (select count(*) from {table_name});')
-
+    def set_total_feature_num(cursor, feature, table_name):
+        new_feature_name = feature[0].replace('.', '_')
+        cursor.execute(f'SET @num{new_feature_name} = (select count(*) from {table_name});')
 
     @staticmethod
     def create_paillier_sum_procedure(cursor, feature, table_name, use_cursor):
@@ -239,7 +239,7 @@ class Delta(object):
                 except:
                     pass
         need_paillier_procedure = len(sum_feature_name_list) + len(avg_feature_name_list)
-        table_name = None
+        table_name = {}
         if need_paillier_procedure:
             # the session variables hold one total over all the rows
             for key in ('groupby', 'having', 'offset'):
@@ -250,7 +250,13 @@ class Delta(object):
             # one row needs no order
             json.pop('orderby', None)
             enc_query = format(json, ansi_quotes=False)
-            table_name = enc_query[re.search('FROM ', enc_query).span()[1]:]
+            for feature, _ in sum_feature_name_list + avg_feature_name_list:
+                # SUM and AVG skip the rows where the column is NULL
+                not_null = deepcopy(json)
+                where = not_null.get('where')
+                not_null['where'] = {'and': [where, {'exists': feature}]} if where else {'exists': feature}
+                rows = format(not_null, ansi_quotes=False)
+                table_name[feature] = rows[re.search('FROM ', rows).span()[1]:]
         return sum_feature_name_list, avg_feature_name_list, need_paillier_procedure, table_name, enc_query
 
     @staticmethod
-- 
2.43.0


From 7bc955a9724eee56eed22d9c31df09ff99afd776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:07 +0000
Subject: [PATCH 66/67] fix: constants of the condition that look like the
 aggregate were replaced in the statement sent

---
 scheduler/backend/executors/remote_executor.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scheduler/backend/executors/remote_executor.py b/scheduler/backend/executors/remote_executor.py
index bbf506b..29c9af8 100644
--- a/scheduler/backend/executors/remote_executor.py
+++ b/scheduler/backend/executors/remote_executor.py
@@ -234,13 +234,16 @@ class RemoteExecutor(AbstractQueryExecutor):
             Delta.set_sum_feature(self.conn.cursor(), feature, table_name[feature[0]])
         for feature in set(avg_feature_name_list):
             Delta.set_total_feature_num(self.conn.cursor(), feature, table_name[feature[0]])
+        # a constant of the condition may hold the text of the aggregate
+        end = enc_query.index('FROM ')
+        enc_query, condition = enc_query[:end], enc_query[end:]
         for feature in sum_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_sum_query(enc_query, feature[0], use_cursor)
         for feature in avg_feature_name_list:
             # Delta.create_paillier_sum_procedure(self.conn.cursor(), feature, table_name, use_cursor)
             enc_query = Delta.modify_avg_query(enc_query, feature[0], use_cursor, feature[0].replace('.', '_'))
-        enc_query = enc_query + ' limit 1'
+        enc_query = enc_query + condition + ' limit 1'
         return enc_query
 
     def get_db_meta(self):
-- 
2.43.0


From 83afc12f457311496a1db875b13786921794d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:25 +0000
Subject: [PATCH 67/67] fix: ALTER TABLE of an index without a name was
 answered as done without being executed

---
 sql_parsing/__init__.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sql_parsing/__init__.py b/sql_parsing/__init__.py
index 6fbbeec..b463509 100644
--- a/sql_parsing/__init__.py
+++ b/sql_parsing/__init__.py
@@ -209,18 +209,18 @@ def format_alter_key(json):
                f"foreign key({','.join([i['value'] for i in json['add foreign key']])}) " \
                f"REFERENCES {json['reference_table']}" \
                f"({','.join([i['value'] for i in json['reference_feature']])});"
-    if json.get('drop foreign key'):
+    if 'drop foreign key' in json:
         return f"alter table {json['alter']} drop foreign key {json['drop foreign key']};"
-    if json.get('add index'):
+    if 'add index' in json:
         return f"alter table {json['alter']} " \
                f"add index {json['add index']}({','.join([i['value'] for i in json['add index feature']])});"
-    if json.get('add unique'):
+    if 'add unique' in json:
         return f"alter table {json['alter']} " \
                f"add unique {json['add unique']}({','.join([i['value'] for i in json['add unique feature']])});"
-    if json.get('add fulltext'):
+    if 'add fulltext' in json:
         return f"alter table {json['alter']} " \
                f"add fulltext {json['add fulltext']}({','.join([i['value'] for i in json['add fulltext feature']])});"
-    if json.get('drop index'):
+    if 'drop index' in json:
         return f"alter table {json['alter']} drop index {json['drop index']};"
 
 
-- 
2.43.0

