From 1d691c3bd7a69bb6f59cf7362a78559b756e1faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 01/64] fix: keep joins when simplifying a union of statements
 on one table

---
 subsetter/plan_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eaa86ff..17e7ed7 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -365,6 +365,8 @@ class SQLStatementUnion(BaseModel):
                 break
             if statement.columns != statement0.columns:
                 break
+            if statement.joins:
+                break
             if statement.limit is not None:
                 break
         else:
-- 
2.43.0


From 02abcef2bc6e0078f889394c7bad6fd9285ef6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 02/64] fix: a target selecting all rows is not limited by
 amount

---
 subsetter/planner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 66b17e3..7bc317a 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -435,7 +435,7 @@ class Planner:
                         table_name=table.name,
                     ),
                     where=SQLWhereClauseAnd(type_="and", conditions=target_constraints),
-                    limit=target.amount,
+                    limit=None if target.all_ else target.amount,
                 )
             )
 
-- 
2.43.0


From cd40b5d89e9865abc83731869adc29b58918e6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 03/64] fix: apply table constraints to target tables

---
 subsetter/planner.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 7bc317a..238b2f3 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -284,6 +284,8 @@ class Planner:
         assert not foreign_keys or not rev_foreign_keys
         assert target or foreign_keys or rev_foreign_keys
 
+        has_rev_foreign_keys = bool(rev_foreign_keys)
+
         # If we're a target we can only have reverse foreign key constraints.
         # If we're selecting all rows we can just ignore them.
         if target:
@@ -345,7 +347,7 @@ class Planner:
             f"{table.schema}.{table.name}", []
         )
         conf_constraints_sql: List[SQLWhereClause] = []
-        if conf_constraints and rev_foreign_keys:
+        if conf_constraints and has_rev_foreign_keys:
             raise ValueError(
                 f"Cannot apply table constraints to {table} without violating "
                 "foreign key constraints of previously sampled tables",
@@ -427,6 +429,8 @@ class Planner:
             if target.all_:
                 target_constraints.clear()
 
+            target_constraints.extend(conf_constraints_sql)
+
             statements.append(
                 SQLStatementSelect(
                     type_="select",
-- 
2.43.0


From bc603cf2d905f3acbfb015c903a26fc3c55923f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 04/64] fix: plan tables with foreign keys to tables that are
 not selected

---
 subsetter/metadata.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6bcb932..6a8c77c 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -182,7 +182,10 @@ class DatabaseMetadata:
     def compute_reverse_keys(self) -> None:
         for table in self.tables.values():
             for fk in table.foreign_keys:
-                self.tables[(fk.dst_schema, fk.dst_table)].rev_foreign_keys.append(
+                dst_table = self.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None:
+                    continue
+                dst_table.rev_foreign_keys.append(
                     ForeignKey(
                         columns=fk.dst_columns,
                         dst_schema=table.schema,
-- 
2.43.0


From 8b5fb349c0dd72c065b0c544c2f6746964c7a43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 05/64] fix: create tables with foreign keys to tables outside
 of the plan

---
 subsetter/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6333ea8..ddb054b 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -539,6 +539,12 @@ class DatabaseOutput(SamplerOutput):
                         sa.CheckConstraint(constraint.sqltext)
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
+                    ref_table_obj = constraint.referred_table
+                    if (
+                        f"{ref_table_obj.schema}.{ref_table_obj.name}"
+                        not in table_obj_map
+                    ):
+                        continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
-- 
2.43.0


From 37082f572390949e58a1f905d39ffa814ed84341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 06/64] fix: merge tables with foreign keys to tables outside
 of the plan

---
 subsetter/sampler.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index ddb054b..a2586a1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -471,12 +471,8 @@ class DatabaseOutput(SamplerOutput):
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
-                if (
-                    fk.dst_columns
-                    != self.source_meta.tables[
-                        (fk.dst_schema, fk.dst_table)
-                    ].primary_key
-                ):
+                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
+                if dst_table is None or fk.dst_columns != dst_table.primary_key:
                     continue
                 offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
                 if offset is not None:
-- 
2.43.0


From 2d41d475f1538565d6ed2eda45b9d99426026241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 07/64] fix: multiply foreign key columns named differently
 from the referenced column

---
 subsetter/sampler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a2586a1..de91ceb 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1139,7 +1139,11 @@ class Sampler:
                 start_len = len(cols)
                 for fk in table.foreign_keys:
                     dst_mapped = result.get(f"{fk.dst_schema}.{fk.dst_table}", set())
-                    cols.update(set(fk.columns) & dst_mapped)
+                    cols.update(
+                        col
+                        for col, dst_col in zip(fk.columns, fk.dst_columns)
+                        if dst_col in dst_mapped
+                    )
 
                 if cols and table_name in ignore_tables:
                     raise ValueError(
-- 
2.43.0


From d338fc0c7d338b4d6067df5fb8bea3032a294129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 08/64] fix: insert rows whose primary key column is omitted by
 a filter

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index de91ceb..147e2f2 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -176,7 +176,7 @@ class ConflictInsert(Executable, ClauseElement):
             self.conflict_strategy = "error"
         else:
             for column in self.table.primary_key:
-                self.non_pk_columns.remove(column.name)
+                self.non_pk_columns.discard(column.name)
             if self.conflict_strategy == "replace" and not self.non_pk_columns:
                 # If there are no other columns outside of the primary key the replace
                 # strategy is meaningless and we should just skip.
-- 
2.43.0


From ba54e8e155571eb02d38853d9106f3ff11422b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 09/64] fix: only replace sampled columns on conflict with
 sqlite

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 147e2f2..e9733c1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -219,7 +219,7 @@ class ConflictInsert(Executable, ClauseElement):
         if self.conflict_strategy == "replace":
             stmt = stmt.on_conflict_do_update(
                 index_elements=self.table.primary_key,
-                set_=stmt.excluded,  # type: ignore
+                set_={col: stmt.excluded[col] for col in self.non_pk_columns},
             )
         if self.conflict_strategy == "skip":
             stmt = stmt.on_conflict_do_nothing()
-- 
2.43.0


From 93062e2613d209b71fcf0fbb8b40e464bb4de5b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 10/64] fix: reject explicitly compacted columns that are part
 of a foreign key

---
 subsetter/sampler.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e9733c1..bcbb677 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -777,13 +777,12 @@ class Sampler:
             else:
                 compact_columns[table_key] = set(cols)
 
-        if (
-            not self.config.compact.primary_keys
-            and not self.config.compact.auto_increment_keys
-        ):
-            return compact_columns
-
         for table_key, table_meta in meta.tables.items():
+            if (
+                not self.config.compact.primary_keys
+                and not self.config.compact.auto_increment_keys
+            ):
+                break
             if len(table_meta.primary_key) != 1:
                 continue
             if f"{table_key[0]}.{table_key[1]}" in self.passthrough_tables:
-- 
2.43.0


From 24a43405f0fc4fbec9e5e82f75abd156353145eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 11/64] fix: report invalid compaction before changing the
 output

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index bcbb677..67c0cc7 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -736,6 +736,7 @@ class Sampler:
         self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
+        self.compact_columns = self._get_compact_columns(meta)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -745,7 +746,6 @@ class Sampler:
             output.truncate()
         output.prepare()
 
-        self.compact_columns = self._get_compact_columns(meta)
         with self.source_engine.execution_options().connect() as conn:
             self._materialize_tables(meta, conn, plan)
             self._copy_results(
-- 
2.43.0


From 0cf35afdb8043808a3b541a4aea2c90fc7f98bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 12/64] fix: fail if a planned table does not exist in the
 destination

---
 subsetter/sampler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 67c0cc7..9b01671 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -600,6 +600,12 @@ class DatabaseOutput(SamplerOutput):
             remapped_table = self.table_remap.get(table)
             if remapped_table:
                 result.append(remapped_table)
+
+        missing_tables = set(self.plan.queries) - set(result)
+        if missing_tables:
+            raise ValueError(
+                f"Planned tables {sorted(missing_tables)} do not exist in destination"
+            )
         return result
 
     def output_result_set(
-- 
2.43.0


From cd682833a31afcfb077b9a9471e3c787e0ae18cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:44 +0000
Subject: [PATCH 13/64] fix: do not auto-increment keys of temporary tables

---
 subsetter/sampler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 9b01671..9fa9eeb 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -111,7 +111,12 @@ class TempTableCreator:
             schema=temp_schema,
             prefixes=["TEMPORARY"],
             *(
-                sa.Column(col.name, col.type, primary_key=col.name in primary_key)
+                sa.Column(
+                    col.name,
+                    col.type,
+                    primary_key=col.name in primary_key,
+                    autoincrement=False,
+                )
                 for col in select.selected_columns
             ),
         )
-- 
2.43.0


From 90cd74d1b3d5ed493d93d88fc5486418a21d3f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 14/64] fix: allow limited statements within a union with
 sqlite

---
 subsetter/plan_model.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 17e7ed7..5692a1f 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -342,7 +342,14 @@ class SQLStatementUnion(BaseModel):
     # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
-        return sa.union(*(statement.build(context) for statement in self.statements))
+        stmts = []
+        for statement in self.statements:
+            stmt = statement.build(context)
+            if statement.limit is not None:
+                # Not all dialects allow a limit directly within a union
+                stmt = stmt.subquery().select()
+            stmts.append(stmt)
+        return sa.union(*stmts)
 
     def simplify(self) -> "SQLStatement":
         simp_statements = [
-- 
2.43.0


From f9dc633849d1329fe60cffbf85ff0aa4eafbff96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 15/64] fix: sample the requested percentage of rows with
 sqlite

---
 subsetter/plan_model.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 5692a1f..1b150a4 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -3,6 +3,7 @@ from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
 from pydantic import BaseModel, ConfigDict, Field
+from sqlalchemy.ext.compiler import compiles
 from typing_extensions import Annotated
 
 from subsetter.common import SQLKnownOperator, SQLLiteralType
@@ -13,6 +14,24 @@ from subsetter.common import SQLKnownOperator, SQLLiteralType
 SQLBuildContext = Callable[["SQLTableIdentifier"], sa.Table]
 
 
+class RandomFraction(sa.sql.functions.FunctionElement):
+    """Random number that is uniformly distributed between 0 and 1"""
+
+    type = sa.Float()
+    inherit_cache = True
+
+
+@compiles(RandomFraction)
+def _random_fraction_generic(_element, compiler, **kwargs) -> str:
+    return compiler.process(sa.func.random(), **kwargs)
+
+
+@compiles(RandomFraction, "sqlite")
+def _random_fraction_sqlite(_element, compiler, **kwargs) -> str:
+    # In sqlite random() is uniformly distributed over all 64-bit integers
+    return "(random() / 18446744073709551616.0 + 0.5)"
+
+
 class SQLTableIdentifier(BaseModel):
     table_schema: str = Field(..., alias="schema")
     table_name: str = Field(..., alias="table")
@@ -189,8 +208,7 @@ class SQLWhereClauseRandom(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        # pylint: disable=not-callable
-        return sa.func.random() < self.threshold
+        return RandomFraction() < self.threshold
 
     def simplify(self) -> "SQLWhereClause":
         if self.threshold <= 0:
-- 
2.43.0


From addc9d8423fd6c8969dab3b301a25eb8ce48bb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 16/64] fix: materialize and compact tables planned as direct
 SQL

---
 subsetter/sampler.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 9fa9eeb..081e15e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -22,7 +22,7 @@ from subsetter.config_model import (
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
 from subsetter.metadata import DatabaseMetadata
-from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier
+from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier, SQLTableQuery
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
 
@@ -820,6 +820,20 @@ class Sampler:
 
         return compact_columns
 
+    @staticmethod
+    def _build_selectable(
+        meta: DatabaseMetadata, table: sa.Table, query: SQLTableQuery
+    ) -> Any:
+        """
+        Build the query for a table so that the result can be selected from. Queries
+        given as plain SQL text are wrapped to select the columns of the table.
+        """
+        stmt = query.build(meta.sql_build_context())
+        if isinstance(stmt, sa.TextClause):
+            columns = {col.name: col.type for col in table.columns}
+            stmt = stmt.columns(**columns).subquery().select()
+        return stmt
+
     def _materialization_order(
         self, meta: DatabaseMetadata, plan: SubsetPlan
     ) -> List[Tuple[str, str, int]]:
@@ -885,7 +899,7 @@ class Sampler:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
 
-            table_q = query.build(meta.sql_build_context())
+            table_q = self._build_selectable(meta, table.table_obj, query)
             if (schema, table_name) in self.compact_columns:
                 subq = table_q.subquery()
                 table_q = sa.select(
@@ -989,6 +1003,10 @@ class Sampler:
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
             if remote_compact_cols or compact_cols:
+                if isinstance(query_stmt, sa.TextClause):
+                    query_stmt = self._build_selectable(
+                        meta, src_table.table_obj, query
+                    )
                 subq = query_stmt.subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
-- 
2.43.0


From 813b6761c727cb7e37924a85eed083259208fc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 17/64] fix: match all columns of a composite foreign key into
 a compacted table

---
 subsetter/sampler.py | 59 +++++++++++++++++++++++++-------------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 081e15e..76686dc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -21,7 +21,7 @@ from subsetter.config_model import (
     SamplerConfig,
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
-from subsetter.metadata import DatabaseMetadata
+from subsetter.metadata import DatabaseMetadata, ForeignKey
 from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier, SQLTableQuery
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
@@ -994,11 +994,7 @@ class Sampler:
                     if dst_col in self.compact_columns.get(
                         (fk.dst_schema, fk.dst_table), set()
                     ):
-                        remote_compact_cols[src_col] = (
-                            fk.dst_schema,
-                            fk.dst_table,
-                            dst_col,
-                        )
+                        remote_compact_cols[src_col] = fk
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
@@ -1026,32 +1022,43 @@ class Sampler:
                 cols: List[sa.ColumnElement] = []
                 select_from: sa.FromClause = subq
                 joined_tables = set()
+                fk_tables: Dict[ForeignKey, sa.FromClause] = {}
                 for col in src_table.table_obj.columns:
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
-                        dst_schema, dst_table_name, dst_col = remote_compact_cols[
-                            col.name
-                        ]
-                        dst_table = build_ctx(
-                            SQLTableIdentifier(
-                                table_schema=dst_schema,
-                                table_name=dst_table_name,
-                                sampled=True,
+                        fk = remote_compact_cols[col.name]
+                        if fk not in fk_tables:
+                            dst_table = build_ctx(
+                                SQLTableIdentifier(
+                                    table_schema=fk.dst_schema,
+                                    table_name=fk.dst_table,
+                                    sampled=True,
+                                )
+                            )
+                            if dst_table in joined_tables:
+                                dst_table = dst_table.alias()
+                            else:
+                                joined_tables.add(dst_table)
+                            fk_tables[fk] = dst_table
+                            select_from = sa.join(
+                                select_from,
+                                dst_table,
+                                sa.and_(
+                                    *(
+                                        subq.columns[src_col]
+                                        == dst_table.columns[dst_col]
+                                        for src_col, dst_col in zip(
+                                            fk.columns, fk.dst_columns
+                                        )
+                                    )
+                                ),
+                                isouter=True,
                             )
-                        )
-                        if dst_table in joined_tables:
-                            dst_table = dst_table.alias()
-                        else:
-                            joined_tables.add(dst_table)
                         cols.append(
-                            dst_table.columns[SUBSETTER_COMPACT_COLUMN].label(col.name)
-                        )
-                        select_from = sa.join(
-                            select_from,
-                            dst_table,
-                            subq.columns[col.name] == dst_table.columns[dst_col],
-                            isouter=True,
+                            fk_tables[fk]
+                            .columns[SUBSETTER_COMPACT_COLUMN]
+                            .label(col.name)
                         )
                     else:
                         cols.append(subq.columns[col.name])
-- 
2.43.0


From 08484e47fe79ea90dda6853f3b12596e0278285d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 18/64] fix: consistently merge tables sharing their primary
 key with another table

---
 subsetter/sampler.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 76686dc..07536ff 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -434,7 +434,6 @@ class DatabaseOutput(SamplerOutput):
         if not self.merge:
             return
 
-        pk_max_values = {}
         self.table_offsets.clear()
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
@@ -463,27 +462,41 @@ class DatabaseOutput(SamplerOutput):
             with self.engine.connect() as conn:
                 max_pk_val = conn.scalar(sa.select(sa.func.max(pk_col)))
 
-            pk_max_values[source_table] = max_pk_val
             if max_pk_val is not None:
                 self.table_offsets[(schema, table_name)][pk_col.name] = max_pk_val + 1
 
+        # A primary key that is itself a foreign key is shifted along with the key it
+        # refers to, which in turn affects the foreign keys referring to it.
+        for _ in self.plan.queries:
+            if not self._update_foreign_key_offsets():
+                break
+
+    def _update_foreign_key_offsets(self) -> bool:
+        """
+        Shift foreign keys by the offset of the primary key they refer to. Returns True
+        if any offset changed.
+        """
+        changed = False
         for source_table in self.plan.queries:
             if source_table in self.passthrough_tables:
                 continue
 
             src_schema, src_table_name = parse_table_name(source_table)
             src_table = self.source_meta.tables[(src_schema, src_table_name)]
+            offsets = self.table_offsets[self._remap_table(src_schema, src_table_name)]
             for fk in src_table.foreign_keys:
                 if len(fk.columns) != 1:
                     continue
                 dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
                 if dst_table is None or fk.dst_columns != dst_table.primary_key:
                     continue
-                offset = pk_max_values.get(f"{fk.dst_schema}.{fk.dst_table}")
-                if offset is not None:
-                    self.table_offsets[self._remap_table(src_schema, src_table_name)][
-                        fk.columns[0]
-                    ] = (offset + 1)
+                offset = self.table_offsets.get(
+                    self._remap_table(fk.dst_schema, fk.dst_table), {}
+                ).get(fk.dst_columns[0])
+                if offset is not None and offsets.get(fk.columns[0]) != offset:
+                    offsets[fk.columns[0]] = offset
+                    changed = True
+        return changed
 
     def create(self) -> None:
         """Create any missing tables in destination from the source schema"""
-- 
2.43.0


From 529798083abb8b4b8b32c6ef382cf01670c8eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 19/64] fix: never move sequences backwards

---
 subsetter/sampler.py | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 07536ff..c772c1d 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -254,21 +254,17 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         return None
     assert engine.dialect.name == "postgresql"
 
-    try:
-        with engine.connect() as conn:
-            result = conn.execute(
-                sa.text("SELECT currval(pg_get_serial_sequence(:tab, :col))"),
-                {
-                    "tab": f"{table.schema}.{table.name}",
-                    "col": table.autoincrement_column.name,
-                },
-            )
-            row = next(iter(result), None)
-            return row[0] if row else None
-    except sa.exc.OperationalError as exc:
-        if "not yet defined in this session" not in str(exc):
-            raise
-        return None
+    with engine.connect() as conn:
+        sequence = conn.scalar(
+            sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
+            {
+                "tab": f"{table.schema}.{table.name}",
+                "col": table.autoincrement_column.name,
+            },
+        )
+        if sequence is None:
+            return None
+        return conn.scalar(sa.text(f"SELECT last_value FROM {sequence}"))
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
-- 
2.43.0


From ca0ad75bcc76bc7ac9a93fcc41f34a1c7df4d791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 20/64] fix: update sequences of tables whose name needs
 quoting

---
 subsetter/sampler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c772c1d..a3fff4e 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -258,7 +258,7 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         sequence = conn.scalar(
             sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
             },
         )
@@ -288,7 +288,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": f"{table.schema}.{table.name}",
+                "tab": engine.dialect.identifier_preparer.format_table(table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From b32fef5723c8751f735a2d71dc7830e6f7fb6277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 21/64] fix: respect a dialect given by environment variable
 everywhere

---
 subsetter/common.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 43e29b8..9b0e458 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -184,9 +184,13 @@ class DatabaseConfig(BaseModel):
         self,
         env_prefix: Optional[str] = None,
     ) -> sa.engine.Engine:
+        dialect = self.dialect
+        if dialect is None and env_prefix is not None:
+            dialect = os.getenv(f"{env_prefix}DIALECT", None)  # type: ignore
+
         if self.isolation_level:
             isolation_level = self.isolation_level
-        elif self.dialect == "sqlite":
+        elif dialect == "sqlite":
             isolation_level = "SERIALIZABLE"
         else:
             isolation_level = "READ COMMITTED"
@@ -196,7 +200,7 @@ class DatabaseConfig(BaseModel):
             isolation_level=isolation_level,
             pool_pre_ping=True,
             connect_args=self.ssl.get_connect_args(
-                self.dialect or DEFAULT_DIALECT,
+                dialect or DEFAULT_DIALECT,
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
@@ -206,7 +210,7 @@ class DatabaseConfig(BaseModel):
         def _set_session_sqls(dbapi_connection, _):
             cursor = dbapi_connection.cursor()
             try:
-                if self.dialect == "sqlite":
+                if dialect == "sqlite":
                     for db_alias, db_file in self.sqlite_databases.items():
                         escaped_db_file = db_file.replace("'", "''")
                         cursor.execute(
-- 
2.43.0


From db2bc91bf5458a6e0a4196da4f336195a7490cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 22/64] fix: verify server certificates as requested with mysql

---
 subsetter/common.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 9b0e458..7a857e5 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -1,5 +1,6 @@
 import logging
 import os
+import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
@@ -138,19 +139,17 @@ class DatabaseConfig(BaseModel):
                 return {key: value for key, value in result.items() if value}
 
             if dialect == "mysql":
-                result = {
-                    "ca": server_rootcert,
-                    "key": client_key,
-                    "cert": client_cert,
-                }
-                result = {key: value for key, value in result.items() if value}
-                if server_verify == "identity":
-                    result["verify_identity"] = True
-                elif server_verify == "cert":
-                    result["verify_cert"] = True
+                ctx = ssl.create_default_context(cafile=server_rootcert)
+                # Certificates generated by MySQL do not pass strict verification
+                ctx.verify_flags &= ~ssl.VERIFY_X509_STRICT
+                ctx.check_hostname = server_verify == "identity"
+                if server_verify in ("identity", "cert"):
+                    ctx.verify_mode = ssl.CERT_REQUIRED
                 else:
-                    result["verify_cert"] = False
-                return {"ssl": result}
+                    ctx.verify_mode = ssl.CERT_NONE
+                if client_cert:
+                    ctx.load_cert_chain(client_cert, keyfile=client_key)
+                return {"ssl": ctx}
 
             raise ValueError("Dialect does not support ssl")
 
-- 
2.43.0


From 73c41efd1903521d08335422300354e89ba61cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:56 +0000
Subject: [PATCH 23/64] fix: keep direct SQL conditions together when combined
 with others

---
 subsetter/plan_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index 1b150a4..ab20f8a 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -226,7 +226,7 @@ class SQLWhereClauseSQL(BaseModel):
     model_config = ConfigDict(populate_by_name=True)
 
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
-        clause = sa.text(self.sql)
+        clause = sa.text(f"({self.sql})")
         if self.sql_params is not None:
             clause = clause.bindparams(**self.sql_params)
         return clause
-- 
2.43.0


From daed9fccde7ef067b77e144e6c9eb35802fdaa97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:36 +0000
Subject: [PATCH 24/64] fix: report queries that cannot be built before
 changing the output

---
 subsetter/sampler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a3fff4e..d679437 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -757,6 +757,7 @@ class Sampler:
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
         self.compact_columns = self._get_compact_columns(meta)
+        materialization_order = self._materialization_order(meta, plan)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
         if create:
@@ -767,7 +768,7 @@ class Sampler:
         output.prepare()
 
         with self.source_engine.execution_options().connect() as conn:
-            self._materialize_tables(meta, conn, plan)
+            self._materialize_tables(meta, conn, plan, materialization_order)
             self._copy_results(
                 output, conn, meta, plan, insert_order, table_column_multipliers
             )
@@ -890,6 +891,7 @@ class Sampler:
         meta: DatabaseMetadata,
         conn: sa.Connection,
         plan: SubsetPlan,
+        materialization_order: List[Tuple[str, str, int]],
     ) -> None:
         # Figure out what sets of columns are going to be queried for our materialized tables.
         joined_columns = collections.defaultdict(set)
@@ -903,7 +905,6 @@ class Sampler:
                 tuple(data.right_columns)
             )
 
-        materialization_order = self._materialization_order(meta, plan)
         for schema, table_name, ref_count in materialization_order:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
-- 
2.43.0


From ade536dc12990650e1444def19fa9950594d40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 25/64] fix: allow compacting from a negative start key with
 mysql

---
 subsetter/sampler.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index d679437..48e51ab 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -914,10 +914,14 @@ class Sampler:
                 subq = table_q.subquery()
                 table_q = sa.select(
                     (
-                        sa.func.row_number(type_=sa.Integer).over(
-                            order_by=[
-                                subq.c[col.name] for col in table.table_obj.primary_key
-                            ],
+                        sa.cast(
+                            sa.func.row_number().over(
+                                order_by=[
+                                    subq.c[col.name]
+                                    for col in table.table_obj.primary_key
+                                ],
+                            ),
+                            sa.Integer,
                         )
                         + self.config.compact.start_key
                         - 1
@@ -1016,10 +1020,14 @@ class Sampler:
                 subq = query_stmt.subquery()
                 id_col = subq.columns.get(
                     SUBSETTER_COMPACT_COLUMN,
-                    sa.func.row_number(type_=sa.Integer).over(
-                        order_by=[
-                            subq.c[col.name] for col in src_table.table_obj.primary_key
-                        ],
+                    sa.cast(
+                        sa.func.row_number().over(
+                            order_by=[
+                                subq.c[col.name]
+                                for col in src_table.table_obj.primary_key
+                            ],
+                        ),
+                        sa.Integer,
                     )
                     + self.config.compact.start_key
                     - 1,
-- 
2.43.0


From b67e7ee6e1250ba5d956d1ecfc44c59fb06a1562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 26/64] fix: compact columns that refer to a compacted column
 through other tables

---
 subsetter/sampler.py | 58 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 48e51ab..7e38f8f 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -21,7 +21,7 @@ from subsetter.config_model import (
     SamplerConfig,
 )
 from subsetter.filters import FilterOmit, FilterView, FilterViewChain
-from subsetter.metadata import DatabaseMetadata, ForeignKey
+from subsetter.metadata import DatabaseMetadata, ForeignKey, TableMetadata
 from subsetter.plan_model import SQLLeftJoin, SQLTableIdentifier, SQLTableQuery
 from subsetter.planner import SubsetPlan
 from subsetter.solver import toposort
@@ -830,6 +830,44 @@ class Sampler:
 
         return compact_columns
 
+    def _get_remote_compact_columns(
+        self, meta: DatabaseMetadata, table: TableMetadata
+    ) -> Dict[str, ForeignKey]:
+        """
+        Get the columns that refer to a compacted column of another table along with
+        the foreign key to use to find the new value.
+        """
+        result: Dict[str, ForeignKey] = {}
+        foreign_keys = list(table.foreign_keys)
+        # Foreign keys get appended while iterating
+        # pylint: disable=modified-iterating-list
+        for fk in foreign_keys:
+            dst_table = meta.tables.get((fk.dst_schema, fk.dst_table))
+            if dst_table is None:
+                continue
+
+            compact_cols = self.compact_columns.get(
+                (fk.dst_schema, fk.dst_table), set()
+            )
+            for src_col, dst_col in zip(fk.columns, fk.dst_columns):
+                if dst_col in compact_cols:
+                    result.setdefault(src_col, fk)
+
+            # The referenced columns may themselves refer to a compacted column.
+            src_columns = dict(zip(fk.dst_columns, fk.columns))
+            for dst_fk in dst_table.foreign_keys:
+                if not set(dst_fk.columns) <= set(src_columns):
+                    continue
+                chained_fk = ForeignKey(
+                    columns=tuple(src_columns[col] for col in dst_fk.columns),
+                    dst_schema=dst_fk.dst_schema,
+                    dst_table=dst_fk.dst_table,
+                    dst_columns=dst_fk.dst_columns,
+                )
+                if chained_fk not in foreign_keys:
+                    foreign_keys.append(chained_fk)
+        return result
+
     @staticmethod
     def _build_selectable(
         meta: DatabaseMetadata, table: sa.Table, query: SQLTableQuery
@@ -870,11 +908,13 @@ class Sampler:
 
             # For calculating max ref count also need to count joins needed at sampling time
             # to facilitate compaction.
-            for fk in meta.tables[parse_table_name(table)].foreign_keys:
+            for fk in set(
+                self._get_remote_compact_columns(
+                    meta, meta.tables[parse_table_name(table)]
+                ).values()
+            ):
                 key = (fk.dst_schema, fk.dst_table)
-                compact_cols = self.compact_columns.get(key, set())
-                if any(col in compact_cols for col in fk.dst_columns):
-                    counter[key] = counter.get(key, 0) + 1
+                counter[key] = counter.get(key, 0) + 1
 
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
@@ -1002,13 +1042,7 @@ class Sampler:
             # We must update the value for that column in this table to match
             # the new compacted column.
             src_table = meta.tables[(schema, table_name)]
-            remote_compact_cols = {}
-            for fk in src_table.foreign_keys:
-                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
-                    if dst_col in self.compact_columns.get(
-                        (fk.dst_schema, fk.dst_table), set()
-                    ):
-                        remote_compact_cols[src_col] = fk
+            remote_compact_cols = self._get_remote_compact_columns(meta, src_table)
 
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
-- 
2.43.0


From bfa7f97481044ac3681100dfe4f06ccb504fa272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:25 +0000
Subject: [PATCH 27/64] fix: shift composite foreign keys along with the
 columns they refer to when merging

---
 subsetter/sampler.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 7e38f8f..2fb28b6 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -481,17 +481,14 @@ class DatabaseOutput(SamplerOutput):
             src_table = self.source_meta.tables[(src_schema, src_table_name)]
             offsets = self.table_offsets[self._remap_table(src_schema, src_table_name)]
             for fk in src_table.foreign_keys:
-                if len(fk.columns) != 1:
-                    continue
-                dst_table = self.source_meta.tables.get((fk.dst_schema, fk.dst_table))
-                if dst_table is None or fk.dst_columns != dst_table.primary_key:
-                    continue
-                offset = self.table_offsets.get(
+                dst_offsets = self.table_offsets.get(
                     self._remap_table(fk.dst_schema, fk.dst_table), {}
-                ).get(fk.dst_columns[0])
-                if offset is not None and offsets.get(fk.columns[0]) != offset:
-                    offsets[fk.columns[0]] = offset
-                    changed = True
+                )
+                for src_col, dst_col in zip(fk.columns, fk.dst_columns):
+                    offset = dst_offsets.get(dst_col)
+                    if offset is not None and offsets.get(src_col) != offset:
+                        offsets[src_col] = offset
+                        changed = True
         return changed
 
     def create(self) -> None:
-- 
2.43.0


From dfa1441f7fd85305af3fc80992ff124cd7c40981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:54 +0000
Subject: [PATCH 28/64] fix: compact tables referring to themselves with mysql

---
 subsetter/sampler.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 2fb28b6..73c7584 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -913,6 +913,10 @@ class Sampler:
                 key = (fk.dst_schema, fk.dst_table)
                 counter[key] = counter.get(key, 0) + 1
 
+            # A table that refers to itself is joined with its own sample.
+            if parse_table_name(table) in counter:
+                counter[parse_table_name(table)] += 1
+
             for key, count in counter.items():
                 max_ref_counts[key] = max(max_ref_counts.get(key, 0), count)
 
@@ -1031,7 +1035,11 @@ class Sampler:
 
             build_ctx = meta.sql_build_context()
             if (schema, table_name, 0) in meta.temp_tables:
-                query_stmt = meta.temp_tables[(schema, table_name, 0)].select()
+                query_stmt = build_ctx(
+                    SQLTableIdentifier(
+                        table_schema=schema, table_name=table_name, sampled=True
+                    )
+                ).select()
             else:
                 query_stmt = query.build(build_ctx)
 
-- 
2.43.0


From fba31c81df39349bdd133169e84c929b028c8e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:48 +0000
Subject: [PATCH 29/64] fix: only skip duplicate keys with mysql conflict
 strategy skip

---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 73c7584..e86c744 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -205,7 +205,10 @@ class ConflictInsert(Executable, ClauseElement):
                 {col: stmt.inserted[col] for col in self.non_pk_columns}
             )
         if self.conflict_strategy == "skip":
-            stmt = stmt.prefix_with("IGNORE")
+            # 'INSERT IGNORE' would also ignore errors other than duplicate keys.
+            stmt = stmt.on_duplicate_key_update(
+                {col.name: col for col in self.table.primary_key}
+            )
         return compiler.process(stmt, **kwargs)
 
     def _insert_postgresql(self, compiler: SQLCompiler, **kwargs) -> str:
-- 
2.43.0


From 8160f4c4a62d558427a614a0df72346d4a74999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:35 +0000
Subject: [PATCH 30/64] fix: create indexes on expressions instead of only
 their columns

---
 subsetter/sampler.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e86c744..d1ab789 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -12,6 +12,7 @@ from sqlalchemy.dialects import mysql, postgresql, sqlite
 from sqlalchemy.ext.compiler import compiles
 from sqlalchemy.sql.compiler import SQLCompiler
 from sqlalchemy.sql.expression import ClauseElement, Executable
+from sqlalchemy.sql.visitors import replacement_traverse
 
 from subsetter.common import DatabaseConfig, parse_table_name, pydantic_search
 from subsetter.config_model import (
@@ -565,17 +566,21 @@ class DatabaseOutput(SamplerOutput):
                         )
                     )
 
+            def _remap_expression(elem, remapped_columns=remapped_table_obj.columns):
+                if isinstance(elem, sa.Column):
+                    return remapped_columns[elem.name]
+                return None
+
             for index_idx, index in enumerate(table_obj.indexes):
+                if not index.expressions:
+                    continue
                 sa.Index(
                     f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
                     *(
-                        (
-                            remapped_table_obj.columns[col.name]
-                            if isinstance(col, sa.Column)
-                            else col
-                        )
-                        for col in index.columns
+                        replacement_traverse(expr, {}, _remap_expression)
+                        for expr in index.expressions
                     ),
+                    _table=remapped_table_obj,
                     unique=index.unique,
                     dialect_options=index.dialect_options,
                     **index.dialect_kwargs,
-- 
2.43.0


From 952278070a64a2320bc75c4b19f6373a610f256c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:51 +0000
Subject: [PATCH 31/64] fix: keep colons in check constraints of created tables

---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index d1ab789..e12792a 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -547,7 +547,10 @@ class DatabaseOutput(SamplerOutput):
                     )
                 if isinstance(constraint, sa.CheckConstraint):
                     remapped_table_obj.append_constraint(
-                        sa.CheckConstraint(constraint.sqltext)
+                        # Not parsed as text, where ":name" is a bind parameter
+                        sa.CheckConstraint(
+                            sa.literal_column(constraint.sqltext.text)  # type: ignore
+                        )
                     )
                 if isinstance(constraint, sa.ForeignKeyConstraint):
                     ref_table_obj = constraint.referred_table
-- 
2.43.0


From 5791e2323e0ccd9b9afe68e8d3579a2be2b02402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:52 +0000
Subject: [PATCH 32/64] fix: shorten index names of created tables to the
 identifier limit

---
 subsetter/sampler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index e12792a..cd4eff0 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import hashlib
 import json
 import logging
 import os
@@ -577,8 +578,16 @@ class DatabaseOutput(SamplerOutput):
             for index_idx, index in enumerate(table_obj.indexes):
                 if not index.expressions:
                     continue
+                index_name = f"idx_subsetter_{remapped_table_obj.name}_{index_idx}"
+                max_length = (
+                    self.engine.dialect.max_index_name_length
+                    or self.engine.dialect.max_identifier_length
+                )
+                if len(index_name) > max_length:
+                    digest = hashlib.sha256(index_name.encode()).hexdigest()[:8]
+                    index_name = f"{index_name[:max_length - 9]}_{digest}"
                 sa.Index(
-                    f"idx_subsetter_{remapped_table_obj.name}_{index_idx}",
+                    index_name,
                     *(
                         replacement_traverse(expr, {}, _remap_expression)
                         for expr in index.expressions
-- 
2.43.0


From f9560aa49750b917fad3d86e2f68c254d1c1923d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:14 +0000
Subject: [PATCH 33/64] fix: do not carry foreign key names over to renamed
 tables

---
 subsetter/sampler.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index cd4eff0..399c4b1 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -561,11 +561,14 @@ class DatabaseOutput(SamplerOutput):
                     ):
                         continue
                     fk_cols = _remap_cols(elem.column for elem in constraint.elements)
+                    # Names may be unique per schema, do not carry them over to
+                    # tables that are renamed or moved.
+                    renamed = str(remapped_table_obj) != table
                     remapped_table_obj.append_constraint(
                         sa.ForeignKeyConstraint(
                             _remap_cols(constraint.columns),
                             fk_cols,
-                            name=constraint.name,
+                            name=None if renamed else constraint.name,
                             use_alter=True,
                         )
                     )
-- 
2.43.0


From b57f4bd72e9eebd57c5c54778972a5a55bea7e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:20 +0000
Subject: [PATCH 34/64] fix: write zero keys to mysql destinations as they are

---
 subsetter/sampler.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 399c4b1..76592f5 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -309,6 +309,17 @@ def _multiply_column(
     return value * multiplier + iteration
 
 
+def _mysql_allow_zero_keys(dbapi_connection, _):
+    # Otherwise zero means "generate the next key" in an AUTO_INCREMENT column
+    cursor = dbapi_connection.cursor()
+    try:
+        cursor.execute(
+            "SET SESSION sql_mode = CONCAT(@@sql_mode, ',NO_AUTO_VALUE_ON_ZERO')"
+        )
+    finally:
+        cursor.close()
+
+
 class SamplerOutput(abc.ABC):
     def output_result_set(
         self,
@@ -403,6 +414,8 @@ class DatabaseOutput(SamplerOutput):
         source_meta: DatabaseMetadata,
     ) -> None:
         self.engine = config.database_engine(env_prefix="SUBSET_DESTINATION_")
+        if self.engine.dialect.name == "mysql":
+            sa.event.listen(self.engine, "connect", _mysql_allow_zero_keys)
         self.remap = config.remap
         self.conflict_strategy = config.conflict_strategy
         self.merge = config.merge
-- 
2.43.0


From 07df6f283c8c515972a84b378864e278d111a118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:12 +0000
Subject: [PATCH 35/64] fix: keep the column order of composite primary keys of
 created tables

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 76592f5..b5ac9be 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -538,6 +538,10 @@ class DatabaseOutput(SamplerOutput):
                     )
                     for col in table_obj.columns
                 ),
+                # Composite keys may list their columns in any order
+                sa.PrimaryKeyConstraint(
+                    *(col.name for col in table_obj.primary_key.columns)
+                ),
                 schema=remap_schema,
             )
             tables_created.add(table_obj_map[table])
-- 
2.43.0


From 64425fda68b51caa31452c732394f5ee91e6e4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 36/64] fix: reject unknown and duplicate columns in omit
 filters

---
 subsetter/filters.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index cbd0824..1913ea3 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -178,6 +178,7 @@ class FilterOmit(FilterView):
             column for column in columns_in if column not in column_act_set
         )
         super().__init__(columns_in, columns_out=columns_out)
+        _validate_and_index(str(type(self)), self.columns_in, self.columns_act)
         columns_in_index = {column: index for index, column in enumerate(columns_in)}
         self.columns_out_indices = [columns_in_index[column] for column in columns_out]
 
-- 
2.43.0


From 9514076e7eb64255a3fd1680e780ec70d6162edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 37/64] fix: use the existing Faker method for license plates

---
 subsetter/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 1913ea3..0dc0468 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -431,7 +431,7 @@ FilterFakePhoneNumber = _simple_faker_class(
     "fake_phone_number", lambda faker: faker.phone_number()
 )
 FilterFakeLicensePlate = _simple_faker_class(
-    "fake_license_plate", lambda faker: faker.licence_plate()
+    "fake_license_plate", lambda faker: faker.license_plate()
 )
 FilterFakeVin = _simple_faker_class("fake_vin", lambda faker: faker.vin())
 FilterFakeAddress = _simple_faker_class("fake_address", lambda faker: faker.address())
-- 
2.43.0


From 6dfd2d7810a02e11f2b7e1e426a532101df36f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 38/64] fix: zero booleans with false instead of an integer

---
 subsetter/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 0dc0468..d45f194 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -150,6 +150,8 @@ class FilterZero(FilterColumns):
                 yield None
             elif isinstance(value, str):
                 yield ""
+            elif isinstance(value, bool):
+                yield False
             elif isinstance(value, int):
                 yield 0
             elif isinstance(value, float):
-- 
2.43.0


From 70a51123e758cf66babd05bf36172a483d858883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 39/64] fix: do not fail on NULL in multiplex comparisons

---
 subsetter/filters.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index d45f194..2a1b320 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -577,6 +577,9 @@ class MultiplexCondition(BaseModel):
             return value == self.value
         if op == "!=":
             return value != self.value
+        if value is None:
+            # NULL neither compares to nor matches anything
+            return False
         if op == "<":
             return value < self.value
         if op == ">":
-- 
2.43.0


From 80224f71d39fafd41f46f09bbbc253f8dc82328b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 40/64] fix: do not turn boolean constants into numbers

---
 subsetter/filters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 2a1b320..adb3574 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -330,7 +330,7 @@ class FilterRandomString(FilterColumns):
         return ("".join(self.rng.choices(self.alphabet, k=self.length)) for _ in values)
 
 
-FilterConstantTypes = Union[None, float, int, str]
+FilterConstantTypes = Union[None, bool, float, int, str]
 
 
 class FilterConstant(FilterColumns):
-- 
2.43.0


From 4bc400b46d738ac546ccb97e201a88b5a0886ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:53 +0000
Subject: [PATCH 41/64] fix: reject an empty random_int range before sampling

---
 subsetter/filters.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index adb3574..2f52729 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -227,6 +227,8 @@ class FilterRandomInt(FilterColumns):
         rng: Optional[Random] = None,
     ) -> None:
         super().__init__(columns_in, columns_act)
+        if low > high:
+            raise ValueError(f"Filter random_int has an empty range {low} to {high}")
         self.low = low
         self.high = high
         self.rng = rng or Random()
-- 
2.43.0


From bbb60ab6a6a54f4a3fe5fed52ea19e325d39f257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:07 +0000
Subject: [PATCH 42/64] fix: fall back to Faker's spelling of license_plate

---
 subsetter/filters.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/subsetter/filters.py b/subsetter/filters.py
index 2f52729..a65768c 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -435,7 +435,12 @@ FilterFakePhoneNumber = _simple_faker_class(
     "fake_phone_number", lambda faker: faker.phone_number()
 )
 FilterFakeLicensePlate = _simple_faker_class(
-    "fake_license_plate", lambda faker: faker.license_plate()
+    "fake_license_plate",
+    lambda faker: (
+        faker.licence_plate()
+        if hasattr(faker, "licence_plate")
+        else faker.license_plate()
+    ),
 )
 FilterFakeVin = _simple_faker_class("fake_vin", lambda faker: faker.vin())
 FilterFakeAddress = _simple_faker_class("fake_address", lambda faker: faker.address())
-- 
2.43.0


From 9400842feea5492786c3ac83aedb9c72dea3c509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:06 +0000
Subject: [PATCH 43/64] fix: keep NULL and the JSON value null apart when
 sampling JSON columns

---
 subsetter/common.py   |  2 ++
 subsetter/filters.py  |  5 +++--
 subsetter/metadata.py |  7 +++++++
 subsetter/sampler.py  | 11 ++++++++++-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 7a857e5..7e46417 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -182,6 +182,7 @@ class DatabaseConfig(BaseModel):
     def database_engine(
         self,
         env_prefix: Optional[str] = None,
+        **engine_kwargs,
     ) -> sa.engine.Engine:
         dialect = self.dialect
         if dialect is None and env_prefix is not None:
@@ -203,6 +204,7 @@ class DatabaseConfig(BaseModel):
                 env_prefix=env_prefix,
             ),
             echo=self.echo,
+            **engine_kwargs,
         )
 
         @sa.event.listens_for(engine, "connect")
diff --git a/subsetter/filters.py b/subsetter/filters.py
index a65768c..1abe27b 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -21,6 +21,7 @@ from uuid import uuid4
 
 from faker import Faker
 from pydantic import BaseModel, Field
+from sqlalchemy import JSON
 from typing_extensions import Annotated
 
 EPOCH = datetime(1970, 1, 1, 0, 0)
@@ -146,8 +147,8 @@ class FilterZero(FilterColumns):
 
     def filter_values(self, values: List[Any]) -> Iterable[Any]:
         for value in values:
-            if value is None:
-                yield None
+            if value is None or value is JSON.NULL:
+                yield value
             elif isinstance(value, str):
                 yield ""
             elif isinstance(value, bool):
diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 6a8c77c..4ebf63e 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -80,6 +80,13 @@ class DatabaseMetadata:
 
         inspector = sa.inspect(engine)
         metadata_obj = sa.MetaData()
+
+        @sa.event.listens_for(metadata_obj, "column_reflect")
+        def _adjust_column_type(_inspector, _table, column_info):
+            if isinstance(column_info["type"], sa.JSON):
+                # Write None as NULL instead of the JSON value null
+                column_info["type"].none_as_null = True
+
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
 
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index b5ac9be..533d290 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -320,6 +320,12 @@ def _mysql_allow_zero_keys(dbapi_connection, _):
         cursor.close()
 
 
+def _json_deserialize(value: str) -> Any:
+    # Keep the JSON value null distinct from NULL
+    result = json.loads(value)
+    return sa.JSON.NULL if result is None else result
+
+
 class SamplerOutput(abc.ABC):
     def output_result_set(
         self,
@@ -399,6 +405,7 @@ class DirectoryOutput(SamplerOutput):
                         out_row[index] = _multiply_column(
                             out_row[index], multiplier, iteration
                         )
+                    out_row = [None if val is sa.JSON.NULL else val for val in out_row]
                     json.dump(dict(zip(columns_out, out_row)), fdump, default=str)
                     fdump.write("\n")
 
@@ -771,7 +778,9 @@ class DatabaseOutput(SamplerOutput):
 class Sampler:
     def __init__(self, source: DatabaseConfig, config: SamplerConfig) -> None:
         self.config = config
-        self.source_engine = source.database_engine(env_prefix="SUBSET_SOURCE_")
+        self.source_engine = source.database_engine(
+            env_prefix="SUBSET_SOURCE_", json_deserializer=_json_deserialize
+        )
         self.compact_columns: Dict[Tuple[str, str], Set[str]] = {}
         self.temp_tables = TempTableCreator()
         self.passthrough_tables: Set[str] = set()
-- 
2.43.0


From c8fc7d82fb0160097395f03c95d75f89e8d7b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:42 +0000
Subject: [PATCH 44/64] fix: convert the values of direct SQL queries like
 those of other queries

---
 subsetter/sampler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 533d290..c5a4e72 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -914,6 +914,13 @@ class Sampler:
                     foreign_keys.append(chained_fk)
         return result
 
+    @staticmethod
+    def _with_column_types(table: sa.Table, stmt: sa.TextClause) -> sa.TextualSelect:
+        # Matched by name as the query may list the columns in any order
+        return sa.TextualSelect(
+            stmt, [sa.column(col.name, col.type) for col in table.columns]
+        )
+
     @staticmethod
     def _build_selectable(
         meta: DatabaseMetadata, table: sa.Table, query: SQLTableQuery
@@ -924,8 +931,7 @@ class Sampler:
         """
         stmt = query.build(meta.sql_build_context())
         if isinstance(stmt, sa.TextClause):
-            columns = {col.name: col.type for col in table.columns}
-            stmt = stmt.columns(**columns).subquery().select()
+            stmt = Sampler._with_column_types(table, stmt).subquery().select()
         return stmt
 
     def _materialization_order(
@@ -1091,6 +1097,11 @@ class Sampler:
                 ).select()
             else:
                 query_stmt = query.build(build_ctx)
+                if isinstance(query_stmt, sa.TextClause):
+                    # Values need to be converted like those of any other query
+                    query_stmt = self._with_column_types(
+                        meta.tables[(schema, table_name)].table_obj, query_stmt
+                    )
 
             # Figure out what columns are foreign keys to compacted columns.
             # We must update the value for that column in this table to match
@@ -1101,7 +1112,7 @@ class Sampler:
             # Update the query to reflect compaction if needed.
             compact_cols = self.compact_columns.get((schema, table_name), set())
             if remote_compact_cols or compact_cols:
-                if isinstance(query_stmt, sa.TextClause):
+                if isinstance(query_stmt, sa.TextualSelect):
                     query_stmt = self._build_selectable(
                         meta, src_table.table_obj, query
                     )
-- 
2.43.0


From 83c1f9afb4a84c7fc0ecaaf0f76ab977b304c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:43 +0000
Subject: [PATCH 45/64] fix: do not round floating point and SQLite numeric
 values to a few digits

---
 subsetter/metadata.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 4ebf63e..9a7159b 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -1,5 +1,6 @@
 import collections
 import dataclasses
+import decimal
 import logging
 from fnmatch import fnmatch
 from typing import Dict, List, Optional, Set, Tuple
@@ -34,6 +35,27 @@ class ForeignKey:
         )
 
 
+class _SQLiteNumericMixin:
+    """SQLite has no decimals, values are passed on as they are stored"""
+
+    def bind_processor(self, dialect):
+        def process(value):
+            return float(value) if isinstance(value, decimal.Decimal) else value
+
+        return process
+
+    def result_processor(self, dialect, coltype):
+        return None
+
+
+class SQLiteNumeric(_SQLiteNumericMixin, sa.NUMERIC):
+    pass
+
+
+class SQLiteDecimal(_SQLiteNumericMixin, sa.DECIMAL):
+    pass
+
+
 class TableMetadata:
     def __init__(
         self,
@@ -83,9 +105,18 @@ class DatabaseMetadata:
 
         @sa.event.listens_for(metadata_obj, "column_reflect")
         def _adjust_column_type(_inspector, _table, column_info):
-            if isinstance(column_info["type"], sa.JSON):
+            type_ = column_info["type"]
+            if isinstance(type_, sa.JSON):
                 # Write None as NULL instead of the JSON value null
-                column_info["type"].none_as_null = True
+                type_.none_as_null = True
+            elif isinstance(type_, sa.Float):
+                # Conversion to decimal is limited to a fixed number of digits
+                type_.asdecimal = False
+            elif isinstance(type_, sa.Numeric) and engine.dialect.name == "sqlite":
+                numeric_type = (
+                    SQLiteDecimal if isinstance(type_, sa.DECIMAL) else SQLiteNumeric
+                )
+                column_info["type"] = numeric_type(type_.precision, type_.scale)
 
         for schema in inspector.get_schema_names():
             metadata_obj.reflect(bind=engine, schema=schema)
-- 
2.43.0


From eb5b10d9c07ed61abfd940338e5f44cbfd7e5cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:48 +0000
Subject: [PATCH 46/64] fix: preserve MySQL times that are negative or exceed a
 day

---
 subsetter/metadata.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/subsetter/metadata.py b/subsetter/metadata.py
index 9a7159b..a46799d 100644
--- a/subsetter/metadata.py
+++ b/subsetter/metadata.py
@@ -6,6 +6,7 @@ from fnmatch import fnmatch
 from typing import Dict, List, Optional, Set, Tuple
 
 import sqlalchemy as sa
+from sqlalchemy.dialects import mysql
 
 from subsetter.common import parse_table_name
 from subsetter.plan_model import SQLTableIdentifier
@@ -56,6 +57,20 @@ class SQLiteDecimal(_SQLiteNumericMixin, sa.DECIMAL):
     pass
 
 
+class MySQLTime(mysql.TIME):
+    """MySQL times may be negative or exceed a day, which only timedelta can hold"""
+
+    def result_processor(self, dialect, coltype):
+        to_time = super().result_processor(dialect, coltype)
+
+        def process(value):
+            if value is not None and value.days != 0:
+                return value
+            return to_time(value)
+
+        return process
+
+
 class TableMetadata:
     def __init__(
         self,
@@ -112,6 +127,8 @@ class DatabaseMetadata:
             elif isinstance(type_, sa.Float):
                 # Conversion to decimal is limited to a fixed number of digits
                 type_.asdecimal = False
+            elif isinstance(type_, mysql.TIME):
+                column_info["type"] = MySQLTime(fsp=type_.fsp)
             elif isinstance(type_, sa.Numeric) and engine.dialect.name == "sqlite":
                 numeric_type = (
                     SQLiteDecimal if isinstance(type_, sa.DECIMAL) else SQLiteNumeric
-- 
2.43.0


From 82d1944a1a1899b96e00589e48f03a5206b500d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:32 +0000
Subject: [PATCH 47/64] fix: preserve PostgreSQL dates and intervals that
 Python cannot represent

---
 subsetter/sampler.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index c5a4e72..a35d1e9 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -320,6 +320,31 @@ def _mysql_allow_zero_keys(dbapi_connection, _):
         cursor.close()
 
 
+def _postgresql_keep_values(dbapi_connection, _):
+    # Pass on as text what Python's types can't represent
+    # pylint: disable=import-outside-toplevel
+    from psycopg2 import extensions
+
+    for base, base_array, pattern in (
+        (extensions.PYDATE, extensions.PYDATEARRAY, "infinity|BC"),
+        (extensions.PYDATETIME, extensions.PYDATETIMEARRAY, "infinity|BC"),
+        (extensions.PYDATETIMETZ, extensions.PYDATETIMETZARRAY, "infinity|BC"),
+        (extensions.PYINTERVAL, extensions.PYINTERVALARRAY, "mon|year"),
+    ):
+
+        def _cast(value, cursor, base=base, pattern=pattern):
+            if value is not None and re.search(pattern, value):
+                return value
+            return base(value, cursor)
+
+        cast_type = extensions.new_type(base.values, base.name, _cast)
+        cast_array_type = extensions.new_array_type(
+            base_array.values, base_array.name, cast_type
+        )
+        extensions.register_type(cast_type, dbapi_connection)
+        extensions.register_type(cast_array_type, dbapi_connection)
+
+
 def _json_deserialize(value: str) -> Any:
     # Keep the JSON value null distinct from NULL
     result = json.loads(value)
@@ -781,6 +806,8 @@ class Sampler:
         self.source_engine = source.database_engine(
             env_prefix="SUBSET_SOURCE_", json_deserializer=_json_deserialize
         )
+        if self.source_engine.dialect.name == "postgresql":
+            sa.event.listen(self.source_engine, "connect", _postgresql_keep_values)
         self.compact_columns: Dict[Tuple[str, str], Set[str]] = {}
         self.temp_tables = TempTableCreator()
         self.passthrough_tables: Set[str] = set()
-- 
2.43.0


From 1b729430ce04d0a4b48f0a21bba2a8f13acba592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:47 +0000
Subject: [PATCH 48/64] fix: reset sequences of PostgreSQL tables with percent
 signs or colons in their name

---
 subsetter/sampler.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index a35d1e9..3dc4665 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -251,6 +251,14 @@ def _autoincrement_needs_updating(engine) -> bool:
     return engine.dialect.name == "postgresql"
 
 
+def _regclass_name(engine, table: sa.Table) -> str:
+    """
+    Get the name of a table in the form that postgresql functions accept as a
+    string. Undoes the escaping of percent signs needed in statements.
+    """
+    return engine.dialect.identifier_preparer.format_table(table).replace("%%", "%")
+
+
 def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
     """
     Get the current auto-increment state.
@@ -263,13 +271,14 @@ def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
         sequence = conn.scalar(
             sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _regclass_name(engine, table),
                 "col": table.autoincrement_column.name,
             },
         )
         if sequence is None:
             return None
-        return conn.scalar(sa.text(f"SELECT last_value FROM {sequence}"))
+        escaped_sequence = sequence.replace(":", "\\:")
+        return conn.scalar(sa.text(f"SELECT last_value FROM {escaped_sequence}"))
 
 
 def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
@@ -293,7 +302,7 @@ def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None
         conn.execute(
             sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
             {
-                "tab": engine.dialect.identifier_preparer.format_table(table),
+                "tab": _regclass_name(engine, table),
                 "col": table.autoincrement_column.name,
                 "val": value,
             },
-- 
2.43.0


From fb4dac1633b99a3e4a04a9b93dbc5004d54c5fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:59 +0000
Subject: [PATCH 49/64] fix: advance the sequences of all auto-increment
 columns of a PostgreSQL table

---
 subsetter/sampler.py | 115 +++++++++++++++++++++++--------------------
 1 file changed, 62 insertions(+), 53 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3dc4665..050c030 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -259,53 +259,68 @@ def _regclass_name(engine, table: sa.Table) -> str:
     return engine.dialect.identifier_preparer.format_table(table).replace("%%", "%")
 
 
-def _autoincrement_get(engine, table: sa.Table) -> Optional[int]:
+def _autoincrement_columns(engine, table: sa.Table) -> List[sa.Column]:
     """
-    Get the current auto-increment state.
+    Get all columns with auto-increment state that needs to be updated.
     """
-    if not _autoincrement_needs_updating(engine) or table.autoincrement_column is None:
-        return None
-    assert engine.dialect.name == "postgresql"
+    if not _autoincrement_needs_updating(engine):
+        return []
+    return [
+        column
+        for column in table.columns
+        if column.autoincrement is True or column is table.autoincrement_column
+    ]
 
-    with engine.connect() as conn:
-        sequence = conn.scalar(
-            sa.text("SELECT pg_get_serial_sequence(:tab, :col)"),
-            {
-                "tab": _regclass_name(engine, table),
-                "col": table.autoincrement_column.name,
-            },
-        )
-        if sequence is None:
-            return None
-        escaped_sequence = sequence.replace(":", "\\:")
-        return conn.scalar(sa.text(f"SELECT last_value FROM {escaped_sequence}"))
+
+def _autoincrement_sequence(engine, conn, column: sa.Column) -> Optional[str]:
+    """
+    Get the sequence a column takes its values from. It may be owned by the column
+    or just be used by its default expression.
+    """
+    assert engine.dialect.name == "postgresql"
+    params = {"tab": _regclass_name(engine, column.table), "col": column.name}
+    return conn.scalar(
+        sa.text("SELECT pg_get_serial_sequence(:tab, :col)"), params
+    ) or conn.scalar(
+        sa.text(
+            "SELECT CAST(CAST(seq.oid AS regclass) AS text) FROM pg_attrdef def "
+            "JOIN pg_attribute att ON att.attrelid = def.adrelid AND att.attnum = def.adnum "
+            "JOIN pg_depend dep ON dep.classid = CAST('pg_attrdef' AS regclass) "
+            "AND dep.objid = def.oid AND dep.refclassid = CAST('pg_class' AS regclass) "
+            "JOIN pg_class seq ON seq.oid = dep.refobjid AND seq.relkind = 'S' "
+            "WHERE def.adrelid = CAST(:tab AS regclass) AND att.attname = :col"
+        ),
+        params,
+    )
+
+
+def _autoincrement_get(conn, sequence: str) -> Optional[int]:
+    """
+    Get the current auto-increment state.
+    """
+    escaped_sequence = sequence.replace(":", "\\:")
+    return conn.scalar(sa.text(f"SELECT last_value FROM {escaped_sequence}"))
 
 
-def _autoincrement_update(engine, table: sa.Table, value: Optional[int]) -> None:
+def _autoincrement_update(engine, column: sa.Column, value: Optional[int]) -> None:
     """
     Update the auto-increment state to ensure the next generated value is greater
     than value.
     """
-    if (
-        not _autoincrement_needs_updating(engine)
-        or table.autoincrement_column is None
-        or value is None
-    ):
-        return
-    assert engine.dialect.name == "postgresql"
-
-    curval = _autoincrement_get(engine, table)
-    if curval is not None and curval > value:
+    if value is None:
         return
 
     with engine.connect() as conn:
+        sequence = _autoincrement_sequence(engine, conn, column)
+        if sequence is None:
+            return
+        curval = _autoincrement_get(conn, sequence)
+        if curval is not None and curval > value:
+            return
+
         conn.execute(
-            sa.text("SELECT setval(pg_get_serial_sequence(:tab, :col), :val)"),
-            {
-                "tab": _regclass_name(engine, table),
-                "col": table.autoincrement_column.name,
-                "val": value,
-            },
+            sa.text("SELECT setval(CAST(:seq AS regclass), :val)"),
+            {"seq": sequence, "val": value},
         )
         conn.commit()
 
@@ -754,18 +769,12 @@ class DatabaseOutput(SamplerOutput):
             if col_name in (column_multipliers or set())
         ]
 
-        autoinc_index = -1
-        autoinc_max_written = None
-        if (
-            _autoincrement_needs_updating(self.engine)
-            and table.table_obj.autoincrement_column is not None
-        ):
-            try:
-                autoinc_index = columns_out.index(
-                    table.table_obj.autoincrement_column.name
-                )
-            except ValueError:
-                pass
+        autoinc_indexes = [
+            (columns_out.index(column.name), column)
+            for column in _autoincrement_columns(self.engine, table.table_obj)
+            if column.name in columns_out
+        ]
+        autoinc_max_written: Dict[int, int] = {}
 
         buffer: List[tuple] = []
 
@@ -793,12 +802,11 @@ class DatabaseOutput(SamplerOutput):
                     for index, offset in offsets:
                         if out_row[index] is not None:
                             out_row[index] += offset
-                if autoinc_index != -1:
-                    if autoinc_max_written is None:
-                        autoinc_max_written = out_row[autoinc_index]
-                    else:
-                        autoinc_max_written = max(
-                            autoinc_max_written, out_row[autoinc_index]
+                for index, _ in autoinc_indexes:
+                    value = out_row[index]
+                    if value is not None:
+                        autoinc_max_written[index] = max(
+                            autoinc_max_written.get(index, value), value
                         )
                 buffer.append(tuple(out_row))
                 if len(buffer) > DESTINATION_BUFFER_SIZE:
@@ -806,7 +814,8 @@ class DatabaseOutput(SamplerOutput):
         if buffer:
             _flush_buffer()
 
-        _autoincrement_update(self.engine, table.table_obj, autoinc_max_written)
+        for index, column in autoinc_indexes:
+            _autoincrement_update(self.engine, column, autoinc_max_written.get(index))
 
 
 class Sampler:
-- 
2.43.0


From 084b039e26265fa065c038f29deacfff2aee62c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:06 +0000
Subject: [PATCH 50/64] fix: refuse to compact columns that passthrough tables
 refer to

---
 subsetter/sampler.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 050c030..6d687d3 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -848,6 +848,7 @@ class Sampler:
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
         self.compact_columns = self._get_compact_columns(meta)
+        self._check_passthrough_tables(meta)
         materialization_order = self._materialization_order(meta, plan)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
@@ -921,6 +922,17 @@ class Sampler:
 
         return compact_columns
 
+    def _check_passthrough_tables(self, meta: DatabaseMetadata) -> None:
+        """
+        Make sure no column of a passthrough table would be changed by compaction.
+        """
+        for table in self.passthrough_tables:
+            table_meta = meta.tables.get(parse_table_name(table))
+            if table_meta and self._get_remote_compact_columns(meta, table_meta):
+                raise ValueError(
+                    f"Passthrough table {table} has foreign key to compacted column"
+                )
+
     def _get_remote_compact_columns(
         self, meta: DatabaseMetadata, table: TableMetadata
     ) -> Dict[str, ForeignKey]:
-- 
2.43.0


From 58221804a4f31db223d99cbfa940195ddcb6473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 51/64] fix: reject malformed joins, values and unions before
 changing the output

---
 subsetter/plan_model.py | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index ab20f8a..eda38c4 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -2,7 +2,7 @@ import itertools
 from typing import Any, Callable, Dict, List, Literal, Optional, Union
 
 import sqlalchemy as sa
-from pydantic import BaseModel, ConfigDict, Field
+from pydantic import BaseModel, ConfigDict, Field, model_validator
 from sqlalchemy.ext.compiler import compiles
 from typing_extensions import Annotated
 
@@ -104,12 +104,22 @@ class SQLWhereClauseIn(BaseModel):
 
     model_config = ConfigDict(populate_by_name=True)
 
+    @model_validator(mode="after")
+    def _check_width(self) -> "SQLWhereClauseIn":
+        if isinstance(self.values, list):
+            if any(len(value) != len(self.columns) for value in self.values):
+                raise ValueError("Each value must have one element for each column")
+        return self
+
     def build(self, context: SQLBuildContext, table_obj: sa.Table):
         columns = sa.tuple_(*(table_obj.columns[col_name] for col_name in self.columns))
         if isinstance(self.values, list):
             clause = columns.in_(self.values)
         else:
-            clause = columns.in_(self.values.build(context))
+            stmt = self.values.build(context)
+            if len(stmt.selected_columns) != len(self.columns):
+                raise ValueError("Statement must select one value for each column")
+            clause = columns.in_(stmt)
         if self.negated:
             clause = sa.not_(clause)
         return clause
@@ -256,6 +266,12 @@ class SQLLeftJoin(BaseModel):
     right_columns: List[str]
     half_unique: bool = True
 
+    @model_validator(mode="after")
+    def _check_columns(self) -> "SQLLeftJoin":
+        if len(self.left_columns) != len(self.right_columns):
+            raise ValueError("Must join on the same number of columns of both tables")
+        return self
+
 
 class SQLStatementSelect(BaseModel):
     type_: Literal["select"] = Field(..., alias="type")
@@ -354,15 +370,16 @@ class SQLStatementSelect(BaseModel):
 
 class SQLStatementUnion(BaseModel):
     type_: Literal["union"] = Field(..., alias="type")
-    statements: List[SQLStatementSelect]
+    statements: List[SQLStatementSelect] = Field(..., min_length=1)
 
     model_config = ConfigDict(populate_by_name=True)
-    # TODO: Assert statements is not empty
 
     def build(self, context: SQLBuildContext):
         stmts = []
         for statement in self.statements:
             stmt = statement.build(context)
+            if stmts and len(stmt.selected_columns) != len(stmts[0].selected_columns):
+                raise ValueError("All statements must select as many columns")
             if statement.limit is not None:
                 # Not all dialects allow a limit directly within a union
                 stmt = stmt.subquery().select()
-- 
2.43.0


From f19c20b84f258d0d06cb504446e8dcd0687b5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 52/64] fix: validate filters, compaction and destination
 columns against what queries deliver

---
 subsetter/sampler.py | 128 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 115 insertions(+), 13 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 6d687d3..3c74ddc 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -2,6 +2,7 @@ import abc
 import collections
 import functools
 import hashlib
+import itertools
 import json
 import logging
 import os
@@ -389,6 +390,9 @@ class SamplerOutput(abc.ABC):
     ) -> None:
         pass
 
+    def check_columns(self, schema: str, table_name: str, columns: List[str]) -> None:
+        """Fail if the columns of a table cannot be written to the destination"""
+
     def truncate(self) -> None:
         """Delete any existing data that could interfere with output destination"""
 
@@ -715,6 +719,17 @@ class DatabaseOutput(SamplerOutput):
             )
         return result
 
+    def check_columns(self, schema: str, table_name: str, columns: List[str]) -> None:
+        schema, table_name = self._remap_table(schema, table_name)
+        table = self.meta.tables.get((schema, table_name))
+        if table is None:
+            return
+        missing_columns = {col for col in columns if col not in table.table_obj.columns}
+        if missing_columns:
+            raise ValueError(
+                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
+            )
+
     def output_result_set(
         self,
         schema: str,
@@ -731,13 +746,7 @@ class DatabaseOutput(SamplerOutput):
         table = self.meta.tables[(schema, table_name)]
 
         columns_out = filter_view.columns_out if filter_view else columns
-        missing_columns = {
-            col for col in columns_out if col not in table.table_obj.columns
-        }
-        if missing_columns:
-            raise ValueError(
-                f"Destination table {schema}.{table_name} is missing expected columns {missing_columns}"
-            )
+        self.check_columns(src_schema, src_table_name, columns_out)
 
         # Automatically omit any included computed columns
         computed_columns = [
@@ -844,14 +853,20 @@ class Sampler:
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
             )
-        self._validate_filters(meta)
 
         table_column_multipliers = self._get_multiplied_columns(meta, plan)
         self.compact_columns = self._get_compact_columns(meta)
         self._check_passthrough_tables(meta)
         materialization_order = self._materialization_order(meta, plan)
+        delivered_columns = self._get_delivered_columns(
+            meta, plan, materialization_order
+        )
+        self._check_compaction(meta, delivered_columns)
+        output_columns = self._validate_filters(meta, delivered_columns)
 
         output = SamplerOutput.from_config(self.config.output, plan, meta)
+        for (schema, table_name), columns in output_columns.items():
+            output.check_columns(schema, table_name, columns)
         if create:
             output.create()
         insert_order = output.insert_order()
@@ -1039,6 +1054,79 @@ class Sampler:
             if (schema, table_name) in max_ref_counts
         ]
 
+    @staticmethod
+    def _get_delivered_columns(
+        meta: DatabaseMetadata,
+        plan: SubsetPlan,
+        materialization_order: List[Tuple[str, str, int]],
+    ) -> Dict[Tuple[str, str], List[str]]:
+        """
+        Returns the columns that the query of each table delivers. Fails if a query
+        uses a column of a sampled table that its query does not deliver.
+        """
+        result: Dict[Tuple[str, str], List[str]] = {}
+
+        def _build_context(ident: SQLTableIdentifier) -> sa.Table:
+            key = (ident.table_schema, ident.table_name)
+            table_obj = meta.tables[key].table_obj
+            if not ident.sampled:
+                return table_obj
+            return sa.Table(
+                table_obj.name,
+                sa.MetaData(),
+                *(
+                    sa.Column(col.name, col.type, primary_key=col.primary_key)
+                    for col in table_obj.columns
+                    if col.name in result[key]
+                ),
+                schema=table_obj.schema,
+            )
+
+        # Queries only refer to the samples of tables materialized before them
+        tables = [
+            (schema, table_name) for schema, table_name, _ in materialization_order
+        ]
+        for key in itertools.chain(tables, map(parse_table_name, plan.queries)):
+            if key in result:
+                continue
+            stmt = plan.queries[".".join(key)].build(_build_context)
+            result[key] = [
+                col.name
+                for col in (
+                    meta.tables[key].table_obj.columns
+                    if isinstance(stmt, sa.TextClause)
+                    else stmt.selected_columns
+                )
+            ]
+        return result
+
+    def _check_compaction(
+        self,
+        meta: DatabaseMetadata,
+        delivered_columns: Dict[Tuple[str, str], List[str]],
+    ) -> None:
+        """
+        Make sure the queries deliver the columns that are needed for compaction.
+        """
+        for table_key, columns in delivered_columns.items():
+            table = meta.tables[table_key]
+            required: List[Tuple[Tuple[str, str], Iterable[str]]] = []
+            if self.compact_columns.get(table_key):
+                required.append((table_key, table.primary_key))
+            for col, fk in self._get_remote_compact_columns(meta, table).items():
+                if col in columns:
+                    required.append((table_key, fk.columns))
+                    required.append(((fk.dst_schema, fk.dst_table), fk.dst_columns))
+            for required_key, required_columns in required:
+                missing_columns = set(required_columns) - set(
+                    delivered_columns[required_key]
+                )
+                if missing_columns:
+                    raise ValueError(
+                        f"Compaction requires the columns {sorted(missing_columns)} "
+                        f"that the query for {'.'.join(required_key)} omits"
+                    )
+
     def _materialize_tables(
         self,
         meta: DatabaseMetadata,
@@ -1198,6 +1286,8 @@ class Sampler:
                 joined_tables = set()
                 fk_tables: Dict[ForeignKey, sa.FromClause] = {}
                 for col in src_table.table_obj.columns:
+                    if col.name not in subq.columns:
+                        continue
                     if col.name in compact_cols:
                         cols.append(id_col.label(col.name))
                     elif col.name in remote_compact_cols:
@@ -1279,7 +1369,16 @@ class Sampler:
             )
             LOGGER.info("Sampled %d rows for %s.%s", rows, schema, table_name)
 
-    def _validate_filters(self, meta: DatabaseMetadata):
+    def _validate_filters(
+        self,
+        meta: DatabaseMetadata,
+        delivered_columns: Dict[Tuple[str, str], List[str]],
+    ) -> Dict[Tuple[str, str], List[str]]:
+        """
+        Make sure all filters can be applied. Returns the columns of each planned table
+        after filtering.
+        """
+        output_columns = dict(delivered_columns)
         for table, filters in self.config.filters.items():
             if not filters:
                 continue
@@ -1290,10 +1389,13 @@ class Sampler:
                 LOGGER.warning("Found filters for unknown table %s", table)
                 continue
 
-            FilterViewChain.construct_filter(
-                tuple(column.name for column in tbl.table_obj.columns),
-                filters,
-            )
+            columns = delivered_columns.get((schema, table_name))
+            if columns is None:
+                columns = [column.name for column in tbl.table_obj.columns]
+            filter_view = FilterViewChain.construct_filter(tuple(columns), filters)
+            if (schema, table_name) in delivered_columns:
+                output_columns[(schema, table_name)] = list(filter_view.columns_out)
+        return output_columns
 
     def _get_multiplied_columns(
         self, meta: DatabaseMetadata, plan: SubsetPlan
-- 
2.43.0


From 91e98873bd3c8aabb357a7710bb9d06311cc50b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:17 +0000
Subject: [PATCH 53/64] fix: materialize queries that omit part of the primary
 key

---
 subsetter/sampler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3c74ddc..aeadfcf 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -105,6 +105,10 @@ class TempTableCreator:
 
         temp_name = self._generate_name(name)
 
+        # Only part of a primary key need not be unique
+        if not set(primary_key) <= set(select.selected_columns.keys()):
+            primary_key = ()
+
         # Create the temporary table from the select statement. Mark the requested
         # columns as part of the primary key.
         metadata = sa.MetaData()
-- 
2.43.0


From dd2351375c70979bab9633d5a30ab7e69728c406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:26 +0000
Subject: [PATCH 54/64] fix: create tables after those they refer to with
 sqlite

---
 subsetter/sampler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index aeadfcf..035fcf6 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -650,7 +650,8 @@ class DatabaseOutput(SamplerOutput):
                             _remap_cols(constraint.columns),
                             fk_cols,
                             name=None if renamed else constraint.name,
-                            use_alter=True,
+                            # Otherwise tables are created after those they refer to
+                            use_alter=self.engine.dialect.supports_alter,
                         )
                     )
 
-- 
2.43.0


From 8297d1d9d0114fa26e957de9a364520c7f664e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 55/64] fix: create all temporary tables before reading from
 the source

---
 subsetter/sampler.py | 66 ++++++++++++++++++++++++--------------------
 1 file changed, 36 insertions(+), 30 deletions(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 035fcf6..3e6c1bd 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -75,10 +75,12 @@ class TempTableCreator:
         name: str = "",
         primary_key: Tuple[str, ...] = (),
         indexes: Iterable[Tuple[str, ...]] = (),
-    ) -> Tuple[sa.Table, int]:
+    ) -> Tuple[sa.Table, sa.Insert]:
         """
-        Create a temporary table on the passed connection generated by the passed
-        Select object. This method will return a
+        Create a temporary table on the passed connection to hold the result of the
+        passed Select object. The table is left empty, some dialects (i.e. mysql) end
+        the current transaction when creating indexes so all tables need to be created
+        before anything is read from the source.
 
         Parameters
             conn: The connection to create the temporary table within. Temporary tables
@@ -93,8 +95,8 @@ class TempTableCreator:
             indexes: creates an index on each tuple of columns listed. This is useful
                      if future queries are likely to reference these columns.
 
-        Returns a tuple containing the generated table object and the number of rows that
-        were inserted in the table.
+        Returns a tuple containing the generated table object and the statement that
+        copies the data into the table.
         """
         dialect = conn.engine.dialect
 
@@ -156,15 +158,12 @@ class TempTableCreator:
                     exc_info=True,
                 )
 
-        # Copy data into the temporary table
         stmt = table_obj.insert().from_select(list(table_obj.columns), select)
         LOGGER.debug(
             "  Using statement %s",
             str(stmt.compile(dialect=conn.engine.dialect)).replace("\n", " "),
         )
-        result = conn.execute(stmt)
-
-        return table_obj, result.rowcount
+        return table_obj, stmt
 
 
 # pylint: disable=too-many-ancestors,abstract-method
@@ -1151,6 +1150,7 @@ class Sampler:
                 tuple(data.right_columns)
             )
 
+        copy_stmts: List[Tuple[str, str, List[sa.Insert]]] = []
         for schema, table_name, ref_count in materialization_order:
             table = meta.tables[(schema, table_name)]
             query = plan.queries[f"{schema}.{table_name}"]
@@ -1175,28 +1175,16 @@ class Sampler:
                     subq,
                 )
 
-            LOGGER.info(
-                "Materializing sample for %s.%s",
-                schema,
-                table_name,
-            )
-            meta.temp_tables[(schema, table_name, 0)], rowcount = (
-                self.temp_tables.create(
-                    conn,
-                    schema,
-                    table_q,
-                    name=table_name,
-                    primary_key=table.primary_key,
-                    indexes=joined_columns[(schema, table_name)],
-                )
-            )
-            self.cached_table_sizes[(schema, table_name)] = rowcount
-            LOGGER.info(
-                "Materialized %d rows for %s.%s in temporary table",
-                rowcount,
+            meta.temp_tables[(schema, table_name, 0)], stmt = self.temp_tables.create(
+                conn,
                 schema,
-                table_name,
+                table_q,
+                name=table_name,
+                primary_key=table.primary_key,
+                indexes=joined_columns[(schema, table_name)],
             )
+            stmts = [stmt]
+            copy_stmts.append((schema, table_name, stmts))
 
             if meta.supports_temp_reopen:
                 continue
@@ -1204,7 +1192,7 @@ class Sampler:
             # Create additional copies of the temporary table if needed. This is
             # to work around an issue on mysql with reopening temporary tables.
             for index in range(1, ref_count):
-                meta.temp_tables[(schema, table_name, index)], _ = (
+                meta.temp_tables[(schema, table_name, index)], stmt = (
                     self.temp_tables.create(
                         conn,
                         schema,
@@ -1214,6 +1202,24 @@ class Sampler:
                         indexes=joined_columns[(schema, table_name)],
                     )
                 )
+                stmts.append(stmt)
+
+        for schema, table_name, stmts in copy_stmts:
+            LOGGER.info(
+                "Materializing sample for %s.%s",
+                schema,
+                table_name,
+            )
+            rowcount = conn.execute(stmts[0]).rowcount
+            self.cached_table_sizes[(schema, table_name)] = rowcount
+            LOGGER.info(
+                "Materialized %d rows for %s.%s in temporary table",
+                rowcount,
+                schema,
+                table_name,
+            )
+            for stmt in stmts[1:]:
+                conn.execute(stmt)
                 LOGGER.info(
                     "Copied materialization of %s.%s",
                     schema,
-- 
2.43.0


From 2b4e9136b9c0c637b42472da2a25c35076c71e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 56/64] fix: do not take a table of the source for a temporary
 table

---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 3e6c1bd..f1471af 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -130,7 +130,7 @@ class TempTableCreator:
             ),
         )
         try:
-            metadata.create_all(conn)
+            metadata.create_all(conn, checkfirst=False)
         except Exception as exc:  # pylint: disable=broad-exception-caught
             # TODO: Is this still needed?
             #
-- 
2.43.0


From e7223abfbc6cac434002aa08d145220a58b1dd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:37 +0000
Subject: [PATCH 57/64] fix: reject unknown keys in connection and filter
 settings

---
 subsetter/common.py  | 10 +++++++++-
 subsetter/filters.py |  6 +++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/subsetter/common.py b/subsetter/common.py
index 7e46417..f4a9d2e 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -4,7 +4,7 @@ import ssl
 from typing import Any, Dict, Iterable, List, Literal, Optional, Tuple, Union
 
 import sqlalchemy as sa
-from pydantic import BaseModel
+from pydantic import BaseModel, ConfigDict
 
 DatabaseDialect = Literal[
     "mysql",
@@ -86,12 +86,20 @@ IsolationLevel = Literal[
 
 
 class DatabaseConfig(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
     class SSLConfig(BaseModel):
+        model_config = ConfigDict(extra="forbid")
+
         class SSLClientConfig(BaseModel):
+            model_config = ConfigDict(extra="forbid")
+
             cert: Optional[str] = None
             key: Optional[str] = None
 
         class SSLServerConfig(BaseModel):
+            model_config = ConfigDict(extra="forbid")
+
             rootcert: Optional[str] = None
             verify: Literal["none", "cert", "identity"] = "none"
 
diff --git a/subsetter/filters.py b/subsetter/filters.py
index 1abe27b..3d47e25 100644
--- a/subsetter/filters.py
+++ b/subsetter/filters.py
@@ -20,7 +20,7 @@ from typing import (
 from uuid import uuid4
 
 from faker import Faker
-from pydantic import BaseModel, Field
+from pydantic import BaseModel, ConfigDict, Field
 from sqlalchemy import JSON
 from typing_extensions import Annotated
 
@@ -128,6 +128,8 @@ class FilterViewChain(FilterView):
 
 
 class SingleFilterConfig(BaseModel, abc.ABC):
+    model_config = ConfigDict(extra="forbid")
+
     @abc.abstractmethod
     def construct_filter(
         self, columns_in: Iterable[str], *, filter_context=FilterContext()
@@ -565,6 +567,8 @@ SimpleFilterConfig: Type[SingleFilterConfig] = Annotated[  # type: ignore
 
 
 class MultiplexCondition(BaseModel):
+    model_config = ConfigDict(extra="forbid")
+
     op: Literal[
         "is", "is not", "in", "not in", "=", "!=", "<", ">", "<=", ">=", "matches"
     ]
-- 
2.43.0


From e56795b90902f12a6d21fcf43565a40912d352fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:38 +0000
Subject: [PATCH 58/64] fix: reject unknown TLS verification levels from the
 environment

---
 subsetter/common.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subsetter/common.py b/subsetter/common.py
index f4a9d2e..71cff93 100644
--- a/subsetter/common.py
+++ b/subsetter/common.py
@@ -123,6 +123,8 @@ class DatabaseConfig(BaseModel):
             server_verify = as_dict.get("server", {}).get(
                 "verify", os.getenv(f"{env_prefix}SSL_SERVER_VERIFY", "none")
             )
+            if server_verify not in ("none", "cert", "identity"):
+                raise ValueError(f"Unknown SSL server verification {server_verify!r}")
             client_cert = self.client.cert or os.getenv(f"{env_prefix}SSL_CLIENT_CERT")
             client_key = self.client.key or os.getenv(f"{env_prefix}SSL_CLIENT_KEY")
             server_rootcert = self.server.rootcert or os.getenv(
-- 
2.43.0


From 68b4181bcccfd4c3952e4eaf3a5b7d9b92849522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:02 +0000
Subject: [PATCH 59/64] fix: do not create types along with temporary tables

Creating the types of enum columns fails for a source that has them, which
is every source that uses them.
---
 subsetter/sampler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index f1471af..4efd641 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -130,7 +130,7 @@ class TempTableCreator:
             ),
         )
         try:
-            metadata.create_all(conn, checkfirst=False)
+            conn.execute(sa.schema.CreateTable(table_obj))
         except Exception as exc:  # pylint: disable=broad-exception-caught
             # TODO: Is this still needed?
             #
-- 
2.43.0


From 37bb9e03aa333e345fad944b8cea510f98d953e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:49 +0000
Subject: [PATCH 60/64] fix: keep echoed statements out of a plan written to
 standard output

---
 subsetter/__main__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subsetter/__main__.py b/subsetter/__main__.py
index d18eb16..865d681 100644
--- a/subsetter/__main__.py
+++ b/subsetter/__main__.py
@@ -225,6 +225,9 @@ def main():
         format=logging_format,
     )
     logging.getLogger("faker").setLevel(logging.INFO)
+    # Without a handler of its own sqlalchemy echoes statements to stdout, which
+    # is where plans are written to.
+    logging.getLogger("sqlalchemy.engine.Engine").addHandler(logging.NullHandler())
 
     with logging_redirect_tqdm():
         try:
-- 
2.43.0


From a3643f67cdcf2f568b1351fa37be35a22b1a1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:04 +0000
Subject: [PATCH 61/64] fix: sample targets with JSON columns that sampled rows
 refer to

---
 subsetter/plan_model.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/subsetter/plan_model.py b/subsetter/plan_model.py
index eda38c4..5bed411 100644
--- a/subsetter/plan_model.py
+++ b/subsetter/plan_model.py
@@ -384,6 +384,32 @@ class SQLStatementUnion(BaseModel):
                 # Not all dialects allow a limit directly within a union
                 stmt = stmt.subquery().select()
             stmts.append(stmt)
+
+        columns = stmts[0].selected_columns
+        if any(isinstance(col.type, (sa.JSON, sa.types.NullType)) for col in columns):
+            # Not all dialects can compare values of these types, tell rows apart by
+            # their primary key where there is one.
+            table_obj = self.statements[0].from_.build(context)
+            keys = [col.name for col in table_obj.primary_key if not col.nullable]
+            if (
+                keys
+                and len(keys) == len(table_obj.primary_key)
+                and set(keys) <= set(columns.keys())
+                and all(
+                    statement.from_ == self.statements[0].from_
+                    and statement.columns == self.statements[0].columns
+                    for statement in self.statements
+                )
+            ):
+                subqueries = [stmt.subquery() for stmt in stmts]
+                found = sa.union(
+                    *(sa.select(*(subq.c[key] for key in keys)) for subq in subqueries)
+                ).subquery()
+                return sa.select(*(table_obj.c[col.name] for col in columns)).join(
+                    found,
+                    sa.and_(*(table_obj.c[key] == found.c[key] for key in keys)),
+                )
+
         return sa.union(*stmts)
 
     def simplify(self) -> "SQLStatement":
-- 
2.43.0


From 13727d3d902523ce543f515b193ae226b080de72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:59 +0000
Subject: [PATCH 62/64] fix: materialize sampled rows with columns of types
 unknown to SQLAlchemy

---
 subsetter/sampler.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 4efd641..41b1497 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -43,6 +43,19 @@ DESTINATION_BUFFER_SIZE = 1024
 SUBSETTER_COMPACT_COLUMN = "_sbsttr_id"
 
 
+class OpaqueType(sa.types.UserDefinedType):
+    """Temporary table column holding values of types unknown to SQLAlchemy."""
+
+    cache_ok = True
+
+
+@compiles(OpaqueType)
+def _compile_opaque_type(_type, compiler, **_kwargs) -> str:
+    return {"postgresql": "TEXT", "mysql": "LONGBLOB"}.get(
+        compiler.dialect.name, "BLOB"
+    )
+
+
 class TempTableCreator:
     """
     Help generate temporary tables. Attempts to give the temporary tables
@@ -122,7 +135,11 @@ class TempTableCreator:
             *(
                 sa.Column(
                     col.name,
-                    col.type,
+                    (
+                        OpaqueType()
+                        if isinstance(col.type, sa.types.NullType)
+                        else col.type
+                    ),
                     primary_key=col.name in primary_key,
                     autoincrement=False,
                 )
-- 
2.43.0


From badf317f5d7b9756d516816f2ff988d2a099382e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:19 +0000
Subject: [PATCH 63/64] fix: take names of planned and passthrough tables
 literally, not as patterns

---
 subsetter/planner.py | 4 +++-
 subsetter/sampler.py | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index 238b2f3..bcc53c5 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -1,3 +1,4 @@
+import glob
 import logging
 from typing import Dict, Iterable, List, Optional, Set, Tuple
 
@@ -44,7 +45,8 @@ class Planner:
         LOGGER.info("Scanning schema")
         meta, extra_tables = DatabaseMetadata.from_engine(
             self.engine,
-            self.config.select + self.config.passthrough,
+            self.config.select
+            + [glob.escape(table) for table in self.config.passthrough],
             close_forward=self.config.include_dependencies,
         )
         self.meta = meta
diff --git a/subsetter/sampler.py b/subsetter/sampler.py
index 41b1497..e0345a3 100644
--- a/subsetter/sampler.py
+++ b/subsetter/sampler.py
@@ -1,6 +1,7 @@
 import abc
 import collections
 import functools
+import glob
 import hashlib
 import itertools
 import json
@@ -514,7 +515,7 @@ class DatabaseOutput(SamplerOutput):
 
         self.meta, self.additional_tables = DatabaseMetadata.from_engine(
             self.engine,
-            list(self.table_remap),
+            [glob.escape(table) for table in self.table_remap],
             close_backward=True,
         )
 
@@ -869,7 +870,9 @@ class Sampler:
         create: bool = False,
     ) -> None:
         self.passthrough_tables = set(plan.passthrough)
-        meta, _ = DatabaseMetadata.from_engine(self.source_engine, list(plan.queries))
+        meta, _ = DatabaseMetadata.from_engine(
+            self.source_engine, [glob.escape(table) for table in plan.queries]
+        )
         if self.config.infer_foreign_keys != "none":
             meta.infer_missing_foreign_keys(
                 infer_all=self.config.infer_foreign_keys == "all"
-- 
2.43.0


From bd4f3e1aeda9bac5dcff8fdd4606e1413cac4618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:20 +0000
Subject: [PATCH 64/64] fix: list passthrough tables in the plan in a fixed
 order

---
 subsetter/planner.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subsetter/planner.py b/subsetter/planner.py
index bcc53c5..867de78 100644
--- a/subsetter/planner.py
+++ b/subsetter/planner.py
@@ -79,7 +79,7 @@ class Planner:
         self.meta.compute_reverse_keys()
 
         queries: Dict[str, SQLTableQuery] = {}
-        for schema, table_name in self.passthrough_tables:
+        for schema, table_name in sorted(self.passthrough_tables):
             queries[f"{schema}.{table_name}"] = SQLTableQuery(
                 statement=SQLStatementSelect(
                     type_="select",
@@ -104,7 +104,7 @@ class Planner:
             queries=queries,
             passthrough=[
                 f"{schema}.{table_name}"
-                for schema, table_name in self.passthrough_tables
+                for schema, table_name in sorted(self.passthrough_tables)
             ],
         )
 
-- 
2.43.0

