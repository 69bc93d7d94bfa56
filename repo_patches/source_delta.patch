From b0bb44860cc6b6e7360d712e0dc7cc372339ebcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:02 +0000
Subject: [PATCH 01/45] fix: enforce foreign keys on file-backed connections

Only newly created in-memory databases enabled foreign key enforcement.
Spaces that were loaded from or bound to a file left weights, mappings
and quantities behind when the records they belong to were removed.
---
 src/toron/dal1/data_connector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 9b47a4b..5c701e9 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -321,6 +321,7 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 access_mode=self._access_mode,
                 factory=ToronSqlite3Connection,
             )
+            connection.execute('PRAGMA foreign_keys=ON')  # <- Must be set for each connection.
             schema.create_functions_and_temporary_triggers(connection)
             return connection
 
@@ -518,6 +519,7 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 apply_migrations(cur)
                 unique_id = schema.get_unique_id(cur)
 
+            con.execute('PRAGMA foreign_keys=ON')  # <- Must be set for each connection.
             schema.create_functions_and_temporary_triggers(con)
 
             # No working file path, keep in-memory connection open.
-- 
2.43.0


From b1185dcff8633390960985d540dfe103554565f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 02/45] fix: let bind_file() create files given as bare file
 names

The directory of a path without a directory part is '', which failed the
permission check for the current directory.
---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index e0a8d3f..006566b 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -3067,7 +3067,7 @@ def bind_file(
         if mode != 'rwc':
             raise FileNotFoundError(f'path does not exist: {filepath!r}')
 
-        dir_path = os.path.dirname(filepath)
+        dir_path = os.path.dirname(os.path.abspath(filepath))
         if not os.access(dir_path, os.W_OK):
             raise PermissionError(
                 f"cannot bind to {filepath!r} in 'rwc' mode, process "
-- 
2.43.0


From ff77436dbda66fc247397d817dc29f2d69ec72c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:14 +0000
Subject: [PATCH 03/45] fix: quote label names when updating index and location
 records

---
 src/toron/dal1/repositories.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 285ba56..d309795 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -68,7 +68,9 @@ class IndexRepository(BaseIndexRepository):
     def update(self, record: Index) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_index')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_index
@@ -226,7 +228,9 @@ class LocationRepository(BaseLocationRepository):
     def update(self, record: Location) -> None:
         """Update a record in the repository."""
         self._cursor.execute(f"PRAGMA main.table_info('label_location')")
-        columns = ', '.join(row[1] for row in self._cursor.fetchall()[1:])
+        columns = ', '.join(
+            format_identifier(row[1]) for row in self._cursor.fetchall()[1:]
+        )
         qmarks = ', '.join('?' * len(record.labels))
         sql = f"""
             UPDATE main.label_location
-- 
2.43.0


From 2275061bed578bd0c7f9e5d1d1c6486ee3afc514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 04/45] fix: select unmatched quantities without a header row

The attribute names were only assigned when a header was requested.
---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 006566b..36dbfbb 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2630,9 +2630,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_locations_without_index(
@@ -2709,9 +2710,10 @@ class DataSpace(object):
                 domain_cols = []
                 domain_vals = []
 
+            label_cols = location_repo.get_label_names()
+            attr_cols = attribute_repo.get_all_attribute_names()
+
             if header:
-                label_cols = location_repo.get_label_names()
-                attr_cols = attribute_repo.get_all_attribute_names()
                 yield domain_cols + label_cols + attr_cols + ['quantity']
 
             locations = find_nonmatching_locations(
-- 
2.43.0


From 4910a83feb62016a6dc08d4bda5e1e3fb1efdd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 05/45] fix: don't treat an index record as a conflict with
 itself

Updating a record with the labels it already has failed or, with
merge_on_conflict=True, merged the record with itself.
---
 src/toron/space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 36dbfbb..5cb3c77 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -938,7 +938,7 @@ class DataSpace(object):
 
                 # Check for matching record, raise error or merge if exists.
                 matching = next(index_repo.filter_by_label(label_dict), None)
-                if matching:
+                if matching and matching.id != index_record.id:
                     if not merge_on_conflict:
                         raise ValueError(
                             f"cannot update index_id {index_record.id}, new labels "
-- 
2.43.0


From 59fc7830a88f317a8562b3ddecde2f31c491830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 06/45] fix: refresh granularity when insert_index() replaces
 labels

---
 src/toron/space.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 5cb3c77..32d15c2 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -681,7 +681,7 @@ class DataSpace(object):
                         else:
                             raise ValueError(
                                 f"on_label_conflict must be 'abort', 'ignore', or "
-                                f"'replace'; got {on_weight_conflict!r}"
+                                f"'replace'; got {on_label_conflict!r}"
                             )
                 else:
                     try:
@@ -759,6 +759,16 @@ class DataSpace(object):
                     if link.is_locally_complete:
                         link_repo.update(replace(link, is_locally_complete=False))
 
+            elif counter['label_replaced']:
+                # Changed labels can change the granularity.
+                refresh_structure_granularity(
+                    label_manager=self._dal.LabelManager(cursor),
+                    structure_repo=self._dal.StructureRepository(cursor),
+                    index_repo=index_repo,
+                    aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                    optimizations=self._dal.optimizations,
+                )
+
             if counter['label_inserted'] or counter['weight_inserted']:
                 # Update `is_complete` status for all weight groups.
                 for group in weight_group_repo.get_all():
-- 
2.43.0


From 12c2fb2e6afb7c9daf5c2e9b00c14fc222fc2be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 07/45] fix: don't assign quantities to the undefined record if
 another matches

At the finest granularity, a location with '-' labels can match a regular
record as well as the undefined record.
---
 src/toron/space.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 32d15c2..b7017d7 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2830,9 +2830,12 @@ class DataSpace(object):
                         criteria = {k: v for k, v in zipped if v != ''}
 
                         # Since we're at the finest granularity, there can
-                        # only be one matching index record.
+                        # only be one matching index record (not counting
+                        # the undefined record which is only used when it's
+                        # the sole match).
                         try:
-                            index_id = next(index_repo.filter_index_ids_by_label(criteria))
+                            index_ids = index_repo.filter_index_ids_by_label(criteria)
+                            index_id = next(index_ids) or next(index_ids, 0)
                         except StopIteration:
                             items = (f'{k}={v!r}' for k, v in criteria.items())
                             msg = f"no index matching: {', '.join(items)}\n  {location}"
-- 
2.43.0


From eccc847bf1d1efda7297a229be41f307432497cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 08/45] fix: make reify_mappings() and
 delete_unmatched_quantities() atomic

Both changed records one by one outside of a transaction, an error left
part of the changes in place.
---
 src/toron/space.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index b7017d7..d7f5669 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -2252,7 +2252,9 @@ class DataSpace(object):
             associated the given index labels for reification.
         """
         counter: Counter = Counter()
-        with self._managed_cursor(n=2) as (cursor, aux_cursor):
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             index_repo = self._dal.IndexRepository(cursor)
             link_repo = self._dal.LinkRepository(cursor)
 
@@ -2742,7 +2744,9 @@ class DataSpace(object):
 
     def delete_unmatched_quantities(self) -> None:
         """Delete quantities without matching index or structure."""
-        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4):
+        with self._managed_cursor(n=4) as (cur1, cur2, cur3, cur4), \
+                self._managed_transaction(cur1):
+
             # These repositories can share a single cursor.
             location_repo = self._dal.LocationRepository(cur1)
             structure_repo = self._dal.StructureRepository(cur1)
-- 
2.43.0


From 672522b98fc801f1aa84fa5f4d8480cce98439d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:23 +0000
Subject: [PATCH 09/45] fix: keep partitions and display order in step with
 label columns

Renaming left the old name in the display order, dropping left the
dropped labels in the partition definitions and the display order and
kept outdated structure records.
---
 src/toron/data_service.py | 33 ++++++++++++++++++++++++++++++++-
 src/toron/space.py        | 36 +++++++++++++++++++++++++++++++++++-
 2 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index c73b532..225707e 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -710,6 +710,21 @@ def rename_partition_definitions(
     property_repo.update('partition_definitions', definition_lists)
 
 
+def drop_partition_labels(
+    dropped: Collection[str],
+    label_manager: BaseLabelManager,
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Remove *dropped* labels from all partition definitions."""
+    definitions = get_all_partition_definitions(property_repo)
+    definition_sets = find_minimal_partition_generating_set(
+        [pdef.difference(dropped) for pdef in definitions],
+        [set(label_manager.get_columns())],
+    )
+    definition_lists: JsonTypes = [list(pdef) for pdef in definition_sets]
+    property_repo.add_or_update('partition_definitions', definition_lists)
+
+
 def calculate_granularity(
     columns: List[str],
     index_repo: BaseIndexRepository,
@@ -1085,6 +1100,20 @@ def set_labels_in_display_order(
     property_repo.add_or_update('label_display_order', labels)
 
 
+def rename_labels_in_display_order(
+    mapping: Dict[str, str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Rename labels in the specified display order (if any)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (no display order to update)
+
+    display_order = [mapping.get(x, x) for x in display_order]
+    property_repo.update('label_display_order', cast(JsonTypes, display_order))
+
+
 def get_labels_in_display_order(
     index_repo: BaseIndexRepository,
     property_repo: BasePropertyRepository,
@@ -1094,13 +1123,15 @@ def get_labels_in_display_order(
     Any labels without a specified order will fall back to storage
     order and appear at the end of the list.
     """
+    storage_order = index_repo.get_label_names()
+
     try:
         display_order = cast(List[str], property_repo.get('label_display_order'))
+        display_order = [x for x in display_order if x in storage_order]
     except KeyError:
         display_order = []
 
     # Get any unspecified labels in storage order.
-    storage_order = index_repo.get_label_names()
     unspecified_labels = [x for x in storage_order if x not in display_order]
 
     if unspecified_labels:
diff --git a/src/toron/space.py b/src/toron/space.py
index d7f5669..fe79f0d 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -61,6 +61,8 @@ from .data_service import (
     find_matching_weight_groups,
     get_all_partition_definitions,
     rename_partition_definitions,
+    rename_labels_in_display_order,
+    drop_partition_labels,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -444,6 +446,10 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(
+                mapping={old_label: new_label},
+                property_repo=property_repo,
+            )
 
     @property
     def index_columns(self) -> List[str]:
@@ -549,9 +555,15 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            rename_labels_in_display_order(
+                mapping=mapping,
+                property_repo=property_repo,
+            )
 
     def drop_index_columns(self, column: str, *columns: str) -> None:
-        with self._managed_transaction() as cursor:
+        with self._managed_cursor(n=2) as (cursor, aux_cursor), \
+                self._managed_transaction(cursor):
+
             label_manager = self._dal.LabelManager(cursor)
 
             all_reserved_identifiers = \
@@ -570,8 +582,30 @@ class DataSpace(object):
                 )
                 raise RuntimeError(msg)
 
+            # Remove structure records (they might no longer be unique once
+            # columns are dropped, a new structure is built below).
+            structure_repo = self._dal.StructureRepository(cursor)
+            for structure in structure_repo.get_all():
+                structure_repo.delete(structure.id)
+
             label_manager.drop_columns(column, *columns)
 
+            # Update partition definitions and rebuild structure.
+            property_repo = self._dal.PropertyRepository(cursor)
+            drop_partition_labels(
+                dropped={column, *columns},
+                label_manager=label_manager,
+                property_repo=property_repo,
+            )
+            rebuild_structure_table(
+                label_manager=label_manager,
+                property_repo=property_repo,
+                structure_repo=structure_repo,
+                index_repo=self._dal.IndexRepository(cursor),
+                aux_index_repo=self._dal.IndexRepository(aux_cursor),
+                optimizations=self._dal.optimizations,
+            )
+
     def insert_index(
         self,
         data: Union[Iterable[Sequence], Iterable[Dict]],
-- 
2.43.0


From 195ab8e20bae276bce5252252b13f5bc5dc98e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:35 +0000
Subject: [PATCH 10/45] fix: drop weight groups when no default weight group is
 defined

---
 src/toron/space.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index fe79f0d..66a4b38 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1253,7 +1253,12 @@ class DataSpace(object):
             group_repo.delete_and_cascade(group.id)
             applogger.info(f'removed weight group {existing_name!r}')
 
-            if group.id == property_repo.get('default_weight_group_id'):
+            try:
+                default_group_id = property_repo.get('default_weight_group_id')
+            except KeyError:
+                default_group_id = None  # No default weight group is defined.
+
+            if group.id == default_group_id:
                 property_repo.delete('default_weight_group_id')
                 applogger.warning(f'default weight group was removed')
 
-- 
2.43.0


From f7c0dc2e63f603899119c7f51619a89b12eba513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:17 +0000
Subject: [PATCH 11/45] fix: read unquoted and escaped selector values

---
 src/toron/selectors.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 7ffd8a9..5e89104 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -3,6 +3,7 @@
 from abc import ABC, abstractmethod
 from itertools import groupby
 from json import loads, JSONDecodeError
+import re
 from ._typing import (
     Any,
     AnyStr,
@@ -221,7 +222,7 @@ class SimpleSelector(SelectorBase):
         if not self._val:
             return f'[{self._attr}]'
 
-        value = self._val.replace(r'"', r'\"')
+        value = self._val.replace('\\', r'\\').replace('"', r'\"')
         if self._ignore_case:
             return f'[{self._attr}{self._op}"{value}" i]'
         return f'[{self._attr}{self._op}"{value}"]'
@@ -495,10 +496,12 @@ class SelectorTransformer(Transformer):
     def value(self, token):
         s = token.value
         if s.startswith('"') and s.endswith('"'):
-            return s[1:-1].replace('\\"', '"')
+            return re.sub(r'\\(["\\])', r'\1', s[1:-1])
 
         if s.startswith("'") and s.endswith("'"):
-            return s[1:-1].replace("\\'", "'")
+            return re.sub(r"\\(['\\])", r'\1', s[1:-1])
+
+        return s  # Unquoted identifier.
 
     def ignore_case(self, args):
         return True
-- 
2.43.0


From 6043187fd09843765950dacd38f04d956877d6fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:32 +0000
Subject: [PATCH 12/45] fix: allow a nested :is() selector as the only item of
 another

---
 src/toron/selectors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/selectors.py b/src/toron/selectors.py
index 5e89104..156c4e3 100644
--- a/src/toron/selectors.py
+++ b/src/toron/selectors.py
@@ -66,6 +66,8 @@ class SelectorContainer(SelectorBase):
         self, selector_list: List[Union['SelectorContainer', 'SimpleSelector']]
     ) -> None:
         """Initialize class instance."""
+        if len(selector_list) == 1 and selector_list[0] is self:
+            return  # Already initialized (see __new__() of subclasses).
         self.selector_list = selector_list
 
     def __contains__(self, item) -> bool:
-- 
2.43.0


From a9eda0c16d31b42af8f32897030d06cb8adb0ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 13/45] fix: stack columns given to wide_to_long() as an
 iterator

---
 src/toron/_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index db8f83b..120d85b 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -780,6 +780,8 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
         cols_to_stack = [cols_to_stack]
+    else:
+        cols_to_stack = list(cols_to_stack)  # Eagerly consume iterators.
 
     if isinstance(first_item, Sequence):
         header = tuple(first_item)
-- 
2.43.0


From 4e7e9f66489c1066ea45601aa8037920f844102c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:29 +0000
Subject: [PATCH 14/45] fix: don't overwrite unstacked columns in
 wide_to_long()

---
 src/toron/_utils.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 120d85b..48610ab 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -792,6 +792,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
 
         cols_to_keep = tuple(x for x in header if x not in cols_to_stack)
 
+        for name in (var_name, val_name):
+            if name in cols_to_keep:
+                raise ValueError(f'name already used by unstacked column: {name!r}')
+
         # Yield header with variable and value columns.
         yield cols_to_keep + (var_name, val_name)
 
@@ -811,6 +815,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
 
         cols_to_keep = tuple(x for x in first_item if x not in cols_to_stack)
 
+        for name in (var_name, val_name):
+            if name in cols_to_keep:
+                raise ValueError(f'name already used by unstacked column: {name!r}')
+
         # Yield dictionary rows with stacked values.
         for row_dict in data:
             items_to_keep = {x: row_dict.get(x) for x in cols_to_keep}
-- 
2.43.0


From 2a4e6563a6fea47828e1c5739f198da617bb78fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:51 +0000
Subject: [PATCH 15/45] fix: allow merging mappings whose proportions round to
 more than one

---
 src/toron/data_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/toron/data_models.py b/src/toron/data_models.py
index 818775f..ff677c8 100644
--- a/src/toron/data_models.py
+++ b/src/toron/data_models.py
@@ -1203,7 +1203,8 @@ class BaseMappingRepository(ABC):
                 key = (rel.link_id, rel.other_index_id, rel.mapping_level)
                 v, p = mapping_sums[key]  # Unpack value and proportion.
                 try:
-                    proportion = p + rel.proportion
+                    # Float rounding can push the sum slightly above 1.0.
+                    proportion = min(p + rel.proportion, 1.0)
                 except TypeError:
                     proportion = None
                 mapping_sums[key] = ((v + rel.value), proportion)
-- 
2.43.0


From 500bfed5b975e4b5f255d9268f9d6da7285259aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:27 +0000
Subject: [PATCH 16/45] fix: match no index record by an unknown label column

---
 src/toron/dal1/repositories.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index d309795..99ca856 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -141,6 +141,18 @@ class IndexRepository(BaseIndexRepository):
         self._cursor.execute(sql)
         return (row for row in self._cursor)
 
+    def _has_unknown_label(self, criteria: Dict[str, str]) -> bool:
+        """Return True if *criteria* contains an unknown column name.
+
+        SQLite treats double-quoted names that match no column as string
+        literals, so an unknown column could match every record. (SQLite
+        ignores the case of ASCII letters in column names, `bytes.lower()`
+        does the same.)
+        """
+        self._cursor.execute(f"PRAGMA main.table_info('label_index')")
+        known = {row[1].encode().lower() for row in self._cursor.fetchall()}
+        return any(key.encode().lower() not in known for key in criteria)
+
     def filter_by_label(
         self,
         criteria: Dict[str, str],
@@ -151,6 +163,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         Index objects are returned.
         """
+        if self._has_unknown_label(criteria):
+            return iter([])  # No record carries an unknown label.
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
@@ -173,6 +188,9 @@ class IndexRepository(BaseIndexRepository):
         If *criteria* is an empty dict, no filtering is applied and all
         'index_id' integers are returned.
         """
+        if self._has_unknown_label(criteria):
+            return iter([])  # No record carries an unknown label.
+
         where_predicates = [f'{format_identifier(k)}=?' for k in criteria.keys()]
         if not include_undefined:
             where_predicates.append('index_id != 0')
-- 
2.43.0


From 313749a211cf79ebd820399e1c5546dd3e61a5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:02 +0000
Subject: [PATCH 17/45] fix: let the undefined record match locations when
 finding unmatched quantities

---
 src/toron/data_service.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 225707e..0c32b65 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -179,7 +179,7 @@ def find_locations_without_index(
     label_names = location_repo.get_label_names()
     for location in location_repo.find_all():
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+        if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
             yield location
 
 
@@ -212,7 +212,7 @@ def find_nonmatching_locations(
             yield location
         else:
             criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-            if not any(aux_index_repo.filter_index_ids_by_label(criteria)):
+            if next(aux_index_repo.filter_index_ids_by_label(criteria), None) is None:
                 yield location
 
 
@@ -240,7 +240,9 @@ def count_nonmatching_locations(
         nonmatching_structure = BitFlags(location.labels) not in all_structure_bits
 
         criteria = {k: v for k, v in zip(label_names, location.labels) if v}
-        nonmatching_index = not any(aux_index_repo.filter_index_ids_by_label(criteria))
+        nonmatching_index = next(
+            aux_index_repo.filter_index_ids_by_label(criteria), None
+        ) is None
 
         if nonmatching_structure and nonmatching_index:
             counter['structure_and_index'] += 1
-- 
2.43.0


From 567121106fa35503954a7f441e65c2cb1fa52092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:45 +0000
Subject: [PATCH 18/45] fix: find links by file name with extension if the hint
 has none

---
 src/toron/data_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 0c32b65..85c6187 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -433,6 +433,8 @@ def get_links_by_ref(
     matches = list(link_repo.find_by_other_filename_hint(ref))
     if not ref.endswith('.toron'):
         matches.extend(link_repo.find_by_other_filename_hint(f'{ref}.toron'))
+    elif not matches:  # Hints can be saved without '.toron' extension.
+        matches.extend(link_repo.find_by_other_filename_hint(ref[:-6]))
 
     # If still no matches, seatch by 'other_unique_id' prefix (short code).
     if not matches and len(ref) >= 7:  # <- Must be at least 7 characters.
-- 
2.43.0


From 8b5e67c2974601c62d119eae09ba4e13dc7e9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:37 +0000
Subject: [PATCH 19/45] fix: translate by selectors of up-to-date links only

---
 src/toron/graph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 96e20c3..9a69bf8 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -658,7 +658,9 @@ def _translate(
             raise RuntimeError(msg)
 
         # Build dict of index id values and attribute selector objects.
-        links = [x for x in links if x.is_locally_complete and x.selectors]
+        links = [x for x in links if (x.other_index_hash == quantity_iterator.index_hash
+                                      and x.is_locally_complete
+                                      and x.selectors)]
         func = lambda selectors: [parse_selector(s) for s in selectors]
         selector_dict = {x.id: func(x.selectors) for x in links}
 
-- 
2.43.0


From 3a7a4be3b00a31362641a2f249f26d5323d9b82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:16 +0000
Subject: [PATCH 20/45] fix: forget the display position of dropped label
 columns

A label that was dropped kept its place in the display order, another
label renamed to it was then listed twice.
---
 src/toron/data_service.py | 14 ++++++++++++++
 src/toron/space.py        |  5 +++++
 2 files changed, 19 insertions(+)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index 85c6187..da5eb71 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -1118,6 +1118,20 @@ def rename_labels_in_display_order(
     property_repo.update('label_display_order', cast(JsonTypes, display_order))
 
 
+def drop_labels_in_display_order(
+    dropped: Collection[str],
+    property_repo: BasePropertyRepository,
+) -> None:
+    """Remove *dropped* labels from the display order (if any)."""
+    try:
+        display_order = cast(List[str], property_repo.get('label_display_order'))
+    except KeyError:
+        return  # <- EXIT! (no display order to update)
+
+    display_order = [x for x in display_order if x not in dropped]
+    property_repo.update('label_display_order', cast(JsonTypes, display_order))
+
+
 def get_labels_in_display_order(
     index_repo: BaseIndexRepository,
     property_repo: BasePropertyRepository,
diff --git a/src/toron/space.py b/src/toron/space.py
index 66a4b38..d2951b5 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -63,6 +63,7 @@ from .data_service import (
     rename_partition_definitions,
     rename_labels_in_display_order,
     drop_partition_labels,
+    drop_labels_in_display_order,
     rebuild_structure_table,
     refresh_or_rebuild_structure_granularity,
     add_partition_definitions,
@@ -597,6 +598,10 @@ class DataSpace(object):
                 label_manager=label_manager,
                 property_repo=property_repo,
             )
+            drop_labels_in_display_order(
+                dropped={column, *columns},
+                property_repo=property_repo,
+            )
             rebuild_structure_table(
                 label_manager=label_manager,
                 property_repo=property_repo,
-- 
2.43.0


From 81806ff187d4fc5563467b8f37f91d1ceb1422c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:42 +0000
Subject: [PATCH 21/45] fix: list ambiguous fields beyond the last set bit's
 byte

Bit flags omit trailing zero bytes, so unspecified columns from the
ninth on were not listed as ambiguous.
---
 src/toron/cli/command_mapping.py | 1 +
 src/toron/graph.py               | 1 +
 src/toron/space.py               | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 9442145..340a650 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -465,6 +465,7 @@ def get_ambiguous_field_text(
     if mapping_level is None:
         return None
     inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    inverted_level += [True] * (len(label_names) - len(inverted_level))  # Trailing zeros.
     ambiguous_fields = compress(label_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/graph.py b/src/toron/graph.py
index 9a69bf8..2cdb692 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -411,6 +411,7 @@ def _get_ambiguous_fields(
     if mapping_level is None:
         return None
     inverted_level = [(not bit) for bit in BitFlags(mapping_level)]
+    inverted_level += [True] * (len(column_names) - len(inverted_level))  # Trailing zeros.
     ambiguous_fields = compress(column_names, inverted_level)
     return ', '.join(ambiguous_fields) or None
 
diff --git a/src/toron/space.py b/src/toron/space.py
index d2951b5..ac42afb 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1785,6 +1785,8 @@ class DataSpace(object):
                             # left unspecified in the original mapping.
                             bit_flags = BitFlags(rel.mapping_level)
                             inverted_bits = [(not bit) for bit in bit_flags]
+                            # Trailing zeros may be omitted from bit flags.
+                            inverted_bits += [True] * (len(label_columns) - len(inverted_bits))
                             ambiguous_labels = compress(label_columns, inverted_bits)
                             ambiguous_desc = ', '.join(ambiguous_labels) or None
                         else:
-- 
2.43.0


From 0860e20673da105227e9ca421a0e8a6e9fdf7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:27 +0000
Subject: [PATCH 22/45] fix: leave no temporary files behind when saving fails

---
 src/toron/dal1/data_connector.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/toron/dal1/data_connector.py b/src/toron/dal1/data_connector.py
index 5c701e9..4d9dab7 100644
--- a/src/toron/dal1/data_connector.py
+++ b/src/toron/dal1/data_connector.py
@@ -6,7 +6,7 @@ import sqlite3
 import sys
 import urllib
 import weakref
-from contextlib import closing
+from contextlib import closing, suppress
 from tempfile import NamedTemporaryFile
 
 from toron._typing import (
@@ -459,8 +459,12 @@ class DataConnector(BaseDataConnector[ToronSqlite3Connection, sqlite3.Cursor]):
                 os.chmod(tmp_path, save_permissions)  # Change to default permissions.
                 os.replace(tmp_path, dst_path)
 
-        except Exception:
-            os.unlink(tmp_path)  # Remove temporary file.
+        except BaseException:
+            # Remove temporary file and its rollback journal (SQLite can
+            # leave a journal behind if writing fails).
+            for leftover_path in (tmp_path, f'{tmp_path}-journal'):
+                with suppress(FileNotFoundError):
+                    os.unlink(leftover_path)
             raise  # Re-raise error.
 
     @classmethod
-- 
2.43.0


From ab0fb7c1968dcb1288d10eb8fb28b1c89a05606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:56 +0000
Subject: [PATCH 23/45] fix: refuse files of unknown schema versions

---
 src/toron/dal1/migrations.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/toron/dal1/migrations.py b/src/toron/dal1/migrations.py
index f844da6..55cf406 100644
--- a/src/toron/dal1/migrations.py
+++ b/src/toron/dal1/migrations.py
@@ -276,6 +276,10 @@ def apply_migrations(
         elif toron_schema_version in {'0.3.0', '"0.3.0"'}:
             # Apply 0.3.0 -> 0.3.1 migrations.
             v030_to_v031_step01_properties(cursor)
+        else:
+            raise Exception(
+                f'unsupported node schema version: {toron_schema_version!s}'
+            )
 
         # Check integrity, re-create constraints, and commit transaction.
         schema.verify_foreign_key_check(cursor)
-- 
2.43.0


From 128184ce0902daa59488dc51199dda24be5c0cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:59 +0000
Subject: [PATCH 24/45] fix: read rows given to insert_mappings2() by their
 column names

---
 src/toron/graph.py |  4 ++--
 src/toron/space.py | 21 +++++++++++++++++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 2cdb692..e1f9a09 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -315,7 +315,7 @@ def load_mapping(
             space_or_ref=left_node,
             link_name=link_name,
             data=mapper.get_mappings('->'),
-            columns=['other_index_id', link_name, 'index_id', 'mapping_level'],
+            columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'],
         )
 
         _log_load_mapping_stats(
@@ -340,7 +340,7 @@ def load_mapping(
             space_or_ref=right_node,
             link_name=link_name,
             data=mapper.get_mappings('<-'),
-            columns=['other_index_id', link_name, 'index_id', 'mapping_level'],
+            columns=['other_index_id', 'index_id', 'mapping_level', 'mapping_value'],
         )
 
         _log_load_mapping_stats(
diff --git a/src/toron/space.py b/src/toron/space.py
index ac42afb..45dd888 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1831,9 +1831,15 @@ class DataSpace(object):
             defined, the existing methods should be revisited and
             finalized.
         """
-        # TODO: Fix `columns` not being used in the function.
         data, columns = normalize_tabular(data, columns)
 
+        id_columns = ('other_index_id', 'index_id', 'mapping_level')
+        missing = [x for x in id_columns if x not in columns]
+        if missing:
+            msg = f"missing required columns: {', '.join(repr(x) for x in missing)}"
+            raise ValueError(msg)
+        other_pos, index_pos, level_pos = (columns.index(x) for x in id_columns)
+
         counter: Dict[str, int] = Counter()
         with self._managed_cursor(n=2) as (cursor, aux_cursor), \
                 self._managed_transaction(cursor):
@@ -1843,6 +1849,14 @@ class DataSpace(object):
             link = self._get_link(space_or_ref, link_name, link_repo)
             link_id = link.id
 
+            # Get position of mapping values.
+            for column in (link.name, 'mapping_value'):
+                if column in columns and column not in id_columns:
+                    value_pos = columns.index(column)
+                    break
+            else:  # IF NO BREAK!
+                raise ValueError(f'no column named {link.name!r} in data')
+
             # Get allowed structure values.
             structure = {bytes(BitFlags(x.bits)) if any(x.bits) else None
                          for x
@@ -1850,7 +1864,10 @@ class DataSpace(object):
 
             # Insert records from given `data`.
             for row in data:
-                other_index_id, index_id, mapping_level, value = row[:4]
+                other_index_id = row[other_pos]
+                index_id = row[index_pos]
+                mapping_level = row[level_pos]
+                value = row[value_pos]
 
                 # Verify mapping level.
                 if mapping_level not in structure:
-- 
2.43.0


From 7fd16e6691119d3509c022341d2cf2289526d43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 25/45] fix: check for existing links before loading a mapping

---
 src/toron/graph.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index e1f9a09..3a12f3b 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -29,6 +29,7 @@ from ._typing import (
 
 from ._utils import (
     check_type,
+    ToronError,
     TabularData,
     make_readerlike,
     normalize_tabular,
@@ -301,6 +302,18 @@ def load_mapping(
         right_node.path_hint,
     )
 
+    # Check for existing links before making changes to either node.
+    for arrow, source, target in (('->', left_node, right_node),
+                                  ('<-', right_node, left_node)):
+        if arrow in direction and any(
+            link.name == link_name and link.other_unique_id == source.unique_id
+            for link in target.links
+        ):
+            raise ToronError(
+                f'a link named {link_name!r} already exists '
+                f'between these two dataspaces'
+            )
+
     if '->' in direction:
         applogger.info('loading mapping from left to right')
 
-- 
2.43.0


From 2fff85a4bfe1d2d7ec664c11529556f1585f0db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:45 +0000
Subject: [PATCH 26/45] fix: accept the undefined record's zero weight when
 loading an index

---
 src/toron/space.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/toron/space.py b/src/toron/space.py
index 45dd888..0369cd7 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -746,6 +746,9 @@ class DataSpace(object):
                     else:
                         weight_value = float(weight_value)
 
+                    if index_id == 0 and weight_value == 0.0:
+                        continue  # Undefined record always has a weight of zero.
+
                     try:
                         weight_record = weight_repo.get_by_weight_group_id_and_index_id(
                             weight_group_id=group.id, index_id=index_id
-- 
2.43.0


From 8bebb4c4a93affcc63b4da43c6237cd9dc21a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 27/45] fix: match mapping rows to spaces without index records

---
 src/toron/mapper.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index ed04962..c245f4b 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -577,7 +577,10 @@ class Mapper_OLD(object):
             levels.append((input_bytes, node_bytes))
 
         # Sort levels from highest to lowest granularity.
-        get_granularity = lambda x: granularity_dict.get(x[1], -1)
+        def get_granularity(level_pair):
+            granularity = granularity_dict.get(level_pair[1])
+            return granularity if granularity is not None else -1
+
         levels = sorted(levels, key=get_granularity, reverse=True)
 
         return levels
-- 
2.43.0


From 6af255546ff0e5d9670812fecc805f54b151965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 28/45] fix: refuse mapping values that are not numbers and
 skip blank ones

---
 src/toron/mapper.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/toron/mapper.py b/src/toron/mapper.py
index c245f4b..c9e69d8 100644
--- a/src/toron/mapper.py
+++ b/src/toron/mapper.py
@@ -108,7 +108,10 @@ class Mapper(object):
                     node2_index_id INTEGER,
                     node2_location TEXT NOT NULL,
                     node2_level BLOB NOT NULL,
-                    mapping_value REAL CHECK (0.0 <= mapping_value)
+                    mapping_value REAL NOT NULL CHECK (
+                        TYPEOF(mapping_value) = 'real'
+                        AND 0.0 <= mapping_value
+                    )
                 );
                 CREATE TABLE node1_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_source(run_id),
@@ -135,6 +138,9 @@ class Mapper(object):
                 node1_index_id, node1_location, node1_bitflags, \
                 node2_index_id, node2_location, node2_bitflags, mapping_value = row
 
+                if mapping_value is None or mapping_value == '':
+                    continue  # Rows without a value don't map anything.
+
                 node1_level = bytes(node1_bitflags)
                 node2_level = bytes(node2_bitflags)
 
@@ -476,7 +482,10 @@ class Mapper_OLD(object):
                     left_level BLOB_BITFLAGS NOT NULL,
                     right_location TEXT NOT NULL,
                     right_level BLOB_BITFLAGS NOT NULL,
-                    mapping_value REAL NOT NULL
+                    mapping_value REAL NOT NULL CHECK (
+                        TYPEOF(mapping_value) = 'real'
+                        AND 0.0 <= mapping_value
+                    )
                 );
                 CREATE TABLE left_matches(
                     run_id INTEGER NOT NULL REFERENCES mapping_data(run_id),
@@ -501,8 +510,8 @@ class Mapper_OLD(object):
             self.right_columns = columns[value_pos+1:]
 
             for row in data:
-                if not row:
-                    continue  # If row is empty, skip to next.
+                if not row or row[value_pos] == '':
+                    continue  # If row is empty or has no value, skip to next.
 
                 sql = """
                     INSERT INTO mapping_data
-- 
2.43.0


From cf0985f01708b050a8f52f8537a076576b7e0be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 29/45] fix: don't fail on text resembling an index code of a
 huge number

---
 src/toron/cli/common.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index 3810729..e347ec1 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -12,7 +12,7 @@ from collections import Counter
 from contextlib import contextmanager
 from dataclasses import astuple, dataclass
 from enum import IntEnum
-from struct import Struct
+from struct import Struct, error as StructError
 from .. import bind_file, ToronError
 from .._typing import (
     Any,
@@ -334,11 +334,12 @@ def index_code_to_id(
     try:
         index_id = int(index_id_dec)
         checksum = int(checksum_hex, 16)
-    except ValueError:
+        packed_id = pack_i64_be(index_id)
+    except (ValueError, StructError):  # StructError when id is too large.
         raise ValueError(f'badly formatted index code: {index_code}')
 
     # Using crc32 to verify IDs and distinguish datasets; not for security.
-    if checksum != crc32(pack_i64_be(index_id) + unique_id_bytes) & 0xffffffff:
+    if checksum != crc32(packed_id + unique_id_bytes) & 0xffffffff:
         raise ValueError(f'checksum mismatch for index code: {index_code}')
 
     return index_id
-- 
2.43.0


From dd60f3a7874e804421944ed6791942b931208abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:51 +0000
Subject: [PATCH 30/45] fix: keep line breaks in values when reading CSV from
 stdin

---
 src/toron/cli/command_index.py    | 4 ++--
 src/toron/cli/command_mapping.py  | 4 ++--
 src/toron/cli/command_quantity.py | 4 ++--
 src/toron/cli/common.py           | 7 +++++++
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index 2d0ff6d..bd16c79 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -1,6 +1,5 @@
 """Implementation for "index" command."""
 import argparse
-import csv
 import logging
 import os
 import re
@@ -11,6 +10,7 @@ from .._typing import Iterator, List, TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -28,7 +28,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
     sample_rows = list(islice(reader, 10))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
diff --git a/src/toron/cli/command_mapping.py b/src/toron/cli/command_mapping.py
index 340a650..8aea9d9 100644
--- a/src/toron/cli/command_mapping.py
+++ b/src/toron/cli/command_mapping.py
@@ -1,6 +1,5 @@
 """Implementation for "mapping" command."""
 import argparse
-import csv
 import logging
 import os
 import uuid
@@ -42,6 +41,7 @@ from .._utils import (
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     index_code_to_id,
     index_id_to_code,
@@ -392,7 +392,7 @@ def read_from_stdin(
 
     # Normalize and load mapping data.
     data = normalize_mapping_data(
-        node1, node2, args.link, csv.reader(args.stdin)
+        node1, node2, args.link, csv_stdin_reader(args.stdin)
     )
     mapper = Mapper(node1, node2, data)
 
diff --git a/src/toron/cli/command_quantity.py b/src/toron/cli/command_quantity.py
index e9e9723..4f09fab 100644
--- a/src/toron/cli/command_quantity.py
+++ b/src/toron/cli/command_quantity.py
@@ -1,6 +1,5 @@
 """Implementation for "quantity" command."""
 import argparse
-import csv
 import logging
 import os
 from .._typing import TYPE_CHECKING
@@ -8,6 +7,7 @@ from .._typing import TYPE_CHECKING
 from .common import (
     ExitCode,
     is_streamed,
+    csv_stdin_reader,
     csv_stdout_writer,
     cli_bind_file,
     process_backup_option,
@@ -22,7 +22,7 @@ applogger = logging.getLogger('app-toron')
 
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Load quantity records read from stdin stream."""
-    reader = csv.reader(args.stdin)
+    reader = csv_stdin_reader(args.stdin)
 
     try:
         node.insert_quantities2(
diff --git a/src/toron/cli/common.py b/src/toron/cli/common.py
index e347ec1..fcd1262 100644
--- a/src/toron/cli/common.py
+++ b/src/toron/cli/common.py
@@ -49,6 +49,13 @@ def is_streamed(standard_io: TextIO):
     return not standard_io.isatty()
 
 
+def csv_stdin_reader(stdin: TextIO) -> '_csv._reader':
+    """Return a ``csv.reader()`` for the given *stdin* stream."""
+    if isinstance(stdin, io.TextIOWrapper):
+        stdin.reconfigure(newline='')  # Keep line breaks in quoted values.
+    return csv.reader(stdin)
+
+
 @contextmanager
 def csv_stdout_writer(
     stdout: Optional[TextIO] = None
-- 
2.43.0


From 1b145699d3a220648a623927320ddf8fcdad82ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:52 +0000
Subject: [PATCH 31/45] fix: give no rows when stacking columns of an empty
 table

---
 src/toron/_utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/toron/_utils.py b/src/toron/_utils.py
index 48610ab..10adb5f 100644
--- a/src/toron/_utils.py
+++ b/src/toron/_utils.py
@@ -775,7 +775,10 @@ def wide_to_long(data, cols_to_stack, var_name='variable', val_name='value'):
          {'A': 'z', 'variable': 'D', 'value': 90}]
     """
     data = iter(data)
-    first_item = next(data)
+    try:
+        first_item = next(data)
+    except StopIteration:
+        return  # <- EXIT! (No rows to stack.)
 
     if not isinstance(cols_to_stack, Iterable) \
             or isinstance(cols_to_stack, str):
-- 
2.43.0


From 7643c4c86747427d1795cf90169a3c4acb946096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:59 +0000
Subject: [PATCH 32/45] fix: accept empty selectors when adding a weight group

---
 src/toron/dal1/repositories.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/toron/dal1/repositories.py b/src/toron/dal1/repositories.py
index 99ca856..6b0abc3 100644
--- a/src/toron/dal1/repositories.py
+++ b/src/toron/dal1/repositories.py
@@ -375,16 +375,20 @@ class WeightGroupRepository(BaseWeightGroupRepository):
         is_complete: bool = False,
     ) -> None:
         """Add a record to the repository."""
-        if selectors:
-            if isinstance(selectors, str):
-                selectors = [selectors]
-            selectors = json_dumps(selectors)
+        if isinstance(selectors, str):
+            selectors = [selectors]
 
         sql = """
             INSERT INTO main.weight_group (name, description, selectors, is_complete)
             VALUES (?, ?, ?, ?)
         """
-        self._cursor.execute(sql, (name, description, selectors, is_complete))
+        parameters = (
+            name,
+            description,
+            json_dumps(selectors) if selectors else None,
+            is_complete,
+        )
+        self._cursor.execute(sql, parameters)
 
     def get(self, id: int) -> WeightGroup:
         """Get a record from the repository.
-- 
2.43.0


From 321057f70eb1c94835e75660194db12b32419a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:48 +0000
Subject: [PATCH 33/45] fix: don't take a link named '' for the default link

---
 src/toron/data_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toron/data_service.py b/src/toron/data_service.py
index da5eb71..fd5f6c4 100644
--- a/src/toron/data_service.py
+++ b/src/toron/data_service.py
@@ -473,7 +473,7 @@ def get_link(
     available_names = ', '.join(repr(x.name) for x in links)
 
     # If `link_name`, look for matching name.
-    if link_name:
+    if link_name is not None:
         for link in links:
             if link.name == link_name:
                 return link  # <- EXIT!
-- 
2.43.0


From 7a5afa87019831c81f629a8e19f5ee0a18da67ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:04 +0000
Subject: [PATCH 34/45] fix: release the storage of results that are no longer
 used

---
 src/toron/reader.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 22edf0e..5e332cf 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -137,8 +137,12 @@ class NodeReader(object):
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object).
-        self.close = weakref.finalize(self, self._finalizer)
+        # Assign `close()` method (gets a callable finalizer object). The
+        # finalizer's arguments must not own any references to the instance
+        # itself or else it would never be garbage collected.
+        self.close = weakref.finalize(
+            self, self._finalizer, weakref.ref(self), connection, filepath
+        )
 
     @staticmethod
     def _get_attr_data_id_add_if_missing(
@@ -157,17 +161,23 @@ class NodeReader(object):
         cur.execute(sql, parameters)
         return cast(int, cur.lastrowid)  # Cast because we know it exists (just inserted).
 
-    def _finalizer(self) -> None:
+    @staticmethod
+    def _finalizer(
+        instance_ref: 'weakref.ref[NodeReader]',
+        in_memory_connection: Optional[sqlite3.Connection],
+        current_working_path: Optional[str],
+    ) -> None:
         """Close `_data` generator and remove temporary database file."""
-        if self._data:
-            self._data.close()
+        instance = instance_ref()
+        if instance is not None and instance._data:
+            instance._data.close()
 
-        if self._in_memory_connection:
-            self._in_memory_connection.close()
+        if in_memory_connection:
+            in_memory_connection.close()
 
-        if self._current_working_path:
+        if current_working_path:
             with suppress(FileNotFoundError):
-                os.unlink(self._current_working_path)
+                os.unlink(current_working_path)
 
     @property
     def index_columns(self) -> List[str]:
-- 
2.43.0


From ce31370676134b86942c9738287db6a7f71610ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:34 +0000
Subject: [PATCH 35/45] fix: remove the temporary file when a result cannot be
 read

---
 src/toron/reader.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index 5e332cf..dee8e35 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -91,6 +91,18 @@ class NodeReader(object):
             connection = sqlite3.connect(':memory:')
             connection_cm = nullcontext(connection)
 
+        # Assign instance attributes.
+        self._current_working_path = filepath
+        self._in_memory_connection = connection
+        self._data = None  # <- Assigned only when iteration begins.
+
+        # Assign `close()` method (gets a callable finalizer object). The
+        # finalizer's arguments must not own any references to the instance
+        # itself or else it would never be garbage collected.
+        self.close = weakref.finalize(
+            self, self._finalizer, weakref.ref(self), connection, filepath
+        )
+
         # Create tables, insert records, and accumulate `attr_keys`.
         with connection_cm as con:
             try:
@@ -129,21 +141,11 @@ class NodeReader(object):
                 con.rollback()
                 raise
 
-        # Assign instance attributes.
-        self._current_working_path = filepath
-        self._in_memory_connection = connection
-        self._data = None  # <- Assigned only when iteration begins.
+        # Assign remaining instance attributes.
         self._node = node
         self._index_columns = node.index_columns
         self._attr_keys = sorted(attr_keys)
 
-        # Assign `close()` method (gets a callable finalizer object). The
-        # finalizer's arguments must not own any references to the instance
-        # itself or else it would never be garbage collected.
-        self.close = weakref.finalize(
-            self, self._finalizer, weakref.ref(self), connection, filepath
-        )
-
     @staticmethod
     def _get_attr_data_id_add_if_missing(
         cur: sqlite3.Cursor, attributes: Dict[str, str]
-- 
2.43.0


From d17f19bb10a7e876ef5548cf0f3daf8b94962529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:39 +0000
Subject: [PATCH 36/45] fix: allow pivoting a result while other iterators over
 it are open

---
 src/toron/reader.py | 117 +++++++++++++++++++++-----------------------
 1 file changed, 55 insertions(+), 62 deletions(-)

diff --git a/src/toron/reader.py b/src/toron/reader.py
index dee8e35..97b5c80 100644
--- a/src/toron/reader.py
+++ b/src/toron/reader.py
@@ -415,80 +415,73 @@ def pivot_reader(
     aggregate_function: Literal['sum', 'mean'] = 'sum',
 ) -> Generator[PivotedRowType, None, None]:
     """An experimental pivot implementation for ``NodeReader`` data."""
-    aggfuncs = {'sum': 'SUM', 'mean': 'AVG'}  # <- Values are SQLite functions.
+    aggfuncs: Dict[str, Callable[[List[float]], float]] = {
+        'sum': sum,
+        'mean': lambda values: sum(values) / len(values),
+    }
     if aggregate_function not in aggfuncs.keys():
         msg = (
             f"invalid aggregate_function {aggregate_function!r}; must "
             f"be one of: {', '.join(repr(x) for x in aggfuncs.keys())}."
         )
         raise ValueError(msg)
+    aggfunc = aggfuncs[aggregate_function]
 
     columns = list(columns)
 
     with reader._managed_connection() as con:
-        cur1 = con.cursor()
-        cur2 = con.cursor()
-        cur1.execute("""
-            CREATE TEMPORARY TABLE pivot_temp (
-                attr_data_id INTEGER NOT NULL,
-                pivot_attrs TEXT NOT NULL
-            )
+        cur = con.cursor()
+
+        # Get pivot attributes by `attr_data_id`.
+        pivot_attrs_by_id: Dict[int, str] = {}
+        cur.execute('SELECT attr_data_id, attributes FROM main.attr_data')
+        for attr_data_id, attributes in cur:
+            attrs_dict = loads(attributes)
+            pivot_attrs = [attrs_dict.get(x, '') for x in columns]
+
+            if not any(pivot_attrs):
+                continue  # Skip to next if pivot attrs are all empty.
+
+            pivot_attrs_by_id[attr_data_id] = dumps(pivot_attrs)
+
+        # Get distinct list of columns.
+        pivoted_columns = sorted(set(pivot_attrs_by_id.values()))
+
+        # Format and yield header row.
+        str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
+        yield list(reader._node.index_columns) + str_or_tuple_cols
+
+        # Get values to aggregate ('quant_data' must be summed before
+        # pivot aggregation and must be sorted by `index_id`).
+        cur.execute("""
+            SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
+            FROM main.quant_data
+            GROUP BY index_id, attr_data_id
+            ORDER BY index_id
         """)
-        try:
-            cur1.execute('SELECT attr_data_id, attributes FROM main.attr_data')
-            for attr_data_id, attributes in cur1:
-                attrs_dict = loads(attributes)
-                pivot_attrs = [attrs_dict.get(x, '') for x in columns]
-
-                if not any(pivot_attrs):
-                    continue  # Skip to next if pivot attrs are all empty.
-
-                cur2.execute(
-                    'INSERT INTO temp.pivot_temp VALUES (?, ?)',
-                    (attr_data_id, dumps(pivot_attrs)),
-                )
-
-            # Get distinct list of columns after populating table.
-            cur1.execute("""
-                SELECT DISTINCT pivot_attrs
-                FROM temp.pivot_temp
-                ORDER BY pivot_attrs
-            """)
-            pivoted_columns = [x[0] for x in cur1]  # Unwrap single item results.
-
-            # Format and yield header row.
-            str_or_tuple_cols = [format_column(loads(x)) for x in pivoted_columns]
-            yield list(reader._node.index_columns) + str_or_tuple_cols
-
-            # Get aggregated values for pivot (must be sorted by `index_id`).
-            sql_aggfunc = aggfuncs[aggregate_function]
-            cur1.execute(f"""
-                SELECT index_id, pivot_attrs, {sql_aggfunc}(quant_value) AS quant_value
-                FROM (
-                    /* 'quant_data' must be summed before pivot aggregation */
-                    SELECT index_id, attr_data_id, SUM(quant_value) AS quant_value
-                    FROM main.quant_data
-                    GROUP BY index_id, attr_data_id
-                )
-                JOIN temp.pivot_temp USING (attr_data_id)
-                GROUP BY index_id, pivot_attrs
-                ORDER BY index_id
-            """)
-
-            # Yield pivoted data rows.
-            with reader._node._managed_cursor() as node_cur:
-                # Assign `get` method to local var and define helper-lambda.
-                get_index = reader._node._dal.IndexRepository(node_cur).get
-                get_labels = lambda x: list(get_index(x).labels)
-
-                # Group by pre-sorted `index_id` and make pivoted rows.
-                for index_id, group in groupby(cur1, key=lambda row: row[0]):
-                    row_dict = {row[1]: row[2] for row in group}
-                    float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
-                    yield get_labels(index_id) + float_or_none_vals
+        records = (
+            (index_id, pivot_attrs_by_id[attr_data_id], quant_value)
+            for index_id, attr_data_id, quant_value in cur
+            if attr_data_id in pivot_attrs_by_id
+        )
 
-        finally:
-            cur1.execute('DROP TABLE temp.pivot_temp')
+        # Yield pivoted data rows.
+        with reader._node._managed_cursor() as node_cur:
+            # Assign `get` method to local var and define helper-lambda.
+            get_index = reader._node._dal.IndexRepository(node_cur).get
+            get_labels = lambda x: list(get_index(x).labels)
+
+            # Group by pre-sorted `index_id` and make pivoted rows.
+            for index_id, group in groupby(records, key=lambda row: row[0]):
+                values_dict: Dict[str, List[float]] = {}
+                for _, pivot_attrs_key, quant_value in group:
+                    values = values_dict.setdefault(pivot_attrs_key, [])
+                    if quant_value is not None:
+                        values.append(quant_value)
+
+                row_dict = {k: aggfunc(v) for k, v in values_dict.items() if v}
+                float_or_none_vals = [row_dict.get(col) for col in pivoted_columns]
+                yield get_labels(index_id) + float_or_none_vals
 
 
 def pivot_reader_to_pandas(
-- 
2.43.0


From 3f1eae93f047fc3ef56144552e59a747775e23f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:06 +0000
Subject: [PATCH 37/45] fix: disaggregate and translate legacy nodes without
 selectors

---
 src/toron/_dal.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 0bffc33..175dbf2 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -2024,7 +2024,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in y or ()]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -2175,7 +2175,7 @@ class DataAccessLayer(object):
             """)
 
             ## TEMPORARY PATCH FOR REFACTORING
-            parse_all = lambda y: [parse_selector(z) for z in y]
+            parse_all = lambda y: [parse_selector(z) for z in y or ()]
             list_of_selectors = [(x, parse_all(y)) for (x, y) in cur.fetchall()]
             match_weighting_id = GetMatchingKey(list_of_selectors, default=1)  # type: ignore [arg-type]
             weighting_func_name = _schema.get_userfunc(cur, match_weighting_id)
@@ -3180,7 +3180,7 @@ class DataAccessLayer(object):
         cursor.execute(sql, (data.unique_id,))
 
         ## TEMPORARY PATCH FOR REFACTORING
-        parse_all = lambda y: [parse_selector(z) for z in y]
+        parse_all = lambda y: [parse_selector(z) for z in y or ()]
         list_of_selectors = [(x, parse_all(y)) for (x, y) in cursor.fetchall()]
         get_edge_id = GetMatchingKey(list_of_selectors, default=default_edge_id)  # type: ignore [arg-type]
 
-- 
2.43.0


From 0de0f790dec054834ed29b6f43b919405f9887b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:16 +0000
Subject: [PATCH 38/45] fix: list a legacy node's weight records of one
 weighting only

---
 src/toron/_dal.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/toron/_dal.py b/src/toron/_dal.py
index 175dbf2..f9d65d3 100644
--- a/src/toron/_dal.py
+++ b/src/toron/_dal.py
@@ -1485,11 +1485,12 @@ class DataAccessLayer(object):
             sql = """
                 SELECT index_id, weight_value
                 FROM main.node_index t1
-                LEFT JOIN main.weight t2 USING (index_id)
-                LEFT JOIN main.weighting t3 ON (
-                    t2.weighting_id=t3.weighting_id
-                    AND t3.name=:weight_name
-                )
+                LEFT JOIN (
+                    SELECT index_id, weight_value
+                    FROM main.weight
+                    JOIN main.weighting USING (weighting_id)
+                    WHERE name=:weight_name
+                ) t2 USING (index_id)
             """
             if where:
                 where_expr, parameters = self._format_select_params(where)
-- 
2.43.0


From be212e9540995c7bd9ddb2c004d6d7376c6afe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:55 +0000
Subject: [PATCH 39/45] fix: update partitions and display order in legacy
 label functions

---
 src/toron/dal1/label_manager.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index bb2cc37..1bae51b 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -124,6 +124,7 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
         raise TypeError(msg)
 
     from toron.data_service import validate_new_index_columns
+    from toron.data_service import rename_labels_in_display_order
     from toron.data_service import rename_partition_definitions
 
     with node._managed_cursor() as cursor:
@@ -208,8 +209,10 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
 
-            # Rename partition definitions to match new column names.
+            # Rename partition definitions and display order to match new
+            # column names.
             rename_partition_definitions(mapping, label_manager, property_repo)
+            rename_labels_in_display_order(mapping, property_repo)
 
             cursor.execute('COMMIT TRANSACTION')
 
@@ -234,7 +237,11 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
         msg = f"expected DataSpace with 'DAL1' backend, got {node._dal.backend!r}"
         raise TypeError(msg)
 
-    with node._managed_cursor() as cursor:
+    from toron.data_service import drop_labels_in_display_order
+    from toron.data_service import drop_partition_labels
+    from toron.data_service import rebuild_structure_table
+
+    with node._managed_cursor(n=2) as (cursor, aux_cursor):
         manager = LabelManager(cursor)
 
         if cursor.connection.in_transaction:
@@ -302,7 +309,8 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
             cursor.execute('DROP TABLE main.label_location')
             cursor.execute('ALTER TABLE main.new_location RENAME TO label_location')
 
-            # Rebuild 'label_structure' table with columns_to_keep.
+            # Rebuild 'label_structure' table with columns_to_keep (left empty,
+            # a new structure is built below).
             cursor.execute(f"""
                 CREATE TABLE main.new_structure(
                     _structure_id INTEGER PRIMARY KEY,
@@ -310,17 +318,26 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                     {', '.join(schema.column_def_structure(x) for x in columns_to_keep)}
                 )
             """)
-            cursor.execute(f"""
-                INSERT INTO main.new_structure
-                SELECT _structure_id, _granularity, {', '.join(formatted_columns_to_keep)}
-                FROM main.label_structure
-            """)
             cursor.execute('DROP TABLE main.label_structure')
             cursor.execute('ALTER TABLE main.new_structure RENAME TO label_structure')
 
             # Check integrity, re-create constraints, and commit transaction.
             schema.verify_foreign_key_check(cursor)
             schema.create_schema_constraints(cursor)
+
+            # Update partition definitions, display order, and structure.
+            property_repo = node._dal.PropertyRepository(cursor)
+            drop_partition_labels(columns_to_delete, manager, property_repo)
+            drop_labels_in_display_order(columns_to_delete, property_repo)
+            rebuild_structure_table(
+                label_manager=manager,
+                property_repo=property_repo,
+                structure_repo=node._dal.StructureRepository(cursor),
+                index_repo=node._dal.IndexRepository(cursor),
+                aux_index_repo=node._dal.IndexRepository(aux_cursor),
+                optimizations=node._dal.optimizations,
+            )
+
             cursor.execute('COMMIT TRANSACTION')
 
         except Exception as err:
-- 
2.43.0


From 0627930348ef825e3068dc7c7642f35ef6bdf053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:01 +0000
Subject: [PATCH 40/45] fix: don't reuse index ids after legacy label functions

---
 src/toron/dal1/label_manager.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/toron/dal1/label_manager.py b/src/toron/dal1/label_manager.py
index 1bae51b..35449f8 100644
--- a/src/toron/dal1/label_manager.py
+++ b/src/toron/dal1/label_manager.py
@@ -175,6 +175,12 @@ def legacy_rename_labels(node: 'DataSpace', mapping: Dict[str, str]) -> None:
             cursor.execute(
                 'INSERT INTO main.new_label_index SELECT * FROM main.label_index'
             )
+            # Carry over the sequence (ids of deleted records are not reused).
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
@@ -291,6 +297,12 @@ def legacy_drop_labels(node: 'DataSpace', column: str, *columns: str) -> None:
                 SELECT index_id, {', '.join(formatted_columns_to_keep)}
                 FROM main.label_index
             """)
+            # Carry over the sequence (ids of deleted records are not reused).
+            cursor.execute("""
+                UPDATE main.sqlite_sequence
+                SET seq=(SELECT seq FROM main.sqlite_sequence WHERE name='label_index')
+                WHERE name='new_label_index'
+            """)
             cursor.execute('DROP TABLE main.label_index')
             cursor.execute('ALTER TABLE main.new_label_index RENAME TO label_index')
 
-- 
2.43.0


From 5faf7c151238ed2e57538d0fe079a8e40131e47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:39 +0000
Subject: [PATCH 41/45] fix: remove every occurrence of a selector given to
 --remove-selector

---
 src/toron/cli/command_update.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/toron/cli/command_update.py b/src/toron/cli/command_update.py
index 52cd2fa..008ff5a 100644
--- a/src/toron/cli/command_update.py
+++ b/src/toron/cli/command_update.py
@@ -56,9 +56,7 @@ def update_weight(args: argparse.Namespace) -> ExitCode:
                            f"{', '.join(repr(x) for x in args.add_selector)}")
 
         if args.remove_selector:
-            for sel in args.remove_selector:
-                if sel in selectors:
-                    selectors.remove(sel)
+            selectors = [x for x in selectors if x not in args.remove_selector]
             applogger.info(f"removed selectors: "
                            f"{', '.join(repr(x) for x in args.remove_selector)}")
 
-- 
2.43.0


From f4d80aa50e568bbb818683e91667b7c24119713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:22 +0000
Subject: [PATCH 42/45] fix: keep undefined values when translating a
 QuantityIterator

---
 src/toron/graph.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/toron/graph.py b/src/toron/graph.py
index 3a12f3b..1ce02ff 100644
--- a/src/toron/graph.py
+++ b/src/toron/graph.py
@@ -682,6 +682,11 @@ def _translate(
             if quantity_value is None:
                 continue  # Skip to next record.
 
+            # If undefined record, quantities remain undefined.
+            if index.id == 0:
+                yield (index_repo.get(0), attributes, quantity_value)
+                continue  # Skip to next record.
+
             # Find link that matches with greated unique specificity.
             link_id = get_greatest_unique_specificity(
                 row_dict=attributes,
-- 
2.43.0


From 4713e9e200ed8443c4c33ac0c8472d3c32e61f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:59 +0000
Subject: [PATCH 43/45] fix: accept numbers given as text in update_weights()

---
 src/toron/space.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 0369cd7..550558e 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -1488,20 +1488,22 @@ class DataSpace(object):
                     counter['mismatch'] += 1
                     continue  # <- Skip to next item.
 
+                weight_value = float(row_dict[value_column])  # Can be str.
+
                 try:
                     # Update weight record if it exists.
                     weight_record = weight_repo.get_by_weight_group_id_and_index_id(
-                        weight_group_id, index_id
+                        weight_group_id, index_record.id
                     )
-                    weight_record.value = row_dict[value_column]
+                    weight_record.value = weight_value
                     weight_repo.update(weight_record)
                     counter['updated'] += 1
                 except KeyError:
                     # Add new weight if it does not exist.
                     weight_repo.add(
                         weight_group_id=weight_group_id,
-                        index_id=index_id,
-                        value=row_dict[value_column],
+                        index_id=index_record.id,
+                        value=weight_value,
                     )
                     counter['inserted'] += 1
 
-- 
2.43.0


From e0b686371d394b4dfd2ffe991a6badc3c2f68639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:04:59 +0000
Subject: [PATCH 44/45] fix: refuse rows of merged records when ids are given
 as text

---
 src/toron/space.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/toron/space.py b/src/toron/space.py
index 550558e..6a7ac17 100644
--- a/src/toron/space.py
+++ b/src/toron/space.py
@@ -973,7 +973,7 @@ class DataSpace(object):
                 try:
                     index_record = index_repo.get(updated_dict['index_id'])
                 except KeyError:
-                    if updated_dict['index_id'] not in previously_merged:
+                    if str(updated_dict['index_id']) not in previously_merged:
                         counter['no_index'] += 1
                         continue  # <- Skip to next item.
 
@@ -1003,7 +1003,7 @@ class DataSpace(object):
                     mapping_repo.merge_by_index_id(matching.id, index_record.id)
                     index_repo.delete(matching.id)
                     counter['merged'] += 1
-                    previously_merged.add(matching.id)
+                    previously_merged.add(str(matching.id))
 
                 # Assign updated label values and perform update action.
                 index_record.labels = tuple(label_dict.values())
-- 
2.43.0


From ad45dd50a739d5f4124310bd14808dcf954911d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:07 +0000
Subject: [PATCH 45/45] fix: find index codes after the first rows when loading
 an index

New records have no index code. When ten or more of them came first, the
code column was ignored and a record named by its code was added again
under its new labels.
---
 src/toron/cli/command_index.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/toron/cli/command_index.py b/src/toron/cli/command_index.py
index bd16c79..7ea4a76 100644
--- a/src/toron/cli/command_index.py
+++ b/src/toron/cli/command_index.py
@@ -15,6 +15,7 @@ from .common import (
     cli_bind_file,
     process_backup_option,
     index_id_to_code,
+    is_index_code,
     get_index_code_position,
     remap_index_codes_to_index_ids,
 )
@@ -29,10 +30,20 @@ applogger = logging.getLogger('app-toron')
 def read_from_stdin(args: argparse.Namespace, node: 'DataSpace') -> ExitCode:
     """Insert index records read from stdin stream."""
     reader = csv_stdin_reader(args.stdin)
-    sample_rows = list(islice(reader, 10))
+    unique_id_bytes = uuid.UUID(node.unique_id).bytes
+
+    # Sample rows until an index code is found (new index records have no
+    # code, so the first one can appear anywhere in the stream).
+    sample_rows: List[List] = []
+    has_code = False
+    while not has_code:
+        chunk = list(islice(reader, 10))
+        if not chunk:
+            break
+        sample_rows.extend(chunk)
+        has_code = any(is_index_code(x, unique_id_bytes) for x in chain(*chunk))
     iterator: Iterator[List] = chain(sample_rows, reader)
 
-    unique_id_bytes = uuid.UUID(node.unique_id).bytes
     try:
         position = get_index_code_position(sample_rows, unique_id_bytes)
         iterator = remap_index_codes_to_index_ids(iterator, unique_id_bytes, position)
-- 
2.43.0

