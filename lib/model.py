"""Reference model of a data space: plain dictionaries, no database.

Every modifying method works on the model in place and raises Refused when the
real operation has to fail; the engine keeps a snapshot so that a refused
operation leaves the model unchanged.
"""
import copy
import hashlib
from collections import Counter
from math import log2, isnan, isinf


class Refused(Exception):
    """The operation must raise an error and change nothing."""


def seq_hash(ids):
    h = hashlib.sha256()
    for i in ids:
        h.update(i.to_bytes(8, 'big'))
    return h.hexdigest()


def bits_of(flags):
    flags = [1 if f else 0 for f in flags]
    while flags and not flags[-1]:
        flags.pop()
    return tuple(flags)


def level_bytes(flags):
    b = list(bits_of(flags))
    b += [0] * (-len(b) % 8)
    return bytes(int(''.join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))


def level_bits(raw):
    return bits_of([(c >> s) & 1 for c in raw for s in range(7, -1, -1)])


def unions(defs):
    out = {frozenset()}
    for d in defs:
        out |= {s | frozenset(d) for s in out}
    return out


def minimal(defs):
    """Members that are not unions of other members (the only minimal basis)."""
    defs = {frozenset(d) for d in defs}
    return {d for d in defs
            if d != frozenset().union(*[e for e in defs if e < d])}


class Model:
    def __init__(self):
        self.columns = []          # storage order
        self.display = None        # display order, if it was ever set
        self.index = {0: ()}
        self.used_ids = {0}
        self.partitions = set()    # frozensets
        self.groups = {}           # name -> dict
        self.group_order = []
        self.default_group = None
        self.links = []            # dicts
        self.quantities = {}       # (labels tuple, frozenset(attr items)) -> value
        self.attributes = []
        self.domain = ''
        self.counts = Counter()    # outcomes of the rows of the last operation

    def copy(self):
        return copy.deepcopy(self)

    def rename_ids(self, ren):
        """Give records inserted by the last operation other (unused) ids."""
        self.index = {ren.get(i, i): v for i, v in self.index.items()}
        self.used_ids = {ren.get(i, i) for i in self.used_ids}
        for g in self.groups.values():
            g['weights'] = {ren.get(i, i): w for i, w in g['weights'].items()}
        for link in self.links:
            link['mappings'] = {(o, ren.get(i, i), lev): m
                                for (o, i, lev), m in link['mappings'].items()}

    def display_order(self):
        order = [c for c in self.display or [] if c in self.columns]
        return order + [c for c in self.columns if c not in order]

    def move_label(self, name, offset):
        self.display = self.moved(self.display_order(), name, offset)

    def move_attribute(self, name, offset):
        self.attributes = self.moved(self.attributes, name, offset)

    @staticmethod
    def moved(seq, name, offset):
        seq = list(seq)
        k = seq.index(name)
        seq.pop(k)
        seq.insert(max(0, min(len(seq), k + offset)), name)
        return seq

    # -- derived -----------------------------------------------------------
    @property
    def ids(self):
        return [i for i in sorted(self.index) if i]

    def find(self, criteria, undefined=True):
        pos = {c: k for k, c in enumerate(self.columns)}
        if any(c not in pos for c in criteria):
            return []
        out = []
        for i in sorted(self.index):
            if i == 0 and not undefined:
                continue
            if all(self.index[i][pos[c]] == v for c, v in criteria.items()):
                out.append(i)
        return out

    def whole(self):
        return level_bytes([1] * len(self.columns))

    def structure(self):
        """Set of bit patterns (tuples) accepted for quantities and mappings."""
        if not self.partitions:
            return set()
        return {bits_of([c in s for c in self.columns]) for s in unions(self.partitions)}

    def granularity(self, labels):
        if not labels or not self.ids:
            return None
        pos = [self.columns.index(c) for c in labels]
        blocks = Counter(tuple(self.index[i][p] for p in pos) for i in self.ids)
        n = len(self.ids)
        return -sum(k / n * log2(k / n) for k in blocks.values())

    def fingerprint(self):
        return seq_hash(sorted(self.index))

    def group_complete(self, g):
        return all(i in g['weights'] for i in self.ids)

    def link_complete(self, link):
        mapped = {k[1] for k in link['mappings']}
        return all(i in mapped for i in self.ids)

    def link_hash(self, link):
        return seq_hash(sorted({0} | {k[0] for k in link['mappings']}))

    def proportions(self, link):
        """Values divided by the total per source record."""
        by = {}
        for k, m in link['mappings'].items():
            by.setdefault(k[0], []).append(k)
        for other, keys in by.items():
            total = sum(link['mappings'][k]['value'] for k in keys)
            for k in keys:
                link['mappings'][k]['proportion'] = self.share(link, k, total, len(keys))

    def share(self, link, key, total, n):
        if key[0] == 0:
            return 0.0
        if total == 0:
            return 1 / n
        return link['mappings'][key]['value'] / total

    # -- columns -------------------------------------------------------------
    def add_columns(self, names, reserved):
        seen = set()
        if not names:
            raise Refused('no name')
        for n in names:
            if n in reserved or n in self.columns or n in self.attributes or n in seen:
                raise Refused(n)
            if any(n.lower() == c.lower() for c in list(self.columns) + list(seen)):
                raise Refused('names that differ in case only')
            seen.add(n)
        old = list(self.columns)
        self.columns += list(names)
        k = len(names)
        self.index = {i: v + ('-',) * k for i, v in self.index.items()}
        self.quantities = {(lab + ('',) * k, a): v for (lab, a), v in self.quantities.items()}
        old_whole = frozenset(old)
        new = frozenset(self.columns)
        self.partitions = minimal(self.partitions | {new})
        # The former whole space only stays while something uses it.
        if old_whole:
            used_q = any(all(lab[:len(old)]) and not any(lab[len(old):]) for lab, _ in self.quantities)
            lev = level_bytes([1] * len(old))
            used_m = any(k[2] == lev for link in self.links for k in link['mappings'])
            if not used_q and not used_m:
                self.partitions = minimal((self.partitions - {old_whole}) | {new})

    def rename_columns(self, mapping, reserved):
        for o in mapping:
            if o not in self.columns:
                raise Refused(o)
        for n in mapping.values():
            if n in reserved or n in self.columns or n in self.attributes:
                raise Refused(n)
        new = [mapping.get(c, c) for c in self.columns]
        if len({n.lower() for n in new}) != len(new):
            raise Refused('same name twice')
        self.columns = new
        self.partitions = {frozenset(mapping.get(c, c) for c in p) for p in self.partitions}
        if self.display:
            self.display = [mapping.get(c, c) for c in self.display]

    def drop_columns(self, names, reserved):
        if any(n in reserved for n in names):
            raise Refused('reserved')
        if set(self.columns) <= set(names):
            raise Refused('all columns')
        if any(n not in self.columns for n in names):
            raise Refused('unknown column')
        keep = [k for k, c in enumerate(self.columns) if c not in names]
        index = {i: tuple(v[k] for k in keep) for i, v in self.index.items()}
        if len(set(index.values())) != len(index):
            raise Refused('records are no longer distinct')
        locs = {lab for lab, _ in self.locations()}
        if len({tuple(lab[k] for k in keep) for lab in locs}) != len(locs):
            raise Refused('locations are no longer distinct')
        self.index = index
        self.columns = [self.columns[k] for k in keep]
        self.quantities = {(tuple(lab[k] for k in keep), a): v for (lab, a), v in self.quantities.items()}
        self.partitions = minimal({p - set(names) for p in self.partitions} - {frozenset()}
                                  | {frozenset(self.columns)})
        if self.display:
            self.display = [c for c in self.display if c not in names]

    def locations(self):
        return {(lab, None) for lab, _ in self.quantities}

    # -- partitions ------------------------------------------------------------
    def add_partition(self, d):
        d = frozenset(d)
        if not self.columns or d - set(self.columns):
            raise Refused('unknown label')
        if d in unions(self.partitions | {frozenset(self.columns)}):
            # (the whole space itself may be added while nothing is defined)
            if not (d and d == frozenset(self.columns) and not self.partitions):
                raise Refused('already covered')
        self.partitions = minimal(self.partitions | {d, frozenset(self.columns)})

    def add_partitions(self, ds):
        ds = [frozenset(d) for d in ds]
        if not self.columns or frozenset().union(*ds) - set(self.columns):
            raise Refused('unknown label')
        self.partitions = minimal(self.partitions | set(ds) - {frozenset()} | {frozenset(self.columns)})
        self.partitions.discard(frozenset())

    def drop_partitions(self, ds):
        whole = frozenset(self.columns)
        ds = [frozenset(d) for d in ds]
        if whole in ds:
            raise Refused('whole space')
        self.partitions = minimal({p for p in self.partitions if p not in ds} | {whole})

    # -- index -------------------------------------------------------------------
    def new_id(self):
        i = max(self.used_ids) + 1
        self.used_ids.add(i)
        return i

    def insert_index(self, rows, with_id, groups, on_label, on_weight, named=None):
        """rows: list of (id or '', labels tuple or (), {group: weight or ''})."""
        if named is not None and any(g not in self.groups for g in groups):
            raise Refused('no such group')
        inserted = weight_inserted = False
        by_labels = {v: i for i, v in self.index.items()}
        for rid, labels, weights in rows:
            if '' in labels:
                self.counts['empty_labels'] += 1
                continue
            if rid != '':
                if rid not in self.index:
                    raise Refused('unknown id')
                if labels and labels != self.index[rid]:
                    if on_label == 'abort':
                        raise Refused('labels differ')
                    self.counts['label_ignored' if on_label == 'ignore' else 'label_replaced'] += 1
                    if on_label == 'replace':
                        if rid == 0 or labels in by_labels:
                            raise Refused('cannot replace labels')
                        del by_labels[self.index[rid]]
                        self.index[rid] = labels
                        by_labels[labels] = rid
                i = rid
            else:
                if not labels:
                    raise Refused('neither id nor labels')
                i = by_labels.get(labels)
                if i is None:
                    i = self.new_id()
                    self.index[i] = labels
                    by_labels[labels] = i
                    inserted = True
                    self.counts['label_inserted'] += 1
            for g, w in weights.items():
                if g not in self.groups:
                    continue    # (a column that is not known)
                if w is None or w == '':
                    continue
                w = float(w)
                if i == 0 and w == 0:
                    continue
                ws = self.groups[g]['weights']
                if i in ws:
                    if on_weight == 'abort':
                        raise Refused('weight exists')
                    if on_weight == 'ignore':
                        self.counts['weight_ignored'] += 1
                        continue
                    if w < 0:
                        raise Refused('negative')
                    ws[i] = w
                    self.counts['weight_replaced'] += 1
                else:
                    if i == 0 or w < 0:
                        raise Refused('bad weight')
                    ws[i] = w
                    weight_inserted = True
                    self.counts['weight_inserted'] += 1
        if inserted:
            for link in self.links:
                link['is_locally_complete'] = False
            if not self.partitions:
                self.partitions = {frozenset(self.columns)}
        if inserted or weight_inserted:
            for g in self.groups.values():
                g['is_complete'] = self.group_complete(g)

    def merge(self, gone, keep):
        for g in self.groups.values():
            ws = g['weights']
            if gone in ws:
                ws[keep] = ws.get(keep, 0.0) + ws.pop(gone)
        for link in self.links:
            for k in [k for k in link['mappings'] if k[1] == gone]:
                m = link['mappings'].pop(k)
                k2 = (k[0], keep, k[2])
                if k2 in link['mappings']:
                    t = link['mappings'][k2]
                    t['value'] += m['value']
                    t['proportion'] = t['proportion'] + m['proportion']
                else:
                    link['mappings'][k2] = m
        del self.index[gone]

    def update_index(self, rows, merge_on_conflict):
        """rows: list of (id, labels)."""
        merged = set()
        for rid, labels in rows:
            if rid == '' or '' in labels:
                self.counts['empty_str'] += 1
                continue
            if rid not in self.index:
                if rid in merged:
                    raise Refused('merged before')
                self.counts['no_index'] += 1
                continue
            other = [i for i, v in self.index.items() if v == labels and i != rid]
            if other:
                if not merge_on_conflict or 0 in other:
                    raise Refused('conflict')
                self.merge(other[0], rid)
                merged.add(other[0])
                self.counts['merged'] += 1
            if rid == 0:
                raise Refused('undefined record')
            self.index[rid] = labels
            self.counts['updated'] += 1
        if merged:
            self.after_removal()

    def after_removal(self):
        for g in self.groups.values():
            if not g['is_complete'] and self.group_complete(g):
                g['is_complete'] = True
        for link in self.links:
            if not link['is_locally_complete'] and self.link_complete(link):
                link['is_locally_complete'] = True

    def remove(self, i):
        for g in self.groups.values():
            g['weights'].pop(i, None)
        others = set()
        for link in self.links:
            for k in [k for k in link['mappings'] if k[1] == i]:
                if k[2] != self.whole():
                    raise Refused('ambiguous mapping')
                del link['mappings'][k]
                others.add(k[0])
        for link in self.links:
            for o in others:
                keys = [k for k in link['mappings'] if k[0] == o]
                total = sum(link['mappings'][k]['value'] for k in keys)
                for k in keys:
                    link['mappings'][k]['proportion'] = self.share(link, k, total, len(keys))
        if i == 0:
            raise Refused('undefined record')
        del self.index[i]

    def _after_delete(self):
        self.after_removal()
        for link in self.links:
            link['other_index_hash'] = self.link_hash(link)

    def delete_index_rows(self, rows):
        n = 0
        for rid, labels in rows:
            if rid not in self.index or self.index[rid] != labels:
                self.counts['mismatch' if rid in self.index else 'no_index'] += 1
                continue
            self.remove(rid)
            n += 1
        self.counts['deleted'] += n
        if n:
            self._after_delete()

    def delete_index_criteria(self, criteria):
        n = 0
        for i in self.find(criteria):
            self.remove(i)
            n += 1
        self.counts['deleted'] += n
        if n:
            self._after_delete()

    # -- weights -------------------------------------------------------------------
    def add_group(self, name, description, selectors, is_complete, make_default):
        if make_default is None and not self.groups:
            make_default = True
        if name in self.groups:
            raise Refused('exists')
        self.groups[name] = dict(description=description, selectors=selectors,
                                 is_complete=bool(is_complete), weights={})
        if make_default:
            self.default_group = name

    def edit_group(self, name, changes):
        if name not in self.groups:
            return
        changes = dict(changes)
        new = changes.pop('name', name)
        if new != name and new in self.groups:
            raise Refused('exists')
        g = self.groups.pop(name)
        g.update(changes)
        self.groups[new] = g
        if self.default_group == name:
            self.default_group = new

    def drop_group(self, name):
        if name not in self.groups:
            return
        del self.groups[name]
        if self.default_group == name:
            self.default_group = None

    def set_default(self, name):
        self.default_group = name

    def match_row(self, rid, labels):
        """Record of a weight row, or None if the row is skipped."""
        if rid is not None:
            if rid not in self.index or self.index[rid] != labels:
                return None
            return rid
        hits = [i for i, v in self.index.items() if v == labels]
        return hits[0] if hits else None

    def insert_weights(self, name, rows, on_conflict):
        if name not in self.groups:
            self.groups[name] = dict(description=None, selectors=None, is_complete=False, weights={})
        g = self.groups[name]
        inserted = False
        for rid, labels, value in rows:
            try:
                value = float(value)
            except (TypeError, ValueError):
                value = float('nan')
            if isnan(value) or isinf(value):
                self.counts['not_realnum'] += 1
                continue
            i = self.match_row(rid, labels)
            if i is None or i == 0:
                self.counts['undefined_record' if i == 0 else 'no_match' if rid is None else
                            'mismatch' if rid in self.index else 'no_index'] += 1
                continue
            if value < 0:
                raise Refused('negative')
            if i in g['weights']:
                if on_conflict == 'abort':
                    raise Refused('exists')
                self.counts[{'replace': 'overwritten', 'sum': 'summed', 'ignore': 'skipped'}[on_conflict]] += 1
                if on_conflict == 'replace':
                    g['weights'][i] = value
                elif on_conflict == 'sum':
                    g['weights'][i] += value
            else:
                g['weights'][i] = value
                inserted = True
                self.counts['inserted'] += 1
        self.counts['complete'] = int(self.group_complete(g))
        if inserted and self.group_complete(g):
            g['is_complete'] = True

    def update_weights(self, name, rows):
        if name not in self.groups:
            raise Refused('no group')
        g = self.groups[name]
        inserted = False
        for rid, labels, value in rows:
            i = self.match_row(rid, labels)
            if i is None:
                self.counts['mismatch' if rid in self.index else 'no_index'] += 1
                continue
            if i == 0 or value < 0:
                raise Refused('bad weight')
            if i not in g['weights']:
                inserted = True
                self.counts['inserted'] += 1
            else:
                self.counts['updated'] += 1
            g['weights'][i] = value
        self.counts['complete'] = int(inserted and self.group_complete(g))
        if inserted and self.group_complete(g):
            g['is_complete'] = True

    def delete_weights_rows(self, name, rows):
        if name not in self.groups:
            raise Refused('no group')
        g = self.groups[name]
        n = 0
        for rid, labels in rows:
            i = self.match_row(rid, labels)
            if i is not None and i in g['weights']:
                del g['weights'][i]
                n += 1
            else:
                self.counts['no_weight' if i is not None else 'mismatch' if rid in self.index else 'no_index'] += 1
        self.counts['deleted'] += n
        if n:
            g['is_complete'] = False

    def delete_weights_criteria(self, name, criteria):
        if name not in self.groups:
            raise Refused('no group')
        g = self.groups[name]
        n = 0
        for i in self.find(criteria):
            if g['weights'].pop(i, None) is not None:
                n += 1
            else:
                self.counts['no_weight'] += 1
        self.counts['deleted'] += n
        if n:
            g['is_complete'] = False

    # -- links ------------------------------------------------------------------------
    def links_from(self, uid):
        return [x for x in self.links if x['uid'] == uid]

    def link(self, uid, name):
        for x in self.links:
            if x['uid'] == uid and x['name'] == name:
                return x
        raise Refused('no such link')

    def add_link(self, uid, name, is_default=None, **props):
        mine = self.links_from(uid)
        if any(x['name'] == name for x in mine):
            raise Refused('exists')
        if is_default is None:
            is_default = not mine
        if is_default:
            for x in mine:
                x['is_default'] = False
        d = dict(uid=uid, name=name, is_default=bool(is_default), hint=None, description=None,
                 selectors=None, user_properties=None, other_index_hash=None,
                 is_locally_complete=False, mappings={})
        d.update(props)
        self.links.append(d)

    def edit_link(self, uid, name, changes):
        x = self.link(uid, name)
        changes = dict(changes)
        if 'name' in changes and changes['name'] != name and any(
                y['name'] == changes['name'] for y in self.links_from(uid)):
            raise Refused('exists')
        if changes.get('is_default'):
            for y in self.links_from(uid):
                y['is_default'] = False
        x.update(changes)

    def drop_link(self, uid, name):
        x = self.link(uid, name)
        self.links.remove(x)

    def _refresh_link(self, link):
        self.proportions(link)
        link['other_index_hash'] = self.link_hash(link)
        link['is_locally_complete'] = self.link_complete(link)

    def _level_ok(self, raw):
        return raw in {level_bytes(b) for b in self.structure() if b}

    def insert_mappings2(self, uid, name, rows):
        link = self.link(uid, name)
        n = 0
        for other, i, level, value in rows:
            if level is not None and not self._level_ok(level):
                self.counts['bad_mapping_level'] += 1
                continue
            if other == 0 and i == 0:
                self.counts['undefined_to_undefined'] += 1
                continue
            if level is None:
                raise Refused('no level')
            if value < 0 or (other, i, level) in link['mappings'] or i not in self.index:
                raise Refused('bad mapping')
            link['mappings'][other, i, level] = dict(value=float(value), proportion=None)
            n += 1
        self.counts['inserted'] += n
        if n:
            self._refresh_link(link)

    def _mapping_row(self, i, labels):
        return i in self.index and self.index[i] == labels

    def insert_mappings(self, uid, name, rows):
        link = self.link(uid, name)
        n = 0
        for other, value, i, labels, level in rows:
            if not self._mapping_row(i, labels):
                self.counts['mismatch' if i in self.index else 'no_index'] += 1
                continue
            if level and not self._level_ok(level):
                self.counts['bad_mapping_level'] += 1
                continue
            if not level or value < 0 or (other, i, level) in link['mappings'] or (other == 0 and i == 0):
                raise Refused('bad mapping')
            link['mappings'][other, i, level] = dict(value=float(value), proportion=None)
            n += 1
        self.counts['inserted'] += n
        if n:
            self._refresh_link(link)

    def update_mappings(self, uid, name, rows):
        link = self.link(uid, name)
        inserted = updated = 0
        for other, value, i, labels, level in rows:
            if not self._mapping_row(i, labels):
                self.counts['mismatch' if i in self.index else 'no_index'] += 1
                continue
            if level and not self._level_ok(level):
                self.counts['bad_mapping_level'] += 1
                continue
            if not level or value < 0 or (other == 0 and i == 0):
                raise Refused('bad mapping')
            hits = [k for k in link['mappings'] if k[:2] == (other, i)]
            if hits:
                assert len(hits) == 1
                del link['mappings'][hits[0]]
                updated += 1
            else:
                inserted += 1
            link['mappings'][other, i, level] = dict(value=float(value), proportion=None)
        self.counts.update(inserted=inserted, updated=updated)
        if inserted:
            self._refresh_link(link)
        elif updated:
            self.proportions(link)

    def delete_mappings_rows(self, uid, name, rows):
        link = self.link(uid, name)
        n = 0
        for other, value, i, labels in rows:
            if not self._mapping_row(i, labels):
                self.counts['mismatch' if i in self.index else 'no_index'] += 1
                continue
            hits = [k for k in link['mappings'] if k[:2] == (other, i)]
            if not hits:
                self.counts['no_mapping'] += 1
                continue
            assert len(hits) == 1
            k = hits[0]
            if link['mappings'][k]['value'] != value or k[2] != self.whole():
                self.counts['value_mismatch' if link['mappings'][k]['value'] != value else 'approximate_mappings'] += 1
                continue
            del link['mappings'][k]
            n += 1
        self.counts['deleted'] += n
        if n:
            self._refresh_link(link)

    def _within(self, level, criteria):
        """True if the level uses no column beyond the criteria."""
        b = level_bits(level)
        return all(not x or c in criteria for x, c in zip(b, self.columns))

    def delete_mappings_criteria(self, uid, name, criteria):
        link = self.link(uid, name)
        n = 0
        ids = set(self.find(criteria))
        for k in list(link['mappings']):
            if k[1] in ids and self._within(k[2], criteria):
                del link['mappings'][k]
                n += 1
            elif k[1] in ids:
                self.counts['mapping_level_mismatch'] += 1
        self.counts['deleted'] += n
        if n:
            self._refresh_link(link)

    def reify(self, uid, name, criteria):
        link = self.link(uid, name)
        ids = set(self.find(criteria)) if criteria else set(self.index)
        whole = self.whole()
        for k in list(link['mappings']):
            if k[1] not in ids or k[2] == whole:
                continue
            if criteria and not self._within(k[2], criteria):
                self.counts['mapping_level_mismatch'] += 1
                continue
            self.counts['reified'] += 1
            k2 = (k[0], k[1], whole)
            if k2 in link['mappings']:
                raise Refused('mapping exists')
            link['mappings'][k2] = link['mappings'].pop(k)

    # -- quantities ---------------------------------------------------------------------
    def set_attributes(self, names, reserved):
        if len(set(names)) != len(names):
            raise Refused('repeated')
        if any(n in reserved or n in self.columns for n in names):
            raise Refused('reserved or label')
        self.attributes = list(names)

    def insert_quantities(self, rows, bad_label, bad_partition, on_existing):
        """rows: list of (domain or None, labels, attrs dict, value)."""
        if not self.attributes:
            raise Refused('no attributes')
        struct = self.structure()
        known = self.matcher()
        for domain, labels, attrs, value in rows:
            if domain is not None and domain != self.domain:
                raise Refused('domain')
            attrs = {k: v for k, v in attrs.items() if v}
            if not attrs:
                self.counts['no_attrs'] += 1
                continue
            if bits_of([x != '' for x in labels]) not in struct:
                if not bad_partition:
                    raise Refused('partition')
                self.counts['invalid_category'] += 1
            if not known(labels):
                if not bad_label:
                    raise Refused('labels')
                self.counts['invalid_label'] += 1
            key = (labels, frozenset(attrs.items()))
            if key in self.quantities and on_existing == 'ignore':
                self.counts['existing_ignored'] += 1
                continue
            if not isinstance(value, (int, float)):
                raise Refused('value')
            if key in self.quantities:
                if on_existing == 'abort':
                    raise Refused('exists')
                self.counts['existing_replaced' if on_existing == 'replace' else 'existing_summed'] += 1
                if on_existing == 'replace':
                    self.quantities[key] = value
                elif on_existing == 'sum':
                    self.quantities[key] += value
            else:
                self.quantities[key] = value
                self.counts['inserted'] += 1

    def fits(self, labels):
        return bits_of([x != '' for x in labels]) in self.structure()

    def matches(self, labels):
        return self.find({c: v for c, v in zip(self.columns, labels) if v})

    def matcher(self):
        """Function that tells if labels (some of them '') match any record of the index as it is now."""
        seen = {}

        def known(labels):
            pos = tuple(k for k, v in enumerate(labels) if v)
            if pos not in seen:
                seen[pos] = {tuple(v[k] for k in pos) for v in self.index.values()}
            return tuple(labels[k] for k in pos) in seen[pos]
        return known

    def without_index(self):
        known = self.matcher()
        return {k: v for k, v in self.quantities.items() if not known(k[0])}

    def unmatched(self):
        known, struct = self.matcher(), self.structure()
        return {k: v for k, v in self.quantities.items()
                if bits_of([x != '' for x in k[0]]) not in struct or not known(k[0])}

    # -- disaggregation -------------------------------------------------------------------
    def disaggregate(self, choose=None):
        """{(id, frozenset(attrs)): value}; raises Refused if it must fail.

        choose(attrs) gives the name of the weight group for a set of
        attribute values (default: the default group).
        """
        if self.default_group is None:
            raise Refused('no default weight group')
        if not self.groups[self.default_group]['is_complete']:
            raise Refused('default weights incomplete')
        out = {}
        for (labels, attrs), value in self.quantities.items():
            if not self.fits(labels):
                continue
            ids = self.matches(labels)
            if not ids:
                raise Refused('location without record')
            if len(ids) > 1:
                ids = [i for i in ids if i]
            name = choose(dict(attrs)) if choose else self.default_group
            ws = self.groups[name]['weights']
            if len(ids) == 1:
                parts = [(ids[0], float(value))]
            else:
                w = [ws.get(i, 0.0) for i in ids]
                total = sum(w)
                parts = [(i, value * (x / total) if total else value / len(ids))
                         for i, x in zip(ids, w)]
            for i, v in parts:
                out[i, attrs] = out.get((i, attrs), 0.0) + v
        return out
