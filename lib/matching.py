"""Reference model of matching mapping rows to the index records of two spaces.

A side is a dict: columns (storage order), index {id: labels} including 0,
weights {id: value} of the default group, partitions (frozensets of columns).
A row's side is ('id', n) or ('lab', labels); rows are (side1, side2, value).
"""
import re
from collections import Counter
from itertools import permutations, product

from harness import require
from model import Model, bits_of, level_bytes


def side_model(side):
    m = Model()
    m.columns = list(side['columns'])
    m.index = dict(side['index'])
    m.partitions = set(side['partitions'])
    return m


def level_of(side, ref):
    if ref[0] == 'id':
        return bits_of([1] * len(side['columns']))
    return bits_of([x != '' for x in ref[1]])


def orders(side, levels):
    """Every order of *levels* from finer to coarser; ties may go either way."""
    m = side_model(side)
    gran = {}
    for lv in levels:
        g = m.granularity([c for c, b in zip(m.columns, lv) if b])
        gran[lv] = -1.0 if g is None else round(g, 9)
    groups = [[lv for lv in sorted(levels) if gran[lv] == g] for g in sorted(set(gran.values()), reverse=True)]
    out = 1
    for g in groups:
        for k in range(2, len(g) + 1):
            out *= k
    if out > 24:
        return None
    return [sum(map(list, p), []) for p in product(*[list(permutations(g)) for g in groups])] if groups else [[]]


def assign(side, refs, order, limit, overlap, zero_weight, stats=None, counts=None):
    """Return {row number: {id: share}} for one side."""
    taken = {}      # id -> set of levels
    out = {}
    stats = stats if stats is not None else {}
    counts = counts if counts is not None else Counter()
    levels = [level_of(side, ref) for ref in refs]
    for level in order:
        new = {}
        bits = list(level) + [0] * (len(side['columns']) - len(level))
        alike = {}      # labels that count at this level -> ids
        for i, labels in side['index'].items():
            alike.setdefault(tuple(x for x, b in zip(labels, bits) if b), []).append(i)
        for k, ref in enumerate(refs):
            if levels[k] != level:
                continue
            if ref[0] == 'id':
                if ref[1] not in side['index']:
                    stats['missing'] = 1
                    counts['missing'] += 1
                    continue
                found = [ref[1]]
            else:
                found = alike.get(tuple(x for x, b in zip(ref[1], bits) if b), [])
                if not found:
                    stats['nomatch'] = 1
                    counts['nomatch'] += 1
                    continue
                if len(found) > limit:
                    stats['overlimit'] = 1
                    counts['overlimit'] += 1
                    counts['highest'] = max(counts['highest'], len(found))
                    continue
                if len(found) > 1:
                    stats['ambiguous'] = 1
                    if any(taken.get(i, set()) - {level} for i in found):
                        stats['overlap'] = 1
                        counts['overlaps'] += sum(1 for i in found if taken.get(i, set()) - {level})
                        if not overlap:
                            found = [i for i in found if not taken.get(i, set()) - {level}]
            weights = {i: side['weights'].get(i, zero_weight if i == 0 else None) for i in found}
            if len(found) > 1 and any(w is None for w in weights.values()):
                stats['unweighted'] = 1
                counts['unweighted'] += 1
                continue
            total = sum(w for w in weights.values() if w is not None)
            if found:
                out[k] = {i: (weights[i] / total if total and weights[i] is not None else 1.0 / len(found))
                          for i in found}
                if len(found) > 1:
                    stats['split'] = 1
            for i in found:
                new.setdefault(i, set()).add(level)
        for i, lv in new.items():
            taken.setdefault(i, set()).update(lv)
    return out


def mappings(target, rows, trefs, tshares, sshares, drop_undefined=True):
    """{(other id, id, level): value} for mappings stored in *target*."""
    out = {}
    for k, (ref, value) in enumerate(zip(trefs, rows)):
        if k not in tshares or k not in sshares:
            continue
        lev = level_bytes(level_of(target, ref))
        for i, a in tshares[k].items():
            for o, b in sshares[k].items():
                if drop_undefined and i == 0 and o == 0:
                    continue
                key = (o, i, lev)
                out[key] = out.get(key, 0.0) + value * a * b
    return out


def close(a, b, rel=1e-9):
    return a.keys() == b.keys() and all(abs(a[k] - b[k]) <= rel * max(1.0, abs(a[k]), abs(b[k])) for k in a)


MATCHED = dict(missing=r'skipped (\d+) index id values', nomatch=r'skipped (\d+) rows because their labels',
               overlimit=r'skipped (\d+) values that matched too many', unweighted=r'skipped (\d+) values that ambiguously')
HIGHEST = r'match up to (\d+) records'


def reported(texts, pattern):
    return [int(n) for t in texts for n in re.findall(pattern, t)]


def report_fits(texts, counts, overlap, left_out=()):
    """True if the messages about matching records are true."""
    patterns = {k: p for k, p in MATCHED.items() if k not in left_out}
    patterns['overlaps'] = r'included (\d+) ambiguous' if overlap else r'omitted (\d+) ambiguous'
    return (all(sum(reported(texts, p)) == counts[k] for k, p in patterns.items())
            and max(reported(texts, HIGHEST), default=0) == counts['highest'])


def outcomes(side1, side2, rows, limits, overlaps, zero_weight, drop_undefined=True, stats=None):
    """Every acceptable (mappings in 1, mappings in 2, ids matched 1, ids matched 2,
    shares 1, shares 2, counts 1, counts 2)."""
    refs1 = [r[0] for r in rows]
    refs2 = [r[1] for r in rows]
    values = [r[2] for r in rows]
    o1 = orders(side1, {level_of(side1, r) for r in refs1})
    o2 = orders(side2, {level_of(side2, r) for r in refs2})
    if o1 is None or o2 is None:
        return None
    def every(side, refs, orders, k):
        out = []
        for o in orders:
            counts = Counter()
            out.append((assign(side, refs, o, limits[k], overlaps[k], zero_weight, stats, counts), counts))
        return out
    s1 = every(side1, refs1, o1, 0)
    s2 = every(side2, refs2, o2, 1)
    res = []
    for a, c1 in s1:
        for b, c2 in s2:
            res.append((mappings(side1, values, refs1, a, b, drop_undefined),
                        mappings(side2, values, refs2, b, a, drop_undefined),
                        {i for m in a.values() for i in m}, {i for m in b.values() for i in m}, a, b, c1, c2))
    return res


def build_side(toron, spec):
    """Build a real space from *spec* = (ncols, partitions, records, dropped) and return (space, side)."""
    prefix, ncols, parts, records, dropped = spec
    names = [prefix + str(k + 1) for k in range(ncols)]
    space = toron.DataSpace()
    space.add_index_columns(*names)
    defs = {frozenset(names)}
    for mask in parts:
        d = frozenset(c for k, c in enumerate(names) if mask >> k & 1)
        if d:
            defs.add(d)
    space.add_partition_definitions(*[set(d) for d in sorted(defs, key=sorted)])
    space.add_weight_group('w', make_default=True)
    rows, seen = [], {('-',) * ncols}
    for labels, weight in records:
        labels = tuple(labels[:ncols])
        if labels not in seen:
            seen.add(labels)
            rows.append((labels, weight))
    if rows:
        space.insert_index([r[0] for r in rows], names)
    it = space.select_index()
    next(it)
    ids = {tuple(r[1:]): r[0] for r in it}
    weights = {ids[r]: w for r, w in rows if w is not None}
    if weights:
        space.insert_weights('w', [labels + (w,) for labels, w in rows if w is not None], names + ['w'])
    gone = []
    live = sorted(ids.values())
    for k in dropped:
        live_defined = [i for i in live if i]
        if not live_defined:
            break
        i = live_defined[k % len(live_defined)]
        live.remove(i)
        gone.append(i)
        weights.pop(i, None)
        labels = next(lab for lab, n in ids.items() if n == i)
        space.delete_index(**dict(zip(names, labels)))
        del ids[labels]
    index = {0: ('-',) * ncols}
    index.update({n: lab for lab, n in ids.items()})
    return space, {'columns': names, 'index': index, 'weights': weights, 'partitions': defs, 'gone': gone}


def big_spec(prefix, numbers):
    """A space with up to some hundred records; *numbers* = (records, records per group, weights, dropped)."""
    n, group, weights, dropped = numbers
    def weight(k):
        return {'ones': 1, 'mixed': (1, 0, 2.5, 1000000, 7)[k % 5], 'some': None if k % 37 == 5 else k % 3}[weights]
    return (prefix, 2, [1], [([f'g{k // group}', f'{prefix}{k}'], weight(k)) for k in range(n)], list(dropped))


def row_side(side, pick, allow_bad=True):
    """Turn generated numbers into a reference that fits *side*."""
    kind, a, b = pick
    if kind == 'id':
        pool = sorted(side['index']) + side['gone'] + ([9999] if allow_bad else [])
        return ('id', pool[a % len(pool)])
    n = len(side['columns'])
    ids = sorted(side['index'])
    ids = ids[1:] + ids[:1]
    labels = list(side['index'][ids[a % len(ids)]])
    m = side_model(side)
    good = sorted((x for x in m.structure() if x), key=lambda x: (-sum(x), x))
    if kind == 'raw':       # any combination of columns
        mask = b % (2 ** n - 1) + 1
        bits = [mask >> k & 1 for k in range(n)]
    else:
        bits = list(good[b % len(good)]) + [0] * n
    if kind == 'wrong':
        labels[b % n] = 'zz'
    return ('lab', tuple(x if keep else '' for x, keep in zip(labels, bits)))
