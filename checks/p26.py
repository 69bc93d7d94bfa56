"""P26: label-combination bit patterns and sequence fingerprints."""
import subprocess
import sys

from hypothesis import strategies as st

from harness import Sub, require

PROPERTY = 'P26'
RULE = ('non-trivial: patterns with at least one set bit and a trailing unset position or differing '
        'lengths; sequences with at least two ids')
ASSUMPTIONS = ['fingerprint collisions of SHA-256 do not occur in the generated samples']


def trim(bits):
    bits = [1 if b else 0 for b in bits]
    while bits and bits[-1] == 0:
        bits.pop()
    return bits


def to_bytes(bits):
    t = trim(bits)
    t += [0] * (-len(t) % 8)
    return bytes(int(''.join(map(str, t[i:i + 8])), 2) for i in range(0, len(t), 8))


def bit_lists():
    return st.one_of(
        st.lists(st.integers(0, 1), max_size=40),
        st.lists(st.integers(0, 1), min_size=6, max_size=10),
        st.tuples(st.integers(0, 30), st.lists(st.integers(0, 1), max_size=4), st.integers(0, 20)).map(
            lambda t: [0] * t[0] + t[1] + [0] * t[2]))


@st.composite
def bits_case(draw):
    a = draw(bit_lists())
    how = draw(st.integers(0, 3))
    if how == 0:
        b = draw(bit_lists())
    elif how == 1:
        b = a + [0] * draw(st.integers(0, 17))
    elif how == 2:
        b = list(a)
        if b:
            i = draw(st.integers(0, len(b) - 1))
            b[i] = 1 - b[i]
    else:
        b = [0] * draw(st.sampled_from([1, 7, 8, 9])) + a
    return a, b, draw(st.lists(st.integers(-50, 50), max_size=3)), draw(st.binary(max_size=5))


TRUTHY = {0: [0, '', None, False], 1: [1, 'x', 5, True]}


def run_bits(case, rec):
    from toron._utils import BitFlags
    a, b, idx, raw = case
    fa, fb = BitFlags(a), BitFlags(*b) if len(b) != 1 else BitFlags(b)
    ta, tb = trim(a), trim(b)
    require(bytes(fa) == to_bytes(a), 'byte form', a, bytes(fa), to_bytes(a))
    require(BitFlags(bytes(fa)) == fa and bytes(BitFlags(bytes(fa))) == bytes(fa), 'byte round trip', a)
    require(BitFlags(bytes(fa) + b'\x00' * (len(b) % 4)) == fa, 'trailing zero bytes matter', a)
    require(list(fa) == ta + [0] * (len(list(fa)) - len(ta)) and len(list(fa)) == len(fa), 'iteration', a, list(fa))
    require(trim(list(fa)) == ta, 'bits lost', a, list(fa))
    require((fa == fb) == (ta == tb), f'equality: {fa == fb}', a, b)
    require((fa != fb) == (ta != tb), f'inequality: {fa != fb}', a, b)
    require((fa == tuple(b)) == (ta == tb), 'equality with a tuple', a, b)
    if ta == tb:
        require(hash(fa) == hash(fb), 'equal patterns hash differently', a, b)
        require(len({fa, fb}) == 1, 'equal patterns are distinct in a set', a, b)
    else:
        require(len({fa, fb}) == 2, 'distinct patterns are one in a set', a, b)
    n = max(len(a), len(b))
    union = [x | y for x, y in zip(a + [0] * (n - len(a)), b + [0] * (n - len(b)))]
    u = fa | fb
    require(u == BitFlags(union) and bytes(u) == to_bytes(union), 'union', a, b, list(u))
    require((fb | fa) == u, 'union is not commutative', a, b)
    require((fa | fa) == fa, 'union is not idempotent', a)
    require((fa | BitFlags()) == fa, 'empty pattern is not neutral', a)
    require((u | fa) == u, 'union does not absorb', a, b)
    # Set-of-columns reading.
    cols = [f'c{i}' for i in range(n)]
    sets = lambda f: {c for c, x in zip(cols, f) if x}
    require(sets(u) == sets(fa) | sets(fb), 'union of column sets', a, b)
    mixed = [TRUTHY[x][(i + len(b)) % 4] for i, x in enumerate(a)]
    require(BitFlags(mixed) == fa and BitFlags(iter(mixed)) == fa, 'truth values', mixed)
    require(BitFlags(raw) == BitFlags([(c >> s) & 1 for c in raw for s in range(7, -1, -1)]), 'bytes input', raw)
    full = list(fa)
    for i in idx:
        if -len(full) <= i < len(full):
            require(fa[i] == full[i], f'item {i}', a)
        else:
            try:
                fa[i]
            except IndexError:
                pass
            else:
                require(False, f'no IndexError for item {i}', a)
        require(trim(fa[i:]) == trim(full[i:]) and trim(fa[:i]) == trim(full[:i]), f'slice at {i}', a)
    if any(a) and (len(a) != len(b) or a[-1] == 0):
        rec.nontrivial()
    rec.event('equal' if ta == tb else 'different')


# -- fingerprints ---------------------------------------------------------------
def id_lists():
    small = st.lists(st.integers(0, 30), unique=True, max_size=10)
    big = st.lists(st.one_of(st.integers(0, 2**64 - 1), st.integers(0, 2**20),
                             st.sampled_from([2**8, 2**32, 2**63, 2**64 - 1])), unique=True, max_size=8)
    return st.one_of(small, big).map(sorted)


@st.composite
def hash_case(draw):
    a = draw(id_lists())
    how = draw(st.integers(0, 4))
    b = list(a)
    if how == 0:
        b = draw(id_lists())
    elif how == 1 and b:
        b.pop(draw(st.integers(0, len(b) - 1)))
    elif how == 2:
        b = sorted(set(b) | {draw(st.integers(0, 40))})
    elif how == 3 and b:
        i = draw(st.integers(0, len(b) - 1))
        b[i] += 1
        b = sorted(set(x for x in b if x < 2**64))
    bad = draw(st.sampled_from([-1, 'same', 'less', 2**64, 2**70, -2**40]))
    return a, b, bad, draw(st.integers(0, 10))


def run_hash(case, rec):
    from toron._utils import SequenceHash
    a, b, bad, cut = case
    h = SequenceHash(a).get_hexdigest()
    one = SequenceHash()
    for x in a:
        one.add_value(x)
        one.get_hexdigest()            # asking in between changes nothing
    require(one.get_hexdigest() == h, 'fed one by one', a)
    require(SequenceHash(iter(a)).get_hexdigest() == h, 'fed as an iterator', a)
    part = SequenceHash(tuple(a[:cut]))
    for x in a[cut:]:
        part.add_value(x)
    require(part.get_hexdigest() == h, 'fed in two parts', a, cut)
    hb = SequenceHash(b).get_hexdigest()
    require((h == hb) == (a == b), 'fingerprint equality', a, b)
    value = bad
    if bad == 'same':
        value = a[-1] if a else -1
    elif bad == 'less':
        value = a[-1] - 1 if a else -1
    try:
        one.add_value(value)
    except ValueError:
        pass
    else:
        require(False, f'{value!r} accepted after {a[-1:]!r}', a)
    require(one.get_hexdigest() == h, 'a refused value changed the fingerprint', a, value)
    try:
        SequenceHash(a + [value])
    except ValueError:
        pass
    else:
        require(False, f'{value!r} accepted in a list', a)
    if a and value != a[-1]:
        more = a[-1] + 1
        if more < 2**64:
            one.add_value(more)
            require(one.get_hexdigest() == SequenceHash(a + [more]).get_hexdigest(),
                    'continuing after a refused value', a, value)
    if len(a) > 1:
        rec.nontrivial()
    rec.event('equal' if a == b else 'different')


# -- stored fingerprints, across processes ----------------------------------------
CODE = '''
import sys, json
from toron._utils import SequenceHash, BitFlags
lists = json.loads(sys.stdin.read())
print(json.dumps([[SequenceHash(x).get_hexdigest(), hash(BitFlags([1,0,1])) == hash(BitFlags([1,0,1,0]))] for x in lists]))
'''


def process_case():
    return st.tuples(st.lists(id_lists(), min_size=3, max_size=12), st.integers(1, 2**31))


def run_process(case, rec):
    import json
    import os
    from toron._utils import SequenceHash
    lists, hashseed = case
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed))
    out = subprocess.run([sys.executable, '-c', CODE], input=json.dumps(lists), env=env, text=True,
                         capture_output=True)
    require(out.returncode == 0, 'child process failed', out.stderr[-2000:])
    got = json.loads(out.stdout)
    for x, (h, ok) in zip(lists, got):
        require(h == SequenceHash(x).get_hexdigest(), 'fingerprint differs in another process', x)
        require(ok, 'hash of equal patterns')
    rec.nontrivial()


SUBS = [
    Sub('bits', bits_case, run_bits, 32000, 300000),
    Sub('hash', hash_case, run_hash, 32000, 300000),
    Sub('process', process_case, run_process, 120, 960),
]
