"""Scenario generators for the converter (family "conv" and "large").

The structural cases come from the specification (GenConv, GenApi); this module wraps them in
concrete formats and streams and adds seeded random cases. No verdicts are computed here.
"""
import copy
import struct

LAYOUTS = {
    'X8': (8, 1), 'X8Y8': (8, 2), 'X8Y8Z8': (8, 3), 'X8Y8Z8W8': (8, 4),
    'X16': (16, 1), 'X16Y16': (16, 2), 'X16Y16Z16': (16, 3), 'X16Y16Z16W16': (16, 4),
    'X32': (32, 1), 'X32Y32': (32, 2), 'X32Y32Z32': (32, 3), 'X32Y32Z32W32': (32, 4),
    'X64': (64, 1), 'X64Y64': (64, 2), 'X64Y64Z64': (64, 3), 'X64Y64Z64W64': (64, 4),
    'W2X10Y10Z10': (10, 0), 'W2Z10Y10X10': (10, 0), 'Z10Y11X11_UFloat': (11, 0), 'E5Z9Y9X9_UFloat': (9, 0),
}
TYPES = ['UNorm', 'SNorm', 'UInt', 'SInt', 'Float']
PRIMS = ['PointList', 'LineList', 'LineStrip', 'TriangleList', 'TriangleStrip', 'TriangleFan', 'PatchList']
STRIPS = ('LineStrip', 'TriangleStrip', 'TriangleFan')
TRANSFORMS = ['Identity', 'Bounds', 'UNormToSNorm', 'SNormToUNorm']


def size(l):
    w, n = LAYOUTS[l]
    return w * n // 8 if n else 4


def valid(l, t):
    if l.endswith('UFloat'):
        return t == 'Float'
    w = LAYOUTS[l][0]
    if t in ('UNorm', 'SNorm'):
        return w <= 16
    if t == 'Float':
        return w >= 16
    return True


VALID = [(l, t) for l in LAYOUTS for t in TYPES if valid(l, t)]
EXACT = [(l, t) for (l, t) in VALID if LAYOUTS[l][0] <= 32 and l != 'E5Z9Y9X9_UFloat']


def min_count(prim, patch):
    return {'PointList': 1, 'LineList': 2, 'LineStrip': 2, 'PatchList': max(patch, 1)}.get(prim, 3)


def stride(prim, patch):
    return {'LineList': 2, 'TriangleList': 3, 'PatchList': max(patch, 1)}.get(prim, 1)


def pair(v):
    return [v >> 16, v & 0xFFFF]


def el(n, l='X8', t='UInt'):
    return {'n': n, 'l': l, 't': t}


def fsize(fmt):
    return sum(size(e['l']) for e in fmt)


def new(out, itype, prim, patch=0, mx=-1, single=False):
    d = {'op': 'new', 'out': out, 'itype': itype, 'prim': prim, 'patch': patch,
         'max': -1 if mx == -1 else pair(mx)}
    if single:
        d['single'] = True
    return d


def add(fmt, data, vcount, itype='None', idx=(), **kw):
    d = {'op': 'add', 'fmt': fmt, 'data': list(data), 'vcount': vcount, 'itype': itype, 'idx': list(idx)}
    d.update(kw)
    return d


CONV = {'op': 'conv'}
OBS = {'op': 'obs'}
OBSB = {'op': 'obs', 'bounds': True}


# ---------------------------------------------------------------- from the specification

def from_spec(cases, rng):
    """Wraps the abstract inputs of GenConv (positions 1..k, 0 a marker) in concrete streams."""
    out = []
    for c in cases:
        inp, prim, patch = c['in'], c['prim'], c['patch']
        k = max(inp, default=0)
        mode = rng.randrange(6)
        itype = rng.choice(['UInt16', 'UInt32'])
        if prim != 'PatchList' and rng.random() < 0.3:
            patch = rng.choice([0, 2])
        if mode == 1 and 0 in inp:
            mode = 0
        if mode in (0, 5):
            fmt = [el('p')]
            # Equal contents at different input vertices too.
            dup = rng.random() < 0.4
            data, idx = [], []
            pos = {}
            for x in inp:
                if x == 0:
                    idx.append(-1)
                elif x in pos and not (dup and rng.random() < 0.5):
                    idx.append(pos[x])
                else:
                    pos[x] = len(data)
                    idx.append(len(data))
                    data.append(x * 37 % 251)
            adds = [add(fmt, data, len(data), rng.choice(['UInt16', 'UInt32']), idx)]
            outf = [fmt]
        elif mode == 1:
            fmt = [el('p', 'X8Y8Z8')]
            adds = [add(fmt, [b for x in inp for b in (x, 7, 255 - x)], len(inp))]
            outf = [fmt]
        elif mode == 2:
            # One element behind an unused one, output in two streams.
            fin = [el('pad', 'X16'), el('p', 'X16Y16', 'SInt'), el('q', 'X8')]
            data = [b for x in range(1, k + 1) for b in (9, x, 0, x, x // 2, 0, x % 2)]
            adds = [add(fin, data, k, 'UInt16', [x - 1 for x in inp])]
            outf = [[el('p', 'X16Y16', 'SInt')], [el('q', 'X8')]]
        else:
            # Two streams with their own indices: content x is (x div 2, x mod 2).
            f1, f2 = [el('a', 'X16', 'UNorm')], [el('b', 'X8', 'SNorm')]
            na = k // 2 + 1
            d1 = [b for x in range(na) for b in (x, 100)]
            d2 = [11, 200]
            adds = [add(f1, d1, na, 'UInt16', [-1 if x == 0 else x // 2 for x in inp]),
                    add(f2, d2, 2, 'UInt32', [-1 if x == 0 else x % 2 for x in inp])]
            if rng.random() < 0.5:
                adds.reverse()
            outf = [[f1[0], f2[0]]] if mode == 3 else [[f2[0]], [f1[0]]]
        out.append({'fam': 'conv', 'steps': [new(outf, itype, prim, patch, c['max'],
                                                rng.random() < 0.5)] + adds + [CONV, OBS]})
    return out


def from_api(meta, hist, rng, limit=None):
    """Histories of GenApi; results are observed after every conversion and at the end."""
    cfgs, calls = meta['cfgs'], meta['calls']
    if limit and len(hist) > limit:
        hist = rng.sample(hist, limit)
    out = []
    for h in hist:
        out.append({'fam': 'conv', 'steps': api_steps(cfgs, calls, h['c'] - 1, [x - 1 for x in h['h']], rng)})
    return out


def api_steps(cfgs, calls, c, hs, rng):
    def conc(s):
        s = dict(s)
        if s['op'] == 'new' and s['max'][0] == -1:
            s['max'] = -1
        return s
    steps = [conc(cfgs[c]), OBSB]
    if rng.random() < 0.1:
        # Without an error function.
        steps[0]['quiet'] = True
    elif rng.random() < 0.1:
        steps[0]['dflt'] = True
    quiet = steps[0].get('quiet', False)
    for i in hs:
        s = conc(calls[i])
        if quiet:
            s['q'] = True
        steps.append(s)
        if s['op'] == 'conv':
            steps.append(OBSB)
    if steps[-1]['op'] != 'obs':
        steps.append(OBSB)
    if quiet:
        steps[0]['q'] = True
    return steps


def random_api(meta, rng, count, lo=4, hi=9):
    cfgs, calls = meta['cfgs'], meta['calls']
    conv = [i for i, c in enumerate(calls) if c['op'] == 'conv'][0]
    poke = [i for i, c in enumerate(calls) if c['op'] == 'poke']
    out = []
    for _ in range(count):
        hs = []
        for _ in range(rng.randint(lo, hi)):
            hs.append(conv if rng.random() < 0.2 else rng.randrange(len(calls)))
        if rng.random() < 0.3:
            # A conversion that fails on indices the caller then repairs.
            p = rng.choice(poke)
            hs.insert(rng.randrange(len(hs) + 1), [i for i, c in enumerate(calls) if c['op'] == 'add' and
                                                    c.get('buf') == calls[p]['buf']][0])
            hs += [conv, p, conv]
        out.append({'fam': 'conv', 'steps': api_steps(cfgs, calls, rng.randrange(len(cfgs)), hs, rng)})
    return out


# ---------------------------------------------------------------- data

def f16(x):
    return list(struct.pack('<e', x))


def component(l, t, rng, style):
    """Bytes of one component of a plain layout."""
    w = LAYOUTS[l][0]
    n = w // 8
    if t == 'Float':
        while True:
            if style == 'small':
                v = rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0])
            elif style == 'unit':
                v = rng.choice([0.0, 1.0, -1.0, 0.5, rng.uniform(-1, 1), rng.uniform(0, 1), rng.uniform(-2, 2)])
            else:
                v = rng.choice([0.0, -0.0, 1.0, -1.0, rng.uniform(-2, 2), rng.uniform(-300, 300),
                                rng.uniform(-70000, 70000), rng.uniform(-1, 1) * 2.0 ** rng.randint(-30, 40),
                                rng.uniform(-1, 1) * 2.0 ** rng.randint(-140, 130)])
            try:
                return list(struct.pack({2: '<e', 4: '<f', 8: '<d'}[n], v))
            except OverflowError:
                continue
    m = (1 << w) - 1
    r = rng.random()
    if style == 'small':
        v = rng.choice([0, 1, 2, 127, m])
    elif r < 0.4:
        v = rng.choice([0, 1, 2, m, m - 1, m >> 1, (m >> 1) + 1, (m >> 1) + 2])
    else:
        v = rng.getrandbits(w)
    return list(int(v & m).to_bytes(n, 'little'))


def element_bytes(l, t, rng, style='any'):
    w, n = LAYOUTS[l]
    if n:
        return [b for _ in range(n) for b in component(l, t, rng, style)]
    if l == 'Z10Y11X11_UFloat':
        def uf(m, top):
            x = rng.choice([0, 15, rng.randint(0, 30), rng.randint(10, 18)])
            return (x << m) | rng.randrange(1 << m)
        v = uf(6, 30) | (uf(6, 30) << 11) | (uf(5, 30) << 22)
    elif l == 'E5Z9Y9X9_UFloat':
        v = rng.getrandbits(27) | (rng.choice([0, 15, 16, rng.randint(0, 31)]) << 27)
    else:
        v = rng.choice([0, 0xFFFFFFFF, rng.getrandbits(32), rng.getrandbits(32), 0x1FF7FDFF, 0x20080200])
    return list(v.to_bytes(4, 'little'))


def vertices(fmt, n, rng, style, pool=0):
    """n vertices of a format; with pool > 0 every element takes one of pool values."""
    pools = [[element_bytes(e['l'], e['t'], rng, style) for _ in range(pool)] for e in fmt]
    data = []
    for _ in range(n):
        for e, p in zip(fmt, pools):
            data += rng.choice(p) if p else element_bytes(e['l'], e['t'], rng, style)
    return data


NAMES = ['pos', 'normal', 'tex', 'color', 'bone', 'w8', 'Pos', 'tan', 'a', 'ab', 'abc']


def partition(items, k, rng):
    parts = [[] for _ in range(k)]
    for x in items:
        parts[rng.randrange(k)].append(x)
    return [p for p in parts if p]


def struct_case(rng, prims=PRIMS, itypes=('UInt16', 'UInt32', 'None'), nmax=26, dup_out=True, fault=None,
                tr=False, bounds=False, exact=True, big=False):
    prim = rng.choice(prims)
    itype = rng.choice(itypes)
    patch = rng.randint(1, 5) if prim == 'PatchList' else 0
    combos = EXACT if exact else VALID
    names = rng.sample(NAMES, rng.randint(1, 5))
    fmts = {n: rng.choice(combos) for n in names}
    outs = []
    for part in partition(names, rng.randint(1, 3), rng):
        rng.shuffle(part)
        outs.append([el(n, *fmts[n]) for n in part])
    if dup_out and rng.random() < 0.15:
        n = rng.choice(names)
        outs.append([el(n, *fmts[n])])
    st = stride(prim, patch)
    mc = min_count(prim, patch)
    if prim in STRIPS:
        n = rng.choice([0] + list(range(mc, nmax)))
    else:
        n = st * rng.randint(0, max(1, nmax // st))
    if big:
        n = max(n, mc)
    marks = set()
    if prim in STRIPS and itype != 'None' and rng.random() < 0.6:
        marks = {p for p in range(n) if rng.random() < 0.15}
    only = rng.random() < 0.15        # markers in one stream only
    parts = partition(names, rng.randint(1, 4), rng)
    adds = []
    marked = False
    for pi, part in enumerate(parts):
        extra = [el('x%d_%d' % (pi, i), *rng.choice(combos)) for i in range(rng.choice([0, 0, 1, 2]))]
        fmt = [el(m, *fmts[m]) for m in part] + extra
        rng.shuffle(fmt)
        pool = rng.choice([1, 2, 2, 3])
        indexed = (marks and (not marked or not only)) or rng.random() < 0.6
        if indexed:
            vcount = rng.randint(1, 7) if n else rng.choice([0, 1, 3])
            it = rng.choice(['UInt16', 'UInt32'])
            idx = [-1 if (p in marks and (not only or not marked)) else rng.randrange(vcount) for p in range(n)]
            if marks:
                marked = True
            adds.append(add(fmt, vertices(fmt, vcount, rng, 'any', pool), vcount, it, idx, mis=rng.randrange(8)))
        else:
            adds.append(add(fmt, vertices(fmt, n, rng, 'any', pool), n, mis=rng.randrange(8)))
    if rng.random() < 0.3:
        fmt = [el('unused', *rng.choice(combos))]
        bad = [rng.choice([0, 1, 70, -1]) for _ in range(n)]
        adds.append(rng.choice([add(fmt, vertices(fmt, n, rng, 'any'), n),
                                add(fmt, vertices(fmt, 1, rng, 'any'), 1, 'UInt16', bad)]))
    rng.shuffle(adds)
    mx = -1 if rng.random() < 0.2 else rng.randint(mc - 1, mc + 8)
    shared = share(adds, rng, fault) if not exact or rng.random() < 0.3 else False
    repair = None
    if fault in ('range', 'repair') and n and not shared:
        cand = [a for a in adds if a['itype'] != 'None' and not any(e['n'] == 'unused' for e in a['fmt'])]
        if cand:
            a = rng.choice(cand)
            p = rng.randrange(n)
            v = rng.choice([a['vcount'], a['vcount'], a['vcount'] + 1, 1000, 65534, 2147483647 if a['itype'] == 'UInt32' else 40000])
            if prim not in STRIPS:
                v = rng.choice([v, -1])
            elif itype == 'None' and rng.random() < 0.4:
                v = -1
            if fault == 'repair':
                a['buf'] = 1
                repair = {'op': 'poke', 'buf': 1, 'itype': a['itype'], 'idx': list(a['idx'])}
            a['idx'][p] = v
    if fault == 'count' and adds:
        # One stream that does not fit the others or the primitive type.
        a = rng.choice(adds)
        for k in ('shi', 'shd'):
            if any(k in b for b in adds):
                a = None
        if a:
            m = max(0, n + rng.choice([-n, 1 - n, 2 - n, -1, 1, 2, 3, 1, st]))
            if a['itype'] == 'None':
                a['vcount'], a['data'] = m, vertices(a['fmt'], m, rng, 'any')
            else:
                a['idx'] = (a['idx'] + [0] * m)[:m]
    steps = [new(outs, itype, prim, patch, mx, rng.random() < 0.5)]
    if tr:
        for i, f in enumerate(outs):
            for j, e in enumerate(f):
                if rng.random() < 0.8:
                    t = {'op': 'tr', 't': rng.choice(TRANSFORMS)}
                    if rng.random() < 0.5:
                        t['name'] = e['n']
                    else:
                        t['si'], t['ei'] = i, j
                    steps.append(t)
        if rng.random() < 0.3:
            steps.append({'op': 'tr', 't': 'Bounds', 'name': rng.choice(['zzz', '', 'po', 'x0_0'])})
    if rng.random() < 0.3:
        # Calls in any order: transforms between streams.
        head, rest = steps[0], steps[1:] + adds
        tail = steps[1:]
        k = rng.randint(0, len(adds))
        steps = [head] + adds[:k] + tail + adds[k:]
    else:
        steps = steps + adds
    if repair:
        # Tried again after the caller repaired its indices.
        steps = steps[:1] + [OBSB] + steps[1:] + [CONV, OBSB, repair]
    return {'fam': 'conv', 'steps': steps + [CONV, OBSB if bounds else OBS]}


def share(adds, rng, fault):
    """Lets a later stream use the very index or vertex data of an earlier one."""
    done = False
    for j in range(1, len(adds)):
        b = adds[j]
        if rng.random() < 0.6 or any(e['n'] == 'unused' for e in b['fmt']):
            continue
        i = rng.randrange(j)
        a = adds[i]
        used = [x for x in (a['idx'] if a['itype'] != 'None' else []) if x >= 0]
        if a['itype'] != 'None' and rng.random() < 0.7:
            if 'shd' in b:
                continue
            lo = max(used, default=0)
            # One vertex short of what the shared indices need, or enough.
            b['vcount'] = max(0, lo + rng.choice([0, 0, 1, 3] if fault == 'range' else [1, 1, 2]))
            b['data'] = vertices(b['fmt'], b['vcount'], rng, 'any', 2)
            b['itype'], b['idx'], b['shi'] = a['itype'], list(a['idx']), i
            done = True
        elif 'shi' not in b:
            st = fsize(b['fmt'])
            need = b['vcount'] if b['itype'] == 'None' else max(b['idx'], default=-1) + 1
            have = len(a['data']) // st
            if have >= need:
                b['data'], b['shd'] = list(a['data']), i
                b.pop('mis', None)
                if b['itype'] != 'None':
                    b['vcount'] = have
                done = True
    return done


def struct_cases(rng, count, **kw):
    return [struct_case(rng, **kw) for _ in range(count)]


def num_case(rng, tr=True, bounds=False, same=False):
    """Conversions between any two formats with transforms; positions stay aligned."""
    prim = rng.choice(['PointList', 'PointList', 'LineList', 'TriangleStrip'])
    itype = rng.choice(['UInt16', 'UInt32', 'None'])
    if prim == 'TriangleStrip':
        itype = 'None'
    names = rng.sample(NAMES, rng.randint(1, 3))
    src = {n: rng.choice(VALID) for n in names}
    # Destinations weighted towards the normalized types, where transforms matter.
    norm = [x for x in VALID if x[1] in ('UNorm', 'SNorm')]
    dst = {n: rng.choice(norm) if rng.random() < 0.5 else rng.choice(VALID) for n in names}
    if same:
        dst = src
    outs = [[el(n, *dst[n]) for n in part] for part in partition(names, rng.randint(1, 2), rng)]
    n = rng.choice([2, 4, 6]) if prim != 'TriangleStrip' else rng.randint(3, 6)
    adds = []
    for part in partition(names, rng.randint(1, 2), rng):
        fmt = [el(m, *src[m]) for m in part]
        if rng.random() < 0.4:
            fmt.insert(rng.randrange(len(fmt) + 1), el('x' + part[0], *rng.choice(VALID)))
        style = rng.choice(['any', 'unit', 'small'])
        if rng.random() < 0.6:
            vcount = rng.randint(1, 5)
            used = rng.randint(1, vcount)
            it = rng.choice(['UInt16', 'UInt32'])
            lo = rng.randrange(vcount)
            idx = [(lo + rng.randrange(used)) % vcount for _ in range(n)]
            adds.append(add(fmt, vertices(fmt, vcount, rng, style), vcount, it, idx))
        else:
            adds.append(add(fmt, vertices(fmt, n, rng, style), n))
    steps = [new(outs, itype, prim, 0, rng.choice([-1, 3, 7]))]
    if tr:
        for i, f in enumerate(outs):
            for j, e in enumerate(f):
                if rng.random() < 0.9:
                    t = {'op': 'tr', 't': rng.choice(TRANSFORMS[1:])}
                    if rng.random() < 0.5:
                        t['name'] = e['n']
                    else:
                        t['si'], t['ei'] = i, j
                    steps.append(t)
                    if rng.random() < 0.2:
                        t2 = dict(t)
                        t2['t'] = rng.choice(TRANSFORMS)
                        steps.append(t2)
    return {'fam': 'conv', 'steps': steps + adds + [CONV, OBSB if bounds else OBS]}


def num_cases(rng, count, **kw):
    return [num_case(rng, **kw) for _ in range(count)]


def nan_bytes(l, t, rng):
    """An element with NaN or infinite components among ordinary ones."""
    b = element_bytes(l, t, rng)
    if t != 'Float' or not LAYOUTS[l][1]:
        return b
    n = LAYOUTS[l][0] // 8
    for i in range(LAYOUTS[l][1]):
        if rng.random() < 0.5:
            v = rng.choice([float('nan'), float('inf'), float('-inf')])
            b[i * n:(i + 1) * n] = struct.pack({2: '<e', 4: '<f', 8: '<d'}[n], v)
    return b


def bounds_case(rng):
    """Bounds with markers, unreferenced vertices, shared vertices and non-finite values."""
    c = struct_case(rng, nmax=9, exact=False, bounds=True, dup_out=False, tr=rng.random() < 0.3)
    for s in c['steps']:
        s.pop('shd', None)
        if s['op'] == 'add' and rng.random() < 0.3:
            data = []
            for _ in range(s['vcount']):
                for e in s['fmt']:
                    data += nan_bytes(e['l'], e['t'], rng)
            s['data'] = data
        elif s['op'] == 'add':
            # All different, so that every reference matters.
            s['data'] = vertices(s['fmt'], s['vcount'], rng, 'any')
    return c


def bounds_cases(rng, count):
    return [bounds_case(rng) for _ in range(count)]


# ---------------------------------------------------------------- constructor grid

def ctor_cases():
    out = []
    A, B = [el('a')], [el('b', 'X16')]
    fmts = [[], [[]], [A], [A, []], [[], A], [A, B]]
    maxes = [-1, 0, 1, 2, 3, 4, 65534, 65535, 65536, 0x7FFFFFFF, 0xFFFFFFFE, 0xFFFFFFFF]
    for prim in PRIMS + ['Invalid']:
        for itype in ('None', 'UInt16', 'UInt32'):
            for mx in maxes:
                for patch in ((0, 1, 3, 4, 5, 65536, 65537) if prim == 'PatchList' else (0, 3)):
                    for f in fmts:
                        if f != [A] and f != [A, B] and (mx not in (-1, 2) or patch > 4):
                            continue
                        steps = [new(f, itype, prim, patch, mx, len(f) == 1)]
                        if len(out) % 7 == 3:
                            steps[0]['dflt'] = True
                        steps.append({'op': 'tr', 'name': 'a', 't': 'Bounds'})
                        n = 2 * stride(prim, patch) if prim not in STRIPS else 4
                        if n < 50:
                            steps.append(add(A, list(range(n)), n))
                            if len(f) > 1:
                                steps.append(add(B, list(range(2 * n)), n))
                            steps += [CONV, OBS]
                        else:
                            steps.append(OBS)
                        out.append({'fam': 'conv', 'steps': steps})
    return out


# ---------------------------------------------------------------- vertices hard to tell apart

M64 = (1 << 64) - 1
MM = 0xc6a4a7935bd1e995
MINV = pow(MM, -1, 1 << 64)


def collide(v, rng):
    """Another vertex with the same hash, as the converter hashes vertices now (9 bytes or more).

    Only makes the cases interesting: any other hash function just sees different vertices."""
    def mix(k):
        k = k * MM & M64
        k ^= k >> 47
        return k * MM & M64

    def unmix(k):
        k = k * MINV & M64
        k ^= k >> 47
        return k * MINV & M64
    words = [int.from_bytes(v[i:i + 8], 'little') for i in range(0, len(v) - 7, 8)]
    tail = bytearray(v[len(words) * 8:])
    h = [0xc70f6907 ^ (len(v) * MM & M64)]
    for w in words:
        h.append((h[-1] ^ mix(w)) * MM & M64)
    j = rng.randrange(len(words) - (0 if tail else 1))
    words2 = list(words)
    if tail and j == len(words) - 1:
        d = rng.randrange(1, 1 << 8 * len(tail))
        tail = bytearray((int.from_bytes(tail, 'little') ^ d).to_bytes(len(tail), 'little'))
        words2[j] = unmix(((h[j + 1] ^ d) * MINV & M64) ^ h[j])
    else:
        words2[j] ^= 1 << rng.randrange(64)
        hj = (h[j] ^ mix(words2[j])) * MM & M64
        words2[j + 1] = unmix((h[j + 2] * MINV & M64) ^ hj)
    return b''.join(w.to_bytes(8, 'little') for w in words2) + bytes(tail)


def twisted_case(rng):
    """Vertices that differ in one byte anywhere, or not even in their hash; strides up to 600 bytes."""
    prim = rng.choice(PRIMS)
    patch = rng.randint(1, 4) if prim == 'PatchList' else 0
    itype = rng.choice(['UInt16', 'UInt32', 'UInt16', 'UInt32', 'None'])
    lay = rng.choice(['X32Y32Z32W32', 'X32Y32Z32', 'X32Y32', 'X16Y16Z16', 'X8Y8Z8'])
    k = rng.choice([1, 2, 3, 5, 9, 20, 37])
    els = [el('e%d' % i, lay) for i in range(k)]
    cut = rng.randrange(k) if rng.random() < 0.4 else 0
    outs = [els[:cut], els[cut:]] if cut else [els]
    st, mc = stride(prim, patch), min_count(prim, patch)
    n = rng.randint(mc, 9) if prim in STRIPS else st * rng.randint(1, max(1, 9 // st))
    base = bytes(rng.randrange(256) for _ in range(k * size(lay)))
    pool = [base]
    split = cut * size(lay)
    for _ in range(rng.randint(1, 4)):
        v = bytearray(rng.choice(pool))
        part = (split, len(v)) if not split or rng.random() < 0.5 else (0, split)
        if rng.random() < 0.4 and part[1] - part[0] > 8 and (part[1] - part[0] > 15 or (part[1] - part[0]) % 8):
            v[part[0]:part[1]] = collide(bytes(v[part[0]:part[1]]), rng)
        else:
            at = rng.choice([0, len(v) - 1, rng.randrange(len(v)), part[0], part[1] - 1])
            v[at] ^= 1 << rng.randrange(8)
        pool.append(bytes(v))
    idx = [rng.randrange(len(pool)) for _ in range(n)]
    data = [b for v in pool for b in v]
    mx = rng.choice([-1, mc, mc + 1, mc + 3])
    a = add(els, data, len(pool), rng.choice(['UInt16', 'UInt32']), idx, mis=rng.randrange(8))
    return {'fam': 'conv', 'steps': [new(outs, itype, prim, patch, mx), a, CONV, OBS]}


def twisted_cases(rng, count):
    return [twisted_case(rng) for _ in range(count)]


def spread_case(rng):
    """Streams so long that offsets and indices need more than 16, 31 or 32 bits."""
    prim = rng.choice(PRIMS)
    patch = rng.randint(1, 4) if prim == 'PatchList' else 0
    itype = rng.choice(['UInt16', 'UInt32', 'None'])
    els = [el('e%d' % i, *rng.choice(EXACT)) for i in range(rng.choice([1, 2, 3]))]
    pad = [el('pad%d' % i, 'X64Y64Z64W64', 'UInt') for i in range(rng.choice([0, 0, 1, 7, 40]))]
    st, mc = stride(prim, patch), min_count(prim, patch)
    n = rng.randint(mc, 8) if prim in STRIPS else st * rng.randint(1, max(1, 8 // st))
    it = rng.choice(['UInt16', 'UInt32', 'UInt32'])
    top = rng.choice([1 << 16, 65535] if it == 'UInt16' else [1 << 16, 70000, 1 << 20, 1 << 31, (1 << 32) - 2])
    fmt = els + pad
    rng.shuffle(fmt)
    # At most 100 GB of addresses.
    top = min(top, 100000000000 // fsize(fmt))
    k = rng.randint(1, 4)
    lim = min(top, 65535) if it == 'UInt16' else top
    if it == 'UInt16' and prim in STRIPS:
        lim = min(lim, 65534)
    at = {lim if top > lim else top - 1}
    while len(at) < k:
        b = rng.choice(sorted(at))
        x = rng.choice([rng.randrange(lim), b & 0xFFFF, b & 0x7FFFFFFF, max(0, b - 1),
                        (b - (1 << 32) // fsize(fmt)) if b >= (1 << 32) // fsize(fmt) else b // 2])
        at.add(x)
        if lim < 4:
            break
    at = sorted(at)
    rng.shuffle(at)
    real = max(at) + 1 + rng.choice([0, 0, 1])
    real = min(real, (1 << 32) - 1)
    steps = [new([els], itype, prim, patch, -1)]
    steps.append(add(fmt, vertices(fmt, len(at), rng, 'any'), len(at), it, [rng.randrange(len(at)) for _ in range(n)],
                     spread=[pair(x) for x in at], real=pair(real)))
    return {'fam': 'conv', 'steps': steps + [CONV, OBSB]}


def spread_cases(rng, count):
    return [spread_case(rng) for _ in range(count)]


# ---------------------------------------------------------------- many and long

def long_name(rng, used):
    """A name that shares a long prefix with other names."""
    while True:
        k = rng.choice([1, 3, 7, 8, 15, 16, 22, 23, 24, 31, 32, 33, 63, 64, 127, 128, 255, 256, 300, 1000])
        stem = rng.choice(['element', 'p', 'VertexAttribute'])
        base = (stem * (k // len(stem) + 1))[:k]
        n = rng.choice([base, base + rng.choice('abcXYZ01'), base[:-1] + rng.choice('qrs'), base + 'tail%d' % rng.randrange(20),
                        rng.choice('uvw') + base])
        if n not in used:
            used.add(n)
            return n


def stretched(cases, rng, part):
    """The same with long names for a part of the cases."""
    out = []
    for c in cases:
        if rng.random() < part:
            c = copy.deepcopy(c)
            used, names = set(), {}
            for st in c['steps']:
                for e in [e for f in st.get('out', []) for e in f] + st.get('fmt', []):
                    if e['n'] not in names:
                        names[e['n']] = long_name(rng, used)
                    e['n'] = names[e['n']]
                if st.get('name') in names:
                    st['name'] = names[st['name']]
        out.append(c)
    return out


def wide_case(rng, bounds=False, tr=False, fault=None, dup=True):
    """Many elements in many streams with long names; vertices that differ in few places."""
    prim = rng.choice(PRIMS)
    itype = rng.choice(['UInt16', 'UInt32', 'UInt16', 'UInt32', 'None'])
    patch = rng.choice([1, 5, 17, 31, 32, 33, 40]) if prim == 'PatchList' else 0
    used = set()
    k = rng.choice([2, 4, 5, 6, 8, 9, 12, 16, 17, 20, 24])
    names = [long_name(rng, used) for _ in range(k)]
    small = [x for x in EXACT if size(x[0]) <= 8]
    fmts = {n: rng.choice(small) for n in names}
    no = rng.choice([1, 2, 4, 5, 6, 8, 9, 10, 12])
    outs = [[] for _ in range(min(no, k))]
    order = list(names)
    rng.shuffle(order)
    for i, n in enumerate(order):
        outs[i if i < len(outs) else rng.randrange(len(outs))].append(el(n, *fmts[n]))
    if dup and rng.random() < 0.3:
        n = rng.choice(names)
        outs.insert(rng.randrange(len(outs) + 1), [el(n, *fmts[n])])
    st, mc = stride(prim, patch), min_count(prim, patch)
    n = rng.randint(mc, 14) if prim in STRIPS else st * rng.randint(1, max(1, 14 // st))
    marks = set()
    if prim in STRIPS and itype != 'None' and rng.random() < 0.5:
        marks = {p for p in range(n) if rng.random() < 0.15}
    # Positions hold one base vertex except in an element or two.
    variants = {m: [element_bytes(*fmts[m], rng, 'any') for _ in range(3)] for m in names}
    odd = rng.sample(names, min(k, rng.randint(1, 3)))
    rows = []
    for p in range(n):
        rows.append({m: variants[m][rng.randrange(3) if m in odd and rng.random() < 0.6 else 0] for m in names})
    adds = []
    for part in partition(names, rng.choice([1, 2, 3, 5, 8, 12, 16]), rng):
        extra = [el(long_name(rng, used), *rng.choice(small)) for _ in range(rng.choice([0, 0, 0, 1, 3]))]
        fmt = [el(m, *fmts[m]) for m in part] + extra
        rng.shuffle(fmt)

        def vertex(p):
            return [b for e in fmt for b in (rows[p][e['n']] if e['n'] in fmts else [p % 256] * size(e['l']))]
        if marks or rng.random() < 0.5:
            verts, idx = [], []
            for p in range(n):
                if p in marks:
                    idx.append(-1)
                    continue
                v = vertex(p)
                if v in verts and rng.random() < 0.5:
                    idx.append(verts.index(v))
                else:
                    idx.append(len(verts))
                    verts.append(v)
            if not verts:
                verts.append(vertex(0))
            adds.append(add(fmt, [b for v in verts for b in v], len(verts), rng.choice(['UInt16', 'UInt32']), idx))
        else:
            adds.append(add(fmt, [b for p in range(n) for b in vertex(p)], n))
    if fault and rng.random() < 0.5:
        # A name that is nearly the one of an element, or an index one too far in one of many streams.
        a = rng.choice(adds)
        if rng.random() < 0.5:
            a['fmt'] = [dict(e) for e in a['fmt']]
            e = rng.choice(a['fmt'])
            e['n'] = long_name(rng, used)
        elif a['itype'] != 'None':
            a['idx'][rng.randrange(n)] = a['vcount']
    mx = -1 if rng.random() < 0.3 else rng.randint(mc - 1 if fault else mc, mc + 6)
    steps = [new(outs, itype, prim, patch, mx, rng.random() < 0.5)]
    trs = []
    if tr:
        for i, f in enumerate(outs):
            for j, e in enumerate(f):
                if rng.random() < 0.5:
                    t = {'op': 'tr', 't': rng.choice(TRANSFORMS)}
                    if rng.random() < 0.5:
                        t['name'] = e['n']
                    else:
                        t['si'], t['ei'] = i, j
                    trs.append(t)
        trs.append({'op': 'tr', 't': 'Bounds', 'name': long_name(rng, used)})
    rng.shuffle(adds)
    return {'fam': 'conv', 'steps': steps + trs + adds + [CONV, OBSB if bounds else OBS]}


def wide_cases(rng, count, **kw):
    return [wide_case(rng, **kw) for _ in range(count)]


# ---------------------------------------------------------------- moves and twins

def twin_case(rng):
    base = struct_case(rng, nmax=12, dup_out=False, tr=rng.random() < 0.5, exact=rng.random() < 0.8)
    steps = base['steps']
    a = [dict(s) for s in steps]
    b = []
    moves = rng.random() < 0.8
    for s in steps:
        if moves and b and rng.random() < 0.5:
            b.append({'op': 'move'})
        b.append(dict(s))
    if moves:
        b += [{'op': 'move'}, dict(OBS), {'op': 'move'}, dict(OBS)]
    else:
        a.append({'op': 'conv'})          # a refused call in between
        a.append(dict(OBS))
        b += [dict(OBS)]
    for s in b:
        s['c'] = 1
    return {'fam': 'conv', 'tag': 'twin', 'steps': a + b}


def twin_cases(rng, count):
    return [twin_case(rng) for _ in range(count)]


def twin_histories(scenarios, rng):
    """Each history once as it is and once with moves between the calls."""
    out = []
    for s in scenarios:
        b = []
        for st in s['steps']:
            if b and rng.random() < 0.35:
                b.append({'op': 'move'})
            b.append(dict(st))
        b += [{'op': 'move'}, dict(OBS)]
        for st in b:
            st['c'] = 1
        out.append({'fam': 'conv', 'tag': 'twin', 'steps': [dict(st) for st in s['steps']] + b})
    return out


# ---------------------------------------------------------------- one conversion after another

def between(l, t, rng):
    """A format to go through, likely one that holds every value of (l, t); and the transform there."""
    w, n = LAYOUTS[l]
    n = n or (4 if '10Z10' in l or '10X10' in l else 3)
    def comps(m):
        return LAYOUTS[m][1] or (4 if not m.endswith('UFloat') else 3)
    r = rng.random()
    if r < 0.1:
        return (l, t), 'Identity'
    if r < 0.2:
        return rng.choice(VALID), 'Identity'
    tr = 'Identity'
    if t in ('UNorm', 'SNorm') and rng.random() < 0.4:
        tr = 'UNormToSNorm' if t == 'UNorm' else 'SNormToUNorm'
    to = {'UNorm': ('UNorm', 'SNorm', 'Float'), 'SNorm': ('SNorm', 'Float'), 'UInt': ('UInt', 'SInt', 'Float'),
          'SInt': ('SInt', 'Float'), 'Float': ('Float',)}[t]
    if tr != 'Identity':
        to = ('SNorm' if t == 'UNorm' else 'UNorm', 'Float')
    fit = [(m, u) for (m, u) in VALID if u in to and comps(m) >= n and LAYOUTS[m][0] >= w]
    return (rng.choice(fit), tr) if fit else ((l, t), 'Identity')


def regroup(els, k, rng):
    els = list(els)
    rng.shuffle(els)
    return partition(els, k, rng)


def chain_case(rng):
    """A conversion whose result is converted again, often back to what it was."""
    while True:
        base = struct_case(rng, nmax=rng.choice([8, 18]), dup_out=False, exact=rng.random() < 0.7)
        adds = [s for s in base['steps'] if s['op'] == 'add']
        if any((len(a['idx']) if a['itype'] != 'None' else a['vcount']) > 0 for a in adds):
            break
    head = base['steps'][0]
    src = {e['n']: (e['l'], e['t']) for f in head['out'] for e in f}
    prim, patch = head['prim'], head['patch']
    marks = any(-1 in a['idx'] for a in adds)
    mid, trs = {}, []
    again = rng.random() < 0.2
    for n in src:
        mid[n], tr = (src[n], 'Identity') if again else between(*src[n], rng)
        if tr != 'Identity':
            trs.append({'op': 'tr', 'name': n, 't': tr})
    head['out'] = regroup([el(n, *mid[n]) for n in mid], rng.randint(1, 3), rng)
    steps = [head] + trs + [s for s in base['steps'][1:]]
    # The second converter.
    first = {t['name']: t['t'] for t in trs}
    back, trs = {}, []
    for n in src:
        r = rng.random()
        back[n] = src[n] if r < 0.8 else mid[n] if r < 0.9 else rng.choice(VALID)
        if n in first and rng.random() < 0.95:
            trs.append({'op': 'tr', 'name': n, 't': 'SNormToUNorm' if first[n] == 'UNormToSNorm' else 'UNormToSNorm'})
    split = prim in STRIPS and head['itype'] != 'None'
    mc = min_count(prim, patch)
    if again and rng.random() < 0.6:
        second = dict(head)
    else:
        second = new(regroup([el(n, *back[n]) for n in back], rng.randint(1, 3), rng),
                     rng.choice(['UInt16', 'UInt32'] if split else ['UInt16', 'UInt32', 'None']), prim, patch,
                     -1 if rng.random() < 0.4 else rng.randint(mc - 1, mc + 8), rng.random() < 0.5)
    feed = {'op': 'feed', 'ity': rng.choice(['UInt16', 'UInt32']), 'direct': rng.random() < 0.7, 'last': rng.random() < 0.3}
    later = [second] + trs + [feed, dict(CONV), dict(OBSB)]
    for s in later:
        s['c'] = 1
    return {'fam': 'conv', 'tag': 'chain', 'steps': steps + later + [dict(OBS)]}


def chain_cases(rng, count):
    return [chain_case(rng) for _ in range(count)]


# ---------------------------------------------------------------- several converters

def several_case(rng, threads):
    """2-4 converters whose calls alternate or run in threads, some on the very same data; then each alone."""
    bases = []
    while len(bases) < rng.choice([1, 1, 2]):
        k = rng.random()
        s = (num_case(rng, bounds=True) if k < 0.3 else
             struct_case(rng, nmax=rng.choice([14, 14, 40]), dup_out=False, tr=rng.random() < 0.4, exact=rng.random() < 0.8, bounds=True,
                         fault=rng.choice([None, None, None, 'range'])))
        if not any('spread' in x for x in s['steps']):
            bases.append(s['steps'])
    pool, formats = [], []
    for b in bases:
        for i, st in enumerate(b):
            if st['op'] != 'add':
                continue
            st = b[i] = {k: v for k, v in st.items() if k not in ('shd', 'shi', 'mis', 'buf')}
            st['pf'], st['pd'], st['pi'] = len(formats), len(pool), len(pool) + 1
            formats.append(st['fmt'])
            pool += [{'data': st['data']}, {'data': st['idx'], 'itype': st['itype']}]
    n = rng.randint(2, 4)
    runs = []
    for k in range(n):
        steps = []
        for st in rng.choice(bases):
            st = dict(st)
            if st['op'] == 'obs':
                st['bounds'] = True
                if rng.random() < 0.4:
                    st['readers'] = rng.randint(2, 3)
            elif st['op'] == 'new' and rng.random() < 0.4:
                st['itype'] = rng.choice(['UInt16', 'UInt32', 'None'])
                st['max'] = rng.choice([-1, st['max']]) if st['itype'] != 'None' else -1
            steps.append(dict(st, c=k))
        if rng.random() < 0.3:
            steps += [dict(CONV, c=k), dict(OBSB, c=k)]
        runs.append(steps)
    alone = [[dict(st, c=st['c'] + 4) for st in r] for r in runs]
    if not threads:
        order, left = [], [list(r) for r in runs]
        while any(left):
            r = rng.choice([x for x in left if x])
            order.append(r.pop(0))
        runs = [order]
    return {'fam': 'conv', 'tag': 'several', 'threads': n if threads else 0, 'pool': pool, 'formats': formats,
            'steps': [st for r in runs + alone for st in r]}


def several_cases(rng, count, threads):
    return [several_case(rng, threads) for _ in range(count)]


def reuse_case(rng):
    """Converters one after the other whose caller fills the same buffers anew for each."""
    steps = []
    base = None
    for _ in range(rng.randint(2, 4)):
        r = rng.random()
        if base and r < 0.5:
            # The same calls with other contents.
            part = [dict(s) for s in base]
            for s in part:
                if s['op'] == 'add':
                    if rng.random() < 0.7:
                        s['data'] = vertices(s['fmt'], s['vcount'], rng, 'any', rng.choice([0, 1, 2]))
                    if s['idx'] and rng.random() < 0.6:
                        live = [i for i in range(len(s['idx'])) if s['idx'][i] >= 0]
                        s['idx'] = list(s['idx'])
                        for i in live:
                            if s['idx'][i] < s['vcount']:
                                s['idx'][i] = rng.randrange(s['vcount'])
        else:
            k = rng.random()
            part = (num_case(rng, bounds=True) if k < 0.3 else
                    wide_case(rng, bounds=True, dup=False) if k < 0.4 else
                    struct_case(rng, nmax=rng.choice([14, 14, 40]), dup_out=False, tr=rng.random() < 0.4, exact=rng.random() < 0.8, bounds=True,
                                fault=rng.choice([None, None, None, 'range'])))['steps']
            base = part
        j = 0
        for s in part:
            s = {k: v for k, v in s.items() if k not in ('shd', 'shi', 'mis', 'buf')}
            if s['op'] == 'add':
                s['slot'] = j
                j += 1
            elif s['op'] == 'obs':
                s['bounds'] = True
            steps.append(s)
    return {'fam': 'conv', 'steps': steps}


def reuse_cases(rng, count):
    return [reuse_case(rng) for _ in range(count)]


# ---------------------------------------------------------------- large meshes

def large_cases(tier):
    out = []
    for prim, patch, n in (('PointList', 0, 65535), ('PointList', 0, 65536), ('LineList', 0, 65536),
                           ('TriangleList', 0, 65535), ('TriangleList', 0, 65538),
                           ('TriangleStrip', 0, 65535), ('TriangleStrip', 0, 65537), ('LineStrip', 0, 70000),
                           ('TriangleFan', 0, 65536), ('PatchList', 7, 70000), ('PatchList', 4, 131080),
                           ('PointList', 0, 200000), ('TriangleStrip', 0, 140001), ('TriangleFan', 0, 140000)):
        for itype in ('UInt16', 'UInt32', 'None'):
            out.append({'fam': 'large', 'steps': [{'op': 'large', 'n': n, 'prim': prim, 'patch': patch, 'itype': itype}]})
    for prim, patch, n, mod in (('PointList', 0, 200000, 65535), ('PointList', 0, 140000, 65536), ('LineList', 0, 200000, 65534),
                                ('TriangleList', 0, 199998, 50000), ('TriangleList', 0, 240000, 70000), ('PatchList', 5, 150000, 65535)):
        for itype in ('UInt16', 'UInt32', 'None'):
            for ity in ('UInt16', 'UInt32'):
                if ity == 'UInt32' or mod <= 65535:
                    out.append({'fam': 'large', 'steps': [{'op': 'large', 'n': n, 'prim': prim, 'patch': patch, 'itype': itype,
                                                           'mod': mod, 'ity': ity}]})
    # More than 2^20 different vertices that come again.
    for prim, n, mod in (('TriangleList', 1500000, 540000), ('PointList', 2200000, 1050000)):
        out.append({'fam': 'large', 'steps': [{'op': 'large', 'n': n, 'prim': prim, 'patch': 0, 'itype': 'UInt32', 'mod': mod, 'ity': 'UInt32'}]})
    return out


def huge_cases():
    """More than 4 GiB of vertices."""
    return [{'fam': 'large', 'steps': [{'op': 'large', 'n': 1060000, 'prim': 'PointList', 'patch': 0, 'itype': 'UInt32',
                                        'wide': 128}]}]
