"""Scenario generators for formats, tables, indices, value coding, base64, paths and results.

No verdicts are computed here; the specification decides everything that is recorded.
"""
import itertools
import math
import struct

from gen_conv import LAYOUTS, TYPES, PRIMS, VALID, element_bytes, long_name, pair, size, valid

COLORS = {'X8': 'R8', 'X8Y8': 'R8G8', 'X8Y8Z8': 'R8G8B8', 'X8Y8Z8W8': 'R8G8B8A8', 'W2X10Y10Z10': 'A2R10G10B10',
          'W2Z10Y10X10': 'A2B10G10R10', 'Z10Y11X11_UFloat': 'B10G11R11_UFloat', 'E5Z9Y9X9_UFloat': 'E5B9G9R9_UFloat'}
for _l in LAYOUTS:
    if _l not in COLORS:
        COLORS[_l] = _l.replace('X', 'R').replace('Y', 'G').replace('Z', 'B').replace('W', 'A')


def chunks(steps, n, fam):
    return [{'fam': fam, 'steps': steps[i:i + n]} for i in range(0, len(steps), n)]


# ---------------------------------------------------------------- formats

FNAMES = ['a', 'A', 'b', 'aa', 'position', 'Position', '', 'a b', 'p\u00f6s', 'x' * 40]


def format_cases(rng, count):
    combos = VALID + [('Invalid', 'UInt'), ('X8', 'Invalid'), ('X8', 'Float'), ('X32', 'UNorm'), ('X64', 'SNorm'),
                      ('Z10Y11X11_UFloat', 'UNorm'), ('E5Z9Y9X9_UFloat', 'UInt')]
    out = []
    for _ in range(count):
        steps = []
        names = rng.sample(FNAMES, rng.randint(1, len(FNAMES)))
        if rng.random() < 0.2:
            names = names + ['e%d' % i for i in range(12)]
        long = rng.random()
        if long < 0.2:
            used = set(names)
            names = names + [long_name(rng, used) for _ in range(12)]
        pool = rng.sample(combos, rng.randint(2, len(combos)))
        if long > 0.98:
            # Many elements.
            for i in range(rng.choice([30, 33, 40, 65, 70])):
                l, t = rng.choice(VALID)
                steps.append({'op': 'append', 'w': 0, 'n': 'e%d' % i, 'l': l, 't': t})
            steps.append({'op': 'copy', 'w': 0, 'n': '', 'l': l, 't': t})
            names += ['e0', 'e31', 'e32', 'e29', 'e69']
        for _ in range(rng.randint(2, 14)):
            w = rng.randrange(2)
            r = rng.random()
            l, t = rng.choice(pool)
            s = {'op': 'append', 'w': w, 'n': rng.choice(names), 'l': l, 't': t}
            if r < 0.06:
                s['op'] = 'clear'
            elif r < 0.13:
                s['op'] = 'copy'
            elif r < 0.22:
                s['op'] = 'find'
            elif r < 0.4 and steps and steps[-1]['op'] == 'append':
                # The same append to the other one, perhaps different in one respect.
                s = dict(steps[-1])
                s['w'] = 1 - s['w']
                k = rng.random()
                if k < 0.2:
                    s['n'] = rng.choice(names)
                elif k < 0.4:
                    s['l'], s['t'] = rng.choice(pool)
            steps.append(s)
        out.append({'fam': 'fmt', 'steps': steps})
    return out


def format_grid():
    """Every pair of layouts, every combination of layout and type, names that differ in case."""
    out = []
    for l in list(LAYOUTS) + ['Invalid']:
        steps = []
        for t in TYPES + ['Invalid']:
            steps.append({'op': 'append', 'w': 0, 'n': 'n' + t, 'l': l, 't': t})
            steps.append({'op': 'append', 'w': 0, 'n': 'n' + t, 'l': l, 't': t})
            steps.append({'op': 'append', 'w': 0, 'n': ('n' + t).upper(), 'l': l, 't': t})
            steps.append({'op': 'append', 'w': 0, 'n': 'last', 'l': 'X8', 't': 'UInt'})
            steps.append({'op': 'find', 'w': 0, 'n': 'n' + t, 'l': l, 't': t})
        out.append({'fam': 'fmt', 'steps': steps})
    for (l, t) in VALID:
        steps = []
        for i, (m, u) in enumerate(VALID):
            steps.append({'op': 'clear', 'w': 0, 'n': '', 'l': l, 't': t})
            steps.append({'op': 'append', 'w': 0, 'n': 'p', 'l': l, 't': t})
            steps.append({'op': 'append', 'w': 0, 'n': 'q', 'l': m, 't': u})
            if i % 6 == 0:
                steps.append({'op': 'append', 'w': 0, 'n': 'r', 'l': 'X8', 't': 'UInt'})
        out.append({'fam': 'fmt', 'steps': steps})
    # Names that differ in one place only.
    for n in (1, 2, 3, 7, 8, 9, 12, 16, 17, 24, 33, 64, 65, 130):
        base = ''.join(chr(97 + i % 26) for i in range(n))
        others = [base[:i] + c + base[i + 1:] for i in sorted({0, 1, n // 2, n - 2, n - 1, 6, 7, 8, 14, 15, 16, 23, 31} & set(range(n)))
                  for c in ('_', base[i].upper())]
        steps = []
        for x in [base] + others + [base[::-1], base + 'a', base[:-1]]:
            steps.append({'op': 'append', 'w': 0, 'n': x, 'l': 'X8', 't': 'UInt'})
        for x in others[::3]:
            steps.append({'op': 'find', 'w': 0, 'n': x, 'l': 'X8', 't': 'UInt'})
        out.append({'fam': 'fmt', 'steps': steps})
    # So many elements that their sizes need more than 16 bits.
    for n, l in ((2049, 'X64Y64Z64W64'), (1030, 'X64Y64Z64W64')):
        out.append({'fam': 'fmt', 'steps': [{'op': 'fill', 'w': 0, 'n': '', 'k': n, 'l': l, 't': 'UInt'},
                                            {'op': 'append', 'w': 0, 'n': 'e%d' % (n - 1), 'l': 'X8', 't': 'UInt'},
                                            {'op': 'find', 'w': 0, 'n': 'e%d' % (n - 1), 'l': 'X8', 't': 'UInt'}]})
    return out


# ---------------------------------------------------------------- tables

def cased(rng, s):
    return ''.join(rng.choice([c.lower(), c.upper()]) for c in s)


def table_cases(rng, n):
    names = list(LAYOUTS) + list(COLORS.values()) + TYPES + PRIMS
    steps = [{'op': 'null'}]
    for x in names:
        for y in (x, x.lower(), x.upper(), x.swapcase(), x + ' ', ' ' + x, x[:-1], x[1:], x + x[-1], x + '0'):
            steps.append({'op': 'name', 'n': y})
    steps += [{'op': 'name', 'n': y} for y in ('', 'Invalid', 'invalid', 'None', 'UInt16', 'UInt32', 'X', '8', 'X8G8',
                                               'R8Y8', 'r8g8', 'A2R10G10B10 ', 'W10X10Y10Z2', '\u00d8', 'X8\u00df', 'x 8',
                                               'Z10Y11X11', 'UFloat', 'TriangleLis', 'Triangle', 'Points', 'float ', 'snorm16')]
    for _ in range(n):
        x = rng.choice(names)
        y = cased(rng, x)
        r = rng.random()
        if r < 0.3 and len(y) > 1:
            i = rng.randrange(len(y))
            y = y[:i] + rng.choice('XYZWRGBA0123456789_aefl ') + y[i + 1:]
        elif r < 0.45 and len(y) > 1:
            i = rng.randrange(len(y) - 1)
            y = y[:i] + y[i + 1] + y[i] + y[i + 2:]
        elif r < 0.55:
            y = y + rng.choice(names)
        steps.append({'op': 'name', 'n': y})
    steps += [{'op': 'layout', 'l': l} for l in LAYOUTS]
    steps += [{'op': 'type', 't': t} for t in TYPES]
    steps += [{'op': 'prim', 'p': p} for p in PRIMS]
    steps += [{'op': 'valid', 'l': l, 't': t} for l in list(LAYOUTS) + ['Invalid'] for t in TYPES + ['Invalid']]
    big = [65535, 65536, 65537, 65538, 0x7FFFFFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF]
    counts = list(range(0, 40)) + big + [rng.getrandbits(32) for _ in range(40)]
    for p in PRIMS + ['Invalid']:
        for c in counts:
            for patch in ((1, 2, 3, 4, 5, 7, 32, 255, 256, 30000, 32768, 65535, 65536, 65537, 100000, 1 << 29) if p == 'PatchList' else (0, 3)):
                steps.append({'op': 'count', 'p': p, 'c': pair(c), 'patch': patch})
    rng.shuffle(steps)
    return chunks(steps, 60, 'tab')


# ---------------------------------------------------------------- indices

IVALS = [0, 1, 2, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 0x10203040, 0x7FFFFFFF, 0x80000000,
         0xFFFF0000, 0xFFFFFFFE, 0xFFFFFFFF]


def index_cases(rng, count):
    out = []
    for k in range(count):
        t = ['UInt16', 'UInt32', 'UInt16', 'UInt32', 'None'][k % 5]
        sz = {'UInt16': 2, 'UInt32': 4, 'None': 4}[t]
        slots = rng.randint(1, 6)
        steps = [{'op': 'new', 'itype': t, 'data': [rng.randrange(256) for _ in range(slots * sz)]}]
        for _ in range(rng.randint(4, 20)):
            i = rng.randrange(slots)
            r = rng.random()
            v = rng.choice(IVALS) if rng.random() < 0.6 else rng.getrandbits(rng.choice([8, 16, 32]))
            if r < 0.5:
                s = {'op': 'set', 'i': i, 'val': pair(v)}
            else:
                s = {'op': 'get', 'i': i}
                if rng.random() < 0.5:
                    s['def'] = pair(v)
            if rng.random() < 0.12:
                s['null'] = True
            steps.append(s)
        out.append({'fam': 'idx', 'steps': steps})
    return out


def big_index_cases(rng, count):
    """Arrays of up to 2^33 indices, written at positions that coincide modulo powers of two."""
    out = []
    for k in range(count):
        t = ['UInt16', 'UInt32'][k % 2]
        top = rng.choice([1 << 16, 1 << 17, 1 << 20, 1 << 31, 1 << 33])
        n = top + rng.randrange(1, 70000)

        def at(i):
            return [i >> 16, i & 0xFFFF]
        base = [rng.randrange(n)] + [x for x in (n - 1, top, top - 1, top // 2) if x < n]
        spots = set(base)
        for b in base:
            for e in (8, 15, 16, 17, 29, 30, 31, 32):
                spots.add(b % (1 << e))
                if b + (1 << e) < n:
                    spots.add(b + (1 << e))
        spots = sorted(spots)
        steps = [{'op': 'bnew', 'itype': t, 'n': at(n)}]
        for _ in range(rng.randint(3, 10)):
            v = rng.getrandbits(16) if t == 'UInt16' else rng.getrandbits(32)
            i = rng.choice(base + spots)
            steps.append({'op': 'bset', 'i': at(i), 'val': pair(v)})
            steps.append({'op': 'bget', 'i': at(rng.choice([i, rng.choice(spots)]))})
        steps.append({'op': 'bpeek', 'at': [at(i) for i in spots]})
        out.append({'fam': 'idx', 'steps': steps})
    return out


# ---------------------------------------------------------------- value coding

def dhex(d):
    return '%016x' % struct.unpack('<Q', struct.pack('<d', d))[0]


def hex4(v):
    return [dhex(x) for x in v]


COMBOS = VALID
REFUSED = [(l, 'Float') for l in LAYOUTS if LAYOUTS[l][0] in (8, 10)] + \
          [(l, t) for l in ('Z10Y11X11_UFloat', 'E5Z9Y9X9_UFloat') for t in TYPES if t != 'Float'] + \
          [('Invalid', t) for t in TYPES] + [(l, 'Invalid') for l in LAYOUTS] + [('Invalid', 'Invalid')]
HALVES = [(l, t) for (l, t) in VALID if LAYOUTS[l][0] == 16 and t == 'Float']


def code_bytes(l, t, rng):
    """Random bytes of an element with the special codes of its components."""
    w, n = LAYOUTS[l]
    if not n:
        r = rng.random()
        if r < 0.5:
            return element_bytes(l, t, rng)
        v = rng.getrandbits(32)
        if l in ('W2X10Y10Z10', 'W2Z10Y10X10') and r < 0.8:
            f = [rng.choice([0, 1, 511, 512, 513, 1022, 1023, rng.randrange(1024)]) for _ in range(3)]
            v = f[0] | f[1] << 10 | f[2] << 20 | rng.randrange(4) << 30
        return list(v.to_bytes(4, 'little'))
    out = []
    for _ in range(n):
        if t == 'Float':
            m, x = {16: (10, 5), 32: (23, 8), 64: (52, 11)}[w]
            e = rng.choice([0, 1, (1 << x) - 1, (1 << x) - 2, (1 << (x - 1)) - 1, rng.randrange(1 << x)])
            f = rng.choice([0, 1, (1 << m) - 1, 1 << (m - 1), rng.getrandbits(m)])
            v = (rng.randrange(2) << (w - 1)) | (e << m) | f
        else:
            top = (1 << w) - 1
            v = rng.choice([0, 1, top, top - 1, top >> 1, (top >> 1) + 1, (top >> 1) + 2, rng.getrandbits(w), rng.getrandbits(w)])
        out += list(v.to_bytes(w // 8, 'little'))
    return out


def exhaustive_codes(l, t, step=1):
    """Every code of one component, the other components fixed; packed and 8/16-bit layouts."""
    w, n = LAYOUTS[l]
    out = []
    if n:
        for v in range(0, 1 << w, step):
            b = list(v.to_bytes(w // 8, 'little'))
            other = list(((v * 7 + 3) & ((1 << w) - 1)).to_bytes(w // 8, 'little'))
            out.append(b + other * (n - 1))
        return out
    fields = {'Z10Y11X11_UFloat': [(0, 11), (11, 11), (22, 10)], 'E5Z9Y9X9_UFloat': [(0, 9), (9, 9), (18, 9)]}.get(
        l, [(0, 10), (10, 10), (20, 10), (30, 2)])
    for o, fw in fields:
        rest = 0x5A3C96E1 & ~(((1 << fw) - 1) << o) & 0xFFFFFFFF
        for v in range(0, 1 << fw, step):
            for e in (range(0, 32, 5) if l == 'E5Z9Y9X9_UFloat' and v % 8 == 0 else (11,)):
                x = rest | v << o
                if l == 'E5Z9Y9X9_UFloat':
                    x = (x & 0x07FFFFFF) | e << 27
                out.append(list(x.to_bytes(4, 'little')))
    return out


def code_cases(rng, op, per, exhaustive_step, combos=COMBOS):
    steps = []
    for (l, t) in combos:
        for _ in range(per):
            steps.append({'op': op, 'l': l, 't': t, 'bytes': code_bytes(l, t, rng), 'mis': rng.randrange(8)})
        if LAYOUTS[l][0] <= 16 and (LAYOUTS[l][1] in (0, 1)):
            st = exhaustive_step if LAYOUTS[l][0] == 16 else 1
            for b in exhaustive_codes(l, t, st):
                steps.append({'op': op, 'l': l, 't': t, 'bytes': b})
    if op == 'dec' and combos is COMBOS:
        for (l, t) in REFUSED:
            n = 32 if l == 'Invalid' else size(l)
            steps.append({'op': op, 'l': l, 't': t, 'bytes': [rng.randrange(256) for _ in range(n)]})
    return chunks(steps, 40, 'codec')


def next_up(x, n=1):
    for _ in range(abs(n)):
        x = math.nextafter(x, math.inf if n > 0 else -math.inf)
    return x


def whole(rng, w, signed):
    """A value around an integer of w bits or halfway to the next, of any magnitude."""
    top = 1 << (w - 1 if signed else w)
    k = rng.choice([0, 1, top - 1, top - 2, top >> 1, rng.randrange(top), rng.getrandbits(rng.randint(1, w - signed)),
                    # Just where doubles stop holding halves, and integers.
                    rng.getrandbits(52) | 1 << 51, rng.getrandbits(53) | 1 << 52, rng.getrandbits(54) | 1 << 53])
    v = float(min(k, top)) + rng.choice([0, 0.5, -0.5, 0.25, -0.75])
    if rng.random() < 0.3:
        v = next_up(v, rng.choice([-1, 1]))
    return -v if signed and rng.random() < 0.5 else v


def half_steps(l, t, rng):
    """A value at, near or halfway between codes of the format."""
    w, _ = LAYOUTS[l]
    if w == 9:
        e = rng.randint(-26, 17)
        v = rng.choice([511, 512, 255, 256, 511.5, 255.75, 0.5, rng.randrange(512), rng.randrange(1024) / 2]) * 2.0 ** (e - 8)
        return rng.choice([v, v, next_up(v, rng.choice([-1, 1])), 65408.0, 65407.0, 65472.0, 65536.0])
    if t == 'UNorm':
        k = (1 << w) - 1
        c = rng.choice([0, 1, k - 1, k, rng.randrange(k + 1)])
        v = (c + rng.choice([0, 0.5, -0.5, 0.49, 0.51])) / k
    elif t == 'SNorm':
        k = (1 << w) - 1
        c = rng.choice([0, 1, k - 1, k, k // 2, k // 2 + 1, rng.randrange(k + 1)])
        v = 2 * (c + rng.choice([0, 0.5, -0.5, 0.49, 0.51])) / k - 1
    elif t == 'UInt':
        v = whole(rng, w, False)
    elif t == 'SInt':
        v = whole(rng, w, True)
    else:
        m, b, top = {16: (10, 15, 15), 32: (23, 127, 127), 64: (52, 1023, 1023), 11: (6, 15, 15)}[w]
        e = rng.choice([-b, -b + 1, -b - m, top, top - 1, 0, rng.randint(-b - m - 1, top)])
        f = rng.choice([0, 1, (1 << m) - 1, rng.getrandbits(m)]) + rng.choice([0, 0.5, 0.25, 0.75])
        try:
            v = (1 + f / (1 << m)) * 2.0 ** e
        except OverflowError:
            v = 1e308
        if math.isinf(v):
            v = 1.7976931348623157e308
        v *= rng.choice([1, -1])
    if math.isfinite(v) and rng.random() < 0.25:
        v = next_up(v, rng.choice([-2, -1, 1, 2]))
    return v if math.isfinite(v) else 1.0


OUTSIDE = [0.0, -0.0, 1.0, -1.0, 2.0, -2.0, 1.0000001, -1.0000001, 1e10, -1e10, 1e20, -1e20, 1e300, -1e300, 5e-324, 1e-300,
           65504.0, 65519.0, 65520.0, 65536.0, -65520.0, 65024.0, 64512.0, 65408.0, 3.4028234663852886e38, 3.4028235677973366e38,
           3.5e38, -3.5e38, 9.223372036854775807e18, 1.8446744073709551615e19, 18446744073709549568.0, -9.3e18,
           4294967295.0, 4294967296.0, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 255.5, 256.0, -128.5, 127.5]


def value4(l, t, rng):
    return [rng.choice(OUTSIDE) if rng.random() < 0.2 else half_steps(l, t, rng) if rng.random() < 0.75 else
            rng.uniform(-2, 2) for _ in range(4)]


def enc_cases(rng, per, combos=COMBOS):
    steps = []
    for (l, t) in combos:
        k = per * (4 if LAYOUTS[l][1] in (0, 1) else 2 if LAYOUTS[l][1] == 2 else 1)
        for _ in range(k):
            steps.append({'op': 'enc', 'l': l, 't': t, 'v': hex4(value4(l, t, rng)), 'mis': rng.randrange(8),
                          'fill': rng.choice([0, 255, 0xA5])})
    for (l, t) in REFUSED:
        for fill in (0, 255, 0x5A):
            steps.append({'op': 'enc', 'l': l, 't': t, 'v': hex4([0.5, -0.25, 3.0, 1.0]), 'fill': fill})
    return chunks(steps, 40, 'codec')


def order_cases(rng, per, combos=COMBOS):
    """Runs of increasing values of each format."""
    out = []
    for (l, t) in combos:
        for _ in range(per):
            vals = [value4(l, t, rng) for _ in range(8)]
            base = rng.choice(vals)[0]
            # A dense run around a value.
            dense = [next_up(base, k) for k in (-3, -2, -1, 0, 1, 2, 3)] if rng.random() < 0.5 else []
            step = rng.choice([1e-3, 1e-2, 0.3, 2.0 ** rng.randint(-20, 8)])
            line = [base + i * step for i in range(6)]
            cols = [sorted([v[i] for v in vals] + dense + line) for i in range(4)]
            n = min(len(c) for c in cols)
            if l == 'E5Z9Y9X9_UFloat':
                cols = [cols[0], cols[0], cols[0], cols[3]]
            steps = []
            for k in range(n):
                v = [c[k] for c in cols]
                if all(math.isfinite(x) for x in v):
                    steps.append({'op': 'enc', 'l': l, 't': t, 'v': hex4(v)})
            out.append({'fam': 'codec', 'steps': steps})
    return out


def bounded_cases(rng, per):
    steps = []
    norm = [c for c in COMBOS if c[1] in ('UNorm', 'SNorm')]
    rest = [c for c in COMBOS if c[1] not in ('UNorm', 'SNorm')]
    for (l, t) in norm * 3 + rest:
        w = LAYOUTS[l][0]
        for _ in range(per):
            mn, mx, v = [], [], []
            for i in range(4):
                r = rng.random()
                if r < 0.25:
                    a, b = rng.uniform(-10, 10), rng.uniform(-10, 10)
                elif r < 0.4:
                    a = rng.uniform(-1, 1) * 2.0 ** rng.randint(-60, 60)
                    b = a + abs(a) * rng.choice([1e-3, 1.0, 1e3])
                elif r < 0.5:
                    a = b = rng.choice([0.0, 1.0, -3.5, rng.uniform(-100, 100)])
                elif r < 0.6:
                    a, b = 0.0, float(1 << rng.randint(0, 40))
                elif r < 0.7:
                    # A tiny range far from zero or close to it.
                    a = rng.choice([0.0, 1e-30, 1.0, 1e-300])
                    b = a + rng.choice([2.0 ** -52, 2.0 ** -50, 1e-20, 1e-310, 2.0 ** -40])
                elif r < 0.8:
                    a, b = rng.choice([(-1e300, 1e300), (-1e154, 1e155), (-0.0, 0.0), (-8e307, 8e307)])
                else:
                    a, b = rng.choice([(0.0, 1.0), (-1.0, 1.0), (-0.5, 0.5), (100.0, 200.0), (-7.0, -3.0)])
                a, b = min(a, b), max(a, b)
                q = rng.random()
                if q < 0.15:
                    x = a
                elif q < 0.3:
                    x = b
                elif q < 0.4:
                    x = rng.choice([a - (b - a), b + (b - a), a - 1, b + 1, 0.0])
                elif q < 0.7 and w <= 16:
                    k = (1 << (2 if i == 3 and w == 10 else w)) - 1
                    x = a + (b - a) * ((rng.randrange(k + 1) + rng.choice([0, 0.5, 0.25, 0.499])) / k)
                else:
                    x = a + (b - a) * rng.random()
                if not math.isfinite(x):
                    x = a
                mn.append(a)
                mx.append(b)
                v.append(x)
            steps.append({'op': 'encb', 'l': l, 't': t, 'v': hex4(v), 'mn': hex4(mn), 'mx': hex4(mx),
                          'mis': rng.randrange(8), 'fill': rng.choice([0, 255, 0xA5])})
    for (l, t) in REFUSED:
        steps.append({'op': 'encb', 'l': l, 't': t, 'v': hex4([0.5] * 4), 'mn': hex4([0.0] * 4), 'mx': hex4([1.0] * 4)})
    return chunks(steps, 40, 'codec')


def value_cases(rng, count):
    special = [0.0, -0.0, 1.0, -1.0, float('nan'), float('inf'), float('-inf'), 5e-324, -5e-324, 1.7976931348623157e308,
               -1.7976931348623157e308, 1e-300]
    out = []
    for _ in range(count):
        steps = []
        for _ in range(rng.randint(1, 8)):
            v = [rng.choice(special) if rng.random() < 0.4 else rng.uniform(-5, 5) for _ in range(4)]
            steps.append({'op': 'grow', 'v': hex4(v)})
        out.append({'fam': 'value', 'steps': steps})
    return out


def register_cases(rng, count):
    special = [0.0, -0.0, 1.0, -1.0, float('nan'), float('inf'), float('-inf'), 5e-324, 1.7976931348623157e308]
    out = []
    for _ in range(count):
        pool = [rng.choice(special) if rng.random() < 0.6 else rng.uniform(-5, 5) for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.5:
            pool.append(math.nextafter(pool[0], rng.choice([-1e9, 1e9])))

        def x():
            return rng.choice(pool)
        steps = []
        for _ in range(rng.randint(3, 16)):
            op = rng.choice(['make', 'set', 'set', 'copy', 'init', 'cmp', 'cmp', 'cmp', 'growr'])
            s = {'op': op, 'a': rng.randint(1, 3)}
            if op == 'make':
                s['v'] = hex4([x() for _ in range(rng.randint(0, 4))])
            elif op == 'set':
                s.update(i=rng.randrange(4), x=hex4([x()])[0])
            elif op != 'growr':
                s['b'] = rng.randint(1, 3)
            steps.append(s)
        # Copies that differ in one component.
        a, b = rng.sample((1, 2, 3), 2)
        steps += [{'op': 'copy', 'a': a, 'b': b}, {'op': 'cmp', 'a': a, 'b': b}, {'op': 'set', 'a': a, 'i': rng.randrange(4), 'x': hex4([x()])[0]},
                  {'op': 'cmp', 'a': a, 'b': b}, {'op': 'cmp', 'a': b, 'b': a}]
        out.append({'fam': 'value', 'steps': steps})
    return out


# ---------------------------------------------------------------- base64

def b64(b):
    import base64
    return list(base64.b64encode(bytes(b)))


def base64_cases(rng, quick):
    steps = [{'op': 'null'}, {'op': 'enc', 'bytes': []}, {'op': 'dec', 'text': [], 'pre': [1, 2]}]
    for a in range(256):
        steps.append({'op': 'enc', 'bytes': [a]})
        for b in range(0, 256, 17 if quick else 3):
            steps.append({'op': 'enc', 'bytes': [a, b]})
            steps.append({'op': 'dec', 'text': b64([a, b]), 'pre': []})
    for n in list(range(0, 12)) + [50, 255, 300]:
        for _ in range(6 if quick else 40):
            b = [rng.choice([0, 255, rng.randrange(256)]) for _ in range(n)]
            steps.append({'op': 'enc', 'bytes': b})
            steps.append({'op': 'dec', 'text': b64(b), 'pre': [rng.randrange(256) for _ in range(rng.randrange(4))]})
    # All short texts over representative characters.
    sample = [65, 122, 48, 47, 61, 45, 10]
    for n in range(1, 4 if quick else 5):
        for t in itertools.product(sample, repeat=n):
            steps.append({'op': 'dec', 'text': list(t), 'pre': [9]})
    for t in itertools.product([65, 90, 43, 61, 32], repeat=4):
        steps.append({'op': 'dec', 'text': list(t), 'pre': []})
        steps.append({'op': 'dec', 'text': list(t) + b64([1, 2, 3]), 'pre': []})
        steps.append({'op': 'dec', 'text': b64([1, 2, 3]) + list(t), 'pre': [7]})
    # Every character in every place.
    for c in range(1, 256):
        for i in range(4):
            t = list(b'QUJD')
            t[i] = c
            steps.append({'op': 'dec', 'text': t, 'pre': []})
        steps.append({'op': 'dec', 'text': list(b'QUI=') + [c], 'pre': []})
    for _ in range(1500 if quick else 20000):
        t = b64([rng.randrange(256) for _ in range(rng.randrange(1, 14))])
        for _ in range(rng.randint(1, 2)):
            i = rng.randrange(len(t))
            r = rng.random()
            if r < 0.4:
                t[i] = rng.choice([61, 65, 45, 95, 32, 10, 128, 255, 1, 64, 91, 96, 123, 58, 44, 46])
            elif r < 0.6:
                del t[i]
            elif r < 0.8:
                t.insert(i, rng.choice([61, 65, 32]))
            else:
                t = t[:i] or [65]
        steps.append({'op': 'dec', 'text': t, 'pre': []})
    big = [{'op': 'enc', 'bytes': [rng.randrange(256) for _ in range(n)]} for n in (65535, 65536, 70001, 196609)]
    big += [{'op': 'dec', 'text': b64([rng.randrange(256) for _ in range(n)]), 'pre': [1]} for n in (49151, 49152, 65537, 196609)]
    return chunks(steps, 60, 'b64') + chunks(big, 1, 'b64')


# ---------------------------------------------------------------- paths

def path_cases(rng, quick):
    letters = [97, 46, 47]
    words = [list(t) for n in range(0, 4 if quick else 5) for t in itertools.product(letters, repeat=n)]
    steps = []
    for a in words:
        for b in words if quick or len(a) < 4 else words[:121]:
            steps.append({'op': 'path', 'a': a, 'b': b})
    alphabet = [97, 98, 46, 47, 47, 47, 92, 32, 58, 195, 164, 126, 1]
    for _ in range(2000 if quick else 20000):
        a = [rng.choice(alphabet) for _ in range(rng.randrange(0, 14))]
        b = [rng.choice(alphabet) for _ in range(rng.randrange(0, 10))]
        steps.append({'op': 'path', 'a': a, 'b': b})
    for n in (15, 16, 255, 3000):
        steps.append({'op': 'path', 'a': [47] + [97] * n, 'b': [98] * n})
        steps.append({'op': 'path', 'a': [97] * n + [47], 'b': [98] * n + [47]})
        steps.append({'op': 'path', 'a': ([100] * 5 + [47]) * (n // 6) + [99], 'b': [98]})
    return chunks(steps, 60, 'path')


# ---------------------------------------------------------------- result documents

RNAMES = ['position', 'a', 'A', '', 'a b', 'quo"te', 'back\\slash', 'tab\t', 'line\nbreak', 'n\u00e4me', '\u4e2d\u6587', 'ctl\x01',
          'del\x7f', '\U0001F600', 'sl/ash', "apo'", 'x' * 300, '\u2028']
BVALS = [0.0, -0.0, 1.0, -1.0, 0.1, 1.0 / 3, 5e-324, -5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308,
         123456789012345680.0, 1e21, 1e22, 123456.789, 4294967295.0, 9007199254740993.0, 0.30000000000000004, 1e-7, 65504.0, -0.5]


def bval(rng):
    r = rng.random()
    if r < 0.5:
        return rng.choice(BVALS)
    if r < 0.75:
        return rng.uniform(-10, 10)
    while True:
        d = struct.unpack('<d', struct.pack('<Q', rng.getrandbits(64)))[0]
        if math.isfinite(d):
            return d


def rstring(rng):
    r = rng.random()
    if r < 0.4:
        return 'base64:' + ''.join(rng.choice('ABCxyz019+/') for _ in range(rng.choice([0, 4, 8, 40])))
    return rng.choice(RNAMES) if r < 0.7 else '/tmp/out dir/vertices.%d.dat' % rng.randrange(12)


def count32(rng):
    return rng.choice([0, 1, 3, 65535, 65536, 2147483647, 2147483648, 4294967295, rng.getrandbits(31), rng.getrandbits(32), rng.getrandbits(32)])


def result_cases(rng, count):
    out = []
    for k in range(count):
        names = rng.sample(RNAMES, rng.randint(1, 6))
        most = 6
        if rng.random() < 0.15:
            # Many elements or many streams.
            most = rng.choice([1, 2, 20])
            names += ['%s%d' % (rng.choice(RNAMES), i) for i in range(rng.choice([8, 10, 12, 17, 33]))]
        outs, rest = [], names
        while rest:
            n = rng.randint(1, min(most, len(rest)))
            outs.append([{'n': x, 'l': l, 't': t} for x in rest[:n] for (l, t) in [rng.choice(VALID)]])
            rest = rest[n:]
        nonfinite = rng.random() < 0.1
        bounds = []
        for f in outs:
            bs = []
            for _ in f:
                b = {'mn': [bval(rng) for _ in range(4)], 'mx': [bval(rng) for _ in range(4)]}
                if nonfinite and rng.random() < 0.4:
                    b[rng.choice(['mn', 'mx'])][rng.randrange(4)] = rng.choice([math.inf, -math.inf, math.nan])
                bs.append({q: hex4(b[q]) for q in b})
            bounds.append(bs)
        itype = rng.choice(['None', 'UInt16', 'UInt32'])
        bufs = []
        if itype != 'None' or rng.random() < 0.2:
            for _ in range(rng.choice([0, 1, 1, 2, 5]) if rng.random() < 0.9 else rng.choice([9, 10, 11, 12, 20])):
                bufs.append({'c': pair(count32(rng)), 'b': pair(rng.choice([0, 1, 65535, 2147483647, rng.randrange(1 << 31)])),
                             'd': rstring(rng)})
        out.append({'fam': 'res', 'steps': [{'op': 'res', 'out': outs, 'bounds': bounds, 'vdata': [rstring(rng) for _ in outs],
                                             'vcount': pair(count32(rng)), 'itype': itype,
                                             'bufs': bufs}]})
    # Offsets and counts of elements, streams and buffers beyond 16 bits or beyond 256.
    for n, per in ((2100, 2100), (300, 1), (520, 130)):
        fs = [[{'n': 'e%d' % (i + j), 'l': 'X64Y64Z64W64', 't': 'Float'} for j in range(per)] for i in range(0, n, per)]
        out.append({'fam': 'res', 'steps': [{
            'op': 'res', 'out': fs, 'bounds': [[{q: hex4([0.0, float(i), -1.0, 0.5]) for q in ('mn', 'mx')} for i in range(len(f))] for f in fs],
            'vdata': [rstring(rng) for _ in fs], 'vcount': pair(7), 'itype': 'UInt16',
            'bufs': [{'c': pair(i), 'b': pair(i * 65535), 'd': rstring(rng)} for i in range(300)]}]})
    return out
