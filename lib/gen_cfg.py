"""Configuration documents: parsed form, text, and broken variants of both. No verdicts here."""
import copy
import json

from gen_conv import LAYOUTS, TYPES, PRIMS, TRANSFORMS, VALID
from gen_unit import COLORS, cased


def S(v):
    return {'k': 'str', 'v': v}


def I(v):
    return {'k': 'int', 'v': v}


def N(v):
    return {'k': 'num', 'v': v}


def A(v):
    return {'k': 'arr', 'v': v}


def O(*members):
    return {'k': 'obj', 'v': [{'n': n, 'x': x} for n, x in members]}


NULL = {'k': 'null'}


def B(v):
    return {'k': 'bool', 'v': v}


def quote(s, rng):
    out = '"'
    for c in s:
        if c in '"\\':
            out += '\\' + c
        elif c in '\b\f\n\r\t':
            out += {'\b': '\\b', '\f': '\\f', '\n': '\\n', '\r': '\\r', '\t': '\\t'}[c]
        elif ord(c) < 32:
            out += '\\u%04x' % ord(c)
        elif rng and rng.random() < 0.02 and ord(c) < 0xD800:
            out += ('\\u%04x' if rng.random() < 0.5 else '\\u%04X') % ord(c)
        elif c == '/' and rng and rng.random() < 0.3:
            out += '\\/'
        else:
            out += c
    return out + '"'


def ws(rng):
    return rng.choice(['', '', '', ' ', '\n', '\t', '\r\n  ']) if rng else ''


def text(d, rng):
    k = d['k']
    if k == 'null':
        return 'null'
    if k == 'bool':
        return 'true' if d['v'] else 'false'
    if k == 'int':
        return str(d['v'])
    if k == 'num':
        return d['v']
    if k == 'str':
        return quote(d['v'], rng)
    w = lambda: ws(rng)
    if k == 'arr':
        return '[' + w() + (w() + ',' + w()).join(text(x, rng) for x in d['v']) + w() + ']'
    return '{' + w() + (w() + ',' + w()).join(quote(m['n'], rng) + w() + ':' + w() + text(m['x'], rng) for m in d['v']) + w() + '}'


ENAMES = ['position', 'Position', 'normal', 'tex', 'c', '', 'a b', 'n\u00e4me', 'quo"te', 'back\\slash', 'sl/ash', 'line\nbreak',
          '\u4e2d', 'x' * 30]


WORDS = ['vertex', 'index', 'primitive', 'patch', 'element', 'stream', 'data', 'element', 'input', 'output', 'base']
WORDS2 = ['Type', 'Format', 'Data', 'Count', 'Size', 'Stride', 'Offset', 'Name', 'Buffer', 'Buffers', 'Points', 'Transforms', 'Transform',
          'Streams', 'Layout', 'File', 'Value', 'Restart', '']
KNOWN = ['vertexFormat', 'indexType', 'primitiveType', 'patchPoints', 'vertexStreams', 'vertexTransforms', 'name', 'layout', 'type',
         'vertexData', 'indexData', 'transform']


def plausible(rng):
    """A value as the known members have them."""
    return rng.choice([
        S(rng.choice(['UInt16', 'UInt32', 'uint16', 'None'])), S(rng.choice(PRIMS)), S(rng.choice(list(LAYOUTS))), S(rng.choice(TYPES)),
        S(rng.choice(TRANSFORMS)), S(rng.choice(ENAMES)), S('base64:AAAA'), I(rng.choice([0, 1, 2, 3])), NULL, B(True),
        A([O(('name', S('position')), ('layout', S('X8')), ('type', S('UInt')))]), A([]), O(),
        A([O(('name', S('position')), ('transform', S('Bounds')))])])


def strange(rng, o, own):
    """A member that an object of this kind does not have."""
    have = {m['n'] for m in o['v']} | set(own)
    for _ in range(rng.choice([1, 1, 2, 4])):
        r = rng.random()
        n = (rng.choice(WORDS) + rng.choice(WORDS2) if r < 0.7 else rng.choice(KNOWN) if r < 0.85 else
             rng.choice([x.capitalize() for x in own] + [x.upper() for x in own] + [x + 's' for x in own] + [x[:-1] for x in own]))
        if n not in have:
            have.add(n)
            o['v'].append({'n': n, 'x': plausible(rng)})
    return shuffled(rng, o)


def shuffled(rng, o):
    rng.shuffle(o['v'])
    return o


def element(rng, n, l, t):
    lname = l if rng.random() < 0.6 else COLORS[l]
    if rng.random() < 0.4:
        lname = cased(rng, lname)
    tname = t if rng.random() < 0.6 else cased(rng, t)
    o = O(('name', S(n)), ('layout', S(lname)), ('type', S(tname)))
    if rng.random() < 0.1:
        o['v'].append({'n': rng.choice(['offset', 'Name', 'comment']), 'x': rng.choice([NULL, I(3), S('x'), A([])])})
    elif rng.random() < 0.1:
        strange(rng, o, ['name', 'layout', 'type'])
    return shuffled(rng, o)


def itype(rng):
    t = rng.choice(['UInt16', 'UInt32'])
    return S(t if rng.random() < 0.5 else cased(rng, t))


def document(rng, big=False):
    names = rng.sample(ENAMES, rng.randint(1, 5))
    outs, rest = [], list(names)
    while rest:
        k = rng.randint(1, len(rest))
        outs.append(A([element(rng, n, *rng.choice(VALID)) for n in rest[:k]]))
        rest = rest[k:]
    members = [('vertexFormat', A(outs))]
    r = rng.random()
    if r < 0.5:
        members.append(('indexType', itype(rng)))
    elif r < 0.7:
        members.append(('indexType', NULL))
    r = rng.random()
    if r < 0.75:
        p = rng.choice(PRIMS + ['PatchList', 'PatchList'])
        members.append(('primitiveType', S(p if rng.random() < 0.5 else cased(rng, p))))
        if p == 'PatchList' or rng.random() < 0.2:
            members.append(('patchPoints', I(rng.choice([1, 2, 3, 4, 16, 32, 1000, 2147483647])) if p == 'PatchList' else
                            rng.choice([I(0), I(3), S('x'), NULL, N('1.5')])))
    elif r < 0.85:
        members.append(('primitiveType', NULL))
    streams = []
    for _ in range(rng.randint(1, 3)):
        sn = rng.sample(ENAMES, rng.randint(1, 4))
        m = [('vertexFormat', A([element(rng, n, *rng.choice(VALID)) for n in sn])),
             ('vertexData', S(rng.choice(['data.bin', 'base64:AAAA', '', 'dir/\u00fc.dat', '/abs/file', 'BASE64:'])))]
        r = rng.random()
        if r < 0.45:
            m.append(('indexType', itype(rng)))
            m.append(('indexData', S(rng.choice(['idx.bin', 'base64:AAABAA==', '']))))
        elif r < 0.6:
            m.append(('indexType', NULL))
            if rng.random() < 0.5:
                m.append(('indexData', rng.choice([NULL, I(1), S('ignored')])))
        elif r < 0.7:
            m.append(('indexData', rng.choice([NULL, S('ignored')])))
        o = O(*m)
        if rng.random() < 0.3:
            strange(rng, o, ['vertexFormat', 'vertexData', 'indexType', 'indexData'])
        streams.append(shuffled(rng, o))
    members.append(('vertexStreams', A(streams)))
    if rng.random() < 0.5:
        trs = []
        for _ in range(rng.randint(0, 4)):
            t = rng.choice(TRANSFORMS)
            o = O(('name', S(rng.choice(ENAMES))), ('transform', S(t if rng.random() < 0.5 else cased(rng, t))))
            if rng.random() < 0.2:
                strange(rng, o, ['name', 'transform'])
            trs.append(shuffled(rng, o))
        members.append(('vertexTransforms', A(trs)))
    if rng.random() < 0.15:
        members.append((rng.choice(['comment', 'VertexFormat', 'vertexformat', 'version']), rng.choice([NULL, I(1), O(), A([I(1), A([])])])))
    elif rng.random() < 0.3:
        o = O(*members)
        return strange(rng, o, ['vertexFormat', 'indexType', 'primitiveType', 'patchPoints', 'vertexStreams', 'vertexTransforms'])
    return shuffled(rng, O(*members))


def nodes(d, path=()):
    yield path
    if d['k'] == 'arr':
        for i, x in enumerate(d['v']):
            yield from nodes(x, path + (i,))
    elif d['k'] == 'obj':
        for i, m in enumerate(d['v']):
            yield from nodes(m['x'], path + (i,))


def get(d, path):
    for i in path:
        d = d['v'][i]['x'] if d['k'] == 'obj' else d['v'][i]
    return d


def put(d, path, x):
    if not path:
        return x
    p = get(d, path[:-1])
    if p['k'] == 'obj':
        p['v'][path[-1]]['x'] = x
    else:
        p['v'][path[-1]] = x
    return d


def scalar(rng):
    return rng.choice([NULL, B(True), B(False), I(0), I(1), I(-1), N('1.5'), N('1e2'), N('2147483648'), N('-3000000000'), S(''),
                       S('x'), A([]), O(), A([A([])]), A([O()]), A([NULL]), N('3.0'), N('99999999999999999999')])


def broken(d, rng):
    """One or two structural changes, which may or may not leave the document acceptable."""
    d = copy.deepcopy(d)
    for _ in range(rng.choice([1, 1, 1, 2])):
        ps = list(nodes(d))
        path = rng.choice(ps)
        x = get(d, path)
        r = rng.random()
        if r < 0.3:
            d = put(d, path, scalar(rng))
        elif r < 0.5 and x['k'] == 'obj' and x['v']:
            del x['v'][rng.randrange(len(x['v']))]
        elif r < 0.5 and x['k'] == 'arr' and x['v']:
            del x['v'][rng.randrange(len(x['v']))]
        elif r < 0.6 and x['k'] == 'arr' and x['v']:
            x['v'].insert(rng.randrange(len(x['v']) + 1), copy.deepcopy(rng.choice(x['v'])))
        elif r < 0.7 and x['k'] == 'arr':
            x['v'].insert(rng.randrange(len(x['v']) + 1), scalar(rng))
        elif r < 0.85 and x['k'] == 'str':
            v = x['v']
            x['v'] = rng.choice([v + ' ', ' ' + v, v[:-1], v + v[-1:], v.swapcase(), rng.choice(list(LAYOUTS)), rng.choice(TYPES),
                                 rng.choice(PRIMS), rng.choice(TRANSFORMS), 'UInt16', 'None', 'UInt64', 'uint8', rng.choice(ENAMES)])
        elif r < 0.95 and x['k'] == 'obj' and x['v']:
            m = rng.choice(x['v'])
            names = [y['n'] for y in x['v']]
            new = rng.choice([m['n'].swapcase(), m['n'] + 's', m['n'].capitalize()])
            if new not in names:
                m['n'] = new
        elif x['k'] == 'int':
            x['v'] = rng.choice([0, -1, 1, 2, 2147483647, -2147483647])
    return d


def case(d, rng, pretty=True, stream=False):
    t = text(d, rng if pretty else None)
    t = ws(rng) + t + ws(rng)
    raw = list(t.encode('utf-8'))
    s = {'op': 'cfg', 'text': raw, 'bytes': raw, 'doc': d}
    if stream:
        s['stream'] = True
    return s


def edited(raw, rng):
    raw = list(raw)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        if not raw:
            break
        i = rng.randrange(len(raw))
        r = rng.random()
        if r < 0.35:
            del raw[i]
        elif r < 0.6:
            raw.insert(i, rng.choice(b'{}[],:"\\0123456789-+.eEtfnu \n\t/*\x01\x7f'))
        elif r < 0.8:
            raw[i] = rng.choice(b'{}[],:"\\019-.eEtfnu \x1f')
        elif r < 0.9:
            raw = raw[:i]
        else:
            j = rng.randrange(i, min(len(raw), i + 20)) if i < len(raw) else i
            raw = raw[:j] + raw[i:]
    return raw


def parsed(raw):
    """The parsed form of an edited text, if it is plain JSON still."""
    def tag(x):
        if x is None:
            return NULL
        if isinstance(x, bool):
            return B(x)
        if isinstance(x, (str, list)) and not isinstance(x, Pairs):
            return S(x) if isinstance(x, str) else A([tag(y) for y in x])
        if isinstance(x, Pairs):
            return O(*[(n, tag(y)) for n, y in x])
        if isinstance(x, Num):
            return N(x.text)
        return I(x)

    def integer(t):
        return int(t) if len(t) < 12 and abs(int(t)) < 2 ** 31 else Num(t)

    def constant(t):
        raise ValueError(t)
    try:
        t = bytes(raw).decode('utf-8')
        if '\\ud' in t.lower() or '\\u0000' in t or t[:1] == '\ufeff':
            return None
        return tag(json.loads(t, object_pairs_hook=Pairs, parse_int=integer, parse_float=Num, parse_constant=constant))
    except (ValueError, UnicodeDecodeError, RecursionError):
        return None


class Pairs(list):
    pass


class Num:
    def __init__(self, text):
        self.text = text


FRAGMENTS = ['', ' ', '{}', '[]', 'null', 'true', '1', '"x"', '{', '[', '}', '{"a":1', '{"a":1,}', '[1,]', '[1 2]', '{"a" 1}', '{a:1}',
             "{'a':1}", '{"a":01}', '{"a":1.}', '{"a":.5}', '{"a":+1}', '{"a":1e}', '{"a":-}', '{"a":nul}', '{"a":NaN}', '{"a":Infinity}',
             '{"a":"\\x"}', '{"a":"\\u12G4"}', '{"a":"\\u123"}', '{"a":"abc}', '{}{}', '{} x', '// c\n{}', '{"a":1}/**/', '{"a":tru}', '{,}',
             '{"a":[}', '{"a":{]}', '{"a"::1}', '{"a":1,,"b":2}', '\x00{}', '\u00e9', '{"a":1}}', '[[[]]', '{"a":"\t"}', '{"a":"\n"}']


def config_cases(rng, count):
    steps = []
    for i in range(count):
        d = document(rng)
        r = i % 6
        if r == 0:
            steps.append(case(d, rng, rng.random() < 0.7, rng.random() < 0.3))
        elif r < 4:
            steps.append(case(broken(d, rng), rng, rng.random() < 0.5, rng.random() < 0.2))
        else:
            raw = edited(case(d, rng)['text'], rng)
            if 0 in raw:
                raw = raw[:raw.index(0)]
            s = {'op': 'cfg', 'text': raw, 'bytes': raw, 'stream': rng.random() < 0.3}
            d = parsed(raw)
            if d is not None:
                s['doc'] = d
            steps.append(s)
    for f in FRAGMENTS:
        raw = list(f.encode())
        cut = raw[:raw.index(0)] if 0 in raw else raw
        for stream in (False, True):
            steps.append({'op': 'cfg', 'text': raw, 'bytes': cut, 'refused': True, 'stream': stream})
    out = [{'fam': 'cfg', 'steps': steps[i:i + 12]} for i in range(0, len(steps), 12)]
    return out + huge_cases(rng) + truncations(rng)


def single(d, rng):
    """One fault in one string of an acceptable document, or a missing member."""
    d = copy.deepcopy(d)
    spots = [p for p in nodes(d) if get(d, p)['k'] in ('str', 'obj')]
    path = rng.choice(spots)
    x = get(d, path)
    if x['k'] == 'obj':
        if x['v']:
            del x['v'][rng.randrange(len(x['v']))]
    else:
        v = x['v']
        x['v'] = rng.choice([v + rng.choice(['1', '-', ' ', 'x']), v[1:], v[:-1], 'no such ' + v, rng.choice(list(LAYOUTS)), rng.choice(TYPES),
                             rng.choice(ENAMES), v * 20, 'long ' * rng.choice([13, 26, 52, 103, 210]), '', "it's", '\u00fc' + v])
    return d


def lines(d, rng):
    """Text in several lines, of different length and with non-ASCII letters."""
    raw = list(case(d, rng)['text'])
    for _ in range(rng.randint(0, 6)):
        spots = [i for i in range(len(raw)) if raw[i] in b'{}[],:']
        i = rng.choice(spots)
        raw[i:i] = list(rng.choice([b'\n', b'\n\n', b'\r\n', b'\r', b'\t', b'\n   ', b' ' * 40]))
    return raw


def blame_cases(rng, count):
    """Documents with faults, for what the messages say."""
    steps = []
    for i in range(count):
        d = document(rng)
        r = i % 8
        if r < 3:
            steps.append(case(single(d, rng), rng, rng.random() < 0.5, rng.random() < 0.3))
        elif r < 5:
            steps.append(case(broken(d, rng), rng, rng.random() < 0.5, rng.random() < 0.3))
        else:
            raw = edited(lines(d, rng), rng)
            if 0 in raw:
                raw = raw[:raw.index(0)]
            s = {'op': 'cfg', 'text': raw, 'bytes': raw, 'stream': rng.random() < 0.3}
            d = parsed(raw)
            if d is not None:
                s['doc'] = d
            steps.append(s)
    for f in FRAGMENTS:
        if '\x00' in f:
            continue
        for pre in ('', '\n', ' \n\n\t', '[1,\n2,', '\u00e4'):
            raw = list((pre + f).encode())
            steps.append({'op': 'cfg', 'text': raw, 'bytes': raw, 'stream': rng.random() < 0.5})
    return [{'fam': 'cfg', 'steps': steps[i:i + 12]} for i in range(0, len(steps), 12)] + truncations(rng)


def truncations(rng):
    """Every prefix of a small valid document."""
    d = O(('vertexFormat', A([A([O(('name', S('p')), ('layout', S('X8')), ('type', S('UInt')))])])),
          ('vertexStreams', A([O(('vertexFormat', A([O(('name', S('p')), ('layout', S('X8')), ('type', S('UInt')))])),
                                 ('vertexData', S('d')))])))
    raw = case(d, rng, False)['text']
    steps = [{'op': 'cfg', 'text': raw[:i], 'bytes': raw[:i], 'stream': i % 2 == 0} for i in range(len(raw))]
    return [{'fam': 'cfg', 'steps': steps[i:i + 40]} for i in range(0, len(steps), 40)]


def huge_cases(rng):
    out = []

    def one(text_, rep, tail, wf, **kw):
        s = {'op': 'cfg', 'text': list(text_.encode()), 'rep': rep, 'tail': list(tail.encode()), 'wf': wf}
        s.update(kw)
        out.append({'fam': 'cfg', 'steps': [s]})
    for n in (1000, 100000, 1000000):
        one('[', n, '', 'no', refused=True)
        one('{"a":', n, '', 'no', refused=True)
        one('[', n, ']' * min(n, 1000), 'no' if n > 1000 else 'yes', refused=True)
        one('[{"vertexFormat":', n, '', 'no', refused=True, stream=True)
        one('"', n, '', 'no', refused=True)
    for n in (1000, 100000):
        one('[' * n + ']' * n, 1, '', 'yes', refused=True)
        one('{"a":' * n + '1' + '}' * n, 1, '', 'yes', refused=True, stream=True)
        one('{"vertexFormat":' + '[' * n + ']' * n + '}', 1, '', 'yes', refused=True)
    d = document(rng)
    one(' ', 200000, text(d, None), 'yes', doc=d)
    one('\n', 200000, text(d, None), 'yes', doc=d, stream=True)
    for n in (4094, 4095, 4096, 4097, 8192, 70000):
        d = document(rng)
        for m in d['v']:
            if m['n'] == 'vertexStreams':
                for s in m['x']['v']:
                    for q in s['v']:
                        if q['n'] == 'vertexData':
                            q['x'] = S('base64:' + 'QUJD' * (n // 4) + 'x' * (n % 4))
        one(text(d, None), 1, '', 'yes', doc=d, stream=n % 2 == 0)
        # Documents whose text ends around a multiple of the reading buffer.
        d = document(rng)
        t = text(d, None)
        pad = (-len(t.encode())) % 4096 + (n % 3) - 1
        if pad > 0:
            one(' ', pad, t, 'yes', doc=d, stream=True)
    return out
