"""Runs the command line tool in scratch directories and records what it did. No verdicts here.

Every run gets its own directory below a scratch directory in /tmp, runs as an unprivileged user
there and leaves nothing behind.
"""
import base64
import concurrent.futures
import hashlib
import itertools
import json
import os
import random
import re
import shutil
import struct
import subprocess
import tempfile

import gen_cfg as cfg
import gen_conv as gc
from build import build
from core import ENV_SAN, harness

NOBODY = 65534


def can_drop():
    try:
        return subprocess.run(['/bin/true'], user=NOBODY, group=NOBODY, extra_groups=[]).returncode == 0
    except (PermissionError, OSError, subprocess.SubprocessError):
        return False


# ---------------------------------------------------------------- from a converter scenario to the tool's input

def meshes(scenario):
    """The tool's input for a recorded converter scenario: config parts and the streams' raw data."""
    new = scenario['steps'][0]
    streams, trs = [], []
    for s in scenario['steps'][1:]:
        if s['op'] == 'add':
            w = {'UInt16': 2, 'UInt32': 4, 'None': 0}[s['itype']]
            idx = b''.join((i & ((1 << 8 * w) - 1)).to_bytes(w, 'little') for i in s['idx']) if w else b''
            streams.append({'fmt': s['fmt'], 'v': bytes(s['data']), 'itype': s['itype'], 'i': idx})
        elif s['op'] == 'tr':
            trs.append((s.get('name') if 'name' in s else new['out'][s['si']][s['ei']]['n'], s['t']))
    return {'out': new['out'], 'itype': new['itype'], 'prim': new['prim'], 'patch': new['patch'], 'streams': streams, 'trs': trs}


def cased(rng, s):
    return ''.join(rng.choice((c.lower(), c.upper(), c)) for c in s) if rng and rng.random() < 0.3 else s


def document(m, data, rng):
    """The configuration for a mesh; data gives the data strings as (vertex, index) per stream."""
    S, I, A, O = cfg.S, cfg.I, cfg.A, cfg.O

    def fmt(f):
        return A([O(('name', S(e['n'])), ('layout', S(cased(rng, e['l']))), ('type', S(cased(rng, e['t'])))) for e in f])
    mem = [('vertexFormat', A([fmt(f) for f in m['out']]))]
    if m['itype'] != 'None':
        mem.append(('indexType', S(cased(rng, m['itype']))))
    elif rng and rng.random() < 0.3:
        mem.append(('indexType', cfg.NULL))
    if m['prim'] != 'TriangleList' or not rng or rng.random() < 0.5:
        mem.append(('primitiveType', S(cased(rng, m['prim']))))
    if m['prim'] == 'PatchList':
        mem.append(('patchPoints', I(m['patch'])))
    st = []
    for s, (v, i) in zip(m['streams'], data):
        o = [('vertexFormat', fmt(s['fmt'])), ('vertexData', S(v))]
        if s['itype'] != 'None':
            o += [('indexType', S(s['itype'])), ('indexData', S(i))]
        elif rng and rng.random() < 0.2:
            o.append(('indexType', cfg.NULL))
        st.append(O(*o))
    mem.append(('vertexStreams', A(st)))
    if m['trs'] or (rng and rng.random() < 0.2):
        mem.append(('vertexTransforms', A([O(('name', S(n)), ('transform', S(cased(rng, t)))) for n, t in m['trs']])))
    d = O(*mem)
    return cfg.shuffled(rng, d) if rng else d


# ---------------------------------------------------------------- one run

class Run:
    """A directory for one run; everything the run needs is put there."""

    def __init__(self, root, name):
        self.dir = os.path.join(root, name)
        os.mkdir(self.dir)
        self.cwd = os.path.join(self.dir, 'cwd')
        os.mkdir(self.cwd)
        self.own = True

    def put(self, path, data=b''):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)

    def release(self, drop):
        if drop:
            for d, _, files in os.walk(self.dir):
                os.chown(d, NOBODY, NOBODY)
                for f in files:
                    os.lchown(os.path.join(d, f), NOBODY, NOBODY)

    def sealed(self, path, mode):
        os.chown(path, 0, 0)
        os.chmod(path, mode)

    def close(self):
        for d, dirs, files in os.walk(self.dir):
            os.chmod(d, 0o700)
        shutil.rmtree(self.dir, ignore_errors=True)


def execute(run, exe, args, stdin, drop, stdout='pipe', quota=None, stdin_file=False, timeout=60):
    """Returns (exit status, negative if it did not exit by itself, stdout, stderr)."""
    script = 'trap "" XFSZ; ' if quota is not None else ''
    script += 'trap "" PIPE; ' if stdout == 'pipe-closed' else ''
    script += 'exec prlimit --core=0 %s -- "$@"' % ('--fsize=%d' % quota if quota is not None else '')
    script += ' >&-' if stdout == 'closed' else ''
    e = {'PATH': '/usr/bin:/bin', 'HOME': run.cwd, 'LC_ALL': 'C'}
    e.update(ENV_SAN)
    opened, out = [], subprocess.PIPE
    try:
        if stdout == 'full':
            out = open('/dev/full', 'wb')
            opened.append(out)
        elif stdout == 'pipe-closed':
            r, w = os.pipe()
            os.close(r)
            out = os.fdopen(w, 'wb')
            opened.append(out)
        inp = subprocess.PIPE
        if stdin is None:
            inp = subprocess.DEVNULL
        elif stdin_file:
            p = os.path.join(run.dir, 'stdin')
            run.put(p, stdin)
            inp = open(p, 'rb')
            opened.append(inp)
        kw = {'user': NOBODY, 'group': NOBODY, 'extra_groups': []} if drop else {}
        p = subprocess.Popen(['/bin/sh', '-c', script, 'sh', exe] + args, cwd=run.cwd, env=e, stdin=inp, stdout=out,
                             stderr=subprocess.PIPE, **kw)
        try:
            so, se = p.communicate(stdin if inp == subprocess.PIPE else None, timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return -999, b'', b''
        return p.returncode, so or b'', se or b''
    finally:
        for f in opened:
            try:
                f.close()
            except OSError:
                pass


# ---------------------------------------------------------------- recording

LONG = 100000


def octets(b):
    """Bytes as a list; of long ones only the length and digests of their pieces."""
    b = bytes(b)
    if len(b) <= LONG:
        return list(b)
    return [-len(b)] + [x for i in range(0, len(b), 65536) for x in hashlib.sha256(b[i:i + 65536]).digest()]


def double(x):
    b = struct.unpack('<Q', struct.pack('<d', x))[0]
    sign, e, m = b >> 63, (b >> 52) & 0x7FF, b & ((1 << 52) - 1)
    if e == 0x7FF:
        return [2 if m else 1, sign, 0, []]
    if e:
        m |= 1 << 52
    else:
        e = 1
    e -= 1075
    if m == 0:
        return [0, sign, 0, []]
    while not m & 1:
        m >>= 1
        e += 1
    limbs = []
    while m:
        limbs.append(m & 0x3FFF)
        m >>= 14
    return [0, sign, e, limbs]


def data_string(run, v, outdir):
    """What a data string of the document refers to."""
    d = {'k': 'str', 'v': v if len(v) < 200 else v[:200] + '...', 'codes': [], 'path': '', 'inside': False,
         'raw': {'ok': False, 'bytes': []}, 'file': {'ok': False, 'bytes': []}}
    if v.startswith('base64:'):
        if len(v) < 1500:
            d['codes'] = [ord(c) for c in v]
        else:
            try:
                raw = base64.b64decode(v[7:], validate=True)
                d['raw'] = {'ok': base64.b64encode(raw).decode() == v[7:], 'bytes': octets(raw)}
            except ValueError:
                pass
    if outdir is not None:
        p = os.path.join(run.cwd, v)
        d['path'] = os.path.realpath(p)
        d['inside'] = os.path.dirname(d['path']) == os.path.realpath(os.path.join(run.cwd, outdir))
        try:
            if os.path.isfile(p):
                with open(p, 'rb') as f:
                    d['file'] = {'ok': True, 'bytes': octets(f.read())}
        except (OSError, ValueError):
            pass
    return d


def parse(text, run, outdir):
    """The document on stdout in tagged form, or None."""
    def tag(x, name=None):
        if x is None:
            return {'k': 'null'}
        if isinstance(x, bool):
            return {'k': 'bool', 'v': x}
        if isinstance(x, cfg.Pairs):
            return {'k': 'obj', 'v': [{'n': n, 'x': tag(y, n)} for n, y in x]}
        if isinstance(x, list):
            return {'k': 'arr', 'v': [tag(y) for y in x]}
        if isinstance(x, str):
            return data_string(run, x, outdir) if name in ('vertexData', 'indexData') else {'k': 'str', 'v': x}
        return {'k': 'int' if isinstance(x, int) else 'num', 'v': double(float(x))}

    def constant(t):
        raise ValueError(t)
    try:
        return tag(json.loads(text.decode('utf-8'), object_pairs_hook=cfg.Pairs, parse_constant=constant))
    except (ValueError, OverflowError, RecursionError):
        return None


def record(run, world, ref, outdir, result, names=None):
    code, so, se = result
    ev = {'op': 'run', 'w': world, 'exit': code, 'said': bool(se.strip()), 'hasref': ref is not None}
    if names is not None:
        ev['names'] = dict(names, out=outdir or '')
        ev['lines'] = [x[:5000] for x in se.decode('latin-1').split('\n') if x.strip()][:20]
    if ref is not None:
        ev['ref'] = ref
    doc = parse(so, run, outdir) if so.strip() else None
    if doc is not None:
        ev['so'], ev['doc'] = 'json', doc
    else:
        ev['so'] = 'other' if b'{' in so else 'none'
    return ev


def reference(line):
    """The library's results from a recorded scenario."""
    steps = line['steps']
    if line['died']:
        return None
    obs = steps[-1]
    ref = {'oks': [s['ok'] for s in steps if s['op'] in ('new', 'add', 'tr', 'conv')], 'out': steps[0]['out'],
           'itype': steps[0]['itype'], 'vcount': 0, 'bufs': [], 'verts': [], 'bounds': []}
    if all(ref['oks']):
        for b in obs['bufs']:
            w = 2 if b['ty'] == 'UInt16' else 4
            if w * len(b['i']) > LONG:
                m = (1 << 8 * w) - 1
                b['packed'] = octets(b''.join((i & m).to_bytes(w, 'little') for i in b['i']))
                b['i'] = []
        ref.update({'vcount': obs['vcount'], 'bufs': obs['bufs'], 'verts': [octets(v) for v in obs['verts']],
                    'bounds': [[{'mn': b['mn'], 'mx': b['mx']} for b in f] for f in obs['bpos']]})
    return ref


def references(ctx, scenarios, name):
    tr, n, _ = harness(ctx, scenarios, name)
    res = []
    with open(tr) as f:
        for line in f:
            res.append(reference(json.loads(line)))
    os.unlink(tr)
    return res + [None] * (len(scenarios) - n)


class Sandbox:
    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='vfctool.', dir='/tmp')
        os.chmod(self.root, 0o755)
        self.drop = os.geteuid() == 0 and can_drop()
        self.exes = {}

    def exe(self, variant):
        if variant not in self.exes:
            p = os.path.join(self.root, 'vfc-' + variant)
            shutil.copy(build('vfc', variant), p)
            os.chmod(p, 0o755)
            self.exes[variant] = p
        return self.exes[variant]

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def run_all(jobs, fn):
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(fn, jobs))


# ---------------------------------------------------------------- C21: variants of one input

def world(inn, out, faults=()):
    return {'in': inn, 'out': out, 'ns': 1, 'idx': False, 'nv': 1, 'ni': 0, 'tr': False, 'help': False,
            'faults': [list(f) for f in faults]}


DIRS = ['', 'd/', 'a b/c/', './', 'x/../', '\u00fcml/']


def deliver(sb, name, mesh, ref, v, rng, variant='asan'):
    """Runs one variant of delivering a mesh to the tool; v is a dictionary of choices."""
    run = Run(sb.root, name)
    try:
        base = run.cwd
        if v['in'] == 'file':
            conf = {'plain': 'conf.json', 'sub': 'cfg dir/in.json', 'abs': os.path.join(run.dir, 'else', 'c.json'),
                    'dot': './conf.json', 'up': '../other/c.json', 'long': '/'.join(['sub' * 60] * 6) + '/c.json'}[v['conf']]
            base = os.path.join(run.cwd, os.path.dirname(conf))
            os.makedirs(base, exist_ok=True)
        data = []
        for k, s in enumerate(mesh['streams']):
            pair = []
            for what, raw in (('v', s['v']), ('i', s['i'])):
                kind = v['data'][(2 * k + (what == 'i')) % len(v['data'])]
                if kind == 'b64':
                    pre = rng.choice(['base64:', 'base64:', 'BASE64:', 'Base64:'])
                    pair.append(pre + base64.b64encode(raw).decode())
                    continue
                rel = rng.choice(DIRS) + '%s%d%s' % (what, k, rng.choice(['.bin', '', '.base64:', ' .dat']))
                if rng.random() < 0.25:
                    # Names that start almost like embedded data.
                    rel = '%s%s%d' % (rng.choice(['base64', 'base64.', 'Base64_', 'base64/', 'BASE64 ', 'base6', 'base64;']), what, k)
                if kind == 'long':
                    rel = '/'.join(['dir' * 50] * 5) + '/' + rel
                p = os.path.join(run.dir, 'abs', rel) if kind == 'abs' else os.path.join(base, rel)
                if '/../' in p:
                    os.makedirs(p.split('/../')[0], exist_ok=True)
                run.put(p, raw)
                pair.append(p if kind == 'abs' else rel)
            data.append(pair)
        text = cfg.text(document(mesh, data, rng), rng if v['fancy'] else None).encode('utf-8')
        outdir = None
        oargs = []
        if v['out'] != 'embed':
            outdir = {'new': 'out', 'nested': 'o/p q/r', 'abs': os.path.join(run.dir, 'absout'), 'dot': '.', 'slash': 'out/',
                      'exists': 'have', 'stale': 'have', 'long': '/'.join(['outdir' * 30] * 6), 'up': 'n/../m'}[v['out']]
            if v['out'] in ('exists', 'stale'):
                os.makedirs(os.path.join(run.cwd, outdir))
            if v['out'] == 'stale':
                for n in ('vertices.0.dat', 'vertices.1.dat', 'indices.0.dat', 'indices.1.dat'):
                    run.put(os.path.join(run.cwd, outdir, n), b'\xAA' * 70000)
            oargs = [rng.choice(['-o', '--output']), outdir]
        iargs = []
        if v['in'] == 'file':
            run.put(os.path.join(run.cwd, conf), text)
            iargs = [rng.choice(['-i', '--input']), conf]
        args = iargs + oargs if rng.random() < 0.5 else oargs + iargs
        run.release(sb.drop)
        res = execute(run, sb.exe(variant), args, None if v['in'] == 'file' else text, sb.drop, stdin_file=v['in'] == 'redirect')
        return record(run, world('file' if v['in'] == 'file' else 'stdin', 'embed' if outdir is None else 'dir'), ref, outdir, res)
    finally:
        run.close()


def variant_of(rng):
    return {'in': rng.choice(['file', 'file', 'stdin', 'redirect']),
            'conf': rng.choice(['plain', 'plain', 'sub', 'abs', 'dot', 'up', 'long']),
            'data': [rng.choice(['b64', 'b64', 'rel', 'abs', 'long']) for _ in range(rng.randint(1, 4))],
            'out': rng.choice(['embed', 'embed', 'embed', 'new', 'nested', 'abs', 'dot', 'slash', 'exists', 'stale', 'stale', 'long', 'up']),
            'fancy': rng.random() < 0.5}


def deliveries(ctx, sb, items, name):
    """items: dictionaries with scenario, variant, build and key. Returns one trace line for each."""
    uniq = []
    seen = {}
    for it in items:
        if id(it['scenario']) not in seen:
            seen[id(it['scenario'])] = len(uniq)
            uniq.append(it['scenario'])
    refs = references(ctx, uniq, name)
    parts = [meshes(s) for s in uniq]

    def one(k):
        it = items[k]
        i = seen[id(it['scenario'])]
        return deliver(sb, 'r%d' % k, parts[i], refs[i], it['variant'], random.Random(it['key']), it['build'])
    for b in sorted(set(it['build'] for it in items)):
        sb.exe(b)
    return run_all(range(len(items)), one)


def delivery_items(scenarios, rng, each, build='asan'):
    return [{'scenario': s, 'variant': variant_of(rng), 'build': build, 'key': '%d' % rng.getrandbits(60)}
            for s in scenarios for _ in range(each)]


# ---------------------------------------------------------------- C22: worlds with faults

def world_scenario(w, rng, n):
    """A converter scenario with the shape of a world."""
    F, G, H = ('X32Y32', 'Float'), ('X16', 'UNorm'), ('X8', 'UInt')
    # Two index buffers need more vertices than 16 bits can name.
    if w['ni'] == 2:
        n = 65540
        F = ('X32', 'UInt')
    names = [('p', F), ('q', G), ('r', H)]
    faults = {(f[0], f[1]): f[2] for f in w['faults']}
    fmts = [[gc.el('p', *F), gc.el('q', *G), gc.el('r', *H)]] if w['ns'] == 1 else \
        [[gc.el('p', *F)], [gc.el('q', *G), gc.el('r', *H)]]
    if w['ni'] == 2:
        outs = [[gc.el('p', *F)], [gc.el('r', *H)]][:w['nv']]
    else:
        outs = [[gc.el(m, *f) for m, f in names]] if w['nv'] == 1 else [[gc.el('q', *G)], [gc.el('p', *F), gc.el('r', *H)]]
    if ('convert', 0) in faults:
        outs[-1].append(gc.el('nobody', *H))
    # What is wrong with a stream counts even if nothing of it is wanted.
    struck = [k for (st, k), kind in faults.items() if st in ('vload', 'iload', 'add') and kind != 'range']
    if w['ns'] == 2 and w['ni'] < 2 and len(set(struck)) == 1 and ('result', 0) not in faults and rng.random() < 0.4 and \
            not any(kind == 'range' for kind in faults.values()):
        fmts = [[gc.el('p', *F), gc.el('q', *G), gc.el('r', *H)], [gc.el('x', *G), gc.el('y', *H)]]
        if struck[0] == 1:
            fmts.reverse()
    steps = [gc.new(outs, 'None' if w['ni'] == 0 else 'UInt16', 'PointList')]
    for k, f in enumerate(fmts):
        vcount = n
        if w['ni'] == 2:
            data = b''.join(b''.join(j.to_bytes(gc.size(e['l']), 'little') if e['n'] == 'p' else bytes(gc.size(e['l'])) for e in f)
                            for j in range(n))
        elif n > 100:
            data = b''.join(bytes(gc.vertices(f, 50, rng, 'unit')) for _ in range(n // 50))
        else:
            data = bytes(gc.vertices(f, n, rng, 'unit'))
        data = bytearray(data)
        if ('result', 0) in faults and k == 0:
            data[0:4] = struct.pack('<f', rng.choice([float('inf'), float('-inf'), float('inf')]))
        bad = faults.get(('add', k + 1))
        if w['idx']:
            idx = list(range(n))
            if bad == 'range':
                idx[rng.choice([0, n // 2, n - 1])] = rng.choice([n, n + 7, 65535 if n < 60000 else n])
            if bad == 'count':
                idx = idx[:-1] if rng.random() < 0.5 else idx + [0]
            if rng.random() < 0.5 and n < 60000 and not bad:
                rng.shuffle(idx)
            steps.append(gc.add(f, data, vcount, 'UInt32' if n > 60000 or rng.random() < 0.5 else 'UInt16', idx))
        else:
            if bad == 'count':
                data, vcount = data[:-gc.fsize(f)], n - 1
            steps.append(gc.add(f, data, vcount))
    if w['tr']:
        steps.append({'op': 'tr', 't': 'Bounds', 'name': 'p' if w['ni'] == 2 else 'r'})
        if ('transforms', 0) in faults:
            steps.insert(len(steps) - (rng.random() < 0.6), {'op': 'tr', 't': 'Identity', 'name': 'nobody'})
    return {'fam': 'conv', 'steps': steps + [gc.CONV, gc.OBSB]}


def enact(sb, name, w, scenario, ref, rng, variant='asan'):
    """Builds the world of a scenario, runs the tool in it and records the run."""
    run = Run(sb.root, name)
    try:
        m = meshes(scenario)
        faults = {(f[0], f[1]): f[2] for f in w['faults']}
        late = []           # done after the ownership is given away
        base = run.cwd
        conf = rng.choice(['conf.json', 'in/conf.json', os.path.join(run.dir, 'c', 'conf.json')])
        if w['in'] == 'file':
            base = os.path.join(run.cwd, os.path.dirname(conf))
            os.makedirs(base, exist_ok=True)
        data = []
        for k, s in enumerate(m['streams']):
            pair = []
            for what, raw in (('vload', s['v']), ('iload', s['i'])):
                bad = faults.get((what, k + 1))
                p = os.path.join(base, '%s%d' % (what, k))
                b64 = base64.b64encode(raw).decode()
                if bad == 'badBase64':
                    i = rng.randrange(len(b64))
                    pair.append('base64:' + b64[:i] + rng.choice('!-_ \n\u00e9=') + b64[i + (rng.random() < 0.5):] + '*')
                    continue
                if bad == 'cutBase64':
                    pair.append('base64:' + b64[:len(b64) - rng.choice([1, 2, 3])] if rng.random() < 0.7 else 'base64:' + b64 + 'A')
                    continue
                if bad == 'size':
                    raw = raw[:-1] if rng.random() < 0.5 else raw + b'\x00'
                if bad is None and rng.random() < 0.5 or bad == 'size' and rng.random() < 0.5:
                    pair.append('base64:' + base64.b64encode(raw).decode())
                    continue
                if bad == 'missing':
                    pair.append(rng.choice(['nofile', 'nodir/file', '/nonexistent-dir/x', 'base64', '']))
                    continue
                if bad == 'directory':
                    os.makedirs(p)
                elif bad == 'loop':
                    os.symlink(p, p)
                else:
                    run.put(p, raw)
                    if bad == 'unreadable':
                        late.append((p, 0))
                pair.append(p if rng.random() < 0.3 else os.path.basename(p))
            data.append(pair)
        text = cfg.text(document(m, data, None), None)
        names = {'input': conf if w['in'] == 'file' else 'stdin', 'v': [p[0] for p in data], 'i': [p[1] for p in data], 'arg': '',
                 'fmts': [[e['n'] for e in s['fmt']] for s in m['streams']]}
        bad = faults.get(('config', 0))
        if bad == 'empty':
            text = rng.choice(['', ' ', '\n'])
        elif bad == 'malformed':
            text = rng.choice(['{', 'x', text + '}', text.replace(':', ';', 1), '[' + text, text[1:], '[' * 100000])
        elif bad == 'truncated':
            text = text[:rng.randrange(1, len(text))]
        elif bad == 'badEnum':
            text = text.replace('"PointList"', '"PointsList"', 1)
        elif bad == 'badMember':
            text = text.replace('"vertexStreams"', rng.choice(['"vertexstreams"', '"streams"']), 1)
        args, stdin = [], None
        if w['in'] == 'file':
            p = os.path.join(run.cwd, conf)
            if bad == 'directory':
                os.makedirs(p)
            elif bad == 'notDirectory':
                run.put(p, text.encode())
                conf += '/more.json'
                names['input'] = conf
            elif bad != 'missing':
                run.put(p, text.encode())
                if bad == 'unreadable':
                    late.append((p, 0))
            args += ['-i', conf]
        else:
            stdin = text.encode()
        outdir, quota = None, None
        if w['out'] == 'dir':
            outdir = rng.choice(['out', 'o/p/q', os.path.join(run.dir, 'oo')])
            full = os.path.join(run.cwd, outdir)
            bad = faults.get(('mkdir', 0))
            if bad == 'file':
                run.put(full, b'x')
            elif bad == 'parentFile':
                run.put(full, b'x')
                outdir += rng.choice(['/sub', '/sub/sub2', '/'])
            elif bad == 'sealed':
                os.makedirs(full)
                late.append((full, 0o555))
                outdir += '/sub'
            elif bad == 'loop':
                os.makedirs(os.path.dirname(full), exist_ok=True)
                os.symlink(full, full)
                outdir += '/sub'
            elif bad == 'long':
                outdir += '/' + 'n' * 300
            for (step, i), kind in faults.items():
                if bad or step not in ('vwrite', 'iwrite'):
                    continue
                os.makedirs(full, exist_ok=True)
                p = os.path.join(full, '%s.%d.dat' % ('vertices' if step == 'vwrite' else 'indices', i - 1))
                if kind == 'directory':
                    os.makedirs(p)
                elif kind == 'full':
                    os.symlink('/dev/full', p)
                elif kind == 'loop':
                    os.symlink(p, p)
                elif kind == 'sealed':
                    run.put(p, b'old')
                    late.append((p, 0o444))
                elif kind == 'sealedDir':
                    late.append((full, 0o555))
                elif kind == 'quota':
                    quota = rng.choice([1, 3, 5])
            args = args + ['-o', outdir] if rng.random() < 0.5 else ['-o', outdir] + args
        bad = faults.get(('args', 0))
        if bad == 'unknown':
            names['arg'] = rng.choice(['--bogus', '-x', 'file.json', '', '-', '--inputs', '-io'])
            args.insert(rng.choice([0, len(args)]), names['arg'])
        elif bad == 'noInput':
            args.append(rng.choice(['-i', '--input']))
        elif bad == 'noOutput':
            args.append(rng.choice(['-o', '--output']))
        if w['help']:
            args.insert(rng.randrange(len(args) // 2 + 1) * 2, rng.choice(['-h', '--help']))
        run.release(sb.drop)
        for p, mode in late:
            run.sealed(p, mode)
        so = {'full': 'full', 'closed': 'closed', 'pipe': 'pipe-closed', None: 'pipe'}[faults.get(('stdout', 0))]
        res = execute(run, sb.exe(variant), args, stdin, sb.drop, so, quota, stdin_file=rng.random() < 0.3 and quota is None)
        return record(run, w, ref, outdir, res, names)
    finally:
        run.close()


NEEDS_DROP = {'unreadable', 'sealed', 'sealedDir'}


def enactments(ctx, sb, items, name):
    """items: dictionaries with world, build and key. Returns one trace line for each."""
    scen = []
    for it in items:
        w = it['world']
        r = random.Random(it['key'] + 's')
        scen.append(world_scenario(w, r, r.choice([2, 5, 12] if not w['faults'] else [2, 5, 12, 6000])))
    plain = [i for i, it in enumerate(items) if not it['world']['faults'] and not it['world']['help']]
    refs = [None] * len(items)
    if plain:
        for i, r in zip(plain, references(ctx, [scen[i] for i in plain], name)):
            refs[i] = r
    for b in sorted(set(it['build'] for it in items)):
        sb.exe(b)
    return run_all(range(len(items)), lambda i: enact(sb, 'w%d' % i, items[i]['world'], scen[i], refs[i],
                                                      random.Random(items[i]['key']), items[i]['build']))


def world_items(worlds, rng, build='asan'):
    return [{'world': w, 'build': build, 'key': '%d' % rng.getrandbits(60)} for w in worlds]


def pick_worlds(worlds, single, pairs, rng, per, npairs):
    """Every kind of fault in every mode some times, every faultless world, and some pairs of faults."""
    groups = {}
    for w in single:
        groups.setdefault((tuple(w['faults'][0]), w['in'], w['out'], w['ni'] == 2), []).append(w)
    res = [w for w in worlds if w['ni'] < 2]
    for k in sorted(groups):
        g = groups[k]
        n = per if not k[3] else 1
        if k[3] and k[0] not in (('iwrite', 2, 'full'), ('iwrite', 2, 'directory'), ('iwrite', 1, 'sealed'), ('stdout', 0, 'full')):
            continue
        res += rng.sample(g, min(n, len(g)))
    res += rng.sample(pairs, min(npairs, len(pairs)))
    helps = [dict(w, help=True) for w in rng.sample(res[:40], 12)]
    return res + helps


def possible(worlds):
    """Without an unprivileged user nothing is unreadable."""
    if os.geteuid() == 0 and can_drop():
        return worlds
    return [w for w in worlds if not any(f[2] in NEEDS_DROP for f in w['faults'])]


def record_tool(ctx, items, name):
    with Sandbox() as sb:
        evs = (deliveries if 'variant' in items[0] else enactments)(ctx, sb, items, name)
    return [{'steps': [e], 'died': ''} for e in evs]


# ---------------------------------------------------------------- C27: command lines

GOOD = ['a.json', 'b c.json', '-h', 'stdin', '', 'sub/d.json', '--output']
OUTS = ['out', 'o 2', '-i', 'have']
FILES = ['plain.txt']
LONE = ['-x', '--inputs', '-input', '-oout', '--output=out', '-', '--', '-H', '--HELP', 'help', '-ho', '-ih', '--input ', ' -i', '-?', '/h', '-help']
WORDS = ['-h', '--help', '-i', '--input', '-o', '--output']


def small_config(n):
    data = base64.b64encode(bytes(range(n))).decode()
    S, A, O = cfg.S, cfg.A, cfg.O
    f = A([O(('name', S('p')), ('layout', S('X8')), ('type', S('UInt')))])
    return cfg.text(O(('vertexFormat', A([f])), ('indexType', S('UInt16')), ('primitiveType', S('PointList')),
                      ('vertexStreams', A([O(('vertexFormat', f), ('vertexData', S('base64:' + data)))]))), None).encode()


def command(sb, name, it):
    run = Run(sb.root, name)
    try:
        for k, g in enumerate(GOOD):
            if g:
                run.put(os.path.join(run.cwd, g), small_config(k + 1))
        for f in FILES:
            run.put(os.path.join(run.cwd, f), b'hello')
        os.mkdir(os.path.join(run.cwd, 'have'))

        def paths():
            return {os.path.relpath(os.path.join(d, x), run.cwd) for d, ds, fs in os.walk(run.cwd) for x in ds + fs}
        before = paths()
        run.release(sb.drop)
        exe = sb.exe('asan')
        argv0 = it['arg0']
        e = {'PATH': '/usr/bin:/bin', 'HOME': run.cwd, 'LC_ALL': 'C'}
        e.update(ENV_SAN)
        kw = {'user': NOBODY, 'group': NOBODY, 'extra_groups': []} if sb.drop else {}
        p = subprocess.Popen([argv0] + it['args'], executable=exe, cwd=run.cwd, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, **kw)
        try:
            so, se = p.communicate(small_config(GOOD.index('') + 1), timeout=60)
            code = p.returncode
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            so, se, code = b'', b'', -999
        t = so.decode('utf-8', 'replace')
        ev = {'op': 'args', 'args': it['args'], 'arg0': list(argv0.encode()), 'exit': code, 'said': bool(se.strip()), 'count': -1, 'went': '?',
              'configs': [{'n': g, 'c': k + 1} for k, g in enumerate(GOOD)], 'files': FILES + [g for g in GOOD if g] + ['sub/d.json'],
              'there': ['have', 'sub'], 'words': [], 'first': [], 'so': 'text' if so.strip() else 'none'}
        try:
            d = json.loads(t)
            ev['so'] = 'json'
            ev['count'] = d['vertexCount']
            v = d['vertices'][0]['vertexData']
            ev['went'] = '' if v.startswith('base64:') else os.path.dirname(v)
        except (ValueError, KeyError, IndexError, TypeError):
            if ev['so'] == 'text':
                ev['words'] = sorted(set(re.findall(r'[A-Za-z0-9_]+', t)))
                ev['first'] = list(so.split(b'\n')[0][:300])
        ev['touched'] = sorted(paths() - before)
        return ev
    finally:
        run.close()


def command_items(rng, quick):
    items = []

    def one(args):
        items.append({'args': args, 'arg0': rng.choice(['vfc', '/usr/bin/vfc', './vfc', 'a b/my tool', 'x', '/x', '../vfc.exe', 'v\u00fcc'])})
    # Every short line over the options and a few names.
    for n in range(4 if quick else 5):
        for a in itertools.product(WORDS + ['a.json', '-x', ''], repeat=n):
            one(list(a))
    for x in LONE:
        for a in ([x], ['-i', 'a.json', x], [x, '-h'], ['-h', x], ['-i', x], ['-o', 'out', x, '-i', 'a.json']):
            one(a)
    for _ in range(600 if quick else 6000):
        a = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.45:
                a += [rng.choice(['-i', '--input']), rng.choice(GOOD + GOOD + ['missing.json', 'have', 'plain.txt'])]
            elif r < 0.8:
                a += [rng.choice(['-o', '--output']), rng.choice(OUTS + OUTS + ['', 'plain.txt', 'a.json', '-h'])]
            elif r < 0.87:
                a.append(rng.choice(['-h', '--help']))
            elif r < 0.93:
                a.append(rng.choice(LONE + ['a.json', 'out', '']))
            elif r < 0.97:
                a.append(rng.choice(WORDS))
            if r > 0.97 and a:
                del a[rng.randrange(len(a))]
        one(a)
    return items


def record_commands(ctx, items, name):
    with Sandbox() as sb:
        sb.exe('asan')
        evs = run_all(range(len(items)), lambda i: command(sb, 'c%d' % i, items[i]))
    return [{'steps': [e], 'died': ''} for e in evs]
