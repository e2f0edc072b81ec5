"""Running TLC and the harness, and collecting what a check covered."""
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

from build import VERIF, build, BuildError  # noqa: F401

SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
ENV_SAN = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0',
           'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0',
           'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=0'}


class CheckError(Exception):
    """The check itself failed; says nothing about the property."""


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=prop + '.', dir=base)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.notes = {}
        self.models = []
        self.violations = []
        self.lock = threading.Lock()
        self.n = 0

    def rng(self, name):
        return random.Random('%s/%s/%d' % (self.prop, name, self.seed))

    def path(self, name):
        with self.lock:
            self.n += 1
            return os.path.join(self.dir, '%02d-%s' % (self.n, name))

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def pick(self, q, t):
        return q if self.quick else t


STATS = re.compile(r'^(\d+) states generated, (\d+) distinct states found, (\d+) states left', re.M)


def tlc(ctx, module, cfg, env=None, workers=8, timeout=700, heap='6g', extra=()):
    """Runs TLC; returns (output, generated, distinct)."""
    cfgfile = ctx.path(module + '.cfg')
    with open(cfgfile, 'w') as f:
        f.write(cfg)
    meta = ctx.path(module + '.meta')
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseParallelGC', '-Djava.io.tmpdir=' + ctx.dir, '-Xmx' + heap, '-Xss64m', '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfgfile] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, env=e, cwd=ctx.dir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError('TLC on %s did not finish within %d s' % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout.decode(errors='replace')
    m = STATS.findall(out)
    if r.returncode != 0 or not m or 'No error has been found' not in out:
        lines = [x for x in out.splitlines() if not x.startswith(('Linting', 'Parsing', 'Semantic'))]
        raise CheckError('TLC failed on %s (exit %d):\n%s' % (module, r.returncode, '\n'.join(lines[:60])))
    return out, int(m[-1][0]), int(m[-1][1])


def model(ctx, module, cfg, what, **kw):
    """Checks a model of the design exhaustively."""
    t = time.time()
    out, gen, distinct = tlc(ctx, module, cfg, **kw)
    if distinct <= 1:
        raise CheckError('model %s has no behaviour' % module)
    with ctx.lock:
        ctx.states += distinct
        ctx.transitions += gen
        ctx.models.append({'module': module, 'what': what, 'distinct_states': distinct,
                           'states_generated': gen, 'seconds': round(time.time() - t, 1)})


def harness(ctx, scenarios, name, variant='asan', timeout=25):
    """Runs scenarios through the real code; returns the trace file and its lines."""
    exe = build('harness', variant)
    sc, tr = ctx.path(name + '.scen'), ctx.path(name + '.trace')
    with open(sc, 'w') as f:
        for i, s in enumerate(scenarios):
            s['id'] = i
            f.write(json.dumps(s) + '\n')
    e = dict(os.environ)
    e.update(ENV_SAN)
    r = subprocess.run([exe, sc, tr, str(timeout)], env=e, cwd=ctx.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                       timeout=850)
    if r.returncode != 0:
        raise CheckError('harness failed: ' + r.stderr.decode(errors='replace')[-2000:])
    n = 0
    with open(tr) as f:
        for _ in f:
            n += 1
    if n != len(scenarios):
        # Stopped after too many deaths: what was recorded suffices for a verdict.
        if n == 0:
            raise CheckError('harness wrote nothing')
    return tr, n, r.stderr.decode(errors='replace')


def works(ctx, variant):
    """Whether programs of a variant run here at all (thread sanitizers may not)."""
    exe = build('harness', variant)
    sc, tr = ctx.path('empty.scen'), ctx.path('empty.trace')
    with open(sc, 'w') as f:
        f.write(json.dumps({'id': 0, 'fam': 'tab', 'steps': []}) + '\n')
    r = subprocess.run([exe, sc, tr], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
    ok = r.returncode == 0 and os.path.getsize(tr) > 0
    if not ok:
        ctx.notes['not run'] = variant + ' programs do not run here'
    return ok


def validate(ctx, scenarios, name, module, prop=None, variant='asan', cfg=None, env=None, confirm=True, timeout=700,
             recorder=None):
    """Records the scenarios from the real code and checks the trace against the specification.

    Every scenario that the specification rejects is recorded and checked once more on its own before
    it counts as a violation.  recorder(scenarios) gives trace lines where it is not the harness.
    """
    prop = prop or ctx.prop
    if not scenarios:
        raise CheckError('no scenarios for ' + name)
    bad, info = _validate(ctx, scenarios, name, module, prop, variant, cfg, env, timeout, recorder=recorder)
    confirmed = []
    if bad:
        orig = sorted(bad)[:25]
        again = [scenarios[i] for i in orig]
        for attempt in range(3 if confirm else 0):
            copies = [dict(s) for s in again]
            b2, _ = _validate(ctx, copies, name + '-again', module, prop, variant, cfg, env, timeout, count=False,
                              recorder=recorder)
            if b2:
                for k in sorted(b2):
                    confirmed.append((scenarios[orig[k]], b2[k]))
                break
        if not confirmed and confirm:
            # What went before in the same process may matter: everything again.
            b2, _ = _validate(ctx, [dict(s) for s in scenarios], name + '-again', module, prop, variant, cfg, env, timeout,
                              count=False, recorder=recorder)
            for k in sorted(set(bad) & set(b2))[:5]:
                confirmed.append((scenarios[k], dict(b2[k], after=scenarios[max(0, k - 300):k])))
        if not confirmed:
            raise CheckError('rejected once, accepted when repeated: scenario %r' % (again[0],))
        for s, why in confirmed:
            ctx.violations.append({'suite': name, 'module': module, 'variant': variant, 'scenario': s,
                                   'after': why.pop('after', []), 'verdict': why})
    return info


def chunks(ctx, tr, limit=24 << 20):
    """The trace in files small enough for TLC to hold."""
    if os.path.getsize(tr) <= limit:
        yield tr
        return
    with open(tr) as f:
        part, size = [], 0
        for line in f:
            part.append(line)
            size += len(line)
            if size > limit:
                yield write(ctx, part)
                part, size = [], 0
        if part:
            yield write(ctx, part)


def write(ctx, lines):
    p = ctx.path('part.trace')
    with open(p, 'w') as f:
        f.writelines(lines)
    return p


def _validate(ctx, scenarios, name, module, prop, variant, cfg, env, timeout, count=True, recorder=None):
    t = time.time()
    if recorder:
        tr, err = ctx.path(name + '.trace'), ''
        lines = recorder(scenarios)
        n = len(lines)
        with open(tr, 'w') as f:
            for i, d in enumerate(lines):
                d['id'] = i
                f.write(json.dumps(d) + '\n')
    else:
        tr, n, err = harness(ctx, scenarios, name, variant)
    t1 = time.time()
    out, gen, distinct = '', 0, 0
    for part in chunks(ctx, tr):
        e = {'TRACE': part, 'PROP': prop}
        e.update(env or {})
        o, g, d = tlc(ctx, module, cfg or 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=e, timeout=timeout)
        out, gen, distinct = out + o, gen + g, distinct + d
        if part != tr:
            os.unlink(part)
    bad, drift = {}, 0
    for line in out.splitlines():
        if line.startswith('"BAD '):
            d = json.loads(json.loads(line)[4:])
            bad[d['id']] = d
        elif line.startswith('"DRIFT '):
            drift += 1
    events, died = 0, 0
    with open(tr) as f:
        for line in f:
            d = json.loads(line)
            if d['died']:
                died += 1
                events += 1
            elif d['id'] in bad:
                events += bad[d['id']]['step']
            else:
                events += len(d['steps'])
    # One state per event and one per scenario: everything recorded was consumed.
    if distinct != events + n:
        raise CheckError('trace of %s not consumed: %d states for %d events of %d scenarios' % (name, distinct, events, n))
    if count:
        with ctx.lock:
            ctx.states += distinct
            ctx.transitions += gen
            ctx.traces += n
            ctx.events += events
            k = ctx.notes.setdefault('suites', {}).setdefault(name + ('' if variant == 'asan' else '/' + variant), {})
            k.update({'scenarios': n, 'events': events, 'record_s': round(t1 - t, 1), 'check_s': round(time.time() - t1, 1)})
            if drift:
                k['differs_from_step_model'] = drift
            if n and len(ctx.samples) < 6:
                ctx.samples.append({'suite': name, 'scenario': shorten(scenarios[n // 2])})
        if err.strip():
            k['stderr'] = err.strip()[:300]
    if died and count:
        sys.stderr.write('%s: %d scenarios ended abnormally\n' % (name, died))
        with open(tr) as f:
            pass
    os.unlink(tr)
    return bad, {'events': events, 'scenarios': n, 'drift': drift}


def shorten(x, n=60):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (['... %d more' % (len(x) - n)] if len(x) > n else [])
    if isinstance(x, str) and len(x) > 200:
        return x[:200] + '...'
    return x


def generate(ctx, module, consts, outs=1, timeout=600):
    """Lets TLC write scenarios; returns the parsed lines of each output."""
    env, files = {}, []
    for i in range(outs):
        p = ctx.path(module + '.json')
        env['OUT' if i == 0 else 'OUT%d' % (i + 1)] = p
        files.append(p)
    cfg = 'INIT GenInit\nNEXT GenNext\nCHECK_DEADLOCK FALSE\n' + consts
    tlc(ctx, module, cfg, env=env, workers=1, timeout=timeout)
    res = []
    for p in files:
        with open(p) as f:
            res.append([json.loads(x) for x in f if x.strip()])
        os.unlink(p)
    return res


def parallel(*fns):
    """Runs the functions at the same time and raises the first error."""
    errs, ts = [], []

    def wrap(f):
        try:
            f()
        except BaseException as e:  # noqa
            errs.append(e)
    for f in fns:
        t = threading.Thread(target=wrap, args=(f,))
        t.start()
        ts.append(t)
    for t in ts:
        t.join()
    if errs:
        raise errs[0]
