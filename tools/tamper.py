#!/usr/bin/env python3
"""tamper.py [PROPERTY...]: how much of what is recorded the specification looks at.

Records the scenarios of the checks as they do, changes one recorded output in each scenario and counts which changes
the specification rejects. Says nothing about the code: it tests the checks. Prints, per recorded field, how many
changes were rejected by at least one property; a field of which none ever is decides nothing.
"""
import copy
import json
import os
import random
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import core  # noqa: E402
import suites  # noqa: E402

SAMPLE = int(os.environ.get('SAMPLE', '250'))
TABLE = {}    # module -> field -> [rejected, tried, {property: rejected}]
KEPT = []


def leaves(x, inp, path=()):
    """Paths of recorded values that the scenario did not contain."""
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, inp.get(k) if isinstance(inp, dict) else None, path + (k,))
    elif isinstance(x, list):
        if inp == x:
            return
        if x:
            yield path + ('#',)
        for i, v in enumerate(x):
            yield from leaves(v, inp[i] if isinstance(inp, list) and i < len(inp) else None, path + (i,))
    elif x != inp or isinstance(x, bool) and inp is None:
        yield path


def field(op, p):
    return op + ':' + '.'.join('*' if isinstance(k, int) else k for k in p)


def change(ev, p, rng):
    if p[-1] == '#':
        x = ev
        for k in p[:-1]:
            x = x[k]
        r = rng.random()
        if r < 0.4:
            del x[rng.randrange(len(x))]
        elif r < 0.7 or len(x) == 1:
            x.insert(rng.randrange(len(x)), copy.deepcopy(rng.choice(x)))
        else:
            i = rng.randrange(len(x) - 1)
            if x[i] == x[i + 1]:
                del x[i]
            else:
                x[i], x[i + 1] = x[i + 1], x[i]
        return
    x = ev
    for k in p[:-1]:
        x = x[k]
    v = x[p[-1]]
    if isinstance(v, bool):
        x[p[-1]] = not v
    elif isinstance(v, int):
        x[p[-1]] = v + rng.choice([-1, 1, 1, 2]) if v > 0 else v + 1
    elif isinstance(v, str):
        x[p[-1]] = v[:-1] if v and rng.random() < 0.5 else v + 'x'


def run(ctx, module, prop, cfg, env, lines):
    """Which of the lines are rejected; errors of the evaluation count as such."""
    tr = ctx.path('tamper.trace')
    with open(tr, 'w') as f:
        for i, d in enumerate(lines):
            d['id'] = i
            f.write(json.dumps(d) + '\n')
    e = {'TRACE': tr, 'PROP': prop}
    e.update(env or {})
    try:
        out, _, _ = core.tlc(ctx, module, cfg or 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n', env=e)
    except core.CheckError as x:
        m = re.findall(r'sc = (\d+)', str(x))
        if not m:
            print(str(x)[:3000], file=sys.stderr)
            return set(range(len(lines)))
        k = int(m[-1]) - 1
        print('evaluation error', module, prop, file=sys.stderr, flush=True)
        return {k} | {i + (i >= k) for i in run(ctx, module, prop, cfg, env, lines[:k] + lines[k + 1:])}
    finally:
        os.unlink(tr)
    return {json.loads(json.loads(x)[4:])['id'] for x in out.splitlines() if x.startswith('"BAD ')}


def tampered(ctx, scenarios, name, module, prop, variant, cfg, env, timeout, count=True, recorder=None):
    rng = random.Random(name + prop)
    some = scenarios if len(scenarios) <= SAMPLE else rng.sample(scenarios, SAMPLE)
    some = [s for s in copy.deepcopy(some) if len(json.dumps(s)) < 100000]
    if not some:
        return {}, {'events': 0, 'scenarios': 0, 'drift': 0}
    if recorder:
        recorded = recorder(some)
    else:
        tr, _, _ = core.harness(ctx, some, name, variant)
        with open(tr) as f:
            recorded = [json.loads(x) for x in f]
        os.unlink(tr)
    lines, what = [], []
    for s, d in zip(some, recorded):
        if d['died'] or not d['steps'] or len(json.dumps(d)) > 400000:
            continue
        inputs = s.get('steps') or []
        fields = {}
        for i, ev in enumerate(d['steps']):
            if not isinstance(ev, dict):
                continue
            inp = inputs[i] if i < len(inputs) else {}
            for p in leaves(ev, inp):
                fields.setdefault(field(ev.get('op', '?'), p), []).append((i, p))
        if not fields:
            continue
        f = rng.choice(sorted(fields))
        i, p = rng.choice(fields[f])
        change(d['steps'][i], p, rng)
        lines.append(d)
        what.append((f, p, i))
    if not lines:
        return {}, {'events': 0, 'scenarios': 0, 'drift': 0}
    bad = run(ctx, module, prop, cfg, env, lines)
    for i, (f, p, step) in enumerate(what):
        t = TABLE.setdefault(module, {}).setdefault(f, [0, 0, {}, None])
        t[1] += 1
        if i in bad:
            t[0] += 1
            t[2][prop] = t[2].get(prop, 0) + 1
        else:
            t[3] = (prop, name, p)
    return {}, {'events': 0, 'scenarios': 0, 'drift': 0}


def main():
    core._validate = tampered
    core.model = suites.model = lambda *a, **k: None
    for prop in sys.argv[1:] or sorted(suites.CHECKS):
        ctx = core.Ctx(prop, 'quick', int(os.environ.get('VERIF_SEED', '1')))
        try:
            suites.CHECKS[prop](ctx)
        finally:
            ctx.close()
        print('done', prop, file=sys.stderr, flush=True)
    for m in sorted(TABLE):
        tried = sum(t[1] for t in TABLE[m].values())
        print('%s: %d fields, %d changes' % (m, len(TABLE[m]), tried))
        for f in sorted(TABLE[m]):
            k, n, by, last = TABLE[m][f]
            print('  %-50s %4d/%-4d %s %s' % (f[:50], k, n, ' '.join('%s:%d' % x for x in sorted(by.items())), last if k < n else ''))


if __name__ == '__main__':
    main()
