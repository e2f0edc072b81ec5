#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] | check.py PROPERTY --replay FILE

Decides one property: checks the specification's models, records the real code's behaviour and
checks the recording against the specification. Exit 0: held; exit 1: VIOLATION; other: no verdict.
"""
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import core  # noqa: E402
import suites  # noqa: E402

KNOWN = os.path.join(HERE, 'known_findings.txt')


def known(prop):
    """'finding:' entries of a property: text that identifies the failing input."""
    res = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                if line.startswith('finding: property=%s ' % prop):
                    res.append(line.split(None, 2)[2].strip())
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough'):
        tier = sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    ctx = core.Ctx(prop, tier, seed)
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    try:
        if '--replay' in sys.argv:
            suites.replay(ctx, sys.argv[sys.argv.index('--replay') + 1])
        else:
            suites.CHECKS[prop](ctx)
    except Exception as e:  # no verdict
        print('ERROR property=%s %s' % (prop, e))
        if not isinstance(e, (core.CheckError, core.BuildError)):
            traceback.print_exc()
        if not ctx.violations:
            ctx.close()
            return 2
    finds = known(prop)
    new = []
    for v in ctx.violations:
        text = json.dumps(v['scenario'], sort_keys=True)
        hit = [k for k in finds if k.split(' :: ')[0] in text]
        if hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, hit[0]))
        else:
            new.append(v)
    wall = round(time.time() - ctx.t0, 1)
    coverage = {'states': ctx.states, 'transitions': ctx.transitions,
                'traces_validated_against_impl': ctx.traces,
                'trace_events': ctx.events, 'models': ctx.models, 'samples': ctx.samples}
    coverage.update(ctx.notes)
    if '--replay' not in sys.argv:
        with open(os.path.join(evdir, prop + '.json'), 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': coverage,
                       'assumptions': suites.ASSUMPTIONS, 'wall_s': wall, 'violations': len(new)}, f, indent=1)
    if new:
        rep = os.path.join(evdir, 'replay-%s.json' % prop)
        with open(rep, 'w') as f:
            json.dump(new, f, indent=1)
        for v in new[:5]:
            print('  %s: %s' % (v['suite'], json.dumps(v['verdict'])))
            print('    ' + json.dumps(core.shorten(v['scenario'], 40))[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, rep))
    else:
        print('OK property=%s: %d traces (%d events) accepted, %d states, %.1f s' %
              (prop, ctx.traces, ctx.events, ctx.states, wall))
    ctx.close()
    return 1 if new else 0


if __name__ == '__main__':
    sys.exit(main())
