"""What each property's check runs."""
import json

import gen_conv as gc
import gen_unit as gu
import gen_cfg
import toolrun
from core import CheckError, generate, model, works, parallel, tlc, validate  # noqa: F401

ASSUMPTIONS = [
    'TLC and the CommunityModules evaluate the specification correctly',
    'the recording harness reports the public API results faithfully (its inputs are echoed in the trace)',
    'the host is little-endian x86-64 Linux, as in /opt/vp/BUILD.json',
]

ALL = '{"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"}'


def consts(n, mx, patch, prims=ALL):
    return 'CONSTANTS MaxLen = %d\n MaxMax = %d\n MaxPatch = %d\n UsePrims = %s\n' % (n, mx, patch, prims)


def mc_converter(ctx):
    inv = 'INVARIANTS InvGeometry InvIndices InvSharing InvSplits InvCarriedDistinct\nPROPERTIES Terminates Monotone StepAgrees\nCHECK_DEADLOCK FALSE\n'
    if ctx.quick:
        model(ctx, 'MC_Converter', 'SPECIFICATION Spec\n' + consts(5, 4, 3) + inv,
              'all inputs up to 5 positions, limits up to 4', workers=4)
    else:
        model(ctx, 'MC_Converter', 'SPECIFICATION Spec\n' + consts(7, 5, 3) + inv,
              'all inputs up to 7 positions, limits up to 5', workers=6, timeout=3000, heap='12g')


def mc_api(ctx):
    model(ctx, 'MC_Api', 'SPECIFICATION Spec\nCONSTANT Depth = 0\n'
          'INVARIANTS InvSuppliedOnce InvCounts InvDone InvInvalid\nPROPERTIES RejectedNoop Grows\nCHECK_DEADLOCK FALSE\n',
          'all histories of any length over the alphabet of calls', workers=4)


def spec_inputs(ctx):
    """The exhaustive inputs written by the specification, as scenarios."""
    r = ctx.rng('exhaustive')
    cases = generate(ctx, 'GenConv', consts(*ctx.pick((6, 4, 3), (7, 5, 3))))[0]
    if not ctx.quick:
        extra = generate(ctx, 'GenConv', consts(8, 3, 2, '{"LineStrip", "TriangleStrip", "TriangleFan"}'))[0]
        cases += [c for c in extra if len(c['in']) == 8]
    # Structures with two positions or fewer come out the same in every wrapping.
    return gc.from_spec(cases, r)


def geometry(ctx):
    def traces():
        validate(ctx, spec_inputs(ctx), 'exhaustive', 'TraceConv')
        r = ctx.rng('struct')
        n = ctx.pick(3000, 25000)
        validate(ctx, gc.struct_cases(r, n, itypes=('UInt16', 'UInt32')) + gc.struct_cases(r, n // 6, itypes=('None',)) +
                 gc.struct_cases(r, n // 6, fault='range'), 'struct', 'TraceConv')
        validate(ctx, gc.twisted_cases(ctx.rng('twisted'), ctx.pick(500, 6000)), 'alike', 'TraceConv')
        validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(400, 5000)), 'wide', 'TraceConv')
        validate(ctx, gc.large_cases(ctx.tier), 'large', 'TraceLarge')
        if ctx.prop == 'C03' or not ctx.quick:
            validate(ctx, gc.huge_cases(), 'huge', 'TraceLarge', variant='ndebug')
        if ctx.prop in ('C01', 'C02'):
            validate(ctx, gc.spread_cases(ctx.rng('spread'), ctx.pick(150, 1500)), 'spread', 'TraceConv')
        if not ctx.quick:
            validate(ctx, gc.struct_cases(ctx.rng('struct-nd'), 8000), 'struct', 'TraceConv', variant='ndebug')
    parallel(lambda: mc_converter(ctx), traces)


def c05(ctx):
    r = ctx.rng('struct')
    validate(ctx, gc.struct_cases(r, ctx.pick(4000, 30000)), 'struct', 'TraceConv')
    validate(ctx, gc.num_cases(ctx.rng('num'), ctx.pick(1500, 10000), tr=False), 'num', 'TraceConv')
    validate(ctx, gc.spread_cases(ctx.rng('spread'), ctx.pick(300, 2000)), 'spread', 'TraceConv')
    validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(500, 5000)), 'wide', 'TraceConv')
    validate(ctx, gc.large_cases(ctx.tier), 'large', 'TraceLarge')


def c06(ctx):
    validate(ctx, gc.num_cases(ctx.rng('num'), ctx.pick(3000, 20000)), 'num', 'TraceConv')
    validate(ctx, gc.struct_cases(ctx.rng('tr'), ctx.pick(600, 4000), tr=True, exact=False, itypes=('None', 'UInt16'),
                                  prims=('PointList', 'LineList'), nmax=6, dup_out=False), 'transforms', 'TraceConv')
    validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(300, 3000), tr=True), 'wide', 'TraceConv')
    meta, _ = api_histories(ctx, 1)
    validate(ctx, transitions(ctx, meta, ctx.rng('transitions'), ctx.pick(4000, 60000)), 'transitions', 'TraceConv')


def c07(ctx):
    validate(ctx, gc.bounds_cases(ctx.rng('bounds'), ctx.pick(3000, 20000)), 'bounds', 'TraceConv')
    validate(ctx, gc.struct_cases(ctx.rng('struct'), ctx.pick(1500, 8000), bounds=True, dup_out=False) +
             gc.struct_cases(ctx.rng('repair'), ctx.pick(500, 4000), bounds=True, fault='repair'), 'struct', 'TraceConv')
    validate(ctx, gc.spread_cases(ctx.rng('spread'), ctx.pick(200, 1500)), 'spread', 'TraceConv')
    validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(300, 3000), bounds=True), 'wide', 'TraceConv')
    validate(ctx, gc.large_cases(ctx.tier), 'large', 'TraceLarge')
    validate(ctx, gu.value_cases(ctx.rng('values'), ctx.pick(1500, 20000)), 'values', 'TraceValue')


def api_histories(ctx, depth=None):
    meta, hist = generate(ctx, 'GenApi', 'CONSTANT Depth = %d\n' % (depth or ctx.pick(3, 4)), outs=2)
    return meta[0], hist


def transitions(ctx, meta, rng, count):
    """Every state of the protocol, with one call or (count is None) every call made in it."""
    out, _, _ = tlc(ctx, 'GenCover', 'SPECIFICATION Spec\nINVARIANT Emit\nVIEW State\nCHECK_DEADLOCK FALSE\n', workers=1)
    states = [json.loads(json.loads(x)[8:]) for x in out.splitlines() if x.startswith('"REACHED ')]
    if len(states) < 5000:
        raise CheckError('only %d states of the protocol' % len(states))
    calls = range(1, len(meta['calls']) + 1)
    conv = [i for i in calls if meta['calls'][i - 1]['op'] == 'conv'][0]
    if count is None:
        hist = [(s, i) for s in states for i in calls]
    else:
        hist = [(rng.choice(states), rng.choice(calls)) for _ in range(count)]
        rng.shuffle(states)
        hist = [(s, rng.choice(calls)) for s in states[:count // 2]] + hist[:count - count // 2]
    res = []
    for s, i in hist:
        h = s['h'] + [i]
        # What comes later tells states apart.
        if rng.random() < 0.6:
            h = h + [rng.choice(calls) for _ in range(rng.randint(0, 2))] + [conv]
        res.append({'c': s['c'], 'h': h})
    return gc.from_api(meta, res, rng)


def c08(ctx):
    def traces():
        meta, hist = api_histories(ctx)
        r = ctx.rng('api')
        validate(ctx, gc.from_api(meta, hist, r, ctx.pick(16000, 90000)) + gc.random_api(meta, r, ctx.pick(6000, 40000)),
                 'histories', 'TraceConv')
        validate(ctx, transitions(ctx, meta, ctx.rng('transitions'), ctx.pick(16000, None)), 'transitions', 'TraceConv')
        r = ctx.rng('faults')
        validate(ctx, gc.struct_cases(r, ctx.pick(1500, 10000), fault='range') +
                 gc.struct_cases(r, ctx.pick(1500, 10000), fault='repair', bounds=True) +
                 gc.struct_cases(r, ctx.pick(1500, 10000), fault='count', bounds=True), 'faults', 'TraceConv')
        validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(400, 4000), fault=True, bounds=True), 'wide', 'TraceConv')
    parallel(lambda: mc_api(ctx), traces)


def c09(ctx):
    def traces():
        validate(ctx, gc.ctor_cases(), 'configurations', 'TraceConv')
        meta, hist = api_histories(ctx)
        validate(ctx, gc.from_api(meta, [h for h in hist if h['c'] in (6, 7)], ctx.rng('api'), ctx.pick(1500, None)),
                 'invalid', 'TraceConv')
        validate(ctx, transitions(ctx, meta, ctx.rng('transitions'), ctx.pick(3000, 60000)), 'transitions', 'TraceConv')
    parallel(lambda: mc_api(ctx), traces)


def c10(ctx):
    r = ctx.rng('faults')
    validate(ctx, gc.struct_cases(r, ctx.pick(4000, 30000), fault='range', exact=False) +
             gc.struct_cases(r, ctx.pick(1500, 10000), fault='count', exact=False), 'faults', 'TraceConv')
    validate(ctx, gc.struct_cases(r, ctx.pick(2000, 15000), big=True, exact=False, tr=True), 'struct', 'TraceConv')
    validate(ctx, gc.wide_cases(ctx.rng('wide'), ctx.pick(300, 3000), fault=True, tr=True), 'wide', 'TraceConv')
    meta, _ = api_histories(ctx, 1)
    validate(ctx, gc.random_api(meta, r, ctx.pick(2000, 20000)) + transitions(ctx, meta, ctx.rng('transitions'), ctx.pick(3000, 60000)),
             'histories', 'TraceConv')
    validate(ctx, gc.spread_cases(ctx.rng('spread'), ctx.pick(200, 1500)), 'spread', 'TraceConv')
    validate(ctx, spec_inputs(ctx)[::ctx.pick(4, 1)], 'exhaustive', 'TraceConv')
    validate(ctx, gc.large_cases(ctx.tier), 'large', 'TraceLarge')


def c23(ctx):
    validate(ctx, gc.twin_cases(ctx.rng('twin'), ctx.pick(3000, 20000)), 'twins', 'TraceConv')
    meta, _ = api_histories(ctx, 1)
    r = ctx.rng('transitions')
    validate(ctx, gc.twin_histories(transitions(ctx, meta, r, ctx.pick(4000, 60000)), r), 'histories', 'TraceConv')


def c25(ctx):
    def mc():
        model(ctx, 'MC_Independent', 'SPECIFICATION Spec\nCONSTANTS Depth = %d\n Which = %s\nINVARIANTS Independent Commute\n'
              'PROPERTY OneAtATime\nCHECK_DEADLOCK FALSE\n' %
              ctx.pick((3, '{1, 2, 3, 6, 12, 15}'), (4, '{1, 2, 3, 6, 12, 15}')),
              'all ways to alternate the calls on two converters', workers=3, timeout=2500)

    def traces():
        validate(ctx, gc.several_cases(ctx.rng('turns'), ctx.pick(400, 5000), False), 'turns', 'TraceConv')
        validate(ctx, gc.several_cases(ctx.rng('threads'), ctx.pick(400, 5000), True), 'threads', 'TraceConv')
        reuse = gc.reuse_cases(ctx.rng('reuse'), ctx.pick(500, 6000))
        validate(ctx, reuse, 'reuse', 'TraceConv')
        validate(ctx, reuse, 'reuse', 'TraceConv', variant='ndebug')
        if works(ctx, 'tsan'):
            validate(ctx, gc.several_cases(ctx.rng('races'), ctx.pick(300, 4000), True), 'races', 'TraceConv',
                     variant='tsan')
    parallel(mc, traces)


def c29(ctx):
    def mc():
        model(ctx, 'MC_Chain', 'SPECIFICATION Spec\nCONSTANTS Step = %d\n Fine = %d\nINVARIANTS Encodable Unique\nCHECK_DEADLOCK FALSE\n' %
              ctx.pick((997, 5), (61, 1)), 'there and back again between all pairs of formats of up to 16 bits', workers=4, timeout=2500)

    def traces():
        validate(ctx, gc.chain_cases(ctx.rng("chains"), ctx.pick(1500, 20000)), 'chains', 'TraceConv')
    parallel(mc, traces)


def c11(ctx):
    def traces():
        validate(ctx, gu.format_grid() + gu.format_cases(ctx.rng('format'), ctx.pick(3000, 30000)), 'formats', 'TraceFormat')
    inv = 'INVARIANTS Refines Packed Unique Found OnlyValid\nPROPERTY Stable\nCHECK_DEADLOCK FALSE\n'

    def mc():
        model(ctx, 'MC_Format', 'SPECIFICATION Spec\nCONSTANTS Depth = %d\n Wide = FALSE\n' % ctx.pick(4, 6) + inv,
              'all histories of up to %d appends and clears over 4 names and 5 combinations' % ctx.pick(4, 6), workers=4)
        model(ctx, 'MC_Format', 'SPECIFICATION Spec\nCONSTANTS Depth = 2\n Wide = TRUE\n' + inv,
              'all pairs of appends over every layout and type', workers=4)
    parallel(mc, traces)


def c12(ctx):
    model(ctx, 'MC_Tables', 'SPECIFICATION Spec\nINVARIANTS Distinct RoundTrips InLayout Encodable SomeType Counts\n'
          'CHECK_DEADLOCK FALSE\n', 'the tables of layouts, types and primitives')
    validate(ctx, gu.table_cases(ctx.rng('tables'), ctx.pick(3000, 40000)), 'tables', 'TraceTables')


def c24(ctx):
    model(ctx, 'MC_Index', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS ReadsBack SameSize\nCHECK_DEADLOCK FALSE\n' %
          ctx.pick(4, 8), 'all short histories of writes to an array of three indices')
    validate(ctx, gu.index_cases(ctx.rng('index'), ctx.pick(4000, 40000)), 'indices', 'TraceIndex')
    validate(ctx, gu.big_index_cases(ctx.rng('big'), ctx.pick(300, 2000)), 'long arrays', 'TraceIndex')
    if not ctx.quick:
        validate(ctx, gu.index_cases(ctx.rng('index-nd'), 8000), 'indices', 'TraceIndex', variant='ndebug')


def c13(ctx):
    validate(ctx, gu.code_cases(ctx.rng('dec'), 'dec', ctx.pick(60, 600), ctx.pick(23, 1)), 'decode', 'TraceCodec')
    # The way taken on processors without half float instructions.
    validate(ctx, gu.code_cases(ctx.rng('soft'), 'dec', ctx.pick(60, 600), ctx.pick(37, 1), gu.HALVES), 'decode',
             'TraceCodec', variant='soft')


def c26(ctx):
    def mc():
        model(ctx, 'MC_Value', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Tight OrderFree Compares\nPROPERTY Widens\n'
              'CHECK_DEADLOCK FALSE\n' % ctx.pick(3, 4), 'ranges of all sequences of up to %d values over 18' % ctx.pick(3, 4), workers=4)

    def traces():
        validate(ctx, gu.register_cases(ctx.rng('registers'), ctx.pick(3000, 40000)), 'registers', 'TraceValue')
        validate(ctx, gu.value_cases(ctx.rng('values'), ctx.pick(2000, 30000)), 'values', 'TraceValue')
    parallel(mc, traces)


def c14(ctx):
    validate(ctx, gu.enc_cases(ctx.rng('enc'), ctx.pick(90, 900)), 'encode', 'TraceCodec')
    validate(ctx, gu.enc_cases(ctx.rng('soft'), ctx.pick(150, 2000), gu.HALVES), 'encode', 'TraceCodec', variant='soft')


def c15(ctx):
    validate(ctx, gu.code_cases(ctx.rng('rt'), 'rt', ctx.pick(40, 400), ctx.pick(29, 1)), 'roundtrip', 'TraceCodec')
    validate(ctx, gu.order_cases(ctx.rng('order'), ctx.pick(6, 60)), 'order', 'TraceCodec')
    validate(ctx, gu.code_cases(ctx.rng('soft'), 'rt', ctx.pick(40, 400), ctx.pick(41, 1), gu.HALVES) +
             gu.order_cases(ctx.rng('soft order'), ctx.pick(20, 200), gu.HALVES), 'roundtrip', 'TraceCodec', variant='soft')
    validate(ctx, gc.num_cases(ctx.rng('same'), ctx.pick(800, 8000), tr=False, same=True), 'same-format', 'TraceConv')


def c16(ctx):
    validate(ctx, gu.bounded_cases(ctx.rng('bounded'), ctx.pick(70, 700)), 'bounded', 'TraceCodec')


def c17(ctx):
    def mc():
        model(ctx, 'MC_Base64', 'SPECIFICATION Spec\nCONSTANTS Len64 = %d\n Bytes = {0, 1, 77, 255}\nINVARIANT Decides\n'
              'PROPERTY Stops\nCHECK_DEADLOCK FALSE\n' % ctx.pick(5, 8),
              'a group-wise decoder on all texts up to %d characters over 6 representatives' % ctx.pick(5, 8), workers=4)
    parallel(mc, lambda: validate(ctx, gu.base64_cases(ctx.rng('b64'), ctx.quick), 'base64', 'TraceBase64'))


def c18(ctx):
    def mc():
        model(ctx, 'MC_Path', 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Rejoin JoinNames JoinAssoc FileOfJoin '
              'NoSepInFile ParentShorter RootFixed\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n' % ctx.pick(4, 6),
              'all pairs of paths up to %d characters and the walk to the root' % ctx.pick(4, 6), workers=4)
    parallel(mc, lambda: validate(ctx, gu.path_cases(ctx.rng('path'), ctx.quick), 'paths', 'TracePath'))


def c19(ctx):
    def mc():
        model(ctx, 'MC_Json', 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Agree Sink\nCHECK_DEADLOCK FALSE\n' %
              ctx.pick(6, 8), 'the JSON automaton against a recursive grammar on all texts of up to %d representative bytes' %
              ctx.pick(6, 8), workers=4)
    parallel(mc, lambda: validate(ctx, gen_cfg.config_cases(ctx.rng('config'), ctx.pick(4000, 40000)), 'documents', 'TraceConfig'))


def c20(ctx):
    validate(ctx, gu.result_cases(ctx.rng('result'), ctx.pick(3000, 30000)), 'results', 'TraceResult')


def tool(ctx, items, name):
    validate(ctx, items, name, 'TraceTool', recorder=lambda it: toolrun.record_tool(ctx, it, name))


def mc_tool(ctx):
    model(ctx, 'MC_Tool', 'SPECIFICATION Spec\nCONSTANTS MaxFaults = %d\n MaxOut = %d\nINVARIANTS Outcome DocLast NoDocEarly\n'
          'PROPERTIES Ends Final\nCHECK_DEADLOCK FALSE\n' % ctx.pick((1, 2), (2, 2)),
          'all orders of the steps in all worlds with up to %d bad steps' % ctx.pick(1, 2), workers=4)


def tool_meshes(ctx, n):
    """Scenarios with the default limit, as the tool uses it, and names as JSON can hold them."""
    r = ctx.rng('meshes')
    res = []
    while len(res) < n:
        k = r.random()
        if k < 0.06:
            s = gc.wide_case(r, bounds=True, tr=r.random() < 0.5, dup=False)
        elif k < 0.45:
            s = gc.struct_case(r, dup_out=False, exact=r.random() < 0.5, bounds=True, tr=r.random() < 0.4, nmax=12)
        elif k < 0.9:
            s = gc.num_case(r, bounds=True)
        else:
            s = gc.struct_case(r, dup_out=False, bounds=True, nmax=8, fault='range')
        s['steps'][0]['max'] = -1
        adds = [x for x in s['steps'] if x['op'] == 'add']
        for a in adds:
            # Files hold just their own stream's data.
            a.pop('shd', None)
            a['data'] = a['data'][:a['vcount'] * gc.fsize(a['fmt'])]
        if any(not x['data'] or (x['itype'] != 'None' and not x['idx']) for x in adds):
            continue
        res.append(s)
    return res


def tool_large(ctx):
    """Meshes that need several index buffers, and long data strings."""
    r = ctx.rng('large')
    res = []
    for prim, n, itype in (('PointList', 65540, 'UInt16'), ('TriangleStrip', 70001, 'UInt16'), ('LineList', 20000, 'UInt32')):
        f = [gc.el('p', 'X32', 'UInt')]
        data = b''.join(i.to_bytes(4, 'little') for i in range(n))
        res.append({'fam': 'conv', 'steps': [gc.new([f], itype, prim), gc.add(f, data, n), gc.CONV, gc.OBSB]})
    # More than ten buffers.
    n = 65535 * 10 + 8
    data = b''.join(i.to_bytes(3, 'little') for i in range(n))
    for itype in ('UInt16', 'UInt16')[:ctx.pick(1, 2)]:
        res.append({'fam': 'conv', 'steps': [gc.new([[gc.el('p', 'X8Y8Z8', 'UInt')]], itype, 'PointList'),
                                             gc.add([gc.el('p', 'X8Y8Z8', 'UInt')], data, n), gc.CONV, gc.OBSB]})
    return res


def c21(ctx):
    def traces():
        r = ctx.rng('deliver')
        items = toolrun.delivery_items(tool_meshes(ctx, ctx.pick(400, 4000)), r, 3)
        items += toolrun.delivery_items(tool_large(ctx), r, ctx.pick(2, 6))
        tool(ctx, items, 'deliveries')
        if not ctx.quick:
            tool(ctx, toolrun.delivery_items(tool_meshes(ctx, 500), r, 2, 'ndebug'), 'deliveries-ndebug')
    parallel(lambda: mc_tool(ctx), traces)


def c22(ctx):
    def traces():
        r = ctx.rng('worlds')
        worlds, single, pairs = generate(ctx, 'GenTool', '', outs=3)
        picked = toolrun.pick_worlds(worlds, single, pairs, r, ctx.pick(2, 12), ctx.pick(150, 3000))
        items = toolrun.world_items(toolrun.possible(picked), r)
        tool(ctx, items, 'worlds')
        # What the library refuses, the tool refuses.
        ms = [s for s in tool_meshes(ctx, ctx.pick(1500, 8000))][-ctx.pick(300, 3000):]
        tool(ctx, toolrun.delivery_items(ms, r, 1), 'refusals')
    parallel(lambda: mc_tool(ctx), traces)


def c27(ctx):
    def mc():
        model(ctx, 'MC_Args', 'SPECIFICATION Spec\nCONSTANT Depth = %d\nINVARIANTS Agree SameForms\nPROPERTY Final\n'
              'CHECK_DEADLOCK FALSE\n' % ctx.pick(4, 6), 'all command lines of up to %d arguments over 9' % ctx.pick(4, 6), workers=4)

    def traces():
        items = toolrun.command_items(ctx.rng('commands'), ctx.quick)
        validate(ctx, items, 'commands', 'TraceArgs', recorder=lambda it: toolrun.record_commands(ctx, it, 'commands'))
    parallel(mc, traces)


def c28(ctx):
    def mc():
        model(ctx, 'MC_Blame', 'SPECIFICATION Spec\nCONSTANT MaxLen = %d\nINVARIANTS Explained Placed Counted\n'
              'CHECK_DEADLOCK FALSE\n' % ctx.pick(5, 6), 'some thousand documents with up to two faults, all texts of up to %d representative bytes' %
              ctx.pick(5, 6), workers=4)

    def traces():
        validate(ctx, gen_cfg.blame_cases(ctx.rng('documents'), ctx.pick(3000, 30000)), 'documents', 'TraceConfig')
        r = ctx.rng('worlds')
        worlds, single, pairs = generate(ctx, 'GenTool', '', outs=3)
        picked = toolrun.pick_worlds([], single, pairs, r, ctx.pick(3, 12), ctx.pick(60, 1500))
        tool(ctx, toolrun.world_items(toolrun.possible([w for w in picked if w['faults']]), r), 'worlds')
        meta, _ = api_histories(ctx, 1)
        r = ctx.rng('transitions')
        validate(ctx, gc.stretched(transitions(ctx, meta, r, ctx.pick(6000, 60000)), r, 0.2), 'transitions', 'TraceConv')
        r = ctx.rng('faults')
        validate(ctx, gc.struct_cases(r, ctx.pick(1000, 8000), fault='range') + gc.struct_cases(r, ctx.pick(500, 4000), fault='repair') +
                 gc.wide_cases(ctx.rng('wide'), ctx.pick(600, 5000), fault=True), 'faults', 'TraceConv')
    parallel(mc, traces)


CHECKS = {'C01': geometry, 'C02': geometry, 'C03': geometry, 'C04': geometry, 'C05': c05, 'C06': c06, 'C07': c07,
          'C08': c08, 'C09': c09, 'C10': c10, 'C11': c11, 'C12': c12, 'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C17': c17, 'C18': c18, 'C19': c19, 'C20': c20, 'C21': c21,
          'C22': c22, 'C23': c23,
          'C24': c24, 'C25': c25, 'C26': c26, 'C27': c27, 'C28': c28, 'C29': c29}


def replay(ctx, path):
    with open(path) as f:
        vs = json.load(f)
    groups = {}
    for v in vs:
        groups.setdefault((v['suite'], v['module'], v['variant']), []).extend(v.get('after', []) + [v['scenario']])
    for (suite, module, variant), sc in groups.items():
        if module == 'TraceTool':
            tool(ctx, sc, suite)
        elif module == 'TraceArgs':
            validate(ctx, sc, suite, module, recorder=lambda it: toolrun.record_commands(ctx, it, 'commands'))
        else:
            validate(ctx, sc, suite, module, variant=variant)

DEFAULT_NOTE = ('The specification states the property; TLC checks it on the design model exhaustively within small '
                'constants and on every recorded execution of the real code (inputs enumerated by the specification '
                'plus seeded random ones). Trusts TLC, the recording harness and the compiler; executions outside the '
                'generated inputs are not covered.')
NOTES = {}
