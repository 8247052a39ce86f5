"""The checks, by property."""
import json
import os
import vlib
from vlib import HARNESS, VERIF

CHECKS = {}


def check(*ids):
    def f(g):
        for i in ids:
            CHECKS[i] = g
        return g
    return f


def setup():
    # Everything is built by the checks themselves, from /repo's working tree;
    # here we only find out whether the tools are there.
    for c in (['g++', '--version'], ['java', '-version'], ['ar', '--version']):
        rc, o, e = vlib.sh(c)
        if rc != 0:
            print('missing:', c[0])
            return 1
    return 0


def load(trace):
    with open(trace) as f:
        return f.readlines()


def judge(ctx, module, trace, cmd, describe, header=1, **kw):
    """Every line of a trace; rejections are confirmed with another run."""
    rej, n, st, tr = vlib.line_check(module, trace, header=header, **kw)
    ctx.states += st
    ctx.transitions += tr
    ctx.traces += n
    if rej:
        lines = load(trace)
        # The same again?
        rc, _, _ = vlib.sh(cmd)
        again = load(trace) if rc == 0 else None
        for i in rej[:3]:
            if again is not None and (len(again) < i or again[i - 1] != lines[i - 1]):
                # Another run does something else: is it rejected too?
                rej2, _, _, _ = vlib.line_check(module, trace, header=header, **kw)
                if not rej2:
                    vlib.log('not repeated: line %d of %s' % (i, trace))
                    continue
            ctx.violation(describe(json.loads(lines[i - 1]), lines),
                          [('line.json', lines[i - 1]), ('command', json.dumps(cmd)),
                           ('header.json', ''.join(lines[:header]))])
    return rej


# -------------------------------------------------------------- serialization
SER_ONLY = ('dynamic_base_class', 'errors', 'registry', 'io_adapters',
            'iostream_adapters', 'string_adapters')


def ser_program(type_seed, roots=40, hashes=0, asan=False):
    def prepare(d):
        ntu = 8
        rc, o, e = vlib.sh(['python3', HARNESS + '/ser/gen.py', str(type_seed),
                            str(roots), d, str(ntu), str(hashes)])
        if rc != 0:
            raise vlib.CheckError('gen.py: ' + e)
        return [d + '/reg.cpp'] + ['%s/roots_%d.cpp' % (d, i) for i in range(ntu)]
    return vlib.program('ser', [HARNESS + '/ser/main.cpp'],
                        flags=['-O0'] + (['-fsanitize=address'] if asan else []),
                        only=SER_ONLY, prepare=prepare,
                        extra_key='%d %d %d' % (type_seed, roots, hashes))


def ser_describe(r, lines):
    types = json.loads(lines[0])['types']
    if r['op'] == 'hash':
        return 'type hash of %s is %s' % (r['cpp'], r['h'])
    t = [types[i['t'] - 1] for i in r['items']]
    if r['op'] == 'enc':
        return 'encoding of %s (be=%d) is %s' % (r['vals'], r['be'], r['out'])
    return 'decoding %s (be=%d) as %s: %s after %d, at %d: %s' % (
        r['in'], r['be'], json.dumps(t)[:300], r['res'], r['done'], r['pos'], r['vals'])


def ser_check(ctx, modes, hashes=0, then=None, asan=False):
    for k in range(ctx.pick(1, 4)):
        exe = ser_program(ctx.seed + 7919 * k, hashes=hashes, asan=asan)
        for mode, sessions, mutations in modes:
            if not ser_run(ctx, exe, k, mode, sessions, mutations, then):
                return
        if ctx.left(700) < 0:
            break


def ser_run(ctx, exe, k, mode, sessions, mutations, then):
        trace = vlib.scratch() + '/ser.nd'
        cmd = [exe, str(ctx.seed + k), str(sessions), str(mutations), mode, trace]
        if not ctx.run_harness(cmd, trace):
            return False
        rej = judge(ctx, 'WireTrace', trace, cmd, ser_describe)
        lines = load(trace)
        if then:
            then(ctx, mode, lines, rej)
        for l in lines[1:4]:
            ctx.sample(l.strip())
        outcomes = ctx.extra.setdefault('outcomes', {})
        kinds = ctx.extra.setdefault('type_kinds', {})
        for t in json.loads(lines[0])['types']:
            kinds[t['k']] = kinds.get(t['k'], 0) + 1
        for l in lines[1:]:
            r = json.loads(l)
            o = r['op'] + ' ' + r.get('res', '')
            outcomes[o] = outcomes.get(o, 0) + 1
        return True


@check('S01')
def s01(ctx):
    ctx.model('MCWire', cfg=ctx.pick('MCWireQuick', 'MCWireValues'), workers=8, heap='6g')
    ser_check(ctx, [('rt', ctx.pick(3000, 12000), 1)])


@check('S02')
def s02(ctx):
    ser_check(ctx, [('enc', ctx.pick(8000, 30000), 1)])


@check('S03')
def s03(ctx):
    ser_check(ctx, [('obj', ctx.pick(6000, 20000), 1)], asan=True)


@check('S04')
def s04(ctx):
    ctx.model('MCWire', cfg=ctx.pick('MCWireQuick', 'MCWireInputs'), workers=8, heap='6g')
    ser_check(ctx, [('mut', ctx.pick(5000, 12000), ctx.pick(5, 8))])
    ser_check(ctx, [('mut', ctx.pick(1500, 6000), ctx.pick(5, 8))], asan=True)


@check('S05')
def s05(ctx):
    ctx.model('MCHash')
    ctx.broken_model('MCHash', 'MCHashNested', 'NestedDifferent')
    ser_check(ctx, [('hash', 0, 0), ('ver', ctx.pick(1500, 6000), 1)],
              hashes=ctx.pick(300, 600), then=known_hashes)


def known_hashes(ctx, mode, lines, rejected):
    # The specification has the deviation (CustomOf); say so if it was seen.
    head = json.loads(lines[0])
    if mode == 'hash' and not rejected and \
            any(c['ver'] > 1 for c in head['classes'].values()):
        ctx.known_finding('custom-version')
    if mode == 'hash' and not rejected:
        h = {r['cpp']: r['h'] for r in map(json.loads, lines[1:])}
        if h['std::vector<std::vector<float>>'] == h['float']:
            ctx.known_finding('nested-twice')
        if h['std::vector<std::set<float>>'] == h['std::set<std::vector<float>>']:
            ctx.known_finding('nested-order')


# ------------------------------------------------- codecs, packets, containers
PKT_ONLY = ('packet_codecs', 'highway_hash', 'errors', 'io_adapters',
            'iostream_adapters', 'string_adapters')


def line_harness(ctx, exe, module, modes, describe, header=0, rounds=1):
    """exe SEED N [MODE] OUT writes a trace whose lines stand for themselves."""
    outcomes = ctx.extra.setdefault('outcomes', {})
    for k in range(rounds):
        for mode, n in modes:
            trace = '%s/%s.nd' % (vlib.scratch(), mode or 'trace')
            cmd = [exe, str(ctx.seed + 1000003 * k), str(n)] + \
                ([mode] if mode else []) + [trace]
            if not ctx.run_harness(cmd, trace):
                return
            judge(ctx, module, trace, cmd, describe, header=header)
            if k == 0:
                for l in load(trace)[header:header + 2]:
                    ctx.sample(l.strip())
            for l in load(trace)[header:]:
                r = json.loads(l)
                for o in r.get('ops', [r]):
                    o = '%s %s' % (o.get('op') or o.get('o'), o.get('res', ''))
                    outcomes[o.strip()] = outcomes.get(o.strip(), 0) + 1
        if ctx.left(600) < 0:
            break


def pkt_program():
    return vlib.program('pkt', [HARNESS + '/pkt/main.cpp'], flags=['-O1'],
                        only=PKT_ONLY)


def pkt_describe(r, lines):
    return json.dumps(r)[:2000]


@check('S06')
def s06(ctx):
    ctx.model('MCCobs', workers=4)
    line_harness(ctx, pkt_program(), 'PacketTrace',
                 [('cobs', ctx.pick(700, 3000))], pkt_describe,
                 rounds=ctx.pick(1, 4))


@check('S07')
def s07(ctx):
    line_harness(ctx, pkt_program(), 'PacketTrace',
                 [('mac', ctx.pick(600, 2500)), ('hash', ctx.pick(600, 2500))],
                 pkt_describe, rounds=ctx.pick(1, 4))


@check('S08')
def s08(ctx):
    ctx.model('MCPackets', workers=6)
    line_harness(ctx, pkt_program(), 'PacketTrace',
                 [('pkt', ctx.pick(800, 3000))], pkt_describe,
                 rounds=ctx.pick(1, 4))


def flat_describe(r, lines):
    return json.dumps(r)[:3000]


@check('S09')
def s09(ctx):
    exe = vlib.program('flat', [HARNESS + '/flat/main.cpp'],
                       flags=['-O1', '-D_GLIBCXX_ASSERTIONS'], only=('errors',))
    line_harness(ctx, exe, 'FlatTrace', [(None, ctx.pick(6000, 25000))],
                 flat_describe, rounds=ctx.pick(1, 4))


# -------------------------------------------------- errors, results and streams
def misc_check(ctx, mode, n):
    exe = vlib.program('misc', [HARNESS + '/misc/main.cpp'], flags=['-O1'],
                       only=SER_ONLY)
    line_harness(ctx, exe, 'MiscTrace', [(mode, n)], flat_describe,
                 rounds=ctx.pick(1, 6))


@check('S10')
def s10(ctx):
    misc_check(ctx, 'errors', ctx.pick(12000, 50000))


@check('S11')
def s11(ctx):
    misc_check(ctx, 'streams', ctx.pick(12000, 50000))


# ------------------------------------------------- synchronization and contexts
def design(ctx, module, broken, invariant, quick=None):
    """How something works, exhaustively; and how it once worked, which has to
    be found wrong."""
    vlib.parallel([
        lambda: ctx.model(module, cfg=quick if ctx.quick else None,
                          workers=4, heap='6g'),
        lambda: ctx.broken_model(module, broken, invariant, workers=2)])


def select_design(ctx):
    design(ctx, 'DesignSelect', 'DesignSelectLate', 'NothingLost',
           'DesignSelectQuick')


def async_check(ctx, runs, name='async', module='AsyncTrace'):
    exe = vlib.sched_program(name, ['%s/%s/main.cpp' % (HARNESS, name)])
    ctx.executions(exe, module,
                   [(p, n * ctx.pick(1, 8)) for p, n in runs])


@check('A01')
def a01(ctx):
    if not ctx.quick:
        select_design(ctx)
    async_check(ctx, [('mutex', 8000), ('select', 2000)])


@check('A02')
def a02(ctx):
    async_check(ctx, [('flag', 8000), ('select', 2000)])


@check('A03')
def a03(ctx):
    select_design(ctx)
    async_check(ctx, [('queue', 5000), ('sem', 5000)])


@check('A04')
def a04(ctx):
    async_check(ctx, [('future', 8000), ('select', 2000)])


@check('A05')
def a05(ctx):
    select_design(ctx)
    async_check(ctx, [('select', 10000)])


@check('A06')
def a06(ctx):
    design(ctx, 'DesignContext', 'DesignContextUnlocked', 'Safe')
    async_check(ctx, [('context', 6500), ('handover', 6500), ('data', 2500)])


@check('A07')
def a07(ctx):
    design(ctx, 'DesignUsage', 'DesignUsageDone', 'NoneLeft')
    async_check(ctx, [('usage', 10000)])


@check('A08')
def a08(ctx):
    design(ctx, 'DesignPool', 'DesignPoolSelect', 'NoneStranded')
    async_check(ctx, [('pool', 10000)], 'pool', 'PoolTrace')


@check('A09')
def a09(ctx):
    async_check(ctx, [('chan', 3500), ('conn', 3500), ('reconn', 4000)], 'conn', 'LinksTrace')


@check('A10')
def a10(ctx):
    async_check(ctx, [('calls', 9000)], 'rpc', 'RpcTrace')


@check('A11')
def a11(ctx):
    design(ctx, 'DesignClient', 'DesignClientEager', 'NeverCut',
           'DesignClientQuick')
    async_check(ctx, [('faults', 12000)], 'rpc', 'RpcTrace')


@check('A12')
def a12(ctx):
    async_check(ctx, [('life', 10000)], 'rpc', 'RpcTrace')


@check('A14')
def a14(ctx):
    design(ctx, 'DesignServer', 'DesignServerOnce', 'NotUsed')
    if not ctx.quick:
        ctx.model('DesignServer', cfg='DesignServerTwo', workers=8, heap='8g')
    async_check(ctx, [('serve', 9000)], 'rpc', 'ServeTrace')


@check('A15')
def a15(ctx):
    ctx.broken_model('DesignClient', 'DesignClientWaiting', 'NoneStopped', workers=2)
    async_check(ctx, [('impose', 16000)], 'rpc', 'ImposeTrace')


# ------------------------------------------------------ files, sockets and names
@check('A13')
def a13(ctx):
    exe = vlib.program('net', [HARNESS + '/net/main.cpp'], flags=['-O1', '-fno-rtti'])
    # Mostly waiting for what doesn't happen.
    modes = [('files', 6000), ('resolve', 3000), ('rpc', 1500)] + [('sockets', 800)] * 6
    outcomes = ctx.extra.setdefault('outcomes', {})
    for k in range(ctx.pick(1, 10)):
        def run(i):
            mode, n = modes[i]
            trace = '%s/%s%d.nd' % (vlib.scratch(), mode, i)
            cmd = [exe, str(ctx.seed + 1000003 * k + 10007 * i), str(n), mode, trace,
                   '%s/files%d' % (vlib.scratch(), i)]
            return mode, trace, cmd, ctx.run_harness(cmd, trace)
        runs = vlib.parallel([lambda i=i: run(i) for i in range(len(modes))], len(modes))
        if not all(x[3] for x in runs):
            return
        for mode, trace, cmd, _ in runs:
            lines = load(trace)
            judge(ctx, 'NetTrace', trace, cmd, flat_describe, header=0)
            if ctx.violations:
                return
            if k == 0:
                ctx.sample(lines[0].strip()[:2000])
            for l in lines:
                for o in json.loads(l)['ops']:
                    o = '%s %s' % (o['o'], o['res'])
                    outcomes[o] = outcomes.get(o, 0) + 1
        if ctx.left(600) < 0:
            break
