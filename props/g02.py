"""G02: concurrent analyses in one process never disturb each other or their inputs."""
import json
import os
import pickle
import random

import numpy as np

from sim import core
from sim import pool
from sim import sessions as ss
from sim.device import scramble_globals
from sim.fresh import Fresh
from sim.sched import Scheduler

PROP = 'G02'
ISOLATE = True
RUNS = {'quick': 1500, 'thorough': 40000}
RULE = ('A run draws two to four analysis sessions (readout calibration and filtering, tensored too, expectation-value mitigation, four kinds of benchmarking fits, quantum volume, accreditation, state, process and gate-set tomography, '
        'characterization fits, discriminators, decoders, and generators and utilities), possibly on the very same data objects, each a sequence of calls: creation, deliveries, refused deliveries, deliveries whose data become unreadable '
        'at some access, fits, fits whose optimiser fails at some call, and queries. They run interleaved call by call, or as threads preempted at any source line of the library. Every answer and every intermediate picture of a session '
        'is compared with those of its successful calls alone in a fresh process; a failing call has to leave the picture as it was, and every input has to look as before; non-trivial when sessions overlapped.')
STATE_MEASURE = 'distinct (kinds of sessions, shared data, mode, order of operations or switches taken)'
COMPONENTS = {'real': ['all fitters, filters, mitigators, discriminators and decoders of the library', 'circuit generators', 'scipy, scikit-learn, networkx'],
              'stub': ['thread scheduler', 'process pools', 'quantum devices', 'job service', 'failing job data and optimisers']}
ASSUMPTIONS = ['A failing delivery may be repeated: the library keeps either all of it (the call succeeds) or none.']
_FRESH = {}


def warm():
    import qiskit.ignis.verification as _a              # noqa
    import qiskit.ignis.mitigation as _b                # noqa
    import qiskit.ignis.characterization as _c          # noqa
    import qiskit.ignis.measurement.discriminator.iq_discriminators as _d     # noqa
    from qiskit.ignis.verification.topological_codes import RepetitionCode, GraphDecoder
    from props import g01, r02
    g01.warm()
    r02.worker_init()
    if not ss._TOPO:
        ss._TOPO['g'] = apart(lambda: GraphDecoder(RepetitionCode(3, 1)).S)


def apart(fn):
    """fn() in a process of its own: the circuit simulator keeps threads that would not survive the forks of the runs."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.environ['QISKIT_IN_PARALLEL'] = 'TRUE'
        try:
            with os.fdopen(w, 'wb') as f:
                pickle.dump(fn(), f)
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    os.waitpid(pid, 0)
    return pickle.loads(data)


def worker_init():
    warm()
    if 'f' not in _FRESH:
        _FRESH['f'] = Fresh('props.g02', 4343)


def gen_ops(rng, kind):
    ops = [['new', rng.randrange(4)]]
    for _ in range(rng.choice([2, 3, 4, 5])):
        r = rng.random()
        if kind == 'make':
            ops.append(['query', rng.randrange(140)] if r < 0.95 else ['bad', 0])
        elif r < 0.25:
            ops.append(['add', rng.randrange(4)])
        elif r < 0.37:
            ops.append(['bad', rng.randrange(60)])
        elif r < 0.52:
            ops.append(['flaky', rng.randrange(4), rng.choice([1, 1, 2, 3, 4, 6, 9])])
        elif r < 0.64:
            ops.append(['fit', 0])
        elif r < 0.76:
            ops.append(['flakyfit', 0, rng.choice([1, 2, 2, 3])])
        elif r < 0.96:
            ops.append(['query', rng.randrange(210)])
        else:
            ops.append(['flakyquery', rng.randrange(210), 1])
    return ops


WEIGHT = ['cal', 'cal', 'tens', 'tens', 'expval', 'expval', 'rb', 'rb', 'rbint', 'rbpurity', 'rbdihedral', 'qv', 'qv', 'accred', 'accred', 'state', 'state', 'process', 'gst', 'char', 'char', 'char', 'disc', 'disc', 'topo', 'topo', 'make', 'make']


def gen(rng, tier):
    sess = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        kind = rng.choice(WEIGHT)
        sess.append({'kind': kind, 'data': rng.randrange(1 << 16), 'ops': gen_ops(rng, kind)})
    if len(sess) == 1 or rng.random() < 0.5:
        k = rng.randrange(len(sess))
        # another session of the same kind: on the very same objects, or on data of its own
        sess.append({'kind': sess[k]['kind'], 'data': sess[k]['data'] if rng.random() < 0.5 else rng.randrange(1 << 16), 'ops': gen_ops(rng, sess[k]['kind'])})
    mode = rng.choice(['calls', 'calls', 'threads'])
    if mode == 'threads' and any(s['kind'] in ('gst',) for s in sess):
        mode = 'calls'
    plan = {'mode': 'dense', 'seed': rng.randrange(1 << 30), 'p': rng.choice([0.002, 0.01, 0.05])} if mode == 'threads' else {'order': rng.randrange(1 << 30)}
    return {'sessions': sess, 'mode': mode, 'plan': plan, 'ambient': rng.randrange(1 << 30), 'workers': rng.choice([1, 2, 3])}


def shrink(spec):
    if len(spec['sessions']) > 1:
        yield from core.drop_from_list(spec, ['sessions'])
    for k, s in enumerate(spec['sessions']):
        for j in range(len(s['ops']) - 1, 0, -1):
            new = json.loads(json.dumps(spec))
            del new['sessions'][k]['ops'][j]
            yield new
    if spec['mode'] == 'threads':
        yield from core.set_value(dict(spec, plan={'order': 1}), ['mode'], 'calls')


def nontrivial(spec, out):
    return out['probes'].get('overlap', 0) > 0


def answer(request):
    """The successful calls of one session, alone."""
    out = []
    try:
        s = ss.make(request['cfg'], {})
        for op in request['ops']:
            op = ['add', op[1]] if op[0] == 'flaky' else ['fit', 0] if op[0] == 'flakyfit' else ['query', op[1]] if op[0] == 'flakyquery' else op
            np.random.seed(5)
            with pool.simulated(core.Ctx(), 1, 1):
                out.append([s.do(op), s.show()])
    except Exception as e:          # pylint: disable=broad-except
        return {'exc': '%s: %s\n%s' % (type(e).__name__, e, core.short_tb(e)), 'at': len(out)}
    return {'out': json.loads(json.dumps(out))}


MUST = ('new', 'add', 'fit', 'query')


def step(spec, ctx, s, k, op, log):
    """One call on session k; what came of it goes into the log."""
    before = s.show()
    try:
        ret = s.do(op)
        ok = True
    except (core.Violation, core.RunTimeout):
        raise
    except Exception as e:           # pylint: disable=broad-except
        ok, ret = False, e
    if not ok:
        if isinstance(ret, ss.Lost) or 'injected' in str(ret):
            ctx.fault('unreadable-data' if op[0] == 'flaky' else 'optimiser-failure')
        elif op[0] == 'bad':
            ctx.fault('refused-delivery')
        ctx.check(op[0] not in MUST, 'unexpected-exception', lambda: 'session %d (%s), %s raised %s: %s\n%s' % (k, s.cfg['kind'], op, type(ret).__name__, ret, core.short_tb(ret)))
        after = s.show()
        d = ss.differs(before, after, strict=True)
        ctx.check(d is None, 'failed-call-changed-session', lambda: 'session %d (%s): %s failed (%s: %s) and changed the results of the session: %s' % (k, s.cfg['kind'], op, type(ret).__name__, str(ret)[:200], d))
        return
    log[k].append([op, json.loads(json.dumps([ret, s.show()]))])


def run(spec, ctx):
    ss.install_flaky_optimisers()
    amb = random.Random(spec['ambient'])
    shared = {}
    sess = [ss.make(c, shared) for c in spec['sessions']]
    pictures = {key: ss.snap(v) for key, v in shared.items()}
    log = [[] for _ in sess]
    with pool.simulated(ctx, spec['plan'].get('seed', 0) % 1000, spec['workers']):
        if spec['mode'] == 'calls':
            rng = random.Random(spec['plan'].get('order', 0))
            todo = [k for k, c in enumerate(spec['sessions']) for _ in c['ops']]
            rng.shuffle(todo)
            at = [0] * len(sess)
            for k in todo:
                if rng.random() < 0.3:
                    scramble_globals(amb)
                step(spec, ctx, sess[k], k, spec['sessions'][k]['ops'][at[k]], log)
                at[k] += 1
                ctx.event('step', k, at[k])
            ctx.probe('overlap', sum(1 for a, b in zip(todo, todo[1:]) if a != b))
            trail = todo
        else:
            import qiskit.ignis
            s = Scheduler(spec['plan'], ctx, [os.path.dirname(os.path.realpath(qiskit.ignis.__file__))], max_steps=6000000)

            def body(k):
                def go():
                    for op in spec['sessions'][k]['ops']:
                        step(spec, ctx, sess[k], k, op, log)
                return go
            for k in range(len(sess)):
                s.spawn('session%d' % k, body(k))
            s.run()
            if s.runaway:
                ctx.fail('no-progress', 'the threads did not finish')
            for t in s.tasks:
                if t.exc is not None:
                    if isinstance(t.exc, (core.RunTimeout, core.Violation)):
                        raise t.exc
                    raise t.exc
            ctx.probe('overlap', len(s.switches))
            trail = [w[0] for w in s.switches[:40]]
    ctx.state([c['kind'] for c in spec['sessions']], len(shared), spec['mode'], trail)
    for key, v in shared.items():
        now = ss.snap(v)
        ctx.check(now == pictures[key], 'input-changed', lambda: 'the inputs of %s were changed: %s' % (key, spot(pictures[key], now)))
    for k, c in enumerate(spec['sessions']):
        done = log[k]
        if not done:
            continue
        r = _FRESH['f'].ask({'cfg': {x: c[x] for x in ('kind', 'data')}, 'ops': [op for op, _ in done]})
        ctx.check('exc' not in r, 'differs-from-alone', lambda: 'session %d (%s): %s succeeded among others and failed alone: %s' % (k, c['kind'], done[r['at']][0], r.get('exc')))
        for (op, got), want in zip(done, r['out']):
            d = ss.differs(want, got)
            ctx.check(d is None, 'differs-from-alone', lambda: 'session %d (%s), %s: alone versus among others: %s' % (k, c['kind'], op, d))
            ctx.probe('compared')
    ctx.event('done', [len(x) for x in log])


def spot(a, b, where=''):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return '%s[%s] only on one side' % (where, k)
            if a[k] != b[k]:
                return spot(a[k], b[k], '%s[%s]' % (where, k))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return spot(x, y, '%s[%d]' % (where, k))
    return '%s: %s became %s' % (where, str(a)[:200], str(b)[:200])
