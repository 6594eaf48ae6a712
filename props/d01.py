"""D01: discriminators classify readout pulses by their calibration, however it arrives."""
import copy
import itertools
import random

import numpy as np

from sim import core
from sim import device as dv

PROP = 'D01'
RUNS = {'quick': 10000, 'thorough': 60000}
RULE = ('A run draws IQ clusters for up to three memory slots and two or three levels, an ordered qubit mask, the set of calibrated states, a discriminator (linear, quadratic, support vector, nearest neighbours; scaled or not) '
        'and delivers the calibration shots in two different ways (one result, lists, added later, repeated schedules, subsets of schedules, names or schedule objects, stray schedules, deliveries with missing schedules or labels); '
        'shots measured later are then classified and filtered; non-trivial when data arrive in more than one delivery or a fault was injected.')
STATE_MEASURE = 'distinct (discriminator, mask, levels, states, scaling, delivery kind and number of deliveries)'
COMPONENTS = {'real': ['LinearIQDiscriminator, QuadraticIQDiscriminator, SklearnIQDiscriminator', 'DiscriminationFilter', 'scikit-learn classifiers'],
              'stub': ['readout electronics: truncated Gaussian IQ clusters per slot and level', 'job service']}
ASSUMPTIONS = ['Clusters are at least 15 standard deviations apart and the noise is cut at three.']
SIGMA = 0.1
APART = 1.5


def gen(rng, tier):
    slots = rng.randint(1, 3) if rng.random() < 0.95 else rng.choice([4, 6, 11])
    mask = rng.sample(range(slots), rng.randint(1, min(slots, 3)))
    disc, scale = rng.choice(['lda', 'lda', 'qda', 'svc', 'knn']), rng.random() < 0.4
    # scaling stretches axes along which the states do not differ, which only the discriminant analyses can undo
    axes = scale and disc in ('svc', 'knn')
    levels = rng.choice([2, 2, 3]) if not axes else 2
    if rng.random() < 0.08 and disc != 'svc' and not axes and not (disc == 'qda' and scale):       # high levels of one qubit
        levels, mask = rng.choice([4, 6, 10]), mask[:1]
    allst = [''.join(p) for p in itertools.product('0123456789'[:levels], repeat=len(mask))]
    rng.shuffle(allst)
    states = allst[:max(2, rng.randint(2, min(6 if rng.random() < 0.9 else 12, len(allst))))]
    if axes and any(len({x[k] for x in states}) < 2 for k in range(len(mask))):
        states = allst
    return {'slots': slots, 'mask': mask, 'levels': levels, 'states': states, 'disc': disc, 'scale': scale, 'axes': axes,
            'geo': rng.randrange(1 << 30), 'shots': rng.choice([16, 20, 30]) if disc != 'qda' else rng.choice([24, 30, 40]), 'extra': rng.randint(0, 3) if rng.random() < 0.9 else rng.randint(4, 8), 'long': rng.random() < 0.1, 'two': disc == 'knn' and not scale and rng.random() < 0.5, 'base': rng.random() < 0.3,
            'hist': [gen_history(rng) for _ in range(2)], 'plan': rng.randrange(1 << 30), 'avg': rng.random() < 0.25, 'names': rng.choice(['cal', 'cal', 'free'])}


def gen_history(rng):
    return {'how': rng.choice(['one', 'list', 'add', 'add', 'add']), 'sched': rng.choice(['none', 'names', 'objects']), 'label': rng.random() < 0.6, 'bad': rng.random() < 0.5, 'lazy': rng.random() < 0.3,
            'stray': rng.random() < 0.5, 'plan': rng.randrange(1 << 30)}


def shrink(spec):
    if len(spec['hist']) > 1:
        yield from core.drop_from_list(spec, ['hist'])
    if len(spec['states']) > 2:
        yield from core.drop_from_list(spec, ['states'])
    for k in range(len(spec['hist'])):
        yield from core.set_value(spec, ['hist', k, 'how'], 'one')
        for f in ('bad', 'lazy', 'stray'):
            yield from core.set_value(spec, ['hist', k, f], False)
    yield from core.set_value(spec, ['scale'], False)
    yield from core.set_value(spec, ['extra'], 0)
    yield from core.set_value(spec, ['avg'], False)


def nontrivial(spec, out):
    return bool(out['faults']) or any(h['how'] != 'one' for h in spec['hist'])


def centres(spec):
    """IQ centre of each level of each slot, at least APART from each other."""
    rng = random.Random(spec['geo'])
    out = []
    for _ in range(spec['slots']):
        pts = []
        box = 4 if spec['levels'] <= 3 else 9
        if spec['disc'] == 'qda' and spec['scale']:      # a scaled cluster must not be so narrow that sklearn calls it singular
            box = 2.5
        while len(pts) < (max(3, spec['levels'])) * (2 if spec.get('two') else 1):
            p = complex(rng.uniform(-box, box), rng.uniform(-box, box))
            if all(abs(p - o) > APART and (not spec.get('axes') or len(pts) == 2 or min(abs((p - o).real), abs((p - o).imag)) > APART) for o in pts):
                pts.append(p)
        out.append(pts)
    return out


def shot(rng, spec, cen, label, second=False):
    """IQ values of all slots; slots outside the mask hold any level. second: the place the levels move to later."""
    lev = [rng.randrange(spec['levels']) for _ in range(spec['slots'])]
    for k, q in enumerate(spec['mask']):
        lev[q] = int(label[k])
    out = []
    for q in range(spec['slots']):
        while True:
            z = complex(rng.gauss(0, SIGMA), rng.gauss(0, SIGMA))
            if abs(z) < 3 * SIGMA:
                break
        v = cen[q][lev[q] + (len(cen[q]) // 2 if second else 0)] + z
        out.append([v.real, v.imag])
    return out


def exp(name, mem, ret='single', level=1, shots=None):
    return {'name': name, 'mem': mem, 'ret': ret, 'level': level, 'shots': shots or len(mem)}


def result(exps, slots):
    from qiskit.result import Result
    return Result.from_dict({'backend_name': 'sim', 'backend_version': '1.0.0', 'qobj_id': 'q', 'job_id': 'j', 'success': True, 'results': [
        {'shots': e['shots'], 'success': True, 'meas_level': e['level'], 'meas_return': e['ret'], 'status': 'DONE',
         'data': {'memory': copy.deepcopy(e['mem'])} if e['level'] == 1 else {'counts': {'0x0': e['shots']}},
         'header': {'name': e['name'], 'memory_slots': slots}} for e in exps]})


def sched_forms(names, form, rng):
    if form == 'objects':
        from qiskit.pulse import Schedule
        return [Schedule(name=n) if rng.random() < 0.7 else n for n in names]
    return list(names)


def build(spec, *a, **kw):
    from qiskit.ignis.measurement.discriminator import iq_discriminators as iq
    if spec['disc'] == 'lda':
        return iq.LinearIQDiscriminator(*a, **kw)
    if spec['disc'] == 'qda':
        return iq.QuadraticIQDiscriminator(*a, **kw)
    if spec['disc'] == 'svc':
        from sklearn.svm import SVC
        return iq.SklearnIQDiscriminator(SVC(C=10., kernel='rbf', gamma='scale'), *a, **kw)
    from sklearn.neighbors import KNeighborsClassifier
    return iq.SklearnIQDiscriminator(KNeighborsClassifier(3), *a, **kw)


def snap(d):
    return [dict(d.expected_states), [getattr(s, 'name', s) for s in d.schedules], d.fitted]


def run(spec, ctx):
    from qiskit.ignis.measurement.discriminator.filters import DiscriminationFilter
    cen = centres(spec)
    amb = random.Random(spec['plan'])
    dv.scramble_globals(amb)
    discs = []
    name_of = {}
    for k, s in enumerate(spec['states']):
        name_of[s] = 'cal_%s' % s if spec['names'] == 'cal' else 'cal_%d' % (7 * k + 10)
    for h in spec['hist']:
        d = train(spec, ctx, cen, h, name_of)
        discs.append((d, snap(d)))
        ctx.state(spec['disc'], spec['mask'], spec['levels'], sorted(spec['states']), spec['scale'], h['how'], h['sched'], h['lazy'])
    # shots measured later
    rng = random.Random(spec['plan'] + 11)
    for d, before in discs:
        ctx.check(snap(d) == before, 'discriminators-mixed', 'a discriminator changed while another one was used')
        labels, feats = [], []
        for _ in range(20):
            s = rng.choice(spec['states'])
            labels.append(s)
            v = shot(rng, spec, cen, s)
            feats.append([v[q] for q in spec['mask']])
        exps, truth = [], []
        for k in range(1 + spec['extra']):
            n = rng.randint(3, 9) if not spec['long'] else rng.randint(30, 50)
            seq = [rng.choice(spec['states']) for _ in range(n)]
            if spec['avg'] and rng.random() < 0.4:
                exps.append(exp('m%d' % k, shot(rng, spec, cen, seq[0]), 'avg', shots=50))
                seq = [seq[0]]
            else:
                exps.append(exp(rng.choice(['m%d' % k, 'm0', 'cal_%s' % spec['states'][0]]), [shot(rng, spec, cen, s) for s in seq]))
            truth.append(seq)
            if rng.random() < 0.2:
                exps.append(exp('classified', None, level=2, shots=10))
        raw = result(exps, spec['slots'])
        raw.results[0].header.note = 'kept'
        rows = [[v[0] for v in f] + [v[1] for v in f] for f in feats]
        if spec['scale']:
            pass                                      # rows have to be scaled as get_xdata does: see the filter below
        else:
            got = list(ctx.sut('discriminate', d.discriminate, rows))
            ctx.check(got == labels, 'wrong-state', lambda: 'shots prepared as %s were classified as %s' % (labels, got))
        # single experiment through get_xdata
        x = ctx.sut('get_xdata', d.get_xdata, result([exp('probe', [shot(rng, spec, cen, s) for s in labels])], spec['slots']), 2)
        got = list(ctx.sut('discriminate', d.discriminate, x))
        ctx.check(got == labels, 'wrong-state', lambda: 'shots prepared as %s were classified as %s' % (labels, got))
        base = max(int(c) for s in spec['states'] for c in s) + 1
        filt = DiscriminationFilter(d, base) if spec['base'] else DiscriminationFilter(d)
        keep = raw.to_dict()
        lst = rng.random() < 0.3
        out = ctx.sut('filter.apply', filt.apply, [raw, raw] if lst else raw)
        ctx.check(raw.to_dict() == keep, 'input-changed', 'the filter changed the result handed in')
        for new in (out if lst else [out]):
            ctx.check(len(new.results) == len(truth) and all(r.meas_level == 2 for r in new.results), 'filter-shape', lambda: '%d experiments of levels %s' % (len(new.results), [r.meas_level for r in new.results]))
            for k, seq in enumerate(truth):
                want = {}
                for s in seq:
                    want[int(s, base)] = want.get(int(s, base), 0) + 1
                counts = {int(b.replace(' ', ''), 2): c for b, c in new.get_counts(k).items()}
                ctx.check(counts == want, 'wrong-counts', lambda: 'experiment %d was prepared as %s (counts %s), the filter says %s' % (k, seq, want, counts))
                mem = [int(m.replace(' ', ''), 2) for m in new.get_memory(k)]
                ctx.check(mem == [int(s, base) for s in seq], 'wrong-memory', lambda: 'experiment %d was prepared as %s, memory %s' % (k, seq, new.get_memory(k)))
        ctx.event('classified', len(labels), len(truth))


def train(spec, ctx, cen, h, name_of):
    """A discriminator trained on shots of every state, delivered as the history says."""
    rng = random.Random(h['plan'])
    srng = random.Random(spec['plan'] + 5)
    states = list(spec['states'])

    def block(s, n, second=False):
        return exp(name_of[s], [shot(srng, spec, cen, s, second) for _ in range(n)])

    def strays():
        if not h['stray']:
            return []
        ctx.fault('stray_schedule')
        other = rng.choice(spec['states'])
        return [exp(rng.choice(['x90p', 'cal_0b', 'rabi_1', '_cal_1']), [shot(srng, spec, cen, other) for _ in range(5)])]
    mask = list(spec['mask'])
    explicit = h['label'] or spec['names'] == 'free'

    def args(exps):
        names = [e['name'] for e in exps if e['name'] in name_of.values()]
        lab = {v: k for k, v in name_of.items()}
        states_ = [lab[n] for n in names]
        if h['sched'] == 'none':
            return None, states_
        order = list(range(len(names)))
        if rng.random() < 0.5:
            rng.shuffle(order)
        return sched_forms([names[i] for i in order], h['sched'], rng), [states_[i] for i in order]
    kw = {'standardize': spec['scale']}
    rng.shuffle(states)
    n = spec['shots']
    if h['how'] == 'one':
        exps = [block(s, n) for s in states] + strays()
        rng.shuffle(exps)
        sch, lab = args(exps)
        res = result(exps, spec['slots'])
        if rng.random() < 0.3:
            res = [res]
        res0 = res[0] if isinstance(res, list) else res
        d = create(ctx, spec, res, mask, lab if explicit else None, sch, kw, explicit)
        aligned(ctx, spec, d, res, sch, n * len(states), cen)
        ctx.event('trained', 'one', res0.results[0].header.name)
        return d
    if h['how'] == 'list':
        parts = []
        rounds = rng.choice([1, 2])
        for r in range(rounds):
            exps = [block(s, n) for s in states] + strays()
            rng.shuffle(exps)
            cut = rng.randint(1, len(exps))
            parts += [exps[:cut], exps[cut:]]
        parts = [p for p in parts if p]
        rng.shuffle(parts)
        sch, lab = args([e for p in parts for e in p])
        if sch is not None and rng.random() < 0.5:          # each schedule named once
            seen = {}
            for a, b in zip(sch, lab):
                seen.setdefault(getattr(a, 'name', a), (a, b))
            sch, lab = [v[0] for v in seen.values()], [v[1] for v in seen.values()]
        res = [result(p, spec['slots']) for p in parts]
        d = create(ctx, spec, res, mask, lab if explicit else None, sch, kw, explicit)
        aligned(ctx, spec, d, res, sch, rounds * n * len(states), cen)
        ctx.event('trained', 'list', len(res))
        return d
    # some states first, the others (and more shots of known ones) later
    cut = rng.randint(2, len(states))
    exps = [block(s, n) for s in states[:cut]] + strays()
    rng.shuffle(exps)
    sch, lab = args(exps)
    keep = list(sch) if sch is not None else None
    d = create(ctx, spec, result(exps, spec['slots']), mask, lab if explicit else None, sch, kw, explicit)
    rest = states[cut:]
    calls = 0
    drifted, moved = set(), spec.get('two', False)
    while rest or calls < 2:
        k = min(len(rest), rng.randint(0 if calls else 1, 2)) if rest else 0
        now, rest = rest[:k], rest[k:]
        again = rng.sample(states[:cut], rng.randint(0 if now else 1, 2 if cut > 1 else 1))
        more = [block(s, n) for s in now] + [block(s, n, moved) for s in again] + strays()
        if moved:
            ctx.fault('drifted_cluster')
            ctx.probe('two-clusters')
            drifted.update(again)
        rng.shuffle(more)
        sch2, lab2 = args(more)
        res = result(more, spec['slots'])
        if h['bad']:
            before = snap(d)
            ctx.fault('bad_delivery')
            kind = rng.choice(['labels', 'missing'])
            if kind == 'labels':
                ctx.refuses('add_data with too few labels', d.add_data, res, lab2[:-1], schedules=sch2)
            else:
                names = [e['name'] for e in more if e['name'] in name_of.values()] + ['cal_999']
                ctx.refuses('add_data for a schedule without data', d.add_data, res, lab2 + [spec['states'][0]], schedules=names)
            ctx.check(snap(d) == before, 'failed-call-changed-data', lambda: 'a refused delivery left %s, it was %s' % (snap(d), before))
        last = not rest and calls >= 1
        refit = True if last or not h['lazy'] else False
        had = snap(d)
        ctx.sut('add_data', d.add_data, res, lab2, refit=refit, schedules=sch2)
        ctx.check(all(d.expected_states.get(a) == b for a, b in had[0].items()) and all(d.expected_states.get(name_of[s]) == s for s in now + again), 'labels-lost',
                  lambda: 'expected states %s after adding %s to %s' % (d.expected_states, lab2, had[0]))
        calls += 1
        ctx.event('added', now, again)
    ctx.check(keep is None or (len(keep) == len(sch) and all(a is b for a, b in zip(keep, sch))), 'input-changed', 'the schedule list handed to the constructor was changed')
    ctx.check(mask == spec['mask'], 'input-changed', 'the qubit mask was changed')
    if drifted:
        # earlier and later places of a state both belong to it
        for s in sorted(drifted):
            for second in (False, True):
                x = ctx.sut('get_xdata', d.get_xdata, result([exp('probe', [shot(rng, spec, cen, s, second) for _ in range(4)])], spec['slots']), 2)
                got = list(ctx.sut('discriminate', d.discriminate, x))
                ctx.check(got == [s] * 4, 'data-discarded', lambda: 'shots of state %s, %s, are classified as %s' % (s, 'as in later deliveries' if second else 'as first calibrated', got))
    return d


def create(ctx, spec, res, mask, lab, sch, kw, explicit):
    keep = list(lab) if lab is not None else None
    d = ctx.sut('the discriminator', build, spec, res, mask, lab, schedules=sch, **kw)
    ctx.check(d.fitted, 'not-fitted', 'the discriminator says it is not fitted')
    ctx.check(keep is None or keep == lab, 'input-changed', 'the list of expected states was changed')
    return d


def aligned(ctx, spec, d, res, sch, total, cen):
    """x and y data go together, shot by shot."""
    x = np.array(ctx.sut('get_xdata', d.get_xdata, res, 0, sch))
    y = list(ctx.sut('get_ydata', d.get_ydata, res, 0, sch))
    ctx.check(len(x) == len(y) == total, 'not-aligned', lambda: '%d feature rows, %d labels, %d shots' % (len(x), len(y), total))
    k = len(spec['mask'])
    ctx.check(x.shape[1] == 2 * k, 'not-aligned', lambda: 'rows of %d features for %d qubits' % (x.shape[1], k))
    if not spec['scale']:
        for row, lab in zip(x, y):
            near = ''.join(str(int(np.argmin([abs(complex(row[i], row[k + i]) - c) for c in cen[q][:spec['levels']]]))) for i, q in enumerate(spec['mask']))
            ctx.check(near == lab, 'not-aligned', lambda: 'the shot %s of state %s is labelled %s' % (row, near, lab))
