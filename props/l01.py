"""L01: concurrent data logging loses, duplicates and garbles nothing."""
import os
import re

from sim import core
from sim.logworld import RECORD, World, sched_plan

PROP = 'L01'
RUNS = {'quick': 12000, 'thorough': 120000}
RULE = ('A run draws rotation settings, 1-3 loggers on one log file, 1-4 threads with up to 6 value-logging calls each '
        '(one or more pairs, short to file-sized values), clock advances, where loggers are obtained, and a thread schedule at source-line '
        'granularity; non-trivial when at least two records were logged by at least two threads or a rotation happened.')
STATE_MEASURE = 'distinct sequences of (thread switch at yield-point) per run'
COMPONENTS = {'real': ['qiskit.ignis.logging', 'CPython logging and logging.handlers', 'Python text/buffered I/O'],
              'stub': ['thread scheduling', 'locks', 'raw files and directory order', 'wall clock', 'console']}
ASSUMPTIONS = ['Preemption at source-line granularity in the logging code, at locks, at file-system calls and console writes.',
               'One process per log file.']

NAMES = ['exp', 'cal', 'exp.sub', 'rb']


def gen(rng, tier):
    nthreads = rng.choice([1, 2, 2, 2, 3, 3, 4])
    names = rng.sample(NAMES, rng.choice([1, 1, 2, 2, 3]))
    rot = rng.random()
    if rot < 0.25:
        max_size, rotations = None, None
    elif rot < 0.35:
        max_size, rotations = rng.choice([80, 300]), rng.choice([None, 0])
    else:
        max_size, rotations = rng.choice([1, 60, 90, 130, 200, 400, 1000]), rng.choice([1, 2, 3, 5, 20])
    threads = []
    uid = 0
    for t in range(nthreads):
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            if r < 0.12:
                ops.append({'op': 'tick', 'dt': rng.choice([0.4, 1, 61, 86400])})
            elif r < 0.2:
                ops.append({'op': 'get', 'log': rng.choice(names)})
            else:
                uid += 1
                size = rng.choice([0, 0, 0, 3, 30, 120, 500, 9000 if rng.random() < 0.1 else 7])
                ops.append({'op': 'log', 'log': rng.choice(names), 'uid': uid, 'pad': size, 'extra': rng.choice([0, 0, 1, 3])})
        threads.append(ops)
    if nthreads == 1 or rng.random() < 0.2:
        for _ in range(rng.randint(0, 12)):
            uid += 1
            threads[0].append({'op': 'log', 'log': rng.choice(names), 'uid': uid, 'pad': rng.choice([0, 5, 40]), 'extra': 0})
    calls = sum(len(t) for t in threads)
    return {'max_size': max_size, 'rotations': rotations, 'names': names, 'threads': threads,
            'shared': rng.random() < 0.6,          # loggers obtained before the threads start
            'by': rng.choice(['config', 'enable']),
            'subdir': rng.random() < 0.2, 'order': rng.randrange(1 << 20),
            'start': 1_600_000_000.0 + rng.randrange(10 ** 6) + rng.random(),
            'sched': sched_plan(rng, 60 + 120 * calls)}


def shrink(spec):
    for t in range(len(spec['threads'])):
        if len(spec['threads']) > 1:
            n = core.copy.deepcopy(spec)
            del n['threads'][t]
            yield n
    for t in range(len(spec['threads'])):
        yield from core.drop_from_list(spec, ['threads', t])
    if spec['sched']['mode'] == 'sparse':
        yield from core.drop_from_list(spec, ['sched', 'switches'])
    for t, ops in enumerate(spec['threads']):
        for i, o in enumerate(ops):
            if o['op'] == 'log':
                yield from core.set_value(spec, ['threads', t, i, 'pad'], 0)
                yield from core.set_value(spec, ['threads', t, i, 'extra'], 0)
    yield from core.set_value(spec, ['subdir'], False)


def nontrivial(spec, out):
    return out['probes'].get('two_threads', 0) or out['probes'].get('rotated', 0)


def config_text(spec, log_name):
    lines = ['file_logging: %s' % ('true' if spec['by'] == 'config' else 'false'), 'log_file: %s' % log_name]
    if spec['max_size'] is not None:
        lines.append('max_size: %d' % spec['max_size'])
    if spec['rotations'] is not None:
        lines.append('max_rotations: %d' % spec['rotations'])
    return '\n'.join(lines) + '\n'


def payload(o):
    kv = {'uid': 'u%d' % o['uid']}
    for i in range(o['extra']):
        kv['x%d' % i] = 'e%d-%d' % (o['uid'], i)
    kv['pad'] = 'p' * o['pad']
    kv['end'] = 'z%d' % o['uid']
    return kv


def text_of(o):
    return ''.join("'%s':'%s' " % kv for kv in payload(o).items())


def run(spec, ctx):
    log_name = ('logs/' if spec['subdir'] else '') + 'data.log'
    with World(ctx, config_text(spec, log_name), order_seed=spec['order'], start=spec['start']) as w:
        os.makedirs(os.path.join(w.cwd, 'logs'), exist_ok=True)
        api = w.api
        lines = []           # (index at call, index at return) handled through per-thread order only
        times = {}

        def obtain(name):
            lg = api.IgnisLogging().get_logger(name)
            if spec['by'] == 'enable':
                lg.enable_file_logging()
            return lg

        shared = {}
        if spec['shared']:
            for n in spec['names']:
                shared[n] = ctx.sut('get_logger', obtain, n)

        def body(ops):
            own = dict(shared)

            def go():
                for o in ops:
                    if o['op'] == 'tick':
                        w.clock.advance(o['dt'])
                        continue
                    if o['op'] == 'get' or o['log'] not in own:
                        own[o['log']] = obtain(o['log'])
                    if o['op'] == 'log':
                        t0 = w.clock.now()
                        own[o['log']].log_to_file(**payload(o))
                        times[o['uid']] = (t0, w.clock.now())
                        lines.append(o['uid'])
            return go

        s = w.scheduler(spec['sched'])
        for i, ops in enumerate(spec['threads']):
            s.spawn('t%d' % i, body(ops))
        s.run()
        if s.runaway:
            ctx.fail('no-progress', 'the threads did not finish within %d steps' % s.max_steps)
        for t in s.tasks:
            if t.exc is not None:
                ctx.fail('unexpected-exception', 'thread %s: %s: %s\n%s' % (
                    t.name, type(t.exc).__name__, t.exc, core.short_tb(t.exc)))
        ctx.state('sched', s.switches)
        judge(spec, ctx, w, log_name, times)


def judge(spec, ctx, w, log_name, times):
    files = w.log_files(log_name)
    ops = {o['uid']: o for t in spec['threads'] for o in t if o['op'] == 'log'}
    if sum(1 for t in spec['threads'] if any(o['op'] == 'log' for o in t)) > 1:
        ctx.probe('two_threads')
    if not ops:
        return
    stray = [f for f in w.files_present() if not re.match(re.escape(log_name) + r'(\.\d+)?$', f)]
    ctx.check(not stray, 'stray-file', 'unexpected files %s' % stray)
    for t in w.console.lines():
        ctx.check("'uid':" not in t and '"uid"' not in t, 'data-on-console', 'data record on the console: %r' % t)
    seen = {}
    order = []
    per_file = []
    for num, path, text in files:
        recs = []
        if text:
            ctx.check(text.endswith('\n'), 'torn-record', 'file .%d ends without a line end: %r' % (num, text[-80:]))
        for line in text.split('\n')[:-1]:
            m = RECORD.match(line)
            ctx.check(m is not None, 'garbled-record', 'file .%d has a line that is no record: %r' % (num, line[:200]))
            u = re.match(r"'uid':'u(\d+)' ", m.group(3))
            ctx.check(u is not None, 'garbled-record', 'file .%d: %r' % (num, line[:200]))
            uid = int(u.group(1))
            ctx.check(uid in ops and m.group(3) == text_of(ops[uid]), 'garbled-record',
                      lambda: 'record of call %d reads %r' % (uid, line[:300]))
            ctx.check(uid not in seen, 'duplicate-record', 'call %d is recorded twice' % uid)
            seen[uid] = m.group(1) + ' ' + m.group(2)
            order.append(uid)
            recs.append(len(line) + 1)
        per_file.append(recs)
    ctx.event('order', order, [sum(r) for r in per_file])
    # time stamps: from the virtual clock, between call and return
    import time
    for uid, stamp in seen.items():
        lo, hi = times[uid]
        lo_s = time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(int(lo)))
        hi_s = time.strftime('%Y/%m/%d %H:%M:%S', time.localtime(int(hi)))
        ctx.check(lo_s <= stamp <= hi_s, 'wrong-time', 'call %d at %s..%s is stamped %s' % (uid, lo_s, hi_s, stamp))
    # one thread's records stay in call order; what is missing is its oldest part
    lost = []
    for i, t in enumerate(spec['threads']):
        mine = [o['uid'] for o in t if o['op'] == 'log']
        kept = [u for u in order if u in set(mine)]
        ctx.check(kept == sorted(kept), 'order', 'thread %d logged %s but the log has %s' % (i, mine, kept))
        gone = [u for u in mine if u not in seen]
        ctx.check(gone == mine[:len(gone)], 'lost-record', 'thread %d: records %s are missing while older ones are kept' % (i, gone))
        lost += gone
    size, rot = spec['max_size'], spec['rotations']
    rotating = bool(size) and bool(rot)
    if not rotating:
        ctx.check(not lost, 'lost-record', 'records %s are missing and nothing rotates' % lost)
        ctx.check([n for n, _, _ in files] == [0], 'files', 'without rotation there are files %s' % [n for n, _, _ in files])
        return
    nums = sorted(n for n, _, _ in files)
    ctx.check(nums == list(range(len(nums))), 'files', 'rotation left files %s' % nums)
    ctx.check(len(nums) <= rot + 1, 'too-many-files', '%d files, %d rotations configured' % (len(nums), rot))
    if len(nums) > 1:
        ctx.probe('rotated')
    for (num, _, _), recs in zip(files, per_file):
        ctx.check(sum(recs) <= size or len(recs) <= 1, 'over-size',
                  'file .%d has %d bytes in %d records, limit %d' % (num, sum(recs), len(recs), size))
    if lost:
        ctx.probe('discarded')
        ctx.check(len(nums) == rot + 1, 'lost-record', 'records %s are gone but only %d of %d files are in use' % (lost, len(nums), rot + 1))
        for (a, recs), nxt in zip(zip(files, per_file), per_file[1:]):
            ctx.check(recs and nxt and sum(recs) + nxt[0] >= size, 'lost-record',
                      lambda: 'records %s were discarded although file .%d (%d bytes) had room for the next record (%s) under %d' % (
                          lost, a[0], sum(recs), nxt[:1], size))
