"""L03: completed log records survive a crash and a restart."""
import re

from sim import core
from sim.logworld import RECORD, World, sched_plan

PROP = 'L03'
RUNS = {'quick': 10000, 'thorough': 150000}
RULE = ('A run draws rotation settings, 2-4 consecutive processes on one disk with 1-2 threads of value-logging calls each, and crashes '
        '(before, after, or in the middle of a drawn file-system call), torn and short writes; every process ends without warning, and the '
        'log is read back after each restart. Non-trivial when a crash fired and at least one completed record preceded it.')
STATE_MEASURE = 'distinct (crash kind and file-system call, files on disk) per run'
COMPONENTS = {'real': ['qiskit.ignis.logging (writer and reader)', 'CPython logging and logging.handlers', 'Python text/buffered I/O'],
              'stub': ['process life', 'thread scheduling', 'locks', 'raw files', 'directory order', 'wall clock', 'console']}
ASSUMPTIONS = ['What a write call to the raw file returned is durable (process crash, not power loss).',
               'One process at a time uses the log; the clock does not run backwards.']


def gen(rng, tier):
    uid = 0
    procs = []
    nproc = rng.choice([2, 2, 3, 4])
    names = rng.choice([['exp', 'cal'], ['exp', 'exp.sub'], ['exp.sub', 'exp.sub.leaf', 'cal'], ['rb']])
    for _ in range(nproc):
        threads = []
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops = []
            for _ in range(rng.randint(0, 6) if rng.random() < 0.95 else rng.randint(10, 25)):
                if rng.random() < 0.12:
                    ops.append({'op': 'tick', 'dt': rng.choice([0.2, 1, 7200])})
                else:
                    uid += 1
                    ops.append({'op': 'log', 'uid': uid, 'log': rng.choice(names), 'pad': rng.choice([0, 0, 10, 60, 200]), 'char': rng.choice(['p', 'p', 'p', '\u00e9', '\u6f22'])})
            threads.append(ops)
        procs.append(threads)
    max_size = rng.choice([None, None, 100, 150, 300, 600])
    faults = []
    for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
        faults.append({'at': rng.randint(1, 10 + 6 * nproc), 'kind': rng.choice(['crash_before', 'crash_after', 'crash_torn', 'crash_torn', 'short']),
                       'frac': rng.choice([0.0, 0.05, 0.2, 0.4, 0.6, 0.8, 0.95, 0.995])})
    return {'max_size': max_size, 'rotations': rng.choice([1, 2, 3, 40]) if max_size else None, 'procs': procs, 'faults': faults,
            'order': rng.randrange(1 << 16), 'sched': sched_plan(rng, 300)}


def shrink(spec):
    for i in range(len(spec['procs'])):
        if len(spec['procs']) > 1:
            n = core.copy.deepcopy(spec)
            del n['procs'][i]
            yield n
    yield from core.drop_from_list(spec, ['faults'])
    for i, p in enumerate(spec['procs']):
        for j in range(len(p)):
            if len(p) > 1:
                n = core.copy.deepcopy(spec)
                del n['procs'][i][j]
                yield n
            yield from core.drop_from_list(spec, ['procs', i, j])
    for i, f in enumerate(spec['faults']):
        if f['at'] > 1:
            yield from core.set_value(spec, ['faults', i, 'at'], f['at'] - 1)
    yield from core.set_value(spec, ['max_size'], None)


def nontrivial(spec, out):
    return out['probes'].get('crash', 0) and out['probes'].get('acked_before_crash', 0)


def body_text(o):
    return "'uid':'u%d' 'pad':'%s' 'end':'z%d' " % (o['uid'], o.get('char', 'p') * o['pad'], o['uid'])


def run(spec, ctx):
    conf = 'file_logging: true\nlog_file: data.log\n'
    if spec['max_size']:
        conf += 'max_size: %d\nmax_rotations: %d\n' % (spec['max_size'], spec['rotations'])
    ops = {o['uid']: o for p in spec['procs'] for t in p for o in t if o['op'] == 'log'}
    with World(ctx, conf, faults=spec['faults'], order_seed=spec['order']) as w:
        acked, started, order = set(), set(), []
        for n, proc in enumerate(spec['procs']):
            if n:
                w.boot()
            api = w.api
            w.fs.enabled = False
            il = ctx.sut('IgnisLogging', api.IgnisLogging)
            loggers = {k: ctx.sut('get_logger', il.get_logger, k) for k in sorted({o['log'] for t in proc for o in t if o['op'] == 'log'})}
            look(spec, ctx, w, api, ops, acked, started)
            w.fs.enabled = True
            s = w.scheduler(spec['sched'] if len(proc) > 1 else {'mode': 'sparse', 'switches': []})

            def body(mine, s=s, loggers=loggers):
                def go():
                    for o in mine:
                        if o['op'] == 'tick':
                            w.clock.advance(o['dt'])
                            continue
                        started.add(o['uid'])
                        loggers[o['log']].log_to_file(uid='u%d' % o['uid'], pad=o.get('char', 'p') * o['pad'], end='z%d' % o['uid'])
                        if not w.fs.crashed:
                            acked.add(o['uid'])
                            order.append(o['uid'])
                            ctx.event('acked', o['uid'])
                return go
            for i, mine in enumerate(proc):
                s.spawn('p%dt%d' % (n, i), body(mine))
            s.run()
            if s.runaway:
                ctx.fail('no-progress', 'the threads did not finish')
            for t in s.tasks:
                if t.exc is not None:
                    ctx.fail('unexpected-exception', 'thread %s: %s: %s\n%s' % (t.name, type(t.exc).__name__, t.exc, core.short_tb(t.exc)))
            if w.fs.crashed:
                ctx.probe('crash')
                if acked:
                    ctx.probe('acked_before_crash')
                ctx.state(w.fs.fired, [f[0] for f in w.log_files('data.log')])
        # faults are over: a fresh process has to go on with the log
        w.boot()
        w.fs.enabled = False
        il = ctx.sut('IgnisLogging', w.api.IgnisLogging)
        look(spec, ctx, w, w.api, ops, acked, started)
        lg = ctx.sut('get_logger', il.get_logger, 'exp')
        last = {'op': 'log', 'uid': 100000, 'pad': 0}
        ops[100000] = last
        started.add(100000)
        ctx.sut('log_to_file after the restart', lg.log_to_file, uid='u100000', pad='', end='z100000')
        acked.add(100000)
        look(spec, ctx, w, w.api, ops, acked, started, final=True)


def look(spec, ctx, w, api, ops, acked, started, final=False):
    """Judge the files, then the reader's view of them."""
    files = w.log_files('data.log')
    seen, rows, sizes = [], [], []
    for num, path, text in files:
        recs = []
        for line in text.splitlines(True):
            full = RECORD.match(line.rstrip('\n'))
            u = full and re.match(r"'uid':'u(\d+)' ", full.group(3))
            if full and u and int(u.group(1)) in started and full.group(3) == body_text(ops[int(u.group(1))]) \
                    and (line.endswith('\n') or int(u.group(1)) not in acked):
                uid = int(u.group(1))
                ctx.check(uid not in seen, 'duplicate-record', 'record %d is in the log twice' % uid)
                seen.append(uid)
                recs.append((uid, len(line.encode())))
                rows.append((full.group(1), full.group(2), body_text(ops[uid]).split()))
                continue
            frag = line.rstrip('\n').rstrip('\ufffd')          # a character may be cut, too
            torn = [x for x in started if x not in acked and is_torn(frag, ops[x])]
            ctx.check(torn, 'damaged-record', 'file .%d has a line that is neither a record nor a torn unfinished one: %r' % (num, line[:300]))
            ctx.probe('torn_line')
            recs.append((None, len(line.encode())))
            if full:
                allowed = {tuple(body_text(ops[x]).split()[:k]) for x in torn for k in range(1, 4)}
                rows.append((full.group(1), full.group(2), allowed))
        sizes.append(recs)
    gone = sorted(u for u in acked if u not in seen)

    if gone:
        rot, size = spec['rotations'], spec['max_size']
        ctx.check(bool(size), 'lost-record', 'completed records %s are gone and nothing rotates' % gone)
        holes = sum(n for k, n in ctx.faults.items() if k.startswith('crash'))
        # a crash within a rotation may leave a hole in the numbering, which later rotations carry along
        ctx.check(len(files) >= rot + 1 - holes, 'lost-record', 'completed records %s are gone but only %d of %d files exist' % (gone, len(files), rot + 1))
        # what is gone is older than what is kept (per thread of a process, call numbers ascend)
        for p in spec['procs']:
            for t in p:
                mine = [o['uid'] for o in t if o['op'] == 'log' and o['uid'] in acked]
                missing = [u for u in mine if u not in seen]
                ctx.check(missing == mine[:len(missing)], 'lost-record', 'completed records %s are gone while older ones are kept' % missing)
        for (f, a), b in zip(zip(files, sizes), sizes[1:]):
            if a and b and b[0][0] is not None:
                total = sum(x[1] for x in a)
                trigger = max([b[0][1]] + [35 + len(body_text(ops[u]).encode()) for u in started if u not in acked])
                ctx.check(total + trigger >= size, 'lost-record',
                          'records %s were discarded although file .%d (%d bytes) had room under %d' % (gone, f[0], total, size))
    if spec['max_size']:
        ctx.check(len(files) <= spec['rotations'] + 1, 'too-many-files', '%d files, %d rotations configured' % (len(files), spec['rotations']))
    ctx.event('on disk', seen, [n for n, _, _ in files])
    # the reader
    got = ctx.sut('read_values after a restart', api.IgnisLogReader().read_values)
    i = 0
    for date, tm, pairs in rows:
        if isinstance(pairs, set):           # torn: at most itself
            pairs = {p for p in pairs if int(p[0][8:-1]) not in seen}
            if i < len(got) and got[i][:2] == [date, tm] and tuple(got[i][2:]) in pairs:
                i += 1
            continue
        ctx.check(i < len(got) and list(got[i]) == [date, tm] + pairs, 'reader-misses-record',
                  lambda: 'reader row %d is %r, the log has %r' % (i, got[i] if i < len(got) else None, [date, tm] + pairs))
        i += 1
    ctx.check(i == len(got), 'reader-invents-record', lambda: 'reader returned extra rows %r' % (got[i:i + 3],))


def is_torn(frag, o):
    """frag is a prefix (stamp included) of the line of o."""
    body = body_text(o)
    head = re.match(r'^(\d{4}/\d\d/\d\d \d\d:\d\d:\d\d ignis_logging )(.*)$', frag)
    if head:
        return body.startswith(head.group(2))
    return re.match(r'^[\d/: ]*( i?g?n?i?s?_?l?o?g?g?i?n?g? ?)?$', frag) is not None and len(frag) < 35
