"""L02: console messages and data records never mix, even after a failed call."""
import re

from sim import core
from sim.logworld import RECORD, World, sched_plan

PROP = 'L02'
RUNS = {'quick': 10000, 'thorough': 120000}
RULE = ('A run draws 1-3 loggers (flat or nested names), 1-3 threads mixing ordinary messages, value-logging calls, calls with values that '
        'fail while being printed, repeated get_logger calls and clock ticks, disk and console faults at drawn file-system calls, and a '
        'line-level thread schedule; non-trivial when at least one message and one value call completed.')
STATE_MEASURE = 'distinct (thread switches, faults fired) per run'
COMPONENTS = {'real': ['qiskit.ignis.logging', 'CPython logging and logging.handlers', 'Python text/buffered I/O'],
              'stub': ['thread scheduling', 'locks', 'raw files', 'wall clock', 'console']}
ASSUMPTIONS = ['logging.raiseExceptions is off: the standard library then drops the error of a failing handler silently.',
               'A record whose own call met an injected disk fault may or may not be in the log, but never in part of a line of another record.']
FLAT = ['exp', 'cal', 'rb']
NESTED = ['exp', 'exp.sub', 'exp.sub.leaf']


def gen(rng, tier):
    nested = rng.random() < 0.25
    names = rng.sample(NESTED if nested else FLAT, rng.choice([1, 1, 2, 3]))
    uid = 0
    threads = []
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        ops = []
        for _ in range(rng.randint(1, 7)):
            r = rng.random()
            uid += 1
            lg = rng.choice(names)
            if r < 0.35:
                ops.append({'op': 'msg', 'log': lg, 'uid': uid, 'level': rng.choice(['warning', 'error', 'critical', 'warning', 'info'])})
            elif r < 0.7:
                ops.append({'op': 'log', 'log': lg, 'uid': uid, 'pad': rng.choice([0, 0, 20, 100])})
            elif r < 0.85:
                ops.append({'op': 'bad', 'log': lg, 'uid': uid, 'exc': rng.choice(['ValueError', 'KeyboardInterrupt', 'UnicodeError']),
                            'pos': rng.choice(['first', 'last'])})
            elif r < 0.9:
                ops.append({'op': 'badmsg', 'log': lg, 'uid': uid})
            elif r < 0.94:
                ops.append({'op': 'get', 'log': lg})
            elif r < 0.97:
                ops.append({'op': 'toggle', 'log': lg, 'how': rng.choice(['off-on', 'on', 'on-on'])})
            else:
                ops.append({'op': 'tick', 'dt': rng.choice([0.3, 1, 3600])})
        threads.append(ops)
    faults = []
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 1, 2, 4])):
            faults.append({'at': rng.randint(1, 14), 'kind': rng.choice(['eio', 'enospc', 'enospc', 'short']),
                           'partial': rng.random() < 0.5, 'frac': rng.choice([0.1, 0.5, 0.9])})
    return {'names': names, 'threads': threads, 'faults': faults,
            'console_fail': sorted({rng.randint(1, 6) for _ in range(rng.choice([0, 0, 0, 1, 2]))}),
            'root': rng.random() < 0.2, 'shared': nested or rng.random() < 0.6, 'by': rng.choice(['config', 'enable']),
            'max_size': rng.choice([None, None, 100, 300]), 'order': rng.randrange(1 << 16),
            'sched': sched_plan(rng, 60 + 110 * sum(len(t) for t in threads))}


def shrink(spec):
    for t in range(len(spec['threads'])):
        if len(spec['threads']) > 1:
            n = core.copy.deepcopy(spec)
            del n['threads'][t]
            yield n
    yield from core.set_value(spec, ['faults'], [])
    yield from core.set_value(spec, ['console_fail'], [])
    yield from core.drop_from_list(spec, ['faults'])
    for t in range(len(spec['threads'])):
        yield from core.drop_from_list(spec, ['threads', t])
    if spec['sched']['mode'] == 'sparse':
        yield from core.drop_from_list(spec, ['sched', 'switches'])
    yield from core.set_value(spec, ['root'], False)
    yield from core.set_value(spec, ['max_size'], None)


def nontrivial(spec, out):
    return out['probes'].get('message', 0) and out['probes'].get('record', 0)


class Boom:
    """A value that cannot be printed."""

    def __init__(self, exc):
        self.exc = {'ValueError': ValueError, 'KeyboardInterrupt': KeyboardInterrupt, 'UnicodeError': UnicodeError}[exc]

    def __format__(self, spec):
        raise self.exc('unprintable')
    __str__ = __repr__ = lambda self: self.__format__('')


def run(spec, ctx):
    import logging
    conf = 'file_logging: %s\nlog_file: data.log\n' % ('true' if spec['by'] == 'config' else 'false')
    if spec['max_size']:
        conf += 'max_size: %d\nmax_rotations: 90\n' % spec['max_size']
    with World(ctx, conf, faults=spec['faults'], order_seed=spec['order']) as w:
        w.fs.enabled = False
        api = w.api
        hit = set()          # uids of calls that met a fault of their own
        s = w.scheduler(spec['sched'])
        now = {}

        def current():
            t = s.me()
            if t is not None and t.index in now:
                hit.add(now[t.index])
        w.fs.on_fault = lambda f, kind: current()

        def console_fault():
            ctx.fault('console_eio')
            current()
        w.console.fail_at = {n: console_fault for n in spec['console_fail']}
        if spec['root']:
            rh = logging.StreamHandler()
            rh.setFormatter(logging.Formatter('ROOT %(message)s'))
            logging.root.addHandler(rh)

        def obtain(name):
            lg = api.IgnisLogging().get_logger(name)
            if spec['by'] == 'enable':
                lg.enable_file_logging()
            return lg
        ctx.sut('IgnisLogging', api.IgnisLogging)
        shared = {}
        if spec['shared']:
            for n in spec['names']:
                shared[n] = ctx.sut('get_logger', obtain, n)
        w.fs.enabled = True
        done, failed = {}, []

        def body(i, ops):
            own = dict(shared)

            def go():
                for o in ops:
                    if o['op'] == 'tick':
                        w.clock.advance(o['dt'])
                        continue
                    if o['op'] == 'get' or o['log'] not in own:
                        own[o['log']] = obtain(o['log'])
                    if o['op'] == 'get':
                        continue
                    if o['op'] == 'toggle':
                        if o['how'] == 'off-on' and len(spec['threads']) == 1:
                            own[o['log']].disable_file_logging()
                            ctx.probe('switched_off_and_on')
                        own[o['log']].enable_file_logging()
                        if o['how'] == 'on-on':
                            own[o['log']].enable_file_logging()
                        continue
                    now[i] = o['uid']
                    lg = own[o['log']]
                    if o['op'] == 'msg':
                        getattr(lg, o['level'])('message <m%d> ok', o['uid'])
                    elif o['op'] == 'badmsg':
                        lg.warning('message <m%d> %d', o['uid'])         # too few arguments
                    else:
                        kv = {'uid': '<d%d>' % o['uid'], 'pad': 'p' * o.get('pad', 0), 'end': 'z'}
                        if o['op'] == 'bad':
                            kv = {'boom': Boom(o['exc']), **kv} if o['pos'] == 'first' else {**kv, 'boom': Boom(o['exc'])}
                        try:
                            lg.log_to_file(**kv)
                        except (Exception, KeyboardInterrupt) as e:      # pylint: disable=broad-except
                            ctx.event('call failed', o['uid'], type(e).__name__)
                            failed.append((o['uid'], o['op'], repr(e)))
                    done[o['uid']] = o
                    now.pop(i, None)
            return go

        for i, ops in enumerate(spec['threads']):
            s.spawn('t%d' % i, body(i, ops))
        s.run()
        if s.runaway:
            ctx.fail('no-progress', 'the threads did not finish')
        for t in s.tasks:
            if t.exc is not None:
                ctx.fail('unexpected-exception', 'thread %s: %s: %s\n%s' % (t.name, type(t.exc).__name__, t.exc, core.short_tb(t.exc)))
        for uid, op, e in failed:
            ctx.check(op == 'bad' or uid in hit, 'spurious-failure', 'value call %d met no fault of its own but raised %s' % (uid, e))
        ctx.state(s.switches, sorted(ctx.faults.items()))
        # liveness: once the faults stop, a record and a message on every logger go where they belong
        w.fs.enabled = False
        w.console.fail_at = {}
        tail = 1000
        for n in spec['names']:
            lg = ctx.sut('get_logger', obtain, n)
            for k in range(2):
                tail += 1
                ctx.sut('log_to_file after the faults', lg.log_to_file, uid='<d%d>' % tail, pad='', end='z')
                done[tail] = {'op': 'log', 'uid': tail, 'log': n, 'pad': 0}
                tail += 1
                ctx.sut('warning after the faults', lg.warning, 'message <m%d> ok', tail)
                done[tail] = {'op': 'msg', 'uid': tail, 'log': n, 'level': 'warning'}
        judge(spec, ctx, w, done, hit)


def judge(spec, ctx, w, done, hit):
    console = w.console.text
    for l in w.console.lines():
        ctx.check('<d' not in l and "'uid'" not in l, 'data-on-console', 'data on the console: %r' % l[:200])
    obtained = set(spec['names']) if spec['shared'] else None
    for uid, o in sorted(done.items()):
        if o['op'] not in ('msg', 'badmsg'):
            continue
        tok = '<m%d>' % uid
        n = console.count(tok)
        if o['op'] == 'badmsg':
            continue
        want = 0 if o['level'] == 'info' else expected(spec, o['log'], obtained)
        ctx.probe('message')
        if uid in hit:
            ctx.check(n <= want, 'message-count', 'message %d appears %d times, expected at most %d' % (uid, n, want))
        else:
            ctx.check(n == want, 'message-count', 'message %d on logger %s appears %d times on the console, expected %d' % (uid, o['log'], n, want))
            good = sum(1 for l in w.console.lines() if l.endswith('message %s ok' % tok) and l.count('<m') == 1)
            ctx.check(uid in hit or good == want or spec['console_fail'], 'message-garbled', 'message %d is garbled on the console: %r' % (uid, console[-400:]))
    seen = {}
    for num, path, text in w.log_files('data.log'):
        ctx.check(not text or text.endswith('\n'), 'torn-record', 'file .%d ends within a line: %r' % (num, text[-100:]))
        for line in text.split('\n')[:-1]:
            ctx.check('<m' not in line, 'message-in-log', 'ordinary message in the data log: %r' % line[:200])
            m = RECORD.match(line)
            u = m and re.match(r"'uid':'<d(\d+)>' ", m.group(3))
            ctx.check(m is not None and u is not None, 'garbled-record', 'the data log has a line that is no record: %r' % line[:300])
            uid = int(u.group(1))
            o = done.get(uid, {'pad': 0, 'op': None})
            ctx.check(o['op'] == 'log' and m.group(3) == "'uid':'<d%d>' 'pad':'%s' 'end':'z' " % (uid, 'p' * o['pad']), 'garbled-record',
                      lambda: 'record of call %d reads %r' % (uid, line[:300]))
            ctx.check(uid not in seen, 'duplicate-record', 'call %d is recorded twice' % uid)
            seen[uid] = True
    for uid, o in done.items():
        if o['op'] == 'log' and uid not in hit:
            ctx.probe('record')
            ctx.check(uid in seen, 'lost-record', 'call %d met no fault of its own but its record is missing' % uid)
    ctx.event('seen', sorted(seen), len(console))


def expected(spec, name, obtained):
    n = 1 if spec['root'] else 0
    if obtained is None:
        return n + 1                   # flat names, obtained on first use
    return n + sum(1 for a in obtained if name == a or name.startswith(a + '.'))
