"""L05: logging configuration takes full effect exactly once, whoever comes first."""
import os
import re

from sim import core
from sim.logworld import RECORD, World, sched_plan

PROP = 'L05'
RUNS = {'quick': 10000, 'thorough': 120000}
RULE = ('A run draws the text of the configuration file (present, absent, malformed, any key order, case, blanks and comments), 1-4 threads whose '
        'first action is to obtain the logging facility, sequences of enable, disable, get and value-logging calls, a line-level schedule, and '
        'a closing sequential phase that shows which file, size and rotation settings are in force; non-trivial when the file was present or two threads raced.')
STATE_MEASURE = 'distinct (effective settings, thread switches) per run'
COMPONENTS = {'real': ['qiskit.ignis.logging', 'CPython logging and logging.handlers', 'Python text/buffered I/O'],
              'stub': ['thread scheduling', 'locks', 'raw files', 'wall clock', 'console', 'home directory']}
ASSUMPTIONS = ['All threads pass the same configuration path.', 'Two threads do not switch the same logger on and off at the same time.']


def gen(rng, tier):
    lines = None
    if rng.random() < 0.85:
        lines = []

        def put(key, val):
            k = rng.choice([key, key, key, key.upper(), key.title(), '  ' + key, key + ' '])
            lines.append(k + rng.choice([':', ': ', ':   ', ' : ']) + val + rng.choice(['', '', '  ', ' # note', '# x: y']))
        if rng.random() < 0.9:
            put('file_logging', rng.choice(['true', 'true', 'true', 'True', 'TRUE', 'false', 'no', 'yes', '1', '', 'truee']))
        if rng.random() < 0.7:
            put('log_file', rng.choice(['a.log', 'My Data.LOG', 'logs/b.log', '', 'C:x.log', 'é.log', 'a.log.1', 'b:c:d']))
        if rng.random() < 0.6:
            put('max_size', rng.choice(['100', '250', '250', '1000', 'abc', '', '-5', '1.5', '0', '10 0']))
        if rng.random() < 0.6:
            put('max_rotations', rng.choice(['1', '2', '3', '3', 'many', '', '-1', '0', '2.0']))
        rng.shuffle(lines)
        for _ in range(rng.choice([0, 0, 1, 2])):
            lines.insert(rng.randint(0, len(lines)), rng.choice(['', '# comment: true', 'nonsense', 'other: 3', '   ', 'file_logging', 'max_size 5', ': :']))
    nthreads = rng.choice([1, 1, 2, 2, 3, 4])
    threads = []
    uid = 0
    for t in range(nthreads):
        ops = []
        for _ in range(rng.randint(1, 6)):
            r = rng.random()
            uid += 1
            where = rng.choice(['shared', 'own'])
            if r < 0.5:
                ops.append({'op': 'log', 'log': where, 'uid': uid})
            elif r < 0.64:
                ops.append({'op': 'enable', 'log': 'own'})
            elif r < 0.78:
                ops.append({'op': 'disable', 'log': 'own'})
            elif r < 0.9:
                ops.append({'op': 'get', 'log': where})
            else:
                ops.append({'op': 'facility'})
        threads.append(ops)
    return {'lines': lines, 'explicit': rng.random() < 0.3, 'threads': threads, 'sched': sched_plan(rng, 80 + 60 * uid), 'tail': rng.randint(0, 8)}


def shrink(spec):
    for t in range(len(spec['threads'])):
        if len(spec['threads']) > 1:
            n = core.copy.deepcopy(spec)
            del n['threads'][t]
            yield n
    for t in range(len(spec['threads'])):
        yield from core.drop_from_list(spec, ['threads', t])
    if spec['lines']:
        yield from core.drop_from_list(spec, ['lines'])
    if spec['sched']['mode'] == 'sparse':
        yield from core.drop_from_list(spec, ['sched', 'switches'])
    yield from core.set_value(spec, ['tail'], 0)
    yield from core.set_value(spec, ['explicit'], False)


def nontrivial(spec, out):
    return spec['lines'] is not None or len(spec['threads']) > 1


def settings(lines):
    """Reference reading of the documented configuration file."""
    conf = {}
    for line in lines or []:
        line = line.split('#')[0]
        key, colon, val = line.partition(':')
        if colon:
            conf[key.strip().lower()] = val.strip()
    num = lambda s: int(s) if re.match(r'^[0-9]+$', s or '') else 0    # noqa
    return (conf.get('file_logging', '').lower() == 'true', conf.get('log_file') or 'ignis.log', num(conf.get('max_size')), num(conf.get('max_rotations')))


def run(spec, ctx):
    text = None if spec['lines'] is None else '\n'.join(spec['lines']) + '\n'
    on, path, size, rot = settings(spec['lines'])
    with World(ctx, None if spec['explicit'] else text) as w:
        os.makedirs(os.path.join(w.cwd, 'logs'), exist_ok=True)
        arg = ()
        if spec['explicit']:
            arg = (os.path.join(w.root, 'elsewhere.yaml'),)
            w.write_config('file_logging: %s\nlog_file: wrong.log\n' % ('false' if on else 'true'))
            if text is not None:
                with open(arg[0], 'w') as f:
                    f.write(text)
        api = w.api
        facilities, warned, logged, unlogged, wrong = [], set(), [], [], []

        def body(i, ops):
            def go():
                f = api.IgnisLogging(*arg)
                facilities.append(f)
                if f.get_log_file() != path:
                    wrong.append('thread %d sees log file %r right after obtaining the facility, configured is %r' % (i, f.get_log_file(), path))
                own, state = {}, {'shared': on, 'own': on}
                for o in ops:
                    if o['op'] == 'facility':
                        facilities.append(api.IgnisLogging(*arg))
                        continue
                    name = 'shared' if o['log'] == 'shared' else 'own%d' % i
                    if o['op'] == 'get' or name not in own:
                        own[name] = api.IgnisLogging(*arg).get_logger(name)
                    if o['op'] == 'enable':
                        own[name].enable_file_logging()
                        state['own'] = True
                    elif o['op'] == 'disable':
                        own[name].disable_file_logging()
                        state['own'] = False
                    elif o['op'] == 'log':
                        own[name].log_to_file(uid=o['uid'])
                        if state[o['log']]:
                            logged.append(o['uid'])
                        else:
                            warned.add(name)
                            unlogged.append(o['uid'])
            return go
        s = w.scheduler(spec['sched'])
        for i, ops in enumerate(spec['threads']):
            s.spawn('t%d' % i, body(i, ops))
        s.run()
        if s.runaway:
            ctx.fail('no-progress', 'the threads did not finish')
        for t in s.tasks:
            if t.exc is not None:
                ctx.fail('unexpected-exception', 'thread %s: %s: %s\n%s' % (t.name, type(t.exc).__name__, t.exc, core.short_tb(t.exc)))
        ctx.check(not wrong, 'half-initialised', lambda: wrong[0])
        ctx.check(all(f is facilities[0] for f in facilities), 'two-facilities', 'threads obtained different logging facilities')
        ctx.state(on, path, size, rot, s.switches)
        stray = [f for f in w.files_present() if not re.match(re.escape(path) + r'(\.\d+)?$', f)]
        ctx.check(not stray, 'stray-file', 'unexpected files %s, configured log is %s' % (stray, path))
        if not logged:
            ctx.check(not w.files_present(), 'file-while-off', 'file logging was never on when logging, but files exist: %s' % w.files_present())
        # closing phase, one thread: which settings are in force?
        lg = ctx.sut('get_logger', lambda: api.IgnisLogging(*arg).get_logger('closing'))
        ctx.check(api.IgnisLogging(*arg).get_log_file() == path, 'log-file', 'log file is %r, configured %r' % (api.IgnisLogging(*arg).get_log_file(), path))
        if spec['tail'] and not on:
            ctx.sut('log_to_file', lg.log_to_file, uid=90)
            warned.add('closing')
            unlogged.append(90)
            ctx.sut('log_to_file', lg.log_to_file, uid=91)
            unlogged.append(91)
            if not logged:
                ctx.check(not w.files_present(), 'file-while-off', 'a value call while off created %s' % w.files_present())
        if spec['tail'] % 2 and not on:
            lg.enable_file_logging()
        if on or spec['tail'] % 2:
            for k in range(spec['tail']):
                ctx.sut('log_to_file', lg.log_to_file, uid=1000 + k)
                logged.append(1000 + k)
        lines = [l for l in w.console.lines() if 'disabled' in l.lower()]
        ctx.check(len(lines) == len(warned), 'warning-count', '%d loggers were used while off, %d warnings: %s' % (len(warned), len(lines), lines))
        files = w.log_files(path)
        seen, sizes = [], []
        for num, _, txt in files:
            ls = txt.split('\n')
            ctx.check(not txt or ls[-1] == '', 'garbled-record', 'file .%d ends within a line' % num)
            sizes.append([])
            for l in ls[:-1]:
                m = RECORD.match(l)
                u = m and re.match(r"'uid':'(\d+)' $", m.group(3))
                ctx.check(u, 'garbled-record', 'no record: %r' % l)
                seen.append(int(u.group(1)))
                sizes[-1].append(len(l) + 1)
        bad = sorted(set(seen) & set(unlogged))
        ctx.check(not bad, 'logged-while-off', 'values %s were logged while file logging was off' % bad)
        ctx.event('seen', sorted(seen))
        # exact layout: replay the records in log order through a model of a rotating log
        missing = [u for u in logged if u not in seen]
        rotating = size > 0 and rot > 0
        if not rotating:
            ctx.check(not missing, 'lost-record', 'records %s are missing, nothing rotates (max_size %d, rotations %d)' % (missing, size, rot))
            ctx.check(len(files) == (1 if logged else 0), 'settings', 'no rotation configured (%s) but files %s' % ((size, rot), [f[0] for f in files]))
            return
        total = len(logged)
        if not total:
            return
        # all records have lengths between lo and hi; the number of files is bounded both ways
        ctx.check(len(files) <= rot + 1, 'settings', '%d files, %d rotations configured' % (len(files), rot))
        for (num, _, _), rec in zip(files, sizes):
            ctx.check(sum(rec) <= size or len(rec) == 1, 'settings', 'file .%d has %d bytes, limit %d' % (num, sum(rec), size))
        for (num, _, _), rec, nxt in zip(files, sizes, sizes[1:]):
            ctx.check(sum(rec) + nxt[0] >= size, 'settings', 'file .%d (%d bytes) was rotated early, limit %d' % (num, sum(rec), size))
        if missing:
            ctx.check(len(files) == rot + 1, 'lost-record', 'records %s are missing with %d of %d files' % (missing, len(files), rot + 1))
        if len(files) > 1:
            ctx.probe('rotated')
