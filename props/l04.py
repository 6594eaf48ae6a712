"""L04: the log reader returns exactly the matching records, oldest first."""
import io
import os
import re
from datetime import datetime, timedelta

from sim import core
from sim.logworld import World

PROP = 'L04'
RUNS = {'quick': 24000, 'thorough': 250000}
RULE = ('A run draws a log location, rotation settings and a history of value-logging calls, clock advances, foreign or cut lines, unrelated '
        'neighbouring files and restarts, and interleaves reads with drawn key sets, date windows, formats and explicit file lists; '
        'non-trivial when a read had at least one matching and one non-matching record.')
STATE_MEASURE = 'distinct (number of files, records, rows returned, kind of query) combinations'
COMPONENTS = {'real': ['qiskit.ignis.logging (writer and reader)', 'CPython logging, glob and I/O'],
              'stub': ['raw files, modification times, directory order', 'wall clock', 'console', 'process restarts']}
ASSUMPTIONS = ['The clock does not run backwards and the time zone does not change.',
               'Keys are identifiers; values hold neither quotes nor line breaks.',
               'A foreign line is one that does not look like a record with at least one complete pair.']
PATHS = ['data.log', 'logs/data.log', 'data [1].log', 'a*b?.log', 'x+(y).log', 'Mixed Case.LOG', 'data', 'C:odd.log', 'd.a.t.a', '[!a]data.log', '{x}^$.log', 'data.log.1']
KEYS = ['t1', 't2', 'qubits', 'uid', 'T1', 't', 'qubit_list', 'date']
VALUES = ['0.02', '[1, 2, 4]', '', ' ', 'a b  c', ' lead', 'trail ', 'k:v', '::', 't1:t2', 'Ünï', '{"a": 1}', 'x' * 90, '1e-5', '(0,)',
          'a\tb', 'None', 'ignis_logging', '2020/01/01 00:00:00', 't1', ' t2:', 'a,b']
JUNK = ['', '   ', 'garbage', 'Traceback (most recent call last):', "2020/09/13 12:26:40 other_logger 't1':'0.1' ", '2020/09/13 12:2', '2020/09/13',
        '2020/09/13 12:26:40', '2020/09/13 12:26:40 ignis_logging', '2020/09/13 12:26:40 ignis_logging ', "2020/09/13 12:26:40 ignis_logging 't1':'0.",
        "'t1':'0.1' ", '\x00\x00\x00', 'x ignis_logging y', ':', "''", '# comment', 'a b', 'a b c d e']
UNRELATED = ['%s.bak', '%s.1.gz', '%s.x', '%s2', 'x%s', '%s.1x', '%s.', '%s~', '%s.1.2', '%s.-1', '%s.1 ']


def gen(rng, tier):
    ops = []
    uid = 0
    for _ in range(rng.randint(2, 22)):
        r = rng.random()
        if r < 0.55:
            uid += 1
            pairs = [[k, rng.choice(VALUES)] for k in rng.sample(KEYS, rng.choice([0, 1, 1, 2, 3, 4]))]
            ops.append({'op': 'log', 'pairs': pairs, 'tag': uid})
        elif r < 0.75:
            ops.append({'op': 'tick', 'dt': rng.choice([0.001, 0.4, 1, 1, 5, 59, 3600, 86400, 40 * 86400])})
        elif r < 0.83:
            ops.append({'op': 'junk', 'text': rng.choice(JUNK), 'raw': rng.random() < 0.1})
        elif r < 0.87:
            ops.append({'op': 'unrelated', 'name': rng.choice(UNRELATED)})
        elif r < 0.9:
            ops.append({'op': 'restart'})
        else:
            ops.append(query(rng))
    ops.append(query(rng))
    ops.append(query(rng))
    size = rng.choice([None, None, 120, 200, 400])
    return {'path': rng.choice(PATHS), 'absolute': rng.random() < 0.2, 'max_size': size, 'rotations': rng.choice([1, 2, 5, 12, 30]) if size else None,
            'ops': ops, 'order': rng.randrange(1 << 20), 'start': 1_600_000_000.0 + rng.randrange(10 ** 7) + rng.random()}


def query(rng):
    q = {'op': 'read', 'keys': None, 'from': None, 'to': None, 'files': rng.choice([None, None, None, None, 'list', 'reversed', 'one'])}
    if rng.random() < 0.6:
        q['keys'] = rng.sample(KEYS + ['tag', 'nokey', 'ta', 'g'], rng.choice([0, 1, 1, 2, 3]))
    for side in ('from', 'to'):
        if rng.random() < 0.45:
            q[side] = {'rec': rng.random(), 'off': rng.choice([0, 0, 0, -1, 1, -3600, 86400]),
                       'fmt': rng.choice(['default', 'default', 'object', '%d-%m-%Y %H.%M.%S', '%Y/%m/%d', '%Y%m%d%H%M'])}
    return q


def shrink(spec):
    yield from core.drop_from_list(spec, ['ops'])
    yield from core.set_value(spec, ['max_size'], None)
    yield from core.set_value(spec, ['path'], 'data.log')
    yield from core.set_value(spec, ['absolute'], False)
    for i, o in enumerate(spec['ops']):
        if o['op'] == 'read':
            for k in ('keys', 'from', 'to', 'files'):
                yield from core.set_value(spec, ['ops', i, k], None)
        if o['op'] == 'log' and o['pairs']:
            yield from core.drop_from_list(spec, ['ops', i, 'pairs'])


def nontrivial(spec, out):
    return out['probes'].get('selective', 0)


def run(spec, ctx):
    with World(ctx, None, order_seed=spec['order'], start=spec['start']) as w:
        os.makedirs(os.path.join(w.cwd, 'logs'), exist_ok=True)
        path = os.path.join(w.cwd, spec['path']) if spec['absolute'] else spec['path']
        conf = 'file_logging: true\nlog_file: %s\n' % path
        if spec['max_size']:
            conf += 'max_size: %d\nmax_rotations: %d\n' % (spec['max_size'], spec['rotations'])
        w.write_config(conf)
        lg = None
        texts = {}
        for o in spec['ops']:
            if o['op'] == 'tick':
                w.clock.advance(o['dt'])
            elif o['op'] == 'restart':
                w.boot()
                lg = None
            elif o['op'] == 'log':
                if lg is None:
                    lg = ctx.sut('get_logger', lambda: w.api.IgnisLogging().get_logger('exp'))
                pairs = [tuple(p) for p in o['pairs']] + [('tag', o['tag'])]
                ctx.sut('log_to_file', lg.log_to_file, **dict(pairs))
                texts[o['tag']] = (w.clock.now(), ["'%s':'%s'" % (k, v) for k, v in pairs])
            elif o['op'] in ('junk', 'unrelated'):
                base = os.path.join(w.cwd, spec['path'])
                d, b = os.path.split(base)
                name = base if o['op'] == 'junk' else os.path.join(d, o['name'] % b)
                if o['op'] == 'junk' and not os.path.exists(base):
                    continue
                if o['op'] == 'unrelated' and re.match(re.escape(base) + r'(\.\d+)?$', name):
                    continue
                data = (o['text'].encode() if o['op'] == 'junk' else b"2020/09/13 12:26:40 ignis_logging 't1':'stray' 'tag':'0' ") + (b'\xff\xfe' if o.get('raw') else b'') + b'\n'
                with io.FileIO(name, 'a') as f:
                    f.write(data)
                    os.utime(f.fileno(), (w.clock.now(),) * 2)
                ctx.probe(o['op'])
            else:
                read(spec, ctx, w, o, texts)


def read(spec, ctx, w, q, texts):
    files = w.log_files(spec['path'])
    before = [(p, t) for _, p, t in files]
    got_files = ctx.sut('get_log_files', lambda: w.api.IgnisLogReader().get_log_files())
    want_files = [os.path.abspath(p) for _, p, _ in files]
    ctx.check([os.path.abspath(f) for f in got_files] == want_files, 'file-list',
              'log files are %s, reader lists %s' % ([os.path.basename(f) for f in want_files], [os.path.basename(f) for f in got_files]))
    # reference: records by the tag only we write
    sel = files
    kw = {}
    if q['files'] and files:
        names = [p for _, p, _ in files]
        if q['files'] == 'reversed':
            sel = files[::-1]
            kw['log_files'] = names[::-1]
        elif q['files'] == 'one':
            sel = files[-1:]
            kw['log_files'] = names[-1]
        else:
            kw['log_files'] = names
    recs = []
    for _, _, text in sel:
        for line in text.split('\n'):
            m = re.match(r"^(\d{4}/\d\d/\d\d) (\d\d:\d\d:\d\d) ignis_logging (.*'tag':'(\d+)') $", line)
            if m and int(m.group(4)) in texts:
                recs.append((m.group(1), m.group(2), texts[int(m.group(4))][1]))
                ctx.check(m.group(3) == ' '.join(recs[-1][2]), 'record-text', 'record reads %r' % line)
    if not q['files'] and not spec['max_size']:
        ctx.check(len(recs) == len(texts), 'lost-record', '%d of %d records are in the log' % (len(recs), len(texts)))
    lo = hi = None
    for side in ('from', 'to'):
        s = q[side]
        if not s:
            continue
        base = datetime(2020, 9, 13, 12, 26, 40)
        if recs:
            r = recs[min(len(recs) - 1, int(s['rec'] * len(recs)))]
            base = datetime.strptime(r[0] + ' ' + r[1], '%Y/%m/%d %H:%M:%S')
        at = base + timedelta(seconds=s['off'])
        if s['fmt'] == 'object':
            kw[side + '_datetime'] = at
        else:
            fmt = '%Y/%m/%d %H:%M:%S' if s['fmt'] == 'default' else s['fmt']
            text = at.strftime(fmt)
            at = datetime.strptime(text, fmt)
            kw[side + '_datetime'] = text
            if s['fmt'] != 'default':
                kw[side + '_datetime_format'] = fmt
        if side == 'from':
            lo = at
        else:
            hi = at
    if q['keys'] is not None:
        kw['keys'] = list(q['keys'])
    want = []
    for d, t, pairs in recs:
        at = datetime.strptime(d + ' ' + t, '%Y/%m/%d %H:%M:%S')
        if (lo and at < lo) or (hi and at > hi):
            continue
        keep = [p for p in pairs if q['keys'] is None or p[1:p.index("'", 1)] in q['keys']]
        if keep:
            want.append([d, t] + keep)
    got = ctx.sut('read_values', lambda: w.api.IgnisLogReader().read_values(**kw))
    got = [list(r) for r in got]
    ctx.check(got == want, 'rows', lambda: 'query %s: reader returned %d rows, expected %d; first difference %s' % (
        kw, len(got), len(want), next(((g, x) for g, x in zip(got + [None] * 99, want + [None] * 99) if g != x), None)))
    ctx.check([(p, t) for _, p, t in w.log_files(spec['path'])] == before, 'read-modifies', 'reading changed the log')
    if want and len(want) < len(recs):
        ctx.probe('selective')
    ctx.state(len(files), len(recs), len(want), q['keys'] is not None, bool(lo), bool(hi), q['files'])
    ctx.event('read', len(files), len(recs), len(got))
