L = 'qiskit/ignis/logging/ignis_logging.py'
PRE = '''
import logging, tempfile, threading, io, shutil, atexit
tmp = tempfile.mkdtemp(); atexit.register(shutil.rmtree, tmp, True)
os.environ['HOME'] = tmp
os.makedirs(tmp + '/.qiskit')
log = tmp + '/data.log'
def config(text):
    open(tmp + '/.qiskit/logging.yaml', 'w').write(text)
from qiskit.ignis.logging import IgnisLogging, IgnisLogReader
'''
SEEDS = [
    dict(id='l01-shared-buffer', property='L01',
         needs='two threads logging through the same logger, one pre-empted while its record is being put together',
         breaks='the record text is built in an attribute of the logger, so that concurrent calls mix their pairs',
         edits=[(L, '''        logstr = ""
        for k, v in kwargs.items():
            logstr += "'{}':'{}' ".format(k, v)
''', '''        self._pending = ""
        for k, v in kwargs.items():
            self._pending += "'{}':'{}' ".format(k, v)
        logstr = self._pending
''')],
         demo=PRE + '''
config('file_logging: true\\nlog_file: %s\\n' % log)
a = IgnisLogging().get_logger('a')

# a thread is pre-empted at every line of its call in turn, while another one makes a complete call
import itertools
n = itertools.count()
def other():
    a.log_to_file(x=7, y=next(n))
def at_line(k):
    state = {'left': k}
    def tracer(frame, event, arg):
        if frame.f_code.co_name != 'log_to_file':
            return None
        def local(frame, event, arg):
            if event == 'line':
                if state['left'] == 0:
                    t2 = threading.Thread(target=other); t2.start(); t2.join(5)
                state['left'] -= 1
            return local
        return local
    def first():
        sys.settrace(tracer)
        a.log_to_file(p=1, q=2, r=3)
        sys.settrace(None)
    t = threading.Thread(target=first); t.start(); t.join(20)
K = 25
for k in range(K):
    at_line(k)
rows = [tuple(r[2:]) for r in IgnisLogReader().read_values()]
for r in rows:
    assert r == ("'p':'1'", "'q':'2'", "'r':'3'") or (len(r) == 2 and r[0] == "'x':'7'"), r
assert sum(len(r) == 3 for r in rows) == K, rows
'''),
    dict(id='l02-leak-after-reenable', property='L02',
         needs='file logging disabled and enabled again on a logger that has already written a record',
         breaks='re-enabling attaches the data file to the ordinary handlers, so console messages land in the data log',
         edits=[(L, '''        object for a given logger name
        \"\"\"
        self._file_logging_enabled = True
''', '''        object for a given logger name
        \"\"\"
        if self._file_handler is not None and not self._file_logging_enabled:
            self.addHandler(self._file_handler)
        self._file_logging_enabled = True
''')],
         demo=PRE + '''
config('file_logging: true\\nlog_file: %s\\n' % log)
sys.stderr = io.StringIO()
a = IgnisLogging().get_logger('a')
a.log_to_file(x=1)
a.disable_file_logging()
a.enable_file_logging()
a.warning('hello')
text = open(log).read()
assert 'hello' not in text, text
'''),
    dict(id='l05-disabled-still-writes', property='L05',
         needs='file logging switched off after the logger has written at least one record',
         breaks='a logger that holds an open file goes on writing after file logging was disabled',
         edits=[(L, '''        if not self._file_logging_enabled:
''', '''        if not (self._file_logging_enabled or self._file_handler):
''')],
         demo=PRE + '''
config('file_logging: true\\nlog_file: %s\\n' % log)
sys.stderr = io.StringIO()
a = IgnisLogging().get_logger('a')
a.log_to_file(x=1)
a.disable_file_logging()
a.log_to_file(x=2)
assert len(open(log).readlines()) == 1
'''),
    dict(id='l04-key-part', property='L04',
         needs='a requested key that contains another logged key',
         breaks='a pair is returned when its key merely occurs inside a requested key',
         edits=[(L, "            if kv.split(\":\")[0].strip(\"'\") in keys:", "            if any(kv.split(\":\")[0].strip(\"'\") in key for key in keys):")],
         demo=PRE + '''
config('file_logging: true\\nlog_file: %s\\n' % log)
a = IgnisLogging().get_logger('a')
a.log_to_file(t1=1, t=2)
a.log_to_file(t=3)
rows = IgnisLogReader().read_values(keys=['t1'])
assert [r[2:] for r in rows] == [["'t1':'1'"]], rows
'''),
    dict(id='l04-from-limit', property='L04',
         needs='both date limits given, a record in the very second of the lower one',
         breaks='with both limits given the lower one excludes its own second',
         edits=[(L, '''            if row_datetime < from_dt:
''', '''            if row_datetime < from_dt or (to_dt is not None and row_datetime == from_dt < to_dt):
''')],
         demo=PRE + '''
config('file_logging: true\\nlog_file: %s\\n' % log)
with open(log, 'w') as f:
    for s in (1, 2, 3):
        f.write("2020/01/01 00:00:0%d ignis_logging 'n':'%d' \\n" % (s, s))
rows = IgnisLogReader().read_values(from_datetime='2020/01/01 00:00:02', to_datetime='2020/01/01 00:00:03')
assert [r[2] for r in rows] == ["'n':'2'", "'n':'3'"], rows
'''),
]
