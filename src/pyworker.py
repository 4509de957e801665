"""Runs PyArcWelder.ConvertFile cases (one JSON object per line of stdin) and reports what a Python caller observes."""
import sys, os, json, traceback, types, shutil, gc, collections
out = os.fdopen(os.dup(1), 'w', buffering=1); devnull = os.open('/dev/null', os.O_WRONLY); os.dup2(devnull, 1); os.dup2(devnull, 2)
LOG = dict(mode=None, got=[])
class L:
    def getEffectiveLevel(self): return 0
def method(name):
    def f(self, m, *a, **k):
        if LOG['mode'] is None: return
        LOG['got'].append([name, m if type(m) is str and not a and not k else repr((m, a, k))])
        if LOG['mode'] == name or LOG['mode'] == 'all' or LOG['mode'] == len(LOG['got']): raise Boom('the logger')
        return 'x'
    return f
for n in ('info', 'warn', 'warning', 'error', 'debug', 'verbose', 'critical', 'exception'): setattr(L, n, method(n))
class Boom(Exception): pass
class LoggingConfigurator:
    def __init__(self, *a): self.l = L()
    def get_logger(self, name): return self.l
pkg = types.ModuleType('octoprint_arc_welder'); log = types.ModuleType('octoprint_arc_welder.log'); log.LoggingConfigurator = LoggingConfigurator; pkg.log = log
sys.modules['octoprint_arc_welder'] = pkg; sys.modules['octoprint_arc_welder.log'] = log
sys.path.insert(0, sys.argv[1]); import PyArcWelder
class Idx:
    def __init__(self, v): self.v = v
    def __index__(self): return self.v
class BadIdx:
    def __index__(self): raise Boom('index')
def value(v):
    if isinstance(v, dict):
        k = v['$']
        return {'nan': float('nan'), 'inf': float('inf'), 'ninf': -float('inf'), 'big': 10 ** 40, 'nbig': -10 ** 40, 'obj': object(), 'bytes': bytes(bytearray(b'0.1')), 'list': [1], 'dict': {}, 'surrogate': '\udc80x', 'str': '0.1', 'tuple': tuple([1]), 'badidx': BadIdx(), 'fn': lambda: 0}[k]
    return v
def unshared(v):   # a new object, so that its reference count is ours
    if type(v) is float: return float(repr(v))
    if type(v) is str: return (v + ' ')[:-1]
    if type(v) is int and not 0 <= v < 257 and v > -6: return int(str(v))
    return v
def rd(p):
    try: return open(p, 'rb').read().decode('latin-1')
    except OSError: return None
def strip(d): return {k: (v if not (type(v) is float and (v != v or v in (float('inf'), -float('inf')))) else -12345.0) for k, v in d.items()}
CAL = None; CONVERT = [PyArcWelder.ConvertFile]
def once(c, full):
    args = c['args']
    if isinstance(args, dict) and '$' not in args: args = {unshared(k): unshared(value(v)) for k, v in args.items()}
    elif isinstance(args, dict): args = value(args)
    ans = c.get('answers', []); seen = []; errs = []; refs = []; notes = []
    def cb(p):
        i = len(seen); seen.append(strip(p)); refs.append((p, p.get('guid')))
        if type(p) is not dict: notes.append('the callback received a %s' % type(p))
        a = ans[i] if i < len(ans) else c.get('rest', 'True')
        if a == 'True': return True
        if a == 'False': return False
        if a == 'None': return None
        if a == 'exc': e = Boom('boom %d' % i); errs.append(e); raise e
        if a == 'exit': e = SystemExit(3); errs.append(e); raise e
        if a == 'kbd': e = KeyboardInterrupt(); errs.append(e); raise e
        if a == 'obj': return object()
        if a == 'str': return 'yes'
        if a == 'list': return [1]
        if a == 'float': return 1.5
        if a == 'zerofloat': return 0.0
        if a == 'big': return 10 ** 30
        if a == 'idx1': return Idx(1)
        if a == 'idx0': return Idx(0)
        if a == 'badidx': return BadIdx()
        if a == 'mutate': p.clear(); p['x'] = 1; refs[-1] = (p, None); return True
        if a == 'clear':
            if isinstance(args, dict): args.clear()
            return True
        if a == 'swallow':
            try: raise Boom('inner')
            except Boom: pass
            return True
        if a == 'nested':
            d = c['nested']; r = PyArcWelder.ConvertFile(dict(guid='nested', source_path=d[0], target_path=d[1], on_progress_received=lambda p: True)); got = rd(d[1])
            if r['success'] != 1 or got != rd(d[2]): notes.append('the conversion started by the callback was wrong')
            return True
        return int(a)
    wait_key = c.get('cbkey', True)
    if isinstance(args, dict) and wait_key and 'on_progress_received' not in args: args['on_progress_received'] = cb
    held = dict(args) if isinstance(args, dict) else {}; before = {k: sys.getrefcount(v) for k, v in held.items()}; cbc = sys.getrefcount(cb); ac = sys.getrefcount(args)
    res = None; exc = None
    try:
        call = c.get('call', 1)
        res = CONVERT[0](args) if call == 1 else CONVERT[0]() if call == 0 else CONVERT[0](args, args)
    except BaseException as e: exc = e
    r = dict(exc=None if exc is None else type(exc).__name__, exctext=None if exc is None else str(exc)[:200])
    if exc is not None and errs: r['same'] = exc is errs[0]
    failed = exc is not None
    for e in errs + [exc] * failed: e.__traceback__ = None
    e = exc = None; errs.clear()
    cleared = 'clear' in ans[:len(seen)]
    if sys.getrefcount(args) != ac: notes.append('reference count of the argument changed by %d' % (sys.getrefcount(args) - ac))
    for k, v in held.items():
        n = sys.getrefcount(v) - before[k] + (1 if cleared else 0)
        if n and before[k] < 1 << 28: notes.append('reference count of argument %s changed by %d' % (k, n))
    cnt = []
    for i in range(len(refs)):
        p, g = refs[i]; refs[i] = None; cnt.append((sys.getrefcount(p), None if g is None else sys.getrefcount(g))); p = g = None
    if type(res) is dict:
        fin = res.get('progress'); cnt_res = (sys.getrefcount(res), sys.getrefcount(fin)); fin = None
        r['result'] = {k: v for k, v in res.items() if k != 'progress'}; r['progress'] = strip(res['progress']) if type(res.get('progress')) is dict else None
    else:
        cnt_res = None
        if not failed: notes.append('the result is a %s' % type(res))
    if CAL is None: return cnt, cnt_res
    for x in cnt:
        if x[0] != CAL[0][0][0]: notes.append('reference count of a progress dictionary is %d instead of %d' % (x[0], CAL[0][0][0])); break
        if x[1] is not None and x[1] != CAL[0][0][1]: notes.append('reference count of a progress guid is %d instead of %d' % (x[1], CAL[0][0][1])); break
    if cnt_res and cnt_res != CAL[1]: notes.append('reference counts of the result and its progress are %s instead of %s' % (cnt_res, CAL[1]))
    r['seen'] = seen if full else len(seen); r['notes'] = notes
    return r
def fake(args):
    p = {'guid': (args['guid'] + ' ')[:-1]}; args['on_progress_received'](p); p = {'guid': (args['guid'] + ' ')[:-1]}
    return {'success': 1, 'progress': p}
CONVERT[0] = fake; CAL = once({'args': {'guid': 'some-guid', 'x': .5}}, False); CONVERT[0] = PyArcWelder.ConvertFile
def case(c):
    d = c.get('dir')
    def prep():
        for n, s in c.get('files', {}).items(): shutil.copyfile(s, d + '/' + n)
    if d: os.mkdir(d); prep()
    nfd = len(os.listdir('/proc/self/fd')); LOG['mode'] = c.get('log'); LOG['got'] = []; r = once(c, True)
    if c.get('log') is not None: r['log'] = LOG['got']; LOG['mode'] = None
    if len(os.listdir('/proc/self/fd')) != nfd: r['notes'].append('a file was left open')
    if d: r['files'] = {n: rd(d + '/' + n) for n in sorted(os.listdir(d))}
    if c.get('leak'):
        n = c['leak']
        for i in range(4):
            if d: prep()
            once(c, False)
        gc.collect(); b0 = sys.getallocatedblocks()
        for i in range(n):
            if d: prep()
            once(c, False)
        gc.collect(); b1 = sys.getallocatedblocks(); r['leak'] = b1 - b0
    if d: shutil.rmtree(d)
    return json.dumps(r)
for line in sys.stdin:
    try: s = case(json.loads(line))
    except BaseException: s = json.dumps(dict(crash=traceback.format_exc()[-1500:]))
    out.write(s + '\n')
