#!/usr/bin/env python3
"""P01, P02: the Python extension, compared with the library for every argument dictionary and callback answer of the stated bounds.

PyArcWelder.so is built from the working tree and imported by worker processes (src/pyworker.py); the library driver
(src/driver.cpp) converts the same file with the values the extension documents for that dictionary.
"""
import os, sys, json, itertools, subprocess, shutil, tempfile, sysconfig, threading, queue
import native, cli
from native import Report
W = 8

class Workers:
    def __init__(self, exes, clock=None, root=None): self.exes, self.clock, self.root = exes, clock, root
    def spawn(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONMALLOC='debug')
        if self.clock: env['LD_PRELOAD'] = self.clock
        return subprocess.Popen([sys.executable, native.VERIF + '/src/pyworker.py', os.path.dirname(self.exes['pyext'])], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, env=env, cwd=self.root)
    def map(self, cases, judge):
        q = queue.Queue()
        for x in enumerate(cases): q.put(x)
        def loop():
            p = self.spawn()
            while True:
                try: i, c = q.get_nowait()
                except queue.Empty: break
                t = threading.Timer(120, p.kill); t.start()
                try: p.stdin.write(json.dumps(c) + '\n'); p.stdin.flush(); l = p.stdout.readline()
                except OSError: l = ''
                t.cancel()
                if not l:
                    rc = p.wait(); p = self.spawn(); r = dict(crash=rc)
                    if c.get('dir'): shutil.rmtree(c['dir'], ignore_errors=True)
                else: r = json.loads(l)
                judge(i, c, r)
            p.stdin.close(); p.wait()
        ts = [threading.Thread(target=loop) for _ in range(W)]
        for t in ts: t.start()
        for t in ts: t.join()

def clockshim(bdir):
    o = bdir + '/clock.so'; subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', native.VERIF + '/src/clockshim.c', '-o', o], check=True); return o

def driver(exe, lines, clock=None):
    env = dict(os.environ)
    if clock: env['LD_PRELOAD'] = clock
    k = max(1, (len(lines) + W - 1) // W); parts = [lines[i:i + k] for i in range(0, len(lines), k)]; res = [None] * len(parts)
    def one(i):
        p = subprocess.run([exe], input='\n'.join(parts[i]) + '\n', capture_output=True, text=True, env=env); res[i] = [json.loads(l) for l in p.stdout.splitlines()]
        if len(res[i]) != len(parts[i]): res[i] += [None] * (len(parts[i]) - len(res[i]))
    ts = [threading.Thread(target=one, args=(i,)) for i in range(len(parts))]
    for t in ts: t.start()
    for t in ts: t.join()
    return [x for r in res for x in r]

def near(a, b): return a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and abs(a - b) <= 1e-12 * max(abs(a), abs(b)))
def cmpprog(want, got, text):
    if type(got) is not dict: return 'no progress dictionary'
    for k, v in want.items():
        if k in ('extrusion_table', 'travel_table'): continue  # the console's, not the extension's
        if k in ('segment_statistics_text', 'segment_travel_statistics_text') and not text: v = ''
        if k not in got: return '"%s" is missing' % k
        if not near(v, got[k]): return '"%s" is %r, the library has %r' % (k, got[k], v)
        if k in INTKEYS and type(got[k]) is not int: return '"%s" is a %s' % (k, type(got[k]).__name__)
    for k in ('seconds_elapsed', 'seconds_remaining'):
        if type(got.get(k)) is not float or (got[k] < 0 and got[k] != -12345.0): return '"%s" is %r' % (k, got.get(k))
    return None
INTKEYS = {'gcodes_processed', 'lines_processed', 'points_compressed', 'arcs_created', 'arcs_aborted_by_flowrate', 'num_firmware_compensations', 'num_gcode_length_exceptions', 'source_file_position', 'source_file_size', 'target_file_size', 'source_file_total_count', 'target_file_total_count', 'source_file_total_travel_count', 'target_file_total_travel_count'}

MISSING = '(missing)'
SP = lambda k: {'$': k}
FL, IN, BO = 'float', 'int', 'bool'
# key: (kind, default, effective value of a number, values tried)
KEYS = {
    'resolution_mm': (FL, 0.05, lambda v: v if v > 0 else 0.05, [0.05, 0.012, 0.3, 1, 0, 0.0, -0.0, -0.3, -1, 1e-9]),
    'path_tolerance_percent': (FL, 0.05, lambda v: v if v >= 0 else 0.05, [0.05, 0.0004, 0.5, 0.9, -0.5, -1, -1e-9]),
    'max_radius_mm': (FL, 9999.0, lambda v: min(v, 9999.0), [9999.0, 3, 12.5, 9999.5, 10000, 1e9, 9998, SP('inf')]),
    'allow_3d_arcs': (BO, 0, lambda v: int(v > 0), [True, False, 1, 0, 2, -1]),
    'allow_travel_arcs': (BO, 0, lambda v: int(v > 0), [True, False, 1, 0, 2, -1]),
    'allow_dynamic_precision': (BO, 0, lambda v: int(v > 0), [True, False, 1, 0, 2, -1]),
    'g90_g91_influences_extruder': (BO, 0, lambda v: int(v > 0), [True, False, 1, 0, 2, -1]),
    'default_xyz_precision': (FL, 3, lambda v: int(max(3, min(6, v))), [3, 4, 5, 6, 4.0, 2, 7, 0, -1, -3, 255, 256, 258, 259, 260, 262, 515, 65540, -252, 1e9]),
    'default_e_precision': (FL, 5, lambda v: int(max(3, min(6, v))), [3, 4, 5, 6, 4.0, 2, 7, 0, -1, -5, 255, 256, 258, 259, 260, 261, 262, 517, 65540, -251, 1e9]),
    'mm_per_arc_segment': (FL, 0, lambda v: v if v > 0 else 0, [0, 1, 0.25, 1.0, -1, -0.25]),
    'min_arc_segments': (IN, 0, lambda v: v if v > 0 else 0, [0, 14, 60, -1, -14, True]),
    'extrusion_rate_variance_percent': (FL, 0.05, lambda v: v if v >= 0 else 0.05, [0.05, 0, 0.0, 0.3, 0.0005, 1, -0.3, -1]),
    'max_gcode_length': (IN, 0, lambda v: v if v > 0 else 0, [0, 31, 38, 44, 1000, -1, -38]),
    'log_level': (IN, 20, None, [0, 5, 10, 20, 30, 40, 50, 15, -1, 1000]),
}
# rejected (wrong types for which no number can be meant)
BADINT = [None, SP('str'), SP('obj'), SP('list'), SP('dict'), SP('bytes'), SP('big'), SP('nbig'), SP('tuple'), SP('badidx'), SP('fn')]
BADFL = [SP('big'), SP('nbig')]
ODDFL = [None, SP('str'), SP('obj'), SP('list'), SP('nan')]     # only: no crash, no damage

def scratch(): return tempfile.mkdtemp(prefix='vfp', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)

def p01(rep, tier, replay, refs=False):
    # refs: only the reference counts are judged (the part of P02 that concerns the arguments)
    bdir = tempfile.mkdtemp(prefix='vfb'); root = scratch()
    try:
        exes = native.build(bdir, ['pyext', 'driver']); src = root + '/src.gcode'; open(src, 'w').write(cli.welder_gcode())
        eff = {}; choices = {k: [('v', v) for v in KEYS[k][3]] for k in KEYS}
        def case(v, inplace=False):   # v: {key: value}
            a = dict(v)
            return dict(args=a, files={'s.gcode': src}, inplace=inplace)
        vecs = []; singles = [(k, v) for k in KEYS for v in KEYS[k][3]]
        base = {'mm_per_arc_segment': 1, 'min_arc_segments': 14}
        vecs.append(({}, False)); vecs.append(({}, True))
        full = {k: KEYS[k][1] for k in KEYS}
        for k, v in singles:
            for ip in (False, True):
                vecs.append(({k: v}, ip)); vecs.append((dict(full, **{k: v}), ip))
                if k in base: vecs.append((dict(base, **{k: v}), ip))
        for k in KEYS: vecs.append(({x: y for x, y in full.items() if x != k}, False))
        for n in ((2, 3) if tier != 'quick' else (2,)):
            for ks in itertools.combinations(KEYS, n):
                if n == 3 and 'log_level' in ks: continue
                sets = [KEYS[k][3] if n == 2 else KEYS[k][3][:6] for k in ks]
                for vs in itertools.product(*sets):
                    d = dict(zip(ks, vs))
                    if {'mm_per_arc_segment'} & set(ks) and 'min_arc_segments' not in ks: d['min_arc_segments'] = 14
                    elif 'min_arc_segments' in ks and 'mm_per_arc_segment' not in ks: d['mm_per_arc_segment'] = 1
                    vecs.append((d, False))
        def effective(d):
            e = []
            for k in KEYS:
                if k == 'log_level': continue
                v = d.get(k, MISSING)
                if isinstance(v, dict): v = float('inf')
                e.append((k, KEYS[k][1] if isinstance(v, str) else KEYS[k][2](v)))
            return tuple((k, float(v)) for k, v in e)
        uniq = sorted({effective(d) for d, _ in vecs}); idx = {u: i for i, u in enumerate(uniq)}
        exp = driver(exes['driver'], ['\t'.join(['source=' + src, 'target=%s/lib%d' % (root, i), 'callback=1'] + ['%s=%r' % x for x in u]) for i, u in enumerate(uniq)])
        files = [cli.rd('%s/lib%d' % (root, i)) for i in range(len(uniq))]
        for i in range(len(uniq)): os.unlink('%s/lib%d' % (root, i))
        rep.outcomes.update(files); cases = []
        for n, (d, ip) in enumerate(vecs):
            D = '%s/d%d' % (root, n); t = D + ('/s.gcode' if ip else '/t.gcode')
            cases.append(dict(args=dict(d, guid='guid-%d' % n, source_path=D + '/s.gcode', target_path=t), files={'s.gcode': src}, dir=D, kind='ok', d=d, ip=ip))
        # refused dictionaries
        n = len(cases)
        def bad(args, kind='refuse', **kw):
            D = '%s/d%d' % (root, len(cases))
            if isinstance(args, dict) and '$' not in args: args = {k: (v.replace('@', D) if isinstance(v, str) else v) for k, v in args.items()}
            cases.append(dict(args=args, files={'s.gcode': src, 'other.gcode': src}, dir=D, kind=kind, **kw))
        req = {'guid': 'some-guid', 'source_path': '@/s.gcode', 'target_path': '@/t.gcode'}
        for m in range(1, 16):
            miss = [k for i, k in enumerate(list(req) + ['on_progress_received']) if m >> i & 1]
            for extra in ({}, full): bad(dict({k: v for k, v in req.items() if k not in miss}, **extra), cbkey='on_progress_received' not in miss)
        for k in list(req):
            for v in (None, 5, 1.5, True, SP('bytes'), SP('list'), SP('dict'), SP('obj'), SP('surrogate')):
                for extra in ({}, full): bad(dict(req, **dict(extra, **{k: v})))
        for v in (None, 5, SP('str'), SP('list'), SP('obj')):
            for ip in (0, 1): bad(dict(req, on_progress_received=v, target_path='@/s.gcode' if ip else '@/t.gcode'))
        for v in (None, 5, SP('list'), SP('tuple'), SP('str'), SP('obj')): bad(v)
        bad(dict(req), call=0); bad(dict(req), call=2)
        for k in KEYS:
            for v in (BADFL if KEYS[k][0] == FL else BADINT):
                bad(dict(req, **{k: v})); bad(dict(req, **dict(full, **{k: v}))); bad(dict(req, **dict({k: v}, target_path='@/s.gcode')))
                for k2 in KEYS:
                    if k2 != k: bad(dict(req, **{k: v, k2: KEYS[k2][3][1]}))
            for v in (ODDFL if KEYS[k][0] == FL else []):
                if k in ('mm_per_arc_segment',) and isinstance(v, dict) and v['$'] == 'nan': continue
                bad(dict(req, **{k: v}), kind='odd')
        for k in ('source_path', 'target_path'):
            for v in ('@/nodir/x.gcode', '@', '@/missing.gcode' if k == 'source_path' else '@/nodir/y', ''): bad(dict(req, **{k: v}), kind='fail')
        if refs:
            cases = [c for c in cases if c['kind'] != 'ok' or len(c['d']) in (0, 1, len(KEYS))]
            for c in cases[::5]: c['leak'] = 8
        if replay is not None: cases = [c for i, c in enumerate(cases) if i == replay]
        def judge(i, c, r):
            if replay is not None: i = replay
            p = None; src_t = open(src, 'rb').read().decode('latin-1') if not hasattr(judge, 's') else judge.s; judge.s = src_t
            if 'crash' in r: p = 'the Python process ended with status %s' % r['crash']
            elif r['exc'] == 'SystemError': p = 'SystemError: ' + r['exctext']
            elif refs: p = r['notes'][0] if r['notes'] else '8 further calls left %d more memory blocks allocated' % r['leak'] if r.get('leak', 0) > 4 else None
            elif [x for x in r['notes'] if not x.startswith('reference count')]: p = r['notes'][0]
            elif c['kind'] == 'refuse':
                if r['exc'] is None: p = 'no error was raised'
                elif r.get('files') is not None and r['files'] != {'s.gcode': src_t, 'other.gcode': src_t} and c.get('cbkey', 1) and not (isinstance(c['args'], dict) and 'on_progress_received' in c['args']): p = 'files were created or changed: %s' % sorted(r['files'])
                elif r['files'].get('s.gcode') != src_t: p = 'the source file was changed'
            elif c['kind'] == 'fail':
                if r['exc'] is None and r['result']['success']: p = 'success was reported'
                elif r['files'].get('s.gcode') != src_t: p = 'the source file was changed'
            elif c['kind'] == 'odd':
                if r['files'].get('s.gcode') != src_t: p = 'the source file was changed'
            else:
                u = idx[effective(c['d'])]; e = exp[u]; want = files[u].decode('latin-1'); fs = r.get('files') or {}
                if r['exc']: p = 'raised %s: %s' % (r['exc'], r['exctext'])
                elif (fs.get('s.gcode') if c['ip'] else fs.get('t.gcode')) != want: p = 'the converted file differs: ' + str(cli.same((fs.get('s.gcode' if c['ip'] else 't.gcode') or '').encode('latin-1'), files[u], None))
                elif not c['ip'] and fs.get('s.gcode') != src_t: p = 'the source was changed'
                elif set(fs) != ({'s.gcode'} if c['ip'] else {'s.gcode', 't.gcode'}): p = 'left other files: %s' % sorted(fs)
                else:
                    for k in ('success', 'is_cancelled', 'message'):
                        if r['result'].get(k) != e[k]: p = 'the result\'s %s is %r instead of %r' % (k, r['result'].get(k), e[k])
                    p = p or (cmpprog(e['progress'], r['progress'], True) and 'the result\'s progress: ' + cmpprog(e['progress'], r['progress'], True))
                    if not p and len(r['seen']) != len(e['callbacks']): p = '%d callbacks instead of %d' % (len(r['seen']), len(e['callbacks']))
                    for a, b in zip(e['callbacks'], r['seen']):
                        q = cmpprog(a, b, False) or (b.get('guid') != c['args']['guid'] and '"guid" is %r' % b.get('guid'))
                        if q and not p: p = 'a progress dictionary: ' + q
                    if not p and r['progress'].get('guid') != c['args']['guid']: p = 'the result\'s guid is %r' % r['progress'].get('guid')
            with rep.lock: rep.runs += 1; rep.states += 1; rep.trans += len(c['args']) if isinstance(c['args'], dict) else 1; rep.outcomes.add((c['kind'], r.get('exc')))
            if p: rep.violation('ConvertFile(%s): %s' % (json.dumps(c['args']), p), ['arguments', i] if refs else i)
            elif len(rep.samples) < 5 and i % 700 == 5: rep.samples.append('%s -> %s' % (json.dumps(c.get('d', c['args'])), r['exc'] or 'as the library with ' + str(dict(effective(c.get('d', {}))))))
        Workers(exes, None, root).map(cases, judge)
        if refs: return len(cases)
        return rep.finish('files, result and progress dictionaries are those of the library with the documented effective value of every key; missing or unusable required values raise an error that is not SystemError and touch no file',
                          '%d dictionaries: every value of every key alone, in a full dictionary and in place; every pair%s of values of two keys; every set of missing required keys; every wrong type' % (len(cases), ' and triple' if tier != 'quick' else ''),
                          ['a float for an integer key, and a non-number for a number key, is only required not to do damage', 'Python %s' % sys.version.split()[0]])
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

GO = ['True', 'None', '1', '2', '1000000', 'idx1', 'mutate', 'clear', 'swallow', 'nested']
STOP = ['False', '0', '-1', '-5', 'idx0']
ERR = {'exc': 'Boom', 'exit': 'SystemExit', 'kbd': 'KeyboardInterrupt', 'obj': 'TypeError', 'str': 'TypeError', 'list': 'TypeError', 'float': 'TypeError', 'zerofloat': 'TypeError', 'big': 'OverflowError', 'badidx': 'Boom'}

def p02(rep, tier, replay):
    import math
    nargs = p01(rep, tier, replay[1] if replay else None, True) if not isinstance(replay, int) else 0
    if isinstance(replay, list): return 1 if rep.viol else 0
    bdir = tempfile.mkdtemp(prefix='vfb'); root = scratch()
    try:
        exes = native.build(bdir, ['pyext', 'driver']); clock = clockshim(bdir)
        def gcode(n):
            L = ['G90', 'M82', 'G92 E0', 'G1 X120.000 Y100.000 Z0.2 F3000']; e = 0.0
            for i in range(1, n - 4 + 1):
                a = 2 * math.pi * i / 97; e += .05
                L.append('G1 X%.3f Y%.3f E%.5f' % (100 + 20 * math.cos(a), 100 + 20 * math.sin(a), e) if i % 211 else 'G4 P1')
            return '\n'.join(L) + '\n'
        # number of lines -> callbacks: initial, one per 1000 lines, final
        sizes = {'tiny': 30, 'mid': 1010, 'long': 3300}
        src = {}; exp = {}; ncb = {}; out = {}; bad0 = None
        for s, n in sizes.items(): src[s] = '%s/%s.src' % (root, s); open(src[s], 'w').write(gcode(n))
        nested = [src['tiny'], root + '/nested.out', root + '/nested.want']
        driver(exes['driver'], ['source=%s\ttarget=%s' % (nested[0], nested[2])])
        for s in sizes:
            lines = ['source=%s\ttarget=%s/o%d\tcancel=%d' % (src[s], root, k, k or -1) for k in range(8)]
            r = []
            for l in lines: r += driver(exes['driver'], [l], clock)
            ncb[s] = len(r[0]['callbacks']); exp[s] = r; out[s] = [cli.rd('%s/o%d' % (root, k)).decode('latin-1') for k in range(8)]
        cases = []
        def add(size, ans, ip, leak=0):
            D = '%s/d%d' % (root, len(cases)); a = dict(guid='the-guid', source_path=D + '/s.gcode', target_path=D + ('/s.gcode' if ip else '/t.gcode'))
            cases.append(dict(args=a, dir=D, files={'s.gcode': src[size]}, answers=list(ans), nested=[nested[0], D + '/n.out', nested[2]], size=size, ip=ip, leak=leak))
        A1 = ['True', 'None', 'False', 'exc'] if tier == 'quick' else ['True', 'None', '1', 'False', '0', 'exc', 'str']
        allk = GO + STOP + list(ERR)
        for size in sizes:
            n = ncb[size]
            for ip in (0, 1):
                for i in range(n):          # every kind of answer at every callback
                    for k in allk:
                        for fill in ('True', 'None'): add(size, [fill] * i + [k] + [fill] * (n - i), ip, 12 if fill == 'True' and size != 'long' else 0)
                for i, j in itertools.combinations(range(n), 2):   # pairs
                    for k in (allk if tier != 'quick' else ['1', 'nested', 'mutate', 'clear', 'swallow']):
                        for k2 in allk: add(size, ['True'] * i + [k] + ['True'] * (j - i - 1) + [k2] + ['True'] * (n - j), ip)
                seen = set()
                for t in itertools.product(A1, repeat=n): add(size, t, ip)
        if replay is not None: cases = [dict(c, n=i) for i, c in enumerate(cases) if i == replay]
        def judge(i, c, r):
            if replay is not None: i = replay
            s = c['size']; n = ncb[s]; ans = (c['answers'] + ['True'] * 9)[:n]; stop = next((k for k, a in enumerate(ans) if a not in GO), None); p = None
            orig = rd_cache(src[s]); raises = False
            if stop is not None and ans[stop] not in ERR and stop != n - 1 and ans[stop + 1] in ERR: stop2 = True   # the closing report follows the cancellation
            else: stop2 = False
            if 'crash' in r: p = 'the Python process ended with status %s' % r['crash']
            elif r['notes']: p = r['notes'][0]
            elif r.get('leak', 0) > 6: p = '12 further conversions left %d more memory blocks allocated' % r['leak']
            else:
                fs = dict(r['files']); fs.pop('n.out', None); name = 's.gcode' if c['ip'] else 't.gcode'
                first = stop if stop is not None else n
                if stop is not None and ans[stop] in ERR or stop2:
                    want = ERR[ans[stop]] if not stop2 else ERR[ans[stop + 1]]
                    if r['exc'] != want: p = 'the callback\'s error (%s) was reported as %s %s' % (want, r['exc'], r.get('exctext'))
                    elif r.get('same') is False: p = 'the exception that arrived is not the one the callback raised'
                    elif not stop2 and len(r['seen']) > stop + 2: p = 'the callback was called %d more times after its error' % (len(r['seen']) - stop - 1)
                    elif stop2 and not c['ip'] and fs.get('t.gcode') is None: p = 'no target'
                    if not p and c['ip']:
                        ok = (orig,) if first < n - 1 else (orig, out[s][0])
                        if fs.get('s.gcode') not in ok: p = 'the source file is neither untouched nor completely converted'
                    cut = exp[s][stop + 1]['callbacks'][:stop + 1]
                    seen = r['seen'][:stop + 1]
                else:
                    final_no = stop == n - 1
                    k = 0 if stop is None or final_no else stop + 1; e = exp[s][k]; cut = e['callbacks']; seen = r['seen']
                    if r['exc']: p = 'raised %s: %s' % (r['exc'], r['exctext'])
                    elif (r['result']['success'], r['result']['is_cancelled']) != (e['success'], e['is_cancelled']): p = 'success, is_cancelled = %s, the library reports %s' % ((r['result']['success'], r['result']['is_cancelled']), (e['success'], e['is_cancelled']))
                    elif k and (e['success'] or not e['is_cancelled']): p = 'the library does not report a cancellation'
                    elif c['ip'] and fs.get('s.gcode') != (orig if k else out[s][0]): p = 'after a %s the source file is not %s' % ('cancellation' if k else 'conversion', 'untouched' if k else 'the converted file')
                    elif not c['ip'] and fs.get('t.gcode') != out[s][k]: p = 'the target differs from the library\'s'
                    elif cmpprog(e['progress'], r['progress'], True): p = 'the result\'s progress: ' + cmpprog(e['progress'], r['progress'], True)
                if not p and not c['ip'] and fs.get('s.gcode') != orig: p = 'the source was changed'
                if not p and set(fs) - {'s.gcode', name}: p = 'left other files: %s' % sorted(fs)
                if not p and len(seen) != len(cut): p = '%d callbacks instead of %d' % (len(seen), len(cut))
                if not p:
                    for a, b in zip(cut, seen): p = p or cmpprog(a, b, False)
            with rep.lock: rep.runs += 1; rep.states += n + 1; rep.trans += min(n, (stop if stop is not None else n) + 1); rep.outcomes.add((s, stop, r.get('exc'), r.get('result', {}).get('is_cancelled')))
            if p: rep.violation('callback answers %s, %s file%s: %s' % (c['answers'], s, ' converted in place' if c['ip'] else '', p), i)
            elif len(rep.samples) < 5 and i % 900 == 17: rep.samples.append('%s: %s' % (c['answers'], r['exc'] or r['result']))
        cache = {}
        def rd_cache(f):
            if f not in cache: cache[f] = cli.rd(f).decode('latin-1')
            return cache[f]
        Workers(exes, clock, root).map(cases, judge)
        return rep.finish('answers continue, cancel or raise as documented, at the same callbacks and with the same files as the library; no reference count changes, no memory block or file stays allocated',
                          '%d answer sequences: every kind of answer (%d) at every callback of runs with %s callbacks, pairs, every sequence over %s; to a new target and in place; %d argument dictionaries (references of the arguments)' % (len(cases), len(allk), sorted(ncb.values()), A1, nargs),
                          ['True, False and None are immortal in this Python, their reference counts cannot be observed', 'clock() is replaced so that every periodic update is due'], dict(callbacks=ncb))
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

# ---- P03: the messages of the extension and of the engine arrive at Python's logger, and logging never changes a conversion
METHOD = {1: 'verbose', 2: 'debug', 3: 'info', 4: 'warn', 5: 'error', 6: 'critical'}
LEVEL = {0: 0, 5: 1, 10: 2, 20: 3, 30: 4, 40: 5, 50: 6}
def p03(rep, tier, replay):
    import math, re
    bdir = tempfile.mkdtemp(prefix='vfb'); root = scratch()
    try:
        exes = native.build(bdir, ['pyext', 'driver'])
        arc = ['G28', 'G90', 'M82', 'G92 E0', 'G1 X60.000 Y50.000 Z0.2 F1800'] + ['G1 X%.3f Y%.3f E%.5f' % (50 + 10 * math.cos(.08 * i), 50 + 10 * math.sin(.08 * i), .05 * i) for i in range(1, 9)]
        T = {'plain': '\n'.join(arc + ['M117 done', '']).encode(), 'latin': '\n'.join(arc[:8] + [';K\xfche \x80\xff', 'M117 \xc3'] + arc[8:]).encode('latin-1') + b'\xe2\x82', 'utf8': '\n'.join(arc[:7] + ['; \u20ac \U0001f600 %s %d %n', 'G4 P\u00e9'] + arc[7:]).encode(),
             'nul': b'G1 X1 ;a\0b\nG1 \0X2\n\x01\x02\n', 'empty': b'', 'crlf': ('\r\n'.join(arc) + '\r\n').encode(), 'inches': '\n'.join(arc[:9] + ['G20', 'G2 X1 Y1 R5', 'T1', 'M83'] + arc[9:]).encode()}
        for n, t in T.items(): open('%s/%s.src' % (root, n), 'wb').write(t)
        full = {k: KEYS[k][1] for k in KEYS}; base = {}; exp = {}
        levels = [0, 5, 10, 15, 20, 30, 40, 50]; how = ['new', 'inplace', 'missing', 'nodir', 'cancel']
        def norm(t): return re.sub(r'[0-9A-Fa-f]{8}(-?[0-9A-Fa-f]{4,}){3,}|[0-9A-Fa-f]{24,}', 'UUID', t)
        def paths(D, h): return (D + ('/none.gcode' if h == 'missing' else '/s.gcode'), D + ('/s.gcode' if h == 'inplace' else '/sub/t.gcode' if h == 'nodir' else '/t.gcode'))
        lines = []; keys = []
        for n in T:
            for h in how:
                for l in levels:
                    D = '%s/x%d' % (root, len(keys)); os.mkdir(D); shutil.copyfile('%s/%s.src' % (root, n), D + '/s.gcode'); s, t = paths(D, h)
                    lines.append('source=%s\ttarget=%s\tcallback=1\tlog=%s/log\tloglevel=%d%s' % (s, t, D, l, '\tcancel=1' if h == 'cancel' else '')); keys.append((n, h, l, D))
        for (n, h, l, D), r in zip(keys, driver(exes['driver'], lines)):
            msgs = [(int(a), bytes.fromhex(b).decode('utf8', 'replace').replace(D, '<D>')) for a, b in (x.split(' ', 1) for x in open(D + '/log').read().splitlines())]
            exp[n, h, l] = (r, [(a, norm(m)) for a, m in msgs], {f: cli.rd(D + '/' + f) for f in os.listdir(D) if f != 'log'}); shutil.rmtree(D)
        cases = []
        def add(n, h, l, mode, fullargs, bad=None, nolevel=False):
            D = '%s/d%d' % (root, len(cases)); s, t = paths(D, h); a = dict(full if fullargs else {}, guid='the-guid', source_path=s, target_path=t, log_level=l)
            if bad: a[bad] = 'text'
            if nolevel: del a['log_level']
            cases.append(dict(args=a, dir=D, files={'s.gcode': '%s/%s.src' % (root, n)}, answers=['False'] if h == 'cancel' else [], log=mode, key=(n, h, l), full=fullargs, bad=bad))
        modes = ['no', 'all', 'verbose', 'debug', 'info', 'warn', 'error']
        for n in T:
            for h in how:
                for fu in (True, False):
                    for m in modes: add(n, h, 20, m, fu, None, True)
                for l in levels:
                    for fu in (True, False):
                        for m in modes: add(n, h, l, m, fu)
                    k = len(exp[n, h, l][1]) + 3; step = 1 if tier != 'quick' else max(1, k // 12)
                    for i in range(1, k + 1, step): add(n, h, l, i, True)
        for k in [k for k in KEYS if KEYS[k][0] != FL]:
            for m in modes + [1, 2, 3]:
                for fu in (True, False): add('plain', 'new', 20, m, fu, k)
        if replay is not None: cases = [dict(c, n=i) for i, c in enumerate(cases) if i == replay]
        EXT = re.compile(r'Parsing GCode Conversion Args|ParseArgs|py_gcode_arc_converter')
        def judge(i, c, r):
            if replay is not None: i = replay
            n, h, l = c['key']; e, want, ef = exp[n, h, l]; D = os.path.dirname(c['args']['target_path'].replace('/sub/', '/')) if isinstance(c['args'].get('target_path'), str) else ''; p = None; lv = LEVEL.get(l, 0)
            if 'crash' in r: p = 'the Python process ended with status %s' % r['crash']
            elif r['notes']: p = r['notes'][0]
            elif c['bad']:
                bad = c['bad']; errs = [m for a, m in r['log'] if a == 'error']
                if r['exc'] is None: p = 'a text for %s was accepted' % bad
                elif r['exc'] == 'SystemError': p = 'raised SystemError: %s' % r['exctext']
                elif not any("'%s'" % bad in m for m in errs): p = 'the error in %s was not logged (%s)' % (bad, errs)
                if not p and 't.gcode' in r['files']: p = 'a target was written'
            else:
                got = [(a, norm(m.replace(D, '<D>'))) for a, m in r['log']]; eng = [x for x in got if not EXT.match(x[1])]; own = [x for x in got if EXT.match(x[1])]
                ref = [(METHOD.get(a, '?'), m) for a, m in want]; must = [(METHOD[a], m) for a, m in want if a >= lv]; rank = {v: k for k, v in METHOD.items()}
                k = 0
                for x in eng:
                    while k < len(ref) and ref[k] != x: k += 1
                    if k == len(ref): p = p or 'logged %s, which the engine did not issue at that place' % (x,)
                    k += 1
                have = [x for x in eng if rank.get(x[0], 0) >= lv]
                if not p and have != must:
                    j = next((q for q in range(min(len(have), len(must))) if have[q] != must[q]), min(len(have), len(must))); p = '%d of %d messages of the engine arrived; number %d is %s instead of %s' % (len(have), len(must), j + 1, (have + [None])[j] if j <= len(have) else None, (must + [None])[j] if j <= len(must) else None)
                missing = sorted(k for k in KEYS if k not in c['args']); warned = [m for a, m in own if a == 'warn']
                if not p and len(missing) != len(warned): p = '%d warnings %s, %d arguments are missing %s' % (len(warned), warned, len(missing), missing)
                failed = not e['success'] and not e['is_cancelled']
                if not p and failed and (r['exc'] != 'Exception' or r['exctext'] != e['message'][:200]): p = 'raised %s: %s instead of an exception with the text %r' % (r['exc'], r['exctext'], e['message'])
                if not p and r['exc'] and not failed: p = 'raised %s: %s' % (r['exc'], r['exctext'])
                if not p and not failed and (r['result']['success'], r['result']['is_cancelled']) != (e['success'], e['is_cancelled']): p = 'success, is_cancelled = %s, the library reports %s' % ((r['result']['success'], r['result']['is_cancelled']), (e['success'], e['is_cancelled']))
                if not p and not failed and norm(r['result']['message'].replace(D, '<D>')) != norm(re.sub(re.escape(root) + r'/x\d+', '<D>', e['message'])): p = 'message %r instead of %r' % (r['result']['message'], e['message'])
                fs = {f: (t if t is None else t.encode('latin-1')) for f, t in r['files'].items()}
                if not p and fs != ef: p = 'other files than those of the library: %s instead of %s' % (sorted((f, len(t or b'')) for f, t in fs.items()), sorted((f, len(t or b'')) for f, t in ef.items()))
            with rep.lock: rep.runs += 1; rep.states += 1; rep.trans += len(r.get('log', [])); rep.outcomes.add((n, h, l, r.get('exc'), len(r.get('log', []))))
            if p: rep.violation('%s file, %s, log level %s, %s arguments%s, logger %s: %s' % (n, h, l, 'all' if c['full'] else 'few', ' with a text for ' + c['bad'] if c['bad'] else '', 'works' if c['log'] == 'no' else 'raises at %s' % c['log'], p), i)
            elif len(rep.samples) < 5 and i % 700 == 17: rep.samples.append('%s %s level %s raising %s: %d messages' % (n, h, l, c['log'], len(r['log'])))
        Workers(exes, None, root).map(cases, judge)
        return rep.finish('the messages arrive in order with the method of their level and undecodable bytes replaced; whatever the logger does, files and result are those of the library',
                          '%d conversions: %d files x %s x %d log levels x loggers that work, raise always, raise in one method, or at the k-th message%s; every argument of a wrong type' % (len(cases), len(T), how, len(levels), '' if tier != 'quick' else ' (12 places per run)'),
                          ['messages below the requested level may or may not arrive (the Python logger filters them)', 'a logger that raises SystemExit ends the process and is not tried'])
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

if __name__ == '__main__':
    prop, tier, replay = native.args(sys.argv); rep = Report(prop, tier, 'model_checking')
    r = json.load(open(replay))['replay'] if replay else None
    sys.exit({'P01': p01, 'P02': p02, 'P03': p03}[prop](rep, tier, r))
