#!/usr/bin/env python3
"""C01-C04: the command lines of ArcWelder and ArcStraightener.

The real executables are built from the working tree and run with every combination of options up to the stated
size; the library, driven directly with the values the documentation gives those options (src/driver.cpp,
src/sdriver.cpp), converts the same file; outputs must be identical.  Invalid command lines must be refused with a
non-zero status, without creating or changing any file.
"""
import os, sys, json, math, itertools, subprocess, shutil, tempfile, re, concurrent.futures as cf
import native
from native import Report

# documented options of ArcWelder: key -> (short, long, documented default, flag?, values tried)
OPT = {
    'resolution_mm': ('r', 'resolution-mm', '0.05', False, ['0.012', '0.3', '1.5']),
    'path_tolerance_percent': ('t', 'path-tolerance-percent', '0.05', False, ['0.0004', '0.26', '0.5', '0.99']),
    'max_radius_mm': ('m', 'max-radius-mm', '9999', False, ['3', '12.5', '1000001']),
    'allow_3d_arcs': ('z', 'allow-3d-arcs', '0', True, ['1']),
    'allow_travel_arcs': ('y', 'allow-travel-arcs', '0', True, ['1']),
    'allow_dynamic_precision': ('d', 'allow-dynamic-precision', '0', True, ['1']),
    'g90_g91_influences_extruder': ('g', 'g90-influences-extruder', '0', True, ['1']),
    'default_xyz_precision': ('x', 'default-xyz-precision', '3', False, ['4', '5', '6']),
    'default_e_precision': ('e', 'default-e-precision', '5', False, ['3', '4', '6']),
    'mm_per_arc_segment': ('s', 'mm-per-arc-segment', '0', False, ['1', '0.25', '7.5']),
    'min_arc_segments': ('a', 'min-arc-segments', '0', False, ['14', '60', '270', '65550']),
    'extrusion_rate_variance_percent': ('v', 'extrusion-rate-variance-percent', '0.05', False, ['0', '0.3', '0.0005']),
    'max_gcode_length': ('c', 'max-gcode-length', '0', False, ['31', '38', '44', '256', '290', '65570']),
    'progress': ('p', 'progress-type', 'SIMPLE', False, ['NONE', 'SIMPLE', 'FULL']),
    'log': ('l', 'log-level', 'INFO', False, ['NOSET', 'VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL']),
}
LIBKEYS = [k for k in OPT if k not in ('progress', 'log')]

def welder_gcode():
    L = ['G21', 'G90', 'M82', 'G92 E0', 'G1 X120.000 Y100.000 Z0.200 F3000']; e = 0.0
    def arc(cx, cy, r, n, step, de, dz=0.0, z=0.2, prec=3, travel=False, wob=0.0, a0=0.0):
        nonlocal e
        for i in range(1, n + 1):
            a = a0 + step * i; rr = r + (wob if i % 2 else -wob); z += dz; e += 0 if travel else de
            L.append('G%d X%.*f Y%.*f' % (0 if travel else 1, prec, cx + rr * math.cos(a), prec, cy + rr * math.sin(a)) + (' Z%.3f' % z if dz else '') + ('' if travel else ' E%.5f' % e))
    arc(100, 100, 20, 20, .08, .05)                      # plain
    L.append('; layer'); L.append('G1 X52 Y50 E%.5f' % e); arc(50, 50, 2, 12, .4, .02)   # small radius: compensation
    L.append('G1 X65 Y50'); arc(50, 50, 15, 10, .1, .05, wob=.05)                       # rough: resolution
    L.append('G1 X60.00001 Y50.00001'); arc(50, 50, 10, 8, .1, .05, prec=6)              # many decimals
    L.append('G1 X70 Y50 Z0.3'); arc(50, 50, 20, 10, .1, .05, dz=.02)                    # helix
    L.append('G0 X70 Y50 Z0.2'); arc(50, 50, 20, 10, .1, 0, travel=True)                 # travel
    L.append('G1 X70 Y50')
    for k in range(8):                                                                    # extrusion rate creeps up
        a = .1 * (k + 1); e += .05 * (1 + .04 * k); L.append('G1 X%.3f Y%.3f E%.5f' % (50 + 20 * math.cos(a), 50 + 20 * math.sin(a), e))
    L.append('G1 X250.125 Y50.125'); arc(210.125, 50.125, 40, 12, .2, 1.23457)           # long command
    L += ['G1 X60 Y50', 'G91', 'G1 X0 Y0 E0.5', 'M82', 'G1 X0.5 E0.5', 'G90', 'G92 E0']; e = 0.0
    L.append('G1 X120 Y100'); L.append('G91'); px, py = 120.0, 100.0
    for i in range(1, 9):
        x, y = 100 + 20 * math.cos(.1 * i), 100 + 20 * math.sin(.1 * i); L.append('G1 X%.3f Y%.3f E0.05' % (x - px, y - py)); px, py = px + round(x - px, 3), py + round(y - py, 3)
    L += ['G90', 'M83', 'G1 X120 Y100', 'G90']
    for i in range(1, 9): L.append('G1 X%.3f Y%.3f E0.0500' % (100 + 20 * math.cos(.1 * i), 100 + 20 * math.sin(.1 * i)))
    L += ['M82', 'G92 E0', 'G1 X120 Y100', 'M117 end']
    return '\n'.join(L) + '\n'

class Driver:
    """batches of library conversions; several processes in parallel"""
    def __init__(self, exe, n=8): self.exe, self.n = exe, n
    def run(self, lines):
        k = max(1, (len(lines) + self.n - 1) // self.n); parts = [lines[i:i + k] for i in range(0, len(lines), k)]
        def one(p): return subprocess.run([self.exe], input='\n'.join(p) + '\n', capture_output=True, text=True).stdout.splitlines()
        with cf.ThreadPoolExecutor(self.n) as ex: r = [x for part in ex.map(one, parts) for x in part]
        return r

def rd(p):
    try: return open(p, 'rb').read()
    except OSError: return None

def spell(k, v, long):
    s, l, d, flag, _ = OPT[k]
    if flag: return ('--' + l) if long else '-' + s
    return ('--%s=%s' % (l, v)) if long else '-%s=%s' % (s, v)

def snapshot(d):
    out = {}
    for base, ds, fs in os.walk(d):
        for f in fs: out[os.path.relpath(base + '/' + f, d)] = rd(base + '/' + f)
        for x in ds: out[os.path.relpath(base + '/' + x, d) + '/'] = None
    return out

def execute(exe, argv, cwd):
    try: p = subprocess.run([exe] + argv, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60, close_fds=False)
    except subprocess.TimeoutExpired: return None, b''
    return p.returncode, p.stdout

def same(a, b, diffs):
    if a == b: return None
    if a is None or b is None: return 'missing' if a is None else 'library wrote nothing'
    x, y = a.decode('utf-8', 'replace').split('\n'), b.decode('utf-8', 'replace').split('\n')
    for i, (p, q) in enumerate(zip(x, y)):
        if p != q: return 'line %d is "%s", the library writes "%s"' % (i + 1, p, q)
    return '%d lines, the library writes %d' % (len(x), len(y))

# ---------------------------------------------------------------------------------------------------------------- C01
def c01(rep, tier, replay):
    bdir = tempfile.mkdtemp(prefix='vfb'); root = tempfile.mkdtemp(prefix='vfc', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        exes = native.build(bdir, ['welder', 'driver']); src = root + '/source.gcode'; text = welder_gcode(); open(src, 'w').write(text); drv = Driver(exes['driver'])
        items = []   # single option values; s and a only make sense together
        for k in OPT:
            if k in ('mm_per_arc_segment', 'min_arc_segments'): continue
            for v in OPT[k][4]: items.append((k, ((k, v),)))
        for s, a in (('1', '14'), ('0.25', '60'), ('0', '0'), ('1', '270'), ('0.25', '65550'), ('7.5', '14')): items.append(('comp', (('mm_per_arc_segment', s), ('min_arc_segments', a))))
        vecs = [()]
        if True:
            for n in ((1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)):
                for c in itertools.combinations(items, n):
                    if len({g for g, _ in c}) == n: vecs.append(tuple(o for _, os_ in c for o in os_))
        if tier != 'quick':
            groups = {}; first = [i for n, i in enumerate(items) if i[0] not in [g for g, _ in items[:n]]]
            for g, o in first: groups.setdefault(g, [()]).append(o)
            groups['log'] = [(), (('log', 'VERBOSE'),)]; groups['progress'] = [(), (('progress', 'FULL'),)]
            for c in itertools.product(*groups.values()): vecs.append(tuple(o for x in c for o in x))
        jobs = []
        for i, v in enumerate(vecs):
            two = len(v) <= 2
            for sp in ((0, 1) if two else (i % 3 % 2,)):
                for form in ((0, 1, 2, 3) if len(v) <= 1 else (0, 1) if two else (i % 2,)): jobs.append((v, sp, form))
        # further number spellings
        for k, val, eq in (('resolution_mm', '3e-1', '0.3'), ('resolution_mm', '.30', '0.3'), ('max_radius_mm', '1.25e1', '12.5'), ('path_tolerance_percent', '+0.5', '0.5'), ('mm_per_arc_segment', '1.0', '1'), ('max_radius_mm', '012.500', '12.5')):
            jobs.append((((k, val, eq),) + ((('min_arc_segments', '14'),) if k == 'mm_per_arc_segment' else ()), 0, 0)); jobs.append((jobs[-1][0], 1, 0))
        if replay: jobs = [tuple([tuple(tuple(o) for o in replay[0]), replay[1], replay[2]])]
        def key(v): return tuple(sorted((o[0], o[-1]) for o in v if o[0] in LIBKEYS))
        uniq = sorted({key(v) for v, _, _ in jobs} | {()}); lines = []
        for n, u in enumerate(uniq):
            d = {k: OPT[k][2] for k in LIBKEYS}; d.update(dict(u)); lines.append('\t'.join(['source=' + src, 'target=%s/lib%d' % (root, n)] + ['%s=%s' % x for x in d.items()]))
        drv.run(lines); exp = {}
        for n, u in enumerate(uniq): exp[u] = rd('%s/lib%d' % (root, n)); os.unlink('%s/lib%d' % (root, n))
        rep.outcomes.update(exp.values()); effect = {}
        for k in LIBKEYS:
            for val in OPT[k][4]:
                for u in uniq:
                    if dict(u).get(k) == val and exp[u] != exp.get(tuple(x for x in u if x[0] != k), exp[u]): effect['%s=%s' % (k, val)] = True
        def go(j):
            v, sp, form = j; t = tempfile.mkdtemp(dir=root)
            try:
                opts = [spell(o[0], o[1], (sp + n) % 2 if len(v) > 2 else sp) for n, o in enumerate(v)]
                if form == 2: shutil.copy(src, t + '/s.gcode'); argv = opts + [t + '/s.gcode']; out = t + '/s.gcode'
                elif form == 3: argv = opts[:1] + [src] + opts[1:] + [t + '/t']; out = t + '/t'
                else: argv = (opts + [src, t + '/t']) if form == 0 else ([src, t + '/t'] + opts); out = t + '/t'
                rc, con = execute(exes['welder'], argv, t); got = rd(out); p = None
                if rc != 0: p = 'exit status %s for a valid command line' % rc
                else:
                    d = same(got, exp[key(v)], None)
                    if d: p = 'the output differs from the library\'s for the same options: ' + d
                with rep.lock: rep.runs += 1; rep.trans += len(v) + 1; rep.states += 1
                if p: rep.violation('ArcWelder %s: %s' % (' '.join(argv), p), list(j))
                elif len(rep.samples) < 5 and rep.runs % 1500 == 7: rep.samples.append('ArcWelder ' + ' '.join(opts))
            finally: shutil.rmtree(t, ignore_errors=True)
        with cf.ThreadPoolExecutor(16) as ex: list(ex.map(go, jobs))
        return rep.finish('the file the console writes is byte for byte the one the library writes for the documented value of every option',
                          '%d command lines: every combination of %s of %d option values, long and short spelling, options before, after and between the paths, in place' % (len(jobs), 'up to 3' if tier == 'quick' else 'up to 4 (and the full product of one value per option)', len(items)),
                          ['documented defaults are those of readme.md'], dict(option_values=len(items), option_values_with_visible_effect=sorted(effect)))
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

# ---------------------------------------------------------------------------------------------------------------- refusal checks
def refusal(rep, exe, jobs, root, text, what):
    """jobs: (argv template, expected: 'refuse' | 'accept' | 'fail'); {S}: source, {T}: target"""
    def go(j):
        tmpl, expect, form = j; d = tempfile.mkdtemp(dir=root)
        try:
            open(d + '/s.gcode', 'w').write(text); open(d + '/other.gcode', 'w').write('other\n'); os.mkdir(d + '/dir')
            if form == 'old': open(d + '/t.gcode', 'w').write('old\n')
            before = snapshot(d); argv = [a.replace('{S}', 's.gcode').replace('{T}', 't.gcode') for a in tmpl]
            rc, con = execute(exe, argv, d); after = snapshot(d); p = None
            inplace = not any('{T}' in a for a in tmpl)
            if rc is None: p = 'did not end within 60 s'
            elif rc < 0: p = 'ended with signal %d' % -rc
            elif expect in ('refuse', 'fail'):
                if rc == 0: p = 'exit status 0, although %s' % ('the command line is invalid' if expect == 'refuse' else 'nothing could be converted')
                ch = sorted(k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0))
                if ch and expect == 'refuse': p = (p + ', and ' if p else 'exit status %d, but ' % rc) + 'files were created or changed: ' + ' '.join(ch)
                elif 's.gcode' in ch or 'other.gcode' in ch: p = 'exit status %d, but %s was changed' % (rc, ch)
            else:
                out = after.get('s.gcode' if inplace else 't.gcode')
                if rc != 0: p = 'exit status %d for a valid command line: %s' % (rc, con[:300].decode('utf-8', 'replace'))
                elif out is None or out in (b'', b'old\n') or (inplace and out == before['s.gcode']): p = 'exit status 0, but the file was not converted'
                elif not inplace and after.get('s.gcode') != before['s.gcode']: p = 'the source file was changed'
            with rep.lock: rep.runs += 1; rep.trans += 1; rep.states += 1; rep.outcomes.add((expect, rc, tuple(sorted(set(after) - set(before)))))
            if p: rep.violation('%s %s: %s' % (what, ' '.join(argv), p), [list(tmpl), expect, form])
            elif len(rep.samples) < 5 and rep.runs % 400 == 3: rep.samples.append('%s %s -> exit %s (%s)' % (what, ' '.join(argv), rc, expect))
        finally: shutil.rmtree(d, ignore_errors=True)
    with cf.ThreadPoolExecutor(16) as ex: list(ex.map(go, jobs))

BADNUM = ['abc', '', '1x', 'nan', '--', '0,5']
BADW = {
    'resolution_mm': ['0', '-0.05', '-1', '0.0', '-1e-9', '1e400'] + BADNUM,
    'path_tolerance_percent': ['0', '1', '1.0', '-0.1', '2', '1.0000001'] + BADNUM,
    'max_radius_mm': ['0', '-1', '0.0'] + BADNUM,
    'default_xyz_precision': ['2', '7', '0', '1', '-1', '-3', '10', '255', '256', '257', '258', '259', '260', '262', '515', '65539', '4294967299', '18446744073709551619', '3.5'] + BADNUM,
    'default_e_precision': ['2', '7', '0', '1', '-1', '-5', '10', '255', '256', '257', '258', '259', '261', '262', '515', '65541', '4294967301', '5.5'] + BADNUM,
    'extrusion_rate_variance_percent': ['-0.1', '-1', '-1e-9'] + BADNUM,
    'max_gcode_length': ['-1', '1', '2', '29', '30', '-31', '2.5', '4294967327', '4294967296'] + BADNUM,
    'mm_per_arc_segment': ['-1', '-0.5'] + BADNUM,
    'min_arc_segments': ['-1', '-12', '2.5', '4294967308'] + BADNUM,
    'progress': ['simple', 'ALL', ''], 'log': ['info', 'X', 'TRACE'],
}
GOODW = {
    'resolution_mm': ['1e-6', '0.001', '10'], 'path_tolerance_percent': ['1e-6', '0.999999', '0.25'], 'max_radius_mm': ['0.5', '1000000', '1000001'], 'default_xyz_precision': ['3', '4', '5', '6'], 'default_e_precision': ['3', '4', '5', '6'],
    'extrusion_rate_variance_percent': ['0', '1', '5'], 'max_gcode_length': ['0', '31', '32', '1000'], 'progress': OPT['progress'][4], 'log': OPT['log'][4],
    'allow_3d_arcs': ['1'], 'allow_travel_arcs': ['1'], 'allow_dynamic_precision': ['1'], 'g90_g91_influences_extruder': ['1'],
}
FORMS = [('new', ['{S}', '{T}']), ('old', ['{S}', '{T}']), ('inplace', ['{S}'])]

def c02(rep, tier, replay):
    bdir = tempfile.mkdtemp(prefix='vfb'); root = tempfile.mkdtemp(prefix='vfc', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        exes = native.build(bdir, ['welder']); text = welder_gcode(); jobs = []
        good = [(spell(k, v, False),) for k in GOODW for v in GOODW[k]] + [('-s=1', '-a=12'), ('-s=0', '-a=0'), ('-s=0.001', '-a=1')]
        bad = []
        for k in BADW:
            for v in BADW[k]:
                comp = ('-a=12',) if k == 'mm_per_arc_segment' else ('-s=1',) if k == 'min_arc_segments' else ()
                for lg in (0, 1): bad.append((spell(k, v, lg),) + comp)
        bad += [('-s=1',), ('-a=12',), ('--mm-per-arc-segment=0.5',), ('--min-arc-segments=1',), ('-s=0', '-a=12'), ('-s=1', '-a=0'), ('-q',), ('--nope',), ('--nope=1',), ('-r=0.1', '-r=0.2'), ('-x=4', '--default-xyz-precision=4'), ('-z', '-z'), ('extra1', 'extra2')]
        unk = lambda b: b[0] in ('-q', '--nope', '--nope=1')   # without a target, the parser takes an unknown option as the target's name
        for b in bad:
            for f, paths in (FORMS[:2] if unk(b) else FORMS):
                if b == ('extra1', 'extra2') and f == 'inplace': paths = ['{S}', '{T}']
                jobs.append((list(b) + paths, 'refuse', f)); jobs.append((paths + list(b), 'refuse', f))
        names = lambda o: {x.split('=')[0] for x in o}
        for b in bad:
            for g in good:
                if {n for n in names(b)} & names(g): continue
                if {'-s', '-a'} & names(g) and ({'-s', '-a', '--mm-per-arc-segment', '--min-arc-segments'} & names(b)): continue
                jobs.append((list(b) + list(g) + ['{S}', '{T}'], 'refuse', 'new'))
                if not unk(b): jobs.append((['{S}'] + list(g) + list(b), 'refuse', 'inplace'))
        if tier != 'quick':
            for b, c in itertools.combinations(bad, 2): jobs.append((list(b) + list(c) + ['{S}', '{T}'], 'refuse', 'old'))
        for g in [()] + good:
            for f, paths in FORMS: jobs.append((list(g) + paths, 'accept', f)); jobs.append((paths + list(g), 'accept', f))
        for g, h in itertools.combinations(good, 2):
            if names(g) & names(h): continue
            jobs.append((list(g) + list(h) + ['{S}', '{T}'], 'accept', 'new'))
        miss = [['missing.gcode', '{T}'], ['missing.gcode'], ['', '{T}'], []]
        for m in miss:
            for g in [()] + good: jobs.append((list(g) + m, 'refuse', 'old'))
        for m in (['dir', '{T}'], ['{S}', 'nodir/x.gcode'], ['{S}', 'dir'], ['dir']):
            for g in [()] + good: jobs.append((list(g) + m, 'fail', 'new'))
        if replay: jobs = [tuple(replay)]
        refusal(rep, exes['welder'], jobs, root, text, 'ArcWelder')
        return rep.finish('an invalid command line ends with a status other than 0 and leaves the directory as it was; exit status 0 exactly if the target holds a conversion',
                          '%d command lines: every invalid value (%d) alone, with every target form and with every valid value of every other option; every valid boundary value and pair; missing files and directories' % (len(jobs), len(bad)), ['help and version requests are not judged'])
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

# ---------------------------------------------------------------------------------------------------------------- C03
M, R, N, B, D, Q, E_, RR, A, C_, G = ('mm_per_arc_segment', 'arc_segments_per_r', 'min_mm_per_arc_segment', 'min_arc_segment_mm', 'max_arc_segment_mm', 'arc_segments_per_sec', 'mm_max_arc_error', 'min_arc_segments', 'min_circle_segments', 'n_arc_correction', 'g90_g91_influences_extruder')
SOPT = {M: ('m', ['0.5', '2']), R: ('i', ['1.5', '4']), N: ('n', ['0.4', '0.9']), B: ('b', ['0.3', '0.8']), D: ('d', ['0.5', '3']), Q: ('s', ['100', '30', '1000']), E_: ('e', ['0.002', '0.05']), RR: ('r', ['12', '200', '300']), A: ('a', ['12', '255', '300', '70000']), C_: ('c', ['1', '4', '30', '200']), G: ('g', ['TRUE', 'FALSE', 'DEFAULT'])}
# type, version, latest?, settings it knows, defaults
FWS = [
    (0, 'MARLIN_1', '1.1.9.1', True, [M, C_, G], {M: 1, C_: 25, G: 0}),
    (1, 'MARLIN_2', '2.0.9.1', True, [M, R, RR, Q, C_, G], {M: 1, RR: 24, C_: 25, R: 0, Q: 0, G: 1}),
    (1, 'MARLIN_2', '2.0.9.2', False, [B, D, A, Q, C_, G], {B: 0.1, D: 1, A: 72, C_: 25, R: 0, Q: 0, G: 1}),
    (2, 'REPETIER', '1.0.4', True, [M, C_, G], {M: 1, C_: 25, G: 0}),
    (2, 'REPETIER', '1.0.5', False, [M, C_, G], {M: 1, C_: 25, RR: 24, G: 0}),
    (3, 'PRUSA', '3.10.0', True, [M, C_, G], {M: 1, C_: 25, RR: 24, G: 0}),
    (3, 'PRUSA', '3.11.0', False, [M, RR, N, C_, G], {M: 1, C_: 25, RR: 24, R: 0, N: 0, Q: 0, G: 0}),
    (4, 'SMOOTHIEWARE', '2021-06-19', True, [M, E_, C_, G], {M: 0, E_: 0.01, C_: 5, G: 1}),
]
def straight_gcode():
    L = ['G90', 'M82', 'G92 E0', 'G1 X120 Y100 Z0.2 F3000', 'G3 X100 Y120 I-20 J0 E1', 'G3 X120 Y100 I0 J-20 E5', 'G2 X110 Y100 I-5 J0 E5.5 F600', 'G2 X112 Y102 I0 J2 E6 F6000', 'G3 X160 Y150 I0 J48 E9',
         'G1 X20 Y20 F1200', 'G2 X22 Y20 I1 J0 E9.2', 'G3 X22.5 Y20.5 I0 J0.5 E9.25', 'G91', 'G1 X1 E0.5', 'G2 X10 Y10 I10 J0 E1', 'G1 X1 E0.5', 'G90', 'M83', 'G3 X60 Y60 I14 J14 E2', 'M82', 'G3 X65 Y65 Z0.4 I2.5 J2.5 E2', 'M117 end']
    return '\n'.join(L) + '\n'

def c03(rep, tier, replay):
    bdir = tempfile.mkdtemp(prefix='vfb'); root = tempfile.mkdtemp(prefix='vfc', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        exes = native.build(bdir, ['straightener', 'sdriver']); src = root + '/source.gcode'; text = straight_gcode(); open(src, 'w').write(text); drv = Driver(exes['sdriver'])
        longn = lambda k: k.replace('_', '-')
        sp = lambda k, v, lg: ('--%s=%s' % (longn(k), v)) if lg else '-%s=%s' % (SOPT[k][0], v)
        jobs = []   # (fw index, how version is given, settings, long?, form)
        for i, fw in enumerate(FWS):
            vs = ['explicit'] + (['latest', 'none'] if fw[3] else []) + (['default'] if fw[1] == 'MARLIN_2' and fw[3] else [])
            for how in vs:
                opts = [()] + [((k, v),) for k in fw[4] for v in SOPT[k][1]] + [((k, v), (k2, v2)) for k, k2 in itertools.combinations(fw[4], 2) for v in SOPT[k][1] for v2 in SOPT[k2][1]]
                opts += [((k, v), (k2, v2), (k3, v3)) for k, k2, k3 in itertools.combinations(fw[4], 3) for v in SOPT[k][1] for v2 in SOPT[k2][1] for v3 in SOPT[k3][1]] if how == 'explicit' else []
                if tier != 'quick' and how == 'explicit':
                    for n in range(4, len(fw[4]) + 1):
                        for ks in itertools.combinations(fw[4], n): opts += [tuple(zip(ks, vs_)) for vs_ in itertools.product(*[SOPT[k][1] for k in ks])]
                for n, o in enumerate(opts):
                    for lg in ((0, 1) if len(o) <= 2 else (n % 2,)):
                        for form in ((0, 1, 2) if len(o) <= 1 else (n % 2,)): jobs.append((i, how, o, lg, form))
        if replay and len(replay) == 5: jobs = [(replay[0], replay[1], tuple(tuple(o) for o in replay[2]), replay[3], replay[4])]
        key = lambda j: (j[0], j[1] in ('latest', 'none', 'default'), tuple((k, v) for k, v in j[2] if v != 'DEFAULT'))
        uniq = sorted({key(j) for j in jobs}, key=str); lines = []
        for n, (i, lat, o) in enumerate(uniq):
            fw = FWS[i]; d = {k: str(v) for k, v in fw[5].items()}
            d.update({k: {'TRUE': '1', 'FALSE': '0'}.get(v, v) for k, v in o})
            lines.append('\t'.join(['source=' + src, 'target=%s/lib%d' % (root, n), 'type=%d' % fw[0], 'version=' + fw[2]] + ['%s=%s' % x for x in d.items()]))
        drv.run(lines); exp = {}
        for n, u in enumerate(uniq): exp[u] = rd('%s/lib%d' % (root, n)); os.path.exists('%s/lib%d' % (root, n)) and os.unlink('%s/lib%d' % (root, n))
        rep.outcomes.update(exp.values())
        body = lambda b: None if b is None else b'\n'.join(l for l in b.split(b'\n') if not l.startswith(b';'))
        def go(j):
            i, how, o, lg, form = j; fw = FWS[i]; t = tempfile.mkdtemp(dir=root)
            try:
                opts = [] if how == 'default' else [('--firmware-type=' if lg else '-f=') + fw[1]]
                if how in ('explicit', 'latest'): opts.append(('--firmware-version=' if lg else '-v=') + (fw[2] if how == 'explicit' else 'LATEST_RELEASE'))
                opts += [sp(k, v, lg) for k, v in o]
                if form == 2: shutil.copy(src, t + '/s.gcode'); argv = opts + [t + '/s.gcode']; out = t + '/s.gcode'
                else: argv = (opts + [src, t + '/t']) if form == 0 else ([src, t + '/t'] + opts); out = t + '/t'
                rc, con = execute(exes['straightener'], argv, t); got = rd(out); e = exp[key(j)]; p = None
                if rc != 0: p = 'exit status %s for a valid command line' % rc
                else:
                    # the header of the default version need not name it
                    d = same(body(got), body(e), None) if how != 'explicit' else same(got, e, None)
                    if d: p = 'the output differs from the library\'s for that firmware, version and settings: ' + d
                with rep.lock: rep.runs += 1; rep.trans += len(o) + 1; rep.states += 1
                if p: rep.violation('ArcStraightener %s: %s' % (' '.join(argv), p), list(j))
                elif len(rep.samples) < 3 and rep.runs % 900 == 7: rep.samples.append('ArcStraightener ' + ' '.join(opts))
            finally: shutil.rmtree(t, ignore_errors=True)
        if not (replay and len(replay) == 3):
            with cf.ThreadPoolExecutor(16) as ex: list(ex.map(go, jobs))
        # refusals
        rj = []
        def add(o, exp='refuse', forms=FORMS):
            for f, paths in forms: rj.append((list(o) + paths, exp, f)); rj.append((paths + list(o), exp, f))
        vers = {f[2] for f in FWS}
        for fw in FWS:
            base = ['-f=' + fw[1], '-v=' + fw[2]]
            for k in SOPT:
                if k not in fw[4]:
                    for v in SOPT[k][1]:
                        for lg in (0, 1): add(base + [sp(k, v, lg)])
                        for k2 in fw[4]:
                            for v2 in SOPT[k2][1]: rj.append((base + [sp(k2, v2, 0), sp(k, v, 1), '{S}', '{T}'], 'refuse', 'new'))
                else:
                    for v in (['abc', '', '1x'] if k != G else ['true', 'YES', '1', '']): add(base + [sp(k, v, 0)]); add(base + [sp(k, v, 1)])
            if M in fw[4]:
                for v in ['-1', '-0.001'] + ([] if fw[0] == 4 else ['0', '0.0']): add(base + [sp(M, v, 0)])
            if D in fw[4]:
                for v in ('-1', '0'): add(base + [sp(D, v, 1)])
            for v in ('256', '257', '100000'): add(base + [sp(C_, v, 0)])
            for v in sorted((vers | {'', '1.2.3', 'latest', '2.0.9'}) - {f[2] for f in FWS if f[1] == fw[1]}): add(['-f=' + fw[1], '-v=' + v]); rj.append((['--firmware-version=' + v, '--firmware-type=' + fw[1], '{S}', '{T}'], 'refuse', 'old'))
            for l in ('NOSET', 'VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL'): add(base + ['-l=' + l], 'accept')
            rj += [(base + ['missing.gcode', '{T}'], 'refuse', 'old'), (base + ['missing.gcode'], 'refuse', 'new'), (base + ['{S}', 'nodir/t'], 'fail', 'new'), (base + ['{S}', 'dir'], 'fail', 'new'), (base + ['dir', '{T}'], 'fail', 'new'), (base + ['dir'], 'fail', 'new')]
        # --print-firmware-defaults takes a type and a version the firmware has, and nothing else
        for fw in FWS:
            own = {f[2] for f in FWS if f[1] == fw[1]}
            for n, pd in enumerate(('-p', '--print-firmware-defaults')):
                for v in sorted((vers | {'', '1.2.3', 'latest', '2.0.9'}) - own): rj.append((['-f=' + fw[1], '--firmware-version=' + v, pd], 'refuse', 'new')); rj.append(([pd, '--firmware-type=' + fw[1], '-v=' + v, '{S}', '{T}'], 'refuse', 'old'))
                for k in SOPT: rj.append((['-f=' + fw[1], '-v=' + fw[2], sp(k, SOPT[k][1][0], n), pd], 'refuse', 'new'))
                for v in [fw[2]] + (['LATEST_RELEASE'] if fw[3] else []): rj.append((['-f=' + fw[1], '-v=' + v, pd, '{S}', '{T}'], 'refuse', 'old')); rj.append(([pd, '-v=' + v, '-f=' + fw[1], '{S}'], 'refuse', 'new'))
        for pd in ('-p', '--print-firmware-defaults'):
            for o in (['-f=MARLIN_3'], ['-f=marlin_2'], ['--firmware-type='], ['-v=1.2.3'], ['-l=INFO'], ['--nope']): rj.append((o + [pd], 'refuse', 'new'))
        for o in (['-f=MARLIN_3'], ['-f=marlin_2'], ['-f='], ['--firmware-type=KLIPPER'], ['-l=info'], ['-l=X'], ['-f=PRUSA', '-f=PRUSA'], ['-c=3', '-c=3']): add(o)
        for o in (['--nope'], ['-q=1'], ['-q']): add(o, forms=FORMS[:2])
        rj.append(([], 'refuse', 'new')); rj.append((['{S}', '{T}', 'third'], 'refuse', 'old'))
        if replay: rj = [tuple(replay)] if len(replay) == 3 else []
        refusal(rep, exes['straightener'], rj, root, text, 'ArcStraightener')
        return rep.finish('the file ArcStraightener writes is the one the interpolator of that firmware, version and settings (documented defaults otherwise) writes; unsupported or invalid settings are refused with a status other than 0, changing nothing',
                          '%d accepted command lines (8 firmware versions, explicit, latest, type only, nothing; every combination of up to %s settings), %d refusals and failures' % (len(jobs), '3' if tier == 'quick' else 'all', len(rj)), ['defaults as printed by --print-firmware-defaults', 'help and version requests are not judged; what --print-firmware-defaults prints is judged by C04'])
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

# ---------------------------------------------------------------------------------------------------------------- C04
LEVELS = {'NOSET': 0, 'VERBOSE': 5, 'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
STAMP = re.compile(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d\.\d{3} - arc_welder\.gcode_conversion - ([A-Z]+) - ', re.M)
# values that change from run to run, and where the file is written: not part of the comparison of messages
def norm(t): return re.sub(r'(?i)(seconds?[a-z_ ]*\s*:?\s*)(-?[\d.]+(e[-+]?\d+)?|-?inf|-?nan)', r'\1#', re.sub(r'[0-9a-f]{8}(-[0-9a-f]{4}){3}-[0-9a-f]{12}', '#', re.sub(r'/[^\s\'",]*/', '', t)))
def records(text):
    """log records [(level, text)] and the lines outside of them"""
    recs, rest, pos = [], [], 0; ms = list(STAMP.finditer(text)); rest += text[:ms[0].start() if ms else len(text)].splitlines()
    for m, n in zip(ms, ms[1:] + [None]):
        body = text[m.end():n.start() if n else len(text)]; keep = []; L = body.split('\n')
        for i, l in enumerate(L):
            if l.startswith(('Progress:', 'Decompressing', 'Target File: ', 'Closing the', 'Completed file', '\tLines Proc', '\tArc Comm', '\tArc Seg', '\tTotal Sec', 'Unable to open the gcode', 'Unable to open the output', 'An error occ')): rest.append(l.rstrip('\r'))
            else: keep.append(l)
        recs.append((m.group(1), '\n'.join(keep).rstrip('\n')))
    return recs, [l for l in rest if l]
def rounded(shown, val):
    m = re.match(r'^-?\d+(\.(\d+))?', shown); v = float(val); return bool(m) and abs(float(m.group(0)) - v) <= .5000001 * 10 ** -len(m.group(2) or '') + 1e-12
def listing(text): return {k.strip(): v.strip() for k, v in re.findall(r'^\t([^:\n]+?)\s*: (.*)$', text, re.M)}

def c04(rep, tier, replay):
    bdir = tempfile.mkdtemp(prefix='vfb'); root = tempfile.mkdtemp(prefix='vfc', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        exes = native.build(bdir, ['welder', 'driver', 'straightener']); drv = Driver(exes['driver'])
        wipe = ['G21', 'G90', 'M82', 'G92 E0', 'G1 X70 Y50 Z0.2 F3000', 'G1 E2'] + ['G1 X%.3f Y%.3f E%.3f' % (50 + 20 * math.cos(.1 * i), 50 + 20 * math.sin(.1 * i), 2 - .03 * i) for i in range(1, 20)] + ['G1 E2', 'G1 X50 E3', 'G1 X51 E2.5']
        files = {'mixed': welder_gcode(), 'wipe': '\n'.join(wipe) + '\n', 'plain': 'G21\nG90\nM82\nG1 X1 Y1 E1 F3000\nG1 X2 Y1 E2\nM117 x\n', 'empty': '', 'travel': 'G21\nG90\nM82\nG0 X70 Y50 Z0.2 F3000\n' + ''.join('G0 X%.3f Y%.3f\n' % (50 + 20 * math.cos(.1 * i), 50 + 20 * math.sin(.1 * i)) for i in range(1, 20))}
        for f, t in files.items(): open('%s/%s.gcode' % (root, f), 'w').write(t)
        items = [(('allow_travel_arcs', '1'),)] + [((k, v),) for k in LIBKEYS if k not in ('mm_per_arc_segment', 'min_arc_segments', 'allow_travel_arcs') for v in OPT[k][4]] + [(('path_tolerance_percent', v),) for v in ('0.25', '0.001', '0.000999', '0.2501')] + [(('max_radius_mm', v),) for v in ('1000000', '1000000.5')] + [(('mm_per_arc_segment', s), ('min_arc_segments', a)) for s, a in (('1', '14'), ('0.25', '60'), ('0.5', '1'))]
        vecs = [()] + items + [a + b for a, b in itertools.combinations(items, 2) if not {k for k, _ in a} & {k for k, _ in b}]
        if tier != 'quick': vecs += [a + b + c for a, b, c in itertools.combinations(items, 3) if len({k for k, _ in a + b + c}) == len(a + b + c)]
        jobs = []
        for n, v in enumerate(vecs):
            one = len(v) <= 1 or n < 40
            for f in (files if one else ['mixed']):
                for pr in (('', 'NONE', 'SIMPLE', 'FULL') if one else ('FULL',)):
                    for lg in (('', 'NOSET', 'VERBOSE', 'DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL') if one else ('', 'VERBOSE')[:1 + (n % 16 == 0)]):
                        for form in ((0, 1, 2) if len(v) <= (1 if f == 'mixed' and (not pr or not lg) else 0) else (n % 2,)): jobs.append((v, f, pr, lg, form))   # 0: new target, 1: in place, 2: impossible target
        if replay and len(replay) == 5: jobs = [(tuple(tuple(o) for o in replay[0]), *replay[1:])]
        uniq = sorted({(j[0], j[1], j[3], j[4]) for j in jobs}, key=str); lines = []
        for n, (v, f, lg, form) in enumerate(uniq):
            src, tgt = '%s/%s.gcode' % (root, f), '%s/%s' % (root, 'nodir/t' if form == 2 else 'lib%d' % n)
            if form == 1: os.mkdir('%s/ip%d' % (root, n)); src = tgt = '%s/ip%d/s.gcode' % (root, n); shutil.copy('%s/%s.gcode' % (root, f), src)
            d = {k: OPT[k][2] for k in LIBKEYS}; d.update(dict(v)); lines.append('\t'.join(['source=' + src, 'target=' + tgt, 'callback=1', 'log=%s/log%d' % (root, n), 'loglevel=%d' % LEVELS[lg or 'INFO']] + ['%s=%s' % x for x in d.items()]))
        exp = {}
        for n, (u, o) in enumerate(zip(uniq, drv.run(lines))):
            r = json.loads(o); r['log'] = []
            for l in open('%s/log%d' % (root, n)):
                a, b = l.split(' ', 1); r['log'].append((list(LEVELS)[int(a)], bytes.fromhex(b.strip()).decode('utf-8', 'replace').rstrip('\n')))
            exp[u] = r
            shutil.rmtree('%s/ip%d' % (root, n), ignore_errors=True)
            for x in ('lib', 'log'):
                if os.path.exists('%s/%s%d' % (root, x, n)): os.unlink('%s/%s%d' % (root, x, n))
        def judge(j, rc, out, err, src, tgt, r):
            v, f, pr, lg, form = j; lev = LEVELS[lg or 'INFO']; val = {k: OPT[k][2] for k in LIBKEYS}; val.update(dict(v)); recs, rest = records(out); erecs, erest = records(err)
            ok = form != 2
            if (rc == 0) != ok: return 'exit status %s' % rc
            if erest: return 'unexpected text on stderr: ' + erest[0]
            for l, t in recs + erecs:
                if LEVELS.get(l, -1) < lev: return 'a %s message although the level is %s: %s' % (l, lg or 'INFO', t[:80])
            # what the engine says, in order, nothing else in between
            want = [x for x in r['log'] if LEVELS[x[0]] >= lev]; wout = [(l, norm(t)) for l, t in want if l != 'ERROR']; gout = [(l, norm(t)) for l, t in recs]
            head = [('INFO', x) for x in ([{'NONE': 'Suppressing progress messages.', 'FULL': 'Displaying full progress messages.'}.get(pr)] if pr in ('NONE', 'FULL') else []) + ['Processing GCode.']] if lev <= 20 else []
            if gout[:len(head)] != head: return 'the log begins with %s instead of %s' % (gout[:len(head)], head)
            i = len(head)
            if lev <= 20:
                if i >= len(gout) or not gout[i][1].startswith('Arc Welder Arguments'): return 'the arguments are not logged'
                a = listing(recs[i][1]); i += 1; yn = lambda k: 'True' if val[k] == '1' else 'False'
                comp = float(val['min_arc_segments']) > 0 and float(val['mm_per_arc_segment']) > 0
                ex = {'Firmware Compensation': str(comp), 'Allow 3D Arcs': yn('allow_3d_arcs'), 'Allow Travel Arcs': yn('allow_travel_arcs'), 'Allow Dynamic Precision': yn('allow_dynamic_precision'), 'Default XYZ Precision': val['default_xyz_precision'], 'Default E Precision': val['default_e_precision'], 'G90/G91 Influences Extruder': yn('g90_g91_influences_extruder'), 'Log Level': lg or 'INFO', 'Hide Progress Updates': 'False', 'Source File Path': src, 'Target File Path (overwrite)' if form == 1 else 'Target File Path': tgt}
                if comp: ex['Min Arc Segments'] = val['min_arc_segments']
                if val['max_gcode_length'] == '0': ex['Max Gcode Length'] = 'Unlimited'
                else: ex['Max Gcode Length'] = val['max_gcode_length'] + ' characters'
                for k in ex:
                    if a.get(k) != ex[k]: return 'the log shows "%s: %s" instead of %s' % (k, a.get(k), ex[k])
                num = {'Resolution': val['resolution_mm'], 'Path Tolerance': 100 * float(val['path_tolerance_percent']), 'Maximum Arc Radius': val['max_radius_mm']}
                if comp: num['MM Per Arc Segment'] = val['mm_per_arc_segment']
                if float(val['extrusion_rate_variance_percent']): num['Extrusion Rate Variance'] = 100 * float(val['extrusion_rate_variance_percent'])
                elif a.get('Extrusion Rate Variance') != 'Unlimited': return 'the log does not call the variance unlimited'
                for k in num:
                    if not rounded(a.get(k, ''), num[k]): return 'the log shows "%s: %s" instead of %s' % (k, a.get(k), num[k])
                m = re.search(r'\(\+-([\d.]+)mm\)', a['Resolution'])
                if not m or not rounded(m.group(1), float(val['resolution_mm']) / 2): return 'the log shows the resolution as ' + a['Resolution']
            tail = []
            if lev <= 20:
                if ok:
                    p = r['progress']
                    if val['allow_travel_arcs'] == '1': tail.append(('INFO', 'Target File Travel Statistics: No travel arcs converted.' if p['source_file_total_travel_count'] == p['target_file_total_travel_count'] else '\n' + p['travel_table'].rstrip('\n')))
                    tail += [('INFO', '\n' + p['extrusion_table'].rstrip('\n')), ('INFO', 'Arc Welder process completed successfully.')]
                else: tail = [('INFO', 'File processing failed.')]
            if tail and gout[-len(tail):] != tail:
                for g, t in zip(gout[-len(tail):], tail):
                    if g != t: return 'at the end the log shows %s instead of %s' % (g, t)
                return 'the log ends with %s' % gout[-1:]
            mid = gout[i:len(gout) - len(tail)]
            if mid != wout:
                for k, (g, t) in enumerate(zip(mid, wout)):
                    if g != t: return 'message %d of the engine is shown as %s instead of %s' % (k, g, t)
                return '%d messages of the engine instead of %d (%s)' % (len(mid), len(wout), (mid + [''])[-1])
            if [norm(t) for _, t in erecs] != [norm(t) for l, t in want if l == 'ERROR']: return 'errors shown: %s' % erecs
            prog = [l[len('Progress: '):] for l in rest if l.startswith('Progress: ')]; warn = [l for l in rest if l.startswith('warning: ')]; other = [l for l in rest if not l.startswith(('Progress: ', 'warning: '))]
            if other: return 'unexpected output: ' + other[0]
            t, mr = float(val['path_tolerance_percent']), float(val['max_radius_mm'])
            if any('tolerance' in w for w in warn) != (t > .25 or t < .001): return 'tolerance warning: %s for %s' % (warn, t)
            if any('radius' in w for w in warn) != (mr > 1000000): return 'radius warning: %s for %s' % (warn, mr)
            if any('variance' in w for w in warn) != (float(val['extrusion_rate_variance_percent']) == 0): return 'variance warning: %s for %s' % (warn, val['extrusion_rate_variance_percent'])
            cb = r['callbacks']
            if pr == 'NONE' or not cb: return 'progress although suppressed: ' + prog[0] if prog else None
            if len(prog) < len(cb): return '%d progress lines, the engine reports %d times' % (len(prog), len(cb))
            def full(q): return ' percent_complete:%.2f, seconds_elapsed:#, seconds_remaining:#, gcodes_processed: %d, current_file_line: %d, points_compressed: %d, arcs_created: %d, arcs_aborted_by_flowrate: %d, num_firmware_compensations: %d, num_gcode_length_exceptions: %d, compression_ratio: %.2f, size_reduction: %.2f%% ' % (q['percent_complete'], q['gcodes_processed'], q['lines_processed'], q['points_compressed'], q['arcs_created'], q['arcs_aborted_by_flowrate'], q['num_firmware_compensations'], q['num_gcode_length_exceptions'], q['compression_ratio'], q['compression_percent'])
            for g, q in ((prog[0], cb[0]), (prog[-1], cb[-1])):
                if pr == 'FULL': w, g2 = full(q), norm(g)
                else: w = {0: ' 00.0% complete - Estimating remaining time.', 100: '100.0% complete - # seconds total.'}.get(q['percent_complete']); g2 = re.sub(r'- [\d.]+(e[-+]?\d+)? seconds', '- # seconds', g)
                if pr == 'FULL' and -12345 in (q['compression_ratio'], q['compression_percent']) and q['percent_complete'] != -12345: continue   # empty files: not a number
                if w is not None and g2 != w: return 'progress is shown as "%s" instead of "%s"' % (g, w)
            for g in prog[1:-1]:
                if not (re.match(r'^ percent_complete:\d+\.\d\d, ', g) if pr == 'FULL' else re.match(r'^[ \d]\d\d\.\d% complete - ', g)): return 'progress is shown as "%s"' % g
        def go(j):
            v, f, pr, lg, form = j; t = tempfile.mkdtemp(dir=root)
            try:
                opts = [spell(o[0], o[1], n % 2) for n, o in enumerate(v)] + (['-p=' + pr] if pr else []) + (['-l=' + lg] if lg else [])
                src = '%s/%s.gcode' % (root, f); tgt = t + ('/nodir/t' if form == 2 else '/t')
                if form == 1: shutil.copy(src, t + '/s.gcode'); src = tgt = t + '/s.gcode'; argv = opts + [src]
                else: argv = opts + [src, tgt]
                p = subprocess.run([exes['welder']] + argv, cwd=t, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, close_fds=False)
                m = judge(j, p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace'), src, tgt, exp[(v, f, lg, form)])
                with rep.lock: rep.runs += 1; rep.trans += len(opts) + 1; rep.states += 1; rep.outcomes.add(norm(STAMP.sub('', p.stdout.decode('utf-8', 'replace'))))
                if m: rep.violation('ArcWelder %s: %s' % (' '.join(argv), m), list(j))
                elif len(rep.samples) < 4 and rep.runs % 700 == 7: rep.samples.append('ArcWelder ' + ' '.join(opts))
            finally: shutil.rmtree(t, ignore_errors=True)
        if not (replay and len(replay) != 5):
            with cf.ThreadPoolExecutor(16) as ex: list(ex.map(go, jobs))
        # the straightener: what it says about its settings, and how much it says it did
        LN = lambda k: '--' + k.replace('_', '-'); text = straight_gcode() + 'G90\nG1 X10 Y10 F3000\nG2 X20 Y10 R10\nG3 X20 Y30 I5 J10\nG2 X20 Y30\n'; sj = []
        for i, fw in enumerate(FWS):
            for how in ['explicit'] + (['latest', 'none'] if fw[3] else []) + (['default'] if fw[1] == 'MARLIN_2' and fw[3] else []):
                sj.append(('print', i, how, (), ''))
                opts = [()] + [((k, v),) for k in fw[4] for v in SOPT[k][1]] + [((k, v), (k2, v2)) for k, k2 in itertools.combinations(fw[4], 2) for v in SOPT[k][1] for v2 in SOPT[k2][1]]
                for n, o in enumerate(opts):
                    for lg in (('', *LEVELS) if len(o) <= 1 else ('',)):
                        for form in (('new', 'inplace', 'bad') if not o else ('new', 'inplace')[n % 2:][:1]): sj.append((form, i, how, o, lg))
        if replay: sj = [(replay[0], replay[1], replay[2], tuple(tuple(o) for o in replay[3]), replay[4])] if len(replay) == 5 and isinstance(replay[1], int) else []
        def shown(a, fw, how, o):
            d = dict(fw[5]); d.update({k: {'TRUE': 1, 'FALSE': 0}.get(v, v) for k, v in o if v != 'DEFAULT'})
            if a.get('Firmware Type') != fw[1]: return 'firmware type ' + str(a.get('Firmware Type'))
            ver = fw[2] + (' (LATEST_RELEASE)' if fw[3] else '')
            if a.get('Firmware Version') not in (ver, fw[2]): return 'firmware version %s instead of %s' % (a.get('Firmware Version'), ver)
            for k in SOPT:
                g = a.get(k.replace('_', '-'))
                if (g is not None) != (k in fw[4]): return '%s is %s, although it %s' % (LN(k), 'not shown' if g is None else 'shown', 'applies' if k in fw[4] else 'does not apply')
                if g is not None and not (g == str(bool(d[k])) if k == G else rounded(g, d[k])): return '%s is shown as %s instead of %s' % (LN(k), g, d[k])
        def gs(j):
            form, i, how, o, lg = j; fw = FWS[i]; t = tempfile.mkdtemp(dir=root); lev = LEVELS[lg or 'INFO']
            try:
                open(t + '/s.gcode', 'w').write(text); opts = ([] if how == 'default' else ['-f=' + fw[1]]) + (['-v=' + (fw[2] if how == 'explicit' else 'LATEST_RELEASE')] if how in ('explicit', 'latest') else [])
                sp = [('--%s=%s' % (k.replace('_', '-'), v)) if n % 2 else '-%s=%s' % (SOPT[k][0], v) for n, (k, v) in enumerate(o)] + (['-l=' + lg] if lg else [])
                argv = opts + ['-p'] if form == 'print' else opts + sp + ['s.gcode'] + ({'new': ['t.gcode'], 'inplace': [], 'bad': ['nodir/t.gcode']}[form])
                p = subprocess.run([exes['straightener']] + argv, cwd=t, stdin=subprocess.DEVNULL, capture_output=True, timeout=60, close_fds=False); out = p.stdout.decode('utf-8', 'replace'); m = None
                if form == 'print':
                    av = re.search(r'^Available argument for firmware: (.*)$', out, re.M); na = re.search(r'do not apply to this firmware version: (.*)$', out, re.M)
                    if p.returncode: m = 'exit status %d' % p.returncode
                    elif not av or sorted(av.group(1).split(',')) != sorted(LN(k) for k in fw[4]): m = 'available arguments: %s' % (av and av.group(1))
                    elif not na or sorted(na.group(1).split(',')) != sorted(LN(k) for k in SOPT if k not in fw[4]): m = 'arguments that do not apply: %s' % (na and na.group(1))
                    elif os.listdir(t) != ['s.gcode']: m = 'files were created'
                    else: m = shown(listing(out), fw, how, ())
                else:
                    recs, rest = records(out); body = [x for x in recs if x[0] == 'INFO']; st = listing('\n'.join(rest)); m = None
                    bad = [x for x in recs if LEVELS.get(x[0], -1) < lev]
                    if (p.returncode == 0) != (form != 'bad'): m = 'exit status %d' % p.returncode
                    elif bad: m = 'a %s message although the level is %s' % (bad[0][0], lg)
                    else:
                        args = [x for x in body if x[1].startswith('Arguments:')]; end = [x for x in body if x[1] == 'Process completed successfully.']
                        if lev <= 20:
                            if len(args) != 1: m = 'the arguments are logged %d times' % len(args)
                            else:
                                a = listing(args[0][1]); m = shown(a, fw, how, o); na = re.search(r'do not apply to this firmware version: (.*)$', args[0][1], re.M)
                                if not m and a.get('Log Level') != (lg or 'INFO'): m = 'log level shown as %s' % a.get('Log Level')
                                if not m and a.get('Source File Path') != 's.gcode': m = 'source path shown as %s' % a.get('Source File Path')
                                if not m and (a.get('Target File Path (overwrite)') == 's.gcode') != (form == 'inplace'): m = 'the target is shown as %s' % a
                                if not m and sorted(na.group(1).split(',') if na else []) != sorted(LN(k) for k in SOPT if k not in fw[4]): m = 'arguments that do not apply: %s' % (na and na.group(1))
                            if not m and (len(end) == 1) != (form != 'bad'): m = 'success is reported %d times' % len(end)
                        if not m and lev <= 40 and any(x[0] == 'ERROR' for x in recs) != (form == 'bad'): m = 'errors are logged: %s' % [x for x in recs if x[0] == 'ERROR']
                        if not m and form != 'bad':
                            w = open(t + ('/t.gcode' if form == 'new' else '/s.gcode')).read().split('\n'); gen = len([l for l in w if l and not l.startswith(';')]); S = text.splitlines(); arcs = len([l for l in S if l[:3] in ('G2 ', 'G3 ')]); kept = len([l for l in w if l[:3] in ('G2 ', 'G3 ')])
                            want = {'Lines Processed': len(S), 'Arc Commands Processed': arcs, 'Arc Segments Generated': gen - kept - (len(S) - arcs)}
                            hd = {k.replace('_', '-'): x for k, x in (l[2:].split('=', 1) for l in w if l.startswith('; ') and '=' in l)}; hd['Firmware Type'] = hd.pop('firmware-type', None); hd['Firmware Version'] = hd.pop('firmware-version', None)
                            m = shown(hd, fw, how, o); m = m and 'in the header of the file ' + m
                            for k, x in want.items():
                                if st.get(k) != str(x): m = '%s: %s instead of %d' % (k, st.get(k), x)
                with rep.lock: rep.runs += 1; rep.trans += len(o) + 1; rep.states += 1; rep.outcomes.add(norm(STAMP.sub('', out)))
                if m: rep.violation('ArcStraightener %s: %s' % (' '.join(argv), m), list(j))
                elif len(rep.samples) < 6 and rep.runs % 900 == 7: rep.samples.append('ArcStraightener ' + ' '.join(opts + sp))
            finally: shutil.rmtree(t, ignore_errors=True)
        with cf.ThreadPoolExecutor(16) as ex: list(ex.map(gs, sj))
        return rep.finish('the arguments shown are the values in force, progress lines are those of the chosen type with the engine\'s numbers, log messages are the engine\'s at or above the level, the closing tables are the library\'s, success or failure is reported as it is',
                          '%d command lines of ArcWelder (%d option vectors; progress types x log levels x 5 files x new, in place, impossible target), %d of ArcStraightener (8 firmware versions, settings up to pairs, every log level, --print-firmware-defaults)' % (len(jobs), len(vecs), len(sj)), ['seconds are not judged', 'values are compared to the digits shown'])
    finally: shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

if __name__ == '__main__':
    prop, tier, replay = native.args(sys.argv); rep = Report(prop, tier, 'model_checking')
    r = json.load(open(replay))['replay'] if replay else None
    sys.exit({'C01': c01, 'C02': c02, 'C03': c03, 'C04': c04}[prop](rep, tier, r))
