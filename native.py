"""Builds the real programs (and the library driver) from the working tree under test, outside of it."""
import os, sys, subprocess, glob, tempfile, json, time, threading, concurrent.futures as cf
from check import VERIF, REPO, LIB, WEL, INV, BASE, sources, version_header, compile_all
CON, PY = 'ArcWelderConsole', 'PyArcWelder'
FL = ['-O1', '-ftrivial-auto-var-init=pattern', '-ffp-contract=off', '-fPIC']

def build(bdir, want):
    """want: subset of {'welder','straightener','driver','shim','pyext'}; returns {name: path}"""
    version_header(bdir)
    incs = [bdir] + [REPO + '/' + g for g in (LIB, WEL, INV, CON, PY)] + [REPO + '/TCLAP']
    flags = BASE + FL
    groups = {LIB: [], WEL: []}
    if 'welder' in want: groups[CON] = []
    if {'straightener', 'sdriver'} & set(want): groups[INV] = []
    if 'pyext' in want:
        groups[PY] = []
        import sysconfig; flags = flags + ['-I' + sysconfig.get_paths()['include']]
    files = []
    for g in groups:
        for f in sources(g):
            o = '%s/%s_%s.o' % (bdir, g, os.path.basename(f)); files.append((f, o)); groups[g].append(o)
    if 'sdriver' in want: files.append((VERIF + '/src/sdriver.cpp', bdir + '/sdriver.o'))
    if 'driver' in want: files.append((VERIF + '/src/driver.cpp', bdir + '/driver.o'))
    bad = compile_all(bdir, files, flags, incs)
    if bad:
        for s, m in bad: print('BUILD-ERROR', s, '\n', m)
        sys.exit(3)
    base = groups[LIB]; out = {}
    def link(name, objs, extra=()):
        p = bdir + '/' + name
        r = subprocess.run(['g++'] + objs + ['-o', p, '-pthread'] + list(extra), capture_output=True, text=True)
        if r.returncode: print('LINK-ERROR', r.stderr[-3000:]); sys.exit(3)
        return p
    if 'welder' in want: out['welder'] = link('ArcWelder', groups[CON] + groups[WEL] + base)
    if 'straightener' in want: out['straightener'] = link('ArcStraightener', groups[INV] + base)
    if 'driver' in want: out['driver'] = link('driver', [bdir + '/driver.o'] + groups[WEL] + base)
    if 'sdriver' in want: out['sdriver'] = link('sdriver', [bdir + '/sdriver.o'] + [o for o in groups[INV] if 'ArcWelderInverseProcessor.cpp' not in os.path.basename(o)] + base)
    if 'pyext' in want: out['pyext'] = link('PyArcWelder.so', groups[PY] + groups[WEL] + base, ['-shared'])
    if 'shim' in want:
        out['shim'] = bdir + '/shim.so'
        r = subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', VERIF + '/src/shim.c', '-o', out['shim'], '-ldl'], capture_output=True, text=True)
        if r.returncode: print('LINK-ERROR', r.stderr[-3000:]); sys.exit(3)
    return out

class Report:
    """Collects violations (at most a few are written out) and counters, and writes the evidence file."""
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level; self.t0 = time.time(); self.viol = 0
        self.outcomes = set(); self.samples = []; self.states = 0; self.trans = 0; self.runs = 0; self.lock = threading.Lock()
        os.makedirs(VERIF + '/replays', exist_ok=True); os.makedirs(VERIF + '/evidence', exist_ok=True)
    def violation(self, what, replay):
        with self.lock:
            self.viol += 1
            if self.viol > 5: return
            p = '%s/replays/%s-%d.json' % (VERIF, self.prop, self.viol)
            json.dump(dict(what=what, replay=replay), open(p, 'w'), indent=1)
            print('VIOLATION property=%s replay=%s' % (self.prop, p)); print('  ' + what.replace('\n', '\n  ')[:1500], flush=True)
    def finish(self, rule, bounds, assumptions, extra=None):
        cov = dict(states=self.states, transitions=self.trans, traces_validated_against_impl=self.runs, distinct_inputs=self.runs,
                   distinct_outcomes=len(self.outcomes), exhaustive=True, rule=rule, n_executions=self.runs, n_transitions=self.trans, bounds=bounds, samples=self.samples[:5])
        cov.update(extra or {})
        json.dump(dict(property=self.prop, tier=self.tier, seed=1, level=self.level, coverage=cov, assumptions=assumptions, violations=self.viol,
                       wall_s=round(time.time() - self.t0, 2)), open('%s/evidence/%s.json' % (VERIF, self.prop), 'w'), indent=1)
        print('%s: %d executions, %d states, %d transitions, %d outcomes, %d violations, %.1f s' % (self.prop, self.runs, self.states, self.trans, len(self.outcomes), self.viol, time.time() - self.t0))
        return 1 if self.viol else 0

def args(argv):
    prop = argv[1]; tier = 'quick'; replay = None
    for i, a in enumerate(argv):
        if a == '--tier': tier = argv[i + 1]
        if a == '--replay': replay = argv[i + 1]
    return prop, tier, replay
