#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Builds the explorer of a property together with the sources in /repo's current working tree
(in a throwaway directory outside /repo) and runs it.  Exit 0: held on everything explored;
exit 1 with a VIOLATION line: broken.
"""
import os, sys, subprocess, shutil, tempfile, glob, re, concurrent.futures as cf, json, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
WELD = {'W%02d' % i for i in range(1, 22)} - {'W17', 'W19'}
LOCALES = ['de_DE', 'fr_FR', 'tr_TR']
COV = ['-fsanitize-coverage=trace-pc']   # for the code under test only: a scheduling point at every basic block

# property -> (explorer source, sanitize, sources groups)
LIB, WEL, INV = 'GcodeProcessorLib', 'ArcWelder', 'ArcWelderInverseProcessor'
def plan(p):
    if p == 'W17': return dict(kind='py', script='crash.py')
    if p == 'S09': return dict(kind='py', script='crash.py')
    if p == 'W19': return dict(src='weld.cpp', san=True, groups=[LIB, WEL])
    if p == 'W22': return dict(src='conc.cpp', san=False, groups=[LIB, WEL, INV], repo_flags=COV)
    if p == 'W24': return dict(src='leak.cpp', san=False, groups=[LIB, WEL, INV])
    if p == 'W23': return dict(src='locale.cpp', san=False, groups=[LIB, WEL, INV], locales=True)
    if p in WELD: return dict(src='weld.cpp', san=False, groups=[LIB, WEL])
    if p == 'ALL': return dict(src='weld.cpp', san=False, groups=[LIB, WEL])
    if p[0] == 'L': return dict(src='lib.cpp', san=p in ('L05', 'L06', 'L07', 'L10', 'L02', 'L11', 'L12'), groups=[LIB, WEL])
    if p[0] == 'S': return dict(src='straight.cpp', san=False, groups=[LIB, WEL, INV])
    if p[0] == 'C': return dict(kind='py', script='cli.py')
    if p[0] == 'P': return dict(kind='py', script='pyext.py')
    raise SystemExit('unknown property ' + p)

def version_header(dst):
    t = open(REPO + '/GcodeProcessorLib/version.generated.h.in').read()
    open(dst + '/version.generated.h', 'w').write(re.sub(r'@(\w+)@', 'verif', t))

def sources(group):
    fs = sorted(glob.glob('%s/%s/*.cpp' % (REPO, group)))
    if group == INV: fs = [f for f in fs if os.path.basename(f) != 'ArcWelderInverseProcessor.cpp' or True]
    return fs

def compile_all(bdir, files, flags, incs, jobs=None, repo_flags=()):
    """files: [(source, object)] -> list of (source, message) that failed"""
    bad = []
    def one(so):
        s, o = so
        r = subprocess.run(['g++'] + flags + (list(repo_flags) if not s.startswith(VERIF + '/') else []) + ['-I' + i for i in incs] + ['-c', s, '-o', o], capture_output=True, text=True)
        return s, r
    with cf.ThreadPoolExecutor(jobs or os.cpu_count() or 4) as ex:
        for s, r in ex.map(one, files):
            if r.returncode: bad.append((s, r.stderr[-3000:]))
    return bad

BASE = ['-std=c++17', '-include', 'cstdint', '-include', 'cstring', '-include', 'climits', '-DHAS_GENERATED_VERSION', '-w', '-pthread']
SAN = ['-O1', '-ftrivial-auto-var-init=pattern', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-omit-frame-pointer', '-fno-sanitize=float-cast-overflow,float-divide-by-zero']
OPT = ['-O1', '-ftrivial-auto-var-init=pattern', '-ffp-contract=off']

def build(bdir, src, san, groups, defs=(), repo_flags=()):
    version_header(bdir)
    flags = BASE + (SAN if san else OPT) + list(defs)
    incs = [bdir, VERIF + '/src'] + [REPO + '/' + g for g in (LIB, WEL, INV)] + [REPO + '/TCLAP']
    files = [(VERIF + '/src/' + src, bdir + '/main.o')]
    mainlist = []
    for g in groups:
        for f in sources(g):
            o = bdir + '/' + g + '_' + os.path.basename(f) + '.o'
            if g == INV and re.search(r'\bint\s+main\s*\(', open(f, errors='replace').read()):
                continue
            files.append((f, o))
    bad = compile_all(bdir, files, flags, incs, repo_flags=repo_flags)
    if bad:
        for s, m in bad: print('BUILD-ERROR', s, '\n', m)
        sys.exit(3)
    exe = bdir + '/explorer'
    r = subprocess.run(['g++'] + flags + [o for _, o in files[1:] + files[:1]] + ['-o', exe, '-ldl'], capture_output=True, text=True)
    if r.returncode:
        print('LINK-ERROR', r.stderr[-3000:]); sys.exit(3)
    return exe

def main():
    if sys.argv[1:] == ['--selftest']:
        for t in ('g++', 'git', 'python3'):
            if not shutil.which(t): print('missing', t); return 1
        os.makedirs(VERIF + '/evidence', exist_ok=True); os.makedirs(VERIF + '/replays', exist_ok=True)
        return 0
    a = sys.argv[1:]; prop = a[0]; tier = os.environ.get('VERIF_TIER') or 'quick'; replay = None; extra = []
    i = 1
    while i < len(a):
        if a[i] == '--tier': tier = a[i + 1]; i += 2
        elif a[i] == '--replay': replay = a[i + 1]; i += 2
        else: extra.append(a[i]); i += 1
    pl = plan(prop)
    if pl.get('kind') == 'py':
        cmd = [sys.executable, VERIF + '/' + pl['script'], prop, '--tier', tier] + (['--replay', replay] if replay else []) + extra
        return subprocess.run(cmd, cwd=VERIF).returncode
    keep = os.environ.get('VERIF_BUILD')
    bdir = keep or tempfile.mkdtemp(prefix='vfb')
    try:
        t = time.time(); exe = build(bdir, pl['src'], pl['san'], pl['groups'], repo_flags=pl.get('repo_flags', ()))
        print('built in %.1f s' % (time.time() - t), flush=True)
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:max_malloc_fill_size=65536:malloc_fill_byte=190:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=0')
        if prop in ('W13', 'W20', 'W21', 'L04', 'S05'): env['MALLOC_PERTURB_'] = '90'   # memory that was not initialised has a value that shows
        if pl.get('locales'):
            import native
            os.makedirs(bdir + '/con', exist_ok=True); native.build(bdir + '/con', ['welder', 'straightener']); env['VERIF_CONSOLES'] = bdir + '/con'
            env['LOCPATH'] = bdir
            for l in LOCALES: subprocess.run(['localedef', '-i', l, '-f', 'UTF-8', bdir + '/' + l + '.UTF-8'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        cmd = [exe, '--prop', prop, '--tier', tier, '--verif', VERIF] + (['--replay', replay] if replay else []) + extra
        return subprocess.run(cmd, env=env).returncode
    finally:
        if not keep: shutil.rmtree(bdir, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
