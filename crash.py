#!/usr/bin/env python3
"""W17 / S09: every crash point and every failing file operation of the real command line tools.

The tools are built from the working tree and run in scratch directories under a shim (src/shim.c) that
numbers their file operations.  For every scenario (how source and target name the file) and content the
fault-free run is traced, then the tool is run again once per operation and per fault: killed before it,
killed in the middle of a write, operation failing (several errors), short write, disk full from here on,
and with a second instance running to completion at that point.  Pairs of faults: second fault at every
operation that follows the first one.
"""
import os, sys, json, errno, subprocess, shutil, tempfile, signal, concurrent.futures as cf
import native
from native import Report

def contents(tier):
    import math
    def circ(n, r=20.0, cx=100.0, cy=100.0, x='', e0=0.0):
        L = ['G90', 'M82', 'G92 E0', 'G1 X%.3f Y%.3f Z0.2 F3000' % (cx + r, cy)]; e = e0
        for i in range(1, n + 1):
            a = 2 * math.pi * i / 90; e += 0.05
            L.append('G1 X%.3f Y%.3f E%.5f%s' % (cx + r * math.cos(a), cy + r * math.sin(a), e, x))
        return L
    def arcs(n):
        L = ['G90', 'M82', 'G92 E0', 'G1 X100 Y100 Z0.2 F3000']; e = 0
        for i in range(n):
            e += 1; L.append('G%d X%d Y100 I%d J0 E%.5f' % (2 + i % 2, 110 if i % 2 == 0 else 100, 5 if i % 2 == 0 else -5, e))
        return L
    pad = ['; %04d %s' % (i, 'abcdefghij' * 6) for i in range(300)]
    C = {
        'small': '\n'.join(circ(6) + arcs(2)) + '\n',
        'empty': '',
        'no-newline': '\n'.join(circ(5) + ['G4 P1']),
        'big': '\n'.join(circ(40) + pad + arcs(4) + circ(20)) + '\n',
        'crlf-prusa': '\r\n'.join(['; generated by PrusaSlicer 2.3'] + circ(8) + ['']),
    }
    return C

BYSTANDERS = {'source.gcode.tmp': 'b1\n', 'source.tmp': 'b2\n', 'source.gcode.bak': 'b3\n', 'source.bak': 'b4\n', 'tmp': 'b5\n', 'temp.gcode': 'b6\n',
              '.source.gcode.tmp': 'b7\n', 'source.gcode~': 'b8\n', 'other.gcode': 'b9\n', 'source.aw.gcode': 'b10\n', 'sub/source.gcode': 'b11\n', 'sub/keep': 'b12\n', '.tmp': 'b13\n', 'target.tmp': 'b14\n',
              'target.gcode.tmp': 'b15\n', 'target.gcode.bak': 'b16\n', 'source.gcode.aw': 'b17\n'}

# name -> (arguments, in place?, setup of extra names, path the result is read from)
def scenarios(d):
    ln = lambda a, b: (lambda: os.symlink(a, b)); hl = lambda a, b: (lambda: os.link(a, b)); ex = lambda p: (lambda: open(p, 'w').write('old target\n' * 3000))
    S = d + '/source.gcode'
    return {
        'inplace': (['source.gcode'], True, None, S),
        'inplace-same': (['source.gcode', 'source.gcode'], True, None, S),
        'inplace-dot': (['source.gcode', './source.gcode'], True, None, S),
        'inplace-dotsrc': (['./source.gcode', 'source.gcode'], True, None, S),
        'inplace-abs': (['source.gcode', S], True, None, S),
        'inplace-updir': (['source.gcode', 'sub/../source.gcode'], True, None, S),
        'inplace-slashes': (['source.gcode', './/source.gcode'], True, None, S),
        'inplace-symlink': (['source.gcode', 'link.gcode'], True, ln('source.gcode', d + '/link.gcode'), d + '/link.gcode'),
        'inplace-from-symlink': (['link.gcode', 'source.gcode'], True, ln('source.gcode', d + '/link.gcode'), S),
        'inplace-link-only': (['link.gcode'], True, ln('source.gcode', d + '/link.gcode'), d + '/link.gcode'),
        'inplace-dirlink': (['source.gcode', 'dl/source.gcode'], True, ln('.', d + '/dl'), S),
        'inplace-hardlink': (['source.gcode', 'hard.gcode'], True, hl(S, d + '/hard.gcode'), d + '/hard.gcode'),
        'new-target': (['source.gcode', 'target.gcode'], False, None, d + '/target.gcode'),
        'old-target': (['source.gcode', 'target.gcode'], False, ex(d + '/target.gcode'), d + '/target.gcode'),
        'sub-target': (['source.gcode', 'sub/target.gcode'], False, None, d + '/sub/target.gcode'),
        'no-dir': (['source.gcode', 'nodir/target.gcode'], False, None, d + '/nodir/target.gcode'),
        'dir-target': (['source.gcode', 'sub'], False, None, None),
        'dir-source': (['sub', 'target.gcode'], False, None, None),
        'no-source': (['missing.gcode', 'target.gcode'], False, None, None),
    }
MUSTFAIL = {'no-dir', 'dir-target', 'dir-source', 'no-source'}

class World:
    def __init__(self, root, exes, tool, opts):
        self.root, self.tool, self.opts = root, tool, opts; self.exe = exes[tool]; self.shim = exes['shim']
    def run(self, name, scen, content, plan='', hook='', extra=None, expect=None, pre=None):
        """one execution in a fresh directory; returns dict(rc, ops, problem)"""
        d = tempfile.mkdtemp(dir=self.root); log = d + '.log'
        try:
            os.mkdir(d + '/sub')
            for n, t in BYSTANDERS.items(): open(d + '/' + n, 'w').write(t)
            by = dict(BYSTANDERS)
            for n in pre or (): open(d + '/' + n, 'w').write('precious\n'); by[n] = 'precious\n'
            open(d + '/source.gcode', 'wb').write(content.encode())
            if extra: open(d + '/second.gcode', 'wb').write(extra[0].encode())
            argv, inplace, setup, result = scenarios(d)[scen]
            if setup: setup()
            env = dict(PATH='/usr/bin:/bin', VF_DIR=d, VF_LOG=log, VF_PLAN=plan, LD_PRELOAD=self.shim)
            if hook: env['VF_HOOK'] = hook.replace('@EXE', self.exe) + ' >/dev/null 2>&1'
            p = subprocess.Popen([self.exe] + argv + self.opts, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, close_fds=False)
            try: rc = p.wait(60)
            except subprocess.TimeoutExpired: p.kill(); p.wait(); return dict(rc=None, ops=[], problem='did not end within 60 s')
            try: ops = [l.split(' ', 2) for l in open(log, errors='replace').read().splitlines()]
            except OSError: ops = []
            def get(q):
                try: return open(q, 'rb').read().decode('utf-8', 'replace')
                except OSError: return None
            prob = None; tgt = get(result) if result else None; src = get(d + '/source.gcode')
            crash = any(x[0] in 'CT' for x in plan.split(',') if x)
            killed = rc == -signal.SIGKILL
            if killed and not crash or (rc < 0 and not killed): prob = 'the program ended with signal %d' % -rc
            if expect is not None and not prob:
                S = content; T = expect; ok = {S, T} | ({extra[2]} if extra and len(extra) > 2 and extra[2] is not None else set())
                if inplace:
                    if src not in ok: prob = 'the source file is neither the original nor the complete result: ' + desc(src, S, T)
                    elif tgt not in ok: prob = 'the file named by the target path is neither the original nor the complete result: ' + desc(tgt, S, T)
                    elif rc == 0 and tgt not in ok - {S} and S != T: prob = 'exit status 0, but the file was not converted: ' + desc(tgt, S, T)
                else:
                    if src != S: prob = 'the source file was changed: ' + desc(src, S, T)
                    elif rc == 0 and scen in MUSTFAIL: prob = 'exit status 0, but nothing could be converted'
                    elif rc == 0 and result and tgt != T: prob = 'exit status 0, but the target is not the complete result: ' + desc(tgt, S, T)
                if not prob:
                    for n, t in by.items():
                        if get(d + '/' + n) != t: prob = 'unrelated file %s was changed or removed' % n; break
                if not prob and extra and extra[1] is not None:
                    if get(d + '/second.gcode') != extra[1]: prob = 'the file converted by the second instance is not its result'
            return dict(rc=rc, ops=ops, problem=prob, tgt=tgt, killed=killed, files=tuple(sorted((src == content, tgt == expect))))
        finally:
            shutil.rmtree(d, ignore_errors=True)
            try: os.unlink(log)
            except OSError: pass

def desc(x, S, T):
    if x is None: return 'missing'
    if x == S: return 'the original (%d bytes)' % len(S)
    if T is not None and T.startswith(x): return 'the first %d of the %d bytes of the result' % (len(x), len(T))
    return '%d bytes (original %d, result %d)' % (len(x), len(S), len(T or ''))

ERR = {'openr': [errno.EACCES], 'openw': [errno.EACCES, errno.ENOSPC], 'read': [errno.EIO], 'write': [errno.ENOSPC, errno.EIO], 'close': [errno.EIO],
       'rename': [errno.EXDEV, errno.EACCES], 'remove': [errno.EACCES]}
def faults(op, i):
    yield 'C:%d' % i
    if op == 'write':
        yield 'T:%d' % i; yield 'S:%d' % i; yield 'P:%d' % i
    for e in ERR.get(op, [errno.EIO]): yield 'E:%d:%d' % (i, e)

def main():
    prop, tier, replay = native.args(sys.argv)
    tool = 'welder' if prop == 'W17' else 'straightener'
    opts = ['-p=NONE', '-l=ERROR'] if tool == 'welder' else ['-l=ERROR']
    rep = Report(prop, tier, 'fault_enumeration')
    bdir = tempfile.mkdtemp(prefix='vfb'); root = tempfile.mkdtemp(prefix='vfc', dir='/dev/shm' if os.access('/dev/shm', os.W_OK) else None)
    try:
        exes = native.build(bdir, [tool, 'shim']); w = World(root, exes, tool, opts)
        print('built in %.1f s' % (__import__('time').time() - rep.t0), flush=True)
        C = contents(tier); T = {}; TT = {}
        for c, t in C.items():
            T[c] = w.run(c, 'new-target', t)['tgt']
            TT[c] = w.run(c, 'new-target', T[c])['tgt'] if T[c] is not None else None
        second = C['small'].replace('X1', 'X2'); T2 = w.run('', 'new-target', second)['tgt']
        def go(job):
            scen, c, plan, kind, pre = job
            ex = None; hook = ''
            if kind == 'other': ex = (second, T2); hook = '@EXE second.gcode ' + ' '.join(opts)
            if kind == 'same': ex = (second, second, TT[c]); hook = '@EXE source.gcode ' + ' '.join(opts)
            r = w.run(c, scen, C[c], plan, hook, ex, T[c], pre)
            with rep.lock:
                rep.runs += 1; rep.trans += len(r['ops'])
                rep.outcomes.add((scen, plan.split(':')[0], r['rc'], r.get('files')))
                if len(rep.samples) < 5 and rep.runs % 97 == 1: rep.samples.append('%s %s %s %s -> exit %s; operations: %s' % (scen, c, plan, kind, r['rc'], ' '.join(o[1] for o in r['ops'][:40])))
            if r['problem']:
                at = ''
                for x in plan.split(','):
                    if x:
                        i = int(x.split(':')[1]); o = r['ops'][i] if i < len(r['ops']) else None
                        at += ' [%s at operation %d: %s]' % (dict(C='killed before', T='killed during', E='failure of', S='short write', P='disk full', H='second instance').get(x[0]), i, ' '.join(o[1:]) if o else 'end')
                rep.violation('%s of content %s%s: %s (exit status %s)' % (scen, c, at, r['problem'], r['rc']), list(job))
            return job, r
        if replay:
            j = json.load(open(replay))['replay']; job, r = go(tuple(j)); print(r['rc'], r['problem']); return 1 if r['problem'] else 0
        with cf.ThreadPoolExecutor(max(4, (os.cpu_count() or 4) * 2)) as ex:
            base = list(ex.map(go, [(s, c, '', '', None) for s in scenarios('/x') for c in C]))
            jobs = []; pairs = []
            for (s, c, _, _, _), r in base:
                rep.states += len(r['ops']) + 1
                if r['rc'] == 0 and s in MUSTFAIL: continue
                # names the tool opened for writing, other than its target: they must not be overwritten if they exist
                pre = sorted({o[2] for o in r['ops'] if o[1] == 'openw' and '/' not in o[2] and o[2] not in ('target.gcode', 'sub', 'source.gcode', 'link.gcode', 'hard.gcode')})
                if pre: jobs.append((s, c, '', '', tuple(pre)))
                for i, o in enumerate(r['ops']):
                    for f in faults(o[1], i): jobs.append((s, c, f, '', None))
                    jobs.append((s, c, 'H:%d' % i, 'other', None))
                    if s in ('inplace', 'inplace-dot'): jobs.append((s, c, 'H:%d' % i, 'same', None))
            done = list(ex.map(go, jobs))
            # second fault at every operation after the first failure
            deep = []
            psc = ('inplace', 'inplace-symlink') if tier == 'quick' else tuple(x for x in scenarios('/x') if x not in MUSTFAIL)
            pc = ('small',) if tier == 'quick' else tuple(C)
            for (s, c, f, k, _), r in done:
                if f[:1] in 'ESP' and f and s in psc and c in pc:
                    i = int(f.split(':')[1])
                    for j in range(i + 1, len(r['ops'])):
                        for g in faults(r['ops'][j][1], j): deep.append((s, c, f + ',' + g, '', None))
            done2 = list(ex.map(go, deep)); rep.states += len(jobs) + len(deep)
            if tier != 'quick':
                deeper = []
                for (s, c, f, k, _), r in done2:
                    g = f.split(',')[-1]
                    if g[0] in 'ESP' and s in ('inplace', 'inplace-dot', 'old-target') and c in ('small', 'no-newline'):
                        for j in range(int(g.split(':')[1]) + 1, len(r['ops'])):
                            for h in faults(r['ops'][j][1], j): deeper.append((s, c, f + ',' + h, '', None))
                list(ex.map(go, deeper)); rep.states += len(deeper)
            else: deeper = []
        return rep.finish('the source path holds the complete original or the complete result, exit status 0 only with the complete result, no other file changed',
                          '%d scenarios x %d contents; every file operation of each run (open, read, write, close, rename, remove, ...) x {kill before, kill within a write, fail with each errno, short write, disk full, second instance}; %d single faults, %d double, %d triple' % (len(scenarios('/x')), len(C), len(jobs), len(deep), len(deeper)),
                          ['a crash of the process, not of the machine (no lost write-back)', 'operations issued through the C library entry points interposed by src/shim.c', 'temporary names are not guessed by others'],
                          dict(crash_points=sum(1 for j in jobs if j[2][:1] in ('C', 'T')), single_faults=len(jobs), double_faults=len(deep), triple_faults=len(deeper)))
    finally:
        shutil.rmtree(bdir, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

if __name__ == '__main__':
    sys.exit(main())
