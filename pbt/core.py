"""Framework: builds /repo's current tree, drives generated cases through C executors, shrinks, reports."""
import os, sys, json, time, hashlib, subprocess, tempfile, shutil, select, signal, traceback, glob, math, re, zlib
import multiprocessing as mp
import hypothesis
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase
from hypothesis import strategies as st

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))
NPROC = int(os.environ.get('VP_NPROC', '8'))

FLAVOURS = {
    # UBSan: everything except alignment/vptr noise; any report aborts the executor
    'asan': ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
             '-fno-sanitize-recover=all', '-fno-sanitize=alignment'],
    'opt': ['-g1', '-O2'],
    # allocations of a request that outlive it (pbt/c/leak.c)
    'leak': ['-g1', '-O1', '-fno-omit-frame-pointer', '-fno-optimize-sibling-calls'],
    # reads of uninitialised memory (GSL is not instrumented; what it returns counts as initialised)
    'msan': ['-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=memory', '-fno-sanitize-recover=all',
             '-Wno-implicit-function-declaration', '-Wno-int-conversion', '-Wno-incompatible-function-pointer-types'],
}
CC = {'msan': 'clang'}
LINK = {'msan': ['-Wl,--wrap=gsl_multiroot_fsolver_alloc']}
COMMON = ['-w', '-std=gnu11', '-fno-pie', '-I' + REPO, '-I' + os.path.join(REPO, 'src')]
PROGRAMS = {os.path.basename(p)[5:-2]: p for d in
            ('netcarto', 'utils', 'reliability', 'multiblock', 'only_deg', 'recommender', 'conflict')
            for p in glob.glob(os.path.join(REPO, d, 'main_*.c'))}


class Violation(Exception):
    pass

class Inconclusive(Exception):
    pass

class Absent(Exception):
    """The tree under test has no such (undeclared) function."""

class BuildError(Exception):
    pass

# ------------------------------------------------------------------ building
def _tree_key():
    h = hashlib.sha256()
    for pat in ('src/*.[ch]', 'lib/search*', '*.h', '*/main_*.c'):
        for p in sorted(glob.glob(os.path.join(REPO, pat))):
            h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in sorted(glob.glob(os.path.join(VERIF, 'pbt/c/**/*.[ch]'), recursive=True)):
        h.update(p.encode()); h.update(open(p, 'rb').read())
    h.update(json.dumps([FLAVOURS, CC, LINK, COMMON]).encode())
    return h.hexdigest()[:20]

def _without(argv, src, dst, out):
    """The executor src does not compile: dst gets a copy in which the functions with errors end the executor with Absent."""
    dropped = set()
    for attempt in range(20):
        lines = open(src if attempt == 0 else dst).read().split('\n')
        bad = {int(x) for x in re.findall(r'(?:^|/)%s:(\d+):\d+: (?:fatal )?error' % re.escape(os.path.basename(src)), out, re.M)}
        starts = [i for i, l in enumerate(lines) if re.match(r'[A-Za-z_].*\)\s*(\{.*)?$', l) and not l.rstrip().endswith(';') and not l.startswith(('#', '}'))]
        hit = {max([i for i in starts if i < b], default=None) for b in bad} - {None}
        if not hit: return None
        for i in hit:
            j = i
            if not (lines[i].count('{') and lines[i].count('{') == lines[i].count('}')):
                while j < len(lines) and not lines[j].startswith('}'): j += 1
            head = lines[i].split('{')[0].rstrip()
            if j >= len(lines) or head in dropped: return None
            dropped.add(head)
            lines[i:j + 1] = [head + ' { _exit(77); }'] + [''] * (j - i)
        open(dst, 'w').write('\n'.join(lines))
        p = subprocess.run([dst if a == src else a for a in argv], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 0: return sorted(dropped)
        out = p.stdout.decode(errors='replace').replace(dst, src)
    return None

def _run_parallel(jobs, mend=lambda argv, what, out: False):
    """jobs: list of (argv, what). Runs NPROC at a time; raises BuildError on failure."""
    running, errs, jobs = [], [], list(jobs)
    while jobs or running:
        while jobs and len(running) < NPROC:
            argv, what = jobs.pop(0)
            running.append((subprocess.Popen(argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), what, argv))
        p, what, argv = running.pop(0)
        out, _ = p.communicate()
        if p.returncode != 0 and not mend(argv, what, out.decode(errors='replace')):
            errs.append(what + ': ' + ' '.join(argv) + '\n' + out.decode(errors='replace')[-3000:])
    if errs:
        raise BuildError('\n'.join(errs))

def build(targets):
    """targets: iterable of (kind, name, flavour), kind 'exec' (pbt/c/exec_<name>.c) or 'prog' (a main_<name>.c).
    Returns {target: path}."""
    targets = sorted(set(targets))
    root = os.path.join(BUILD, _tree_key())
    os.makedirs(root, exist_ok=True)
    for d in glob.glob(os.path.join(BUILD, '*')):        # keep only a few old builds
        if d != root and time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)
    import fcntl
    with open(os.path.join(root, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        jobs, libs = [], {}
        for fl in sorted({t[2] for t in targets}):
            d = os.path.join(root, fl); os.makedirs(d, exist_ok=True)
            objs = []
            for src in sorted(glob.glob(os.path.join(REPO, 'src', '*.c'))) + [os.path.join(REPO, 'lib', 'search.c')]:
                o = os.path.join(d, os.path.basename(src)[:-2] + '.o')
                objs.append(o)
                if not os.path.exists(o):
                    inc = ['-I' + os.path.join(VERIF, 'pbt/c/compat')] if src.endswith('search.c') else []
                    jobs.append(([CC.get(fl, 'gcc'), '-c'] + FLAVOURS[fl] + inc + COMMON + [src, '-o', o + '.tmp.o'], src, o))
            extra = {'msan': 'msan_wrap', 'leak': 'leak'}.get(fl)
            if extra:
                o = os.path.join(d, extra + '.o'); objs.append(o)
                if not os.path.exists(o): jobs.append(([CC.get(fl, 'gcc'), '-c'] + FLAVOURS[fl] + COMMON + [os.path.join(VERIF, 'pbt/c/%s.c' % extra), '-o', o + '.tmp.o'], extra, o))
            libs[fl] = objs
        res = {}
        for t in targets:
            kind, name, fl = t
            exe = os.path.join(root, fl, kind + '_' + name)
            res[t] = exe
            if os.path.exists(exe):
                continue
            src = os.path.join(VERIF, 'pbt/c/exec_%s.c' % name) if kind == 'exec' else PROGRAMS[name]
            o = exe + '.o'
            flags = COMMON + (['-I' + os.path.join(VERIF, 'pbt/c'), '-include', os.path.join(VERIF, 'pbt/c/implicit.h')])
            if kind == 'exec' and fl != 'msan': flags = ['-Wno-all', '-Werror=incompatible-pointer-types', '-Werror=int-conversion'] + [x for x in flags if x != '-w']
            jobs.append(([CC.get(fl, 'gcc'), '-c'] + FLAVOURS[fl] + flags + [src, '-o', o + '.tmp.o'], src, o))
        def compile_less(argv, what, out):
            # a function of the tree has other parameters now: what calls it cannot be asked, all the rest can
            if not os.path.basename(what).startswith('exec_'): return False
            d = _without(argv, what, argv[-1][:-len('.tmp.o')] + '.less.c', out)
            if d: print('note: %s is served without %s' % (os.path.basename(what), ', '.join(d)), file=sys.stderr)
            return d is not None
        _run_parallel([(j[0], j[1]) for j in jobs], compile_less)
        for j in jobs:
            os.rename(j[2] + '.tmp.o', j[2])
        links = []
        for t in targets:
            kind, name, fl = t
            exe = res[t]
            if not os.path.exists(exe):
                links.append(([CC.get(fl, 'gcc')] + FLAVOURS[fl] + ['-no-pie', exe + '.o'] + libs[fl] +
                              LINK.get(fl, []) + ['-o', exe + '.tmp', '-lgsl', '-lgslcblas', '-lm'], exe))
        def link_less(argv, what, out):
            # functions that the tree no longer has
            names = sorted(set(re.findall(r"undefined reference to `(\w+)'", out)))
            if not names or '/exec_' not in what: return False
            st = what + '.stub.c'
            open(st, 'w').write('#include <unistd.h>\n' + ''.join('void %s(void) { _exit(77); }\n' % x for x in names))
            print('note: %s is served without %s' % (os.path.basename(what), ', '.join(names)), file=sys.stderr)
            i = argv.index('-no-pie')
            return subprocess.run(argv[:i + 1] + [st] + argv[i + 1:], stdout=subprocess.PIPE, stderr=subprocess.STDOUT).returncode == 0
        _run_parallel(links, link_less)
        for _, exe in links:
            os.rename(exe + '.tmp', exe)
    return res

# ------------------------------------------------------------------ executors
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=97:allocator_may_return_null=1:'
           'hard_rss_limit_mb=3500:detect_stack_use_after_return=0:print_suppressions=0',
           UBSAN_OPTIONS='print_stacktrace=1:exitcode=97', MSAN_OPTIONS='exitcode=97', LC_ALL='C',
           MALLOC_PERTURB_='165')          # uninitialised heap memory is never zero in the optimised builds

class Raw(str):
    """A token sent to the executor as it is."""

def enc(x):
    if isinstance(x, Raw): return str(x)
    if isinstance(x, bool): return '1' if x else '0'
    if isinstance(x, int): return str(x)
    if isinstance(x, float): return x.hex() if math.isfinite(x) else repr(x)
    if isinstance(x, str): return 'x' + x.encode('utf-8', 'surrogateescape').hex()
    if isinstance(x, bytes): return 'x' + x.hex()
    if isinstance(x, (list, tuple)): return ' '.join(enc(y) for y in x)
    raise TypeError(type(x))

class Executor:
    """One C command server; restarted after a crash, a hang, or many calls."""
    def __init__(self, path, scratch, env=ENV):
        self.path, self.scratch, self.env = path, scratch, env
        self.p = None; self.ncalls = 0
        self.errf = os.path.join(scratch, 'stderr.%d.%x' % (os.getpid(), id(self)))
    def _start(self):
        self.err = open(self.errf, 'wb')
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  cwd=self.scratch, env=self.env)
        self.buf = b''; self.ncalls = 0
    def close(self):
        if self.p:
            try: self.p.kill()
            except Exception: pass
            self.p.wait()
            for f in (self.p.stdin, self.p.stdout, self.err):
                try: f.close()
                except Exception: pass
            self.p = None
    def call(self, cmd, *args, timeout=30.0):
        if self.p is None or self.ncalls > 3000 or self.p.poll() is not None:
            self.close(); self._start()
        self.ncalls += 1
        line = (cmd + ' ' + ' '.join(enc(a) for a in args) + '\n').encode()
        try:
            self.p.stdin.write(line); self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b'\n' not in self.buf:
            left = end - time.time()
            r, _, _ = select.select([fd], [], [], max(0.0, left))
            if not r:
                self.close()
                raise Violation('HANG: %s did not finish within %gs' % (cmd, timeout))
            chunk = os.read(fd, 1 << 16)
            if not chunk:
                self.p.wait(); rc = self.p.returncode
                self.close()
                if rc == 77: raise Absent(cmd)
                raise Violation('CRASH in %s: %s' % (cmd, self._crash_text(rc)))
            self.buf += chunk
        out, _, self.buf = self.buf.partition(b'\n')
        if out.startswith(b'!'):
            raise RuntimeError('executor protocol error: ' + out.decode())
        self.raw = out
        return json.loads(out.decode('utf-8', 'surrogateescape'))
    def _crash_text(self, rc):
        try:
            t = open(self.errf, 'rb').read()[-20000:].decode(errors='replace')
        except OSError:
            t = ''
        keep = [l for l in t.splitlines() if 'ERROR: AddressSanitizer' in l or 'MemorySanitizer:' in l or 'runtime error' in l
                or l.strip().startswith('#') and '/repo/' in l]
        return 'rc=%s %s' % (rc, ' | '.join(x.strip()[:160] for x in keep[:6]) or t[-300:])

# ------------------------------------------------------------------ facets and contexts
class Facet:
    def __init__(self, name, strategy, run, quick=400, thorough=8000, rule='', exes=(), progs=(),
                 shards=8, shrink_s=60):
        self.name, self.strategy, self.run = name, strategy, run
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.exes = tuple(e if isinstance(e, tuple) else (e, 'asan') for e in exes)
        self.progs = tuple(e if isinstance(e, tuple) else (e, 'opt') for e in progs)
        self.shards, self.shrink_s = shards, shrink_s

class Ctx:
    """What a facet's run() sees: executors, programs, a scratch directory, labels."""
    def __init__(self, paths, scratch):
        self.paths, self.scratch = paths, scratch
        self.exs = {}; self.labels = {}; self._nontrivial = False; self._excluded = None
        self.cur = []
    def ex(self, name, flavour='asan'):
        k = ('exec', name, flavour)
        if k not in self.exs:
            self.exs[k] = Executor(self.paths[k], self.scratch)
        return self.exs[k]
    def prog(self, name, flavour='opt'):
        return self.paths[('prog', name, flavour)]
    def run_prog(self, name, args, files=None, flavour='opt', timeout=120, stdin=b'', again=True):
        """Runs a program in a fresh sub-directory; returns (rc, stdout, stderr, {file: bytes})."""
        d = tempfile.mkdtemp(prefix='prog', dir=self.scratch)
        try:
            for fn, data in (files or {}).items():
                with open(os.path.join(d, fn), 'wb') as f:
                    f.write(data if isinstance(data, bytes) else data.encode())
            try:
                p = subprocess.run([self.prog(name, flavour)] + [str(a) for a in args], cwd=d, input=stdin,
                                   stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
            except subprocess.TimeoutExpired:
                raise Violation('HANG: %s %s did not finish within %gs' % (name, args, timeout))
            outs = {}
            for fn in os.listdir(d):
                outs[fn] = open(os.path.join(d, fn), 'rb').read()
            for fn, data in (files or {}).items():
                if outs.get(fn) != (data if isinstance(data, bytes) else data.encode()):
                    raise Violation('%s %s changed its input file %s to %r' % (name, args, fn, outs.get(fn) and outs[fn][:300]))
            new = sorted(set(outs) - set(files or {}))
            if again and new and p.returncode == 0 and zlib.crc32(repr((name, args, files)).encode()) % 6 == 0:
                # once more, over the files of the first run: nothing of what they held may survive
                for fn in new:
                    with open(os.path.join(d, fn), 'ab') as f: f.write(b'stale line of an earlier run\n' * 3)
                try:
                    q = subprocess.run([self.prog(name, flavour)] + [str(a) for a in args], cwd=d, input=stdin,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=ENV)
                except subprocess.TimeoutExpired:
                    raise Violation('HANG: %s %s did not finish within %gs' % (name, args, timeout))
                self.label('run twice')
                if q.returncode != p.returncode: raise Violation('%s %s exits with %d when it is run again in the same directory' % (name, args, q.returncode))
                for fn in new:
                    t = open(os.path.join(d, fn), 'rb').read() if os.path.exists(os.path.join(d, fn)) else None
                    if t != outs[fn]: raise Violation('%s %s: file %s of an earlier run is not replaced: %r' % (name, args, fn, t and t[-300:]))
            return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace'), outs
        finally:
            shutil.rmtree(d, ignore_errors=True)
    def label(self, *names):
        self.cur.extend(names)
    def nontrivial(self, yes=True):
        if yes: self._nontrivial = True
    def begin(self):
        self._nontrivial = False; self.cur = []
    def close(self):
        for e in self.exs.values(): e.close()
        self.exs = {}

def fail(msg): raise Violation(msg)
def check(cond, msg, *a):
    if not cond: raise Violation(msg % a if a else msg)
def close(a, b, tol=1e-9):
    if a is None or b is None: return a is b
    if isinstance(a, float) and math.isnan(a) or isinstance(b, float) and math.isnan(b):
        return isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b)
    if a == b: return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))
def eq(what, got, want, tol=None):
    if tol is None:
        if got != want: raise Violation('%s: got %r, expected %r' % (what, got, want))
    elif not close(float(got), float(want), tol):
        raise Violation('%s: got %r, expected %r' % (what, got, want))

# ------------------------------------------------------------------ one shard of one facet
def _case_key(case):
    return hashlib.md5(json.dumps(case, sort_keys=True, default=str).encode()).hexdigest()

def run_shard(args):
    modname, fname, shard, count, seed, paths, deadline = args
    import importlib
    mod = importlib.import_module('pbt.checks.' + modname)
    f = [x for x in mod.FACETS if x.name == fname][0]
    scratch = tempfile.mkdtemp(prefix='rgpbt_', dir=_scratch_root())
    ctx = getattr(mod, 'CTX', Ctx)(paths, scratch)
    known = getattr(mod, 'KNOWN', [])
    rec = dict(facet=fname, shard=shard, evals=0, nontriv=set(), labels={}, samples=[], fail=None, error=None,
               skipped=0, excluded={})
    t_first = [None]
    hist = []
    def one(case):
        now = time.time()
        if now > deadline or (t_first[0] and now - t_first[0] > f.shrink_s):
            rec['skipped'] += 1
            return
        for kn in known:
            if kn['facet'] == fname and kn['match'](case):
                rec['excluded'][kn['id']] = rec['excluded'].get(kn['id'], 0) + 1
                return
        ctx.begin()
        rec['evals'] += 1
        try:
            f.run(ctx, case)
        except Absent:
            ctx.label('function absent')
        except Violation as e:
            size = len(json.dumps(case, default=str))
            if rec['fail'] is None or size <= rec['fail']['size']:
                rec['fail'] = dict(case=case, msg=str(e), size=size)
            if t_first[0] is None:
                t_first[0] = time.time()
                rec['first'] = dict(case=case, msg=str(e), history=list(hist))
            if str(e).startswith('HANG'): t_first[0] = 1.0     # do not shrink hangs
            raise
        finally:
            if t_first[0] is None: hist.append(case)
            for l in ctx.cur: rec['labels'][l] = rec['labels'].get(l, 0) + 1
        if ctx._nontrivial:
            k = _case_key(case)
            if k not in rec['nontriv']:
                rec['nontriv'].add(k)
                if len(rec['samples']) < 2 and len(json.dumps(case, default=str)) < 1500: rec['samples'].append(case)
    try:
        @hseed(seed)
        @settings(max_examples=max(1, count), deadline=None, database=None, derandomize=False,
                  suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False)
        @given(f.strategy)
        def t(case): one(case)
        import io, contextlib
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            t()
    except BaseException as e:
        if rec['fail'] is None:
            rec['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-4000:]
    finally:
        ctx.close()
        shutil.rmtree(scratch, ignore_errors=True)
    return rec

def _scratch_root():
    for d in ('/dev/shm', '/tmp'):
        if os.access(d, os.W_OK): return d
    return None

def run_case(mod, facet, case, paths, history=()):
    """Runs one case in fresh executors, after the cases of the history. Returns None or the violation message."""
    scratch = tempfile.mkdtemp(prefix='rgpbt_', dir=_scratch_root())
    ctx = getattr(mod, 'CTX', Ctx)(paths, scratch)
    try:
        for h in history:
            ctx.begin()
            try: facet.run(ctx, h)
            except (Violation, Absent): pass
        ctx.begin()
        facet.run(ctx, case)
        return None
    except Violation as e:
        return str(e)
    finally:
        ctx.close()
        shutil.rmtree(scratch, ignore_errors=True)

# ------------------------------------------------------------------ driver
def all_targets(mod):
    ts = set()
    for f in mod.FACETS:
        for n, fl in f.exes: ts.add(('exec', n, fl))
        for n, fl in f.progs: ts.add(('prog', n, fl))
    return ts

def setup():
    import importlib
    ts = set()
    for f in sorted(glob.glob(os.path.join(VERIF, 'pbt/checks/c*.py'))):
        ts |= all_targets(importlib.import_module('pbt.checks.' + os.path.basename(f)[:-3]))
    build(ts)
    print('%d targets built' % len(ts))

def load_known():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return json.load(open(p)).get('findings', [])

def main(modname, argv):
    import importlib
    t0 = time.time()
    mod = importlib.import_module('pbt.checks.' + modname)
    prop = mod.PROPERTY
    replay = None; only = None
    tier = os.environ.get('VERIF_TIER', 'quick')
    scale = float(os.environ.get('VP_SCALE', '1'))
    i = 0
    while i < len(argv):
        if argv[i] == '--tier': tier = argv[i+1]; i += 2
        elif argv[i] == '--replay': replay = argv[i+1]; i += 2
        elif argv[i] == '--facet': only = re.split(',(?! )', argv[i+1]); i += 2
        else: raise SystemExit('unknown argument ' + argv[i])
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    try:
        paths = build(all_targets(mod))
    except BuildError as e:
        print('BUILD ERROR\n' + str(e)); return 3
    facets = {f.name: f for f in mod.FACETS}
    if replay:
        r = json.load(open(replay))
        bad = 0
        for _ in range(3):
            m = run_case(mod, facets[r['facet']], r['case'], paths, r.get('history', ()))
            print('replay:', m)
            bad += m is not None
        if bad == 3:
            print('VIOLATION property=%s replay=%s' % (prop, replay)); return 1
        return 0
    budget = float(os.environ.get('VP_BUDGET', '420' if tier == 'quick' else '780'))
    deadline = t0 + budget
    tasks = []
    for fi, f in enumerate(mod.FACETS):
        if only and f.name not in only and not ('larger' in only and f.name.endswith(', larger')): continue
        n = max(1, int((f.quick if tier == 'quick' else f.thorough) * scale))
        sh = min(f.shards, n)
        for s in range(sh):
            tasks.append((modname, f.name, s, (n + sh - 1) // sh, seed * 1000003 + fi * 1009 + s * 7919 + 17, paths, deadline))
    # interleave facets so that a slow one does not sit alone at the end
    tasks.sort(key=lambda t: t[2])
    recs = []
    stop = False
    with mp.Pool(min(NPROC, max(1, len(tasks))), maxtasksperchild=8) as pool:
        for rec in pool.imap_unordered(run_shard, tasks):
            recs.append(rec)
            if rec['fail'] is not None and tier == 'quick' and not os.environ.get('VP_ALL'):
                # confirm right away; stop early once one violation is certain
                conf = confirm(mod, facets, rec, paths)
                rec['confirmed'] = conf
                if conf:
                    pool.terminate(); break
    violations, errors = [], []
    for rec in recs:
        if rec['error']: errors.append((rec['facet'], rec['error']))
        if rec['fail']:
            ok = rec.get('confirmed')
            if ok is None: ok = confirm(mod, facets, rec, paths)
            if ok: violations.append(rec)
            else: print('note: unconfirmed failure in %s (did not replay): %s' % (rec['facet'], rec['fail']['msg'][:300]))
    # known findings are re-run and reported, never added to here
    kf_lines = []
    for k in load_known():
        if k['property'] != prop: continue
        if k['facet'] in facets and run_case(mod, facets[k['facet']], k['case'], paths) is not None:
            kf_lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    wall = time.time() - t0
    per = {}
    labels = {}
    samples = []
    nontriv = 0; evals = 0; excl = {}
    for f in mod.FACETS:
        rs = [r for r in recs if r['facet'] == f.name]
        if not rs: continue
        keys = set().union(*[r['nontriv'] for r in rs])
        lab = {}
        for r in rs:
            for k, v in r['labels'].items(): lab[k] = lab.get(k, 0) + v
            for k, v in r['excluded'].items(): excl[k] = excl.get(k, 0) + v
        e = sum(r['evals'] for r in rs)
        per[f.name] = dict(evaluations=e, distinct_nontrivial=len(keys), skipped_after_budget=sum(r['skipped'] for r in rs),
                           labels=dict(sorted(lab.items(), key=lambda kv: -kv[1])[:25]))
        evals += e; nontriv += len(keys)
        for r in rs:
            for s in r['samples'][:1]:
                if len([x for x in samples if x['facet'] == f.name]) < 2: samples.append(dict(facet=f.name, case=s))
    ev = dict(property=prop, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nontriv,
                            rule='; '.join('%s: %s' % (f.name, f.rule or 'see DESIGN.md') for f in mod.FACETS),
                            samples=samples, facets=per, excluded_known=excl),
              assumptions=getattr(mod, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    tmp = os.path.join(VERIF, 'evidence', prop + '.json.tmp%d' % os.getpid())
    json.dump(ev, open(tmp, 'w'), indent=1, default=str)
    os.replace(tmp, os.path.join(VERIF, 'evidence', prop + '.json'))
    for l in kf_lines: print(l)
    for n, p in per.items(): print('%s %s: %d cases, %d distinct non-trivial, labels %s' % (prop, n, p['evaluations'], p['distinct_nontrivial'], dict(list(p['labels'].items())[:8])))
    print('%s: %d cases in %.1fs' % (prop, evals, wall))
    rc = 0
    if violations:
        best = {}
        for v in violations:
            if v['facet'] not in best or v['fail']['size'] < best[v['facet']]['fail']['size']: best[v['facet']] = v
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        for fn, v in best.items():
            rp = os.path.join(VERIF, 'replays', '%s_%s.json' % (prop, ''.join(c if c.isalnum() or c in '-.' else '_' for c in fn)))
            json.dump(dict(property=prop, facet=fn, message=v['fail']['msg'], case=v['fail']['case'], **({'history': v['fail']['history']} if v['fail'].get('history') else {})), open(rp, 'w'), indent=1, default=str)
            print('  %s: %s' % (fn, v['fail']['msg'][:1500]))
            print('  case: %s' % json.dumps(v['fail']['case'], default=str)[:1500])
            print('VIOLATION property=%s replay=%s' % (prop, rp))
        rc = 1
    elif errors:
        for fn, e in list(dict(errors).items())[:3]: print('ERROR in facet %s:\n%s' % (fn, e[-2500:]))
        rc = 2
    sys.stdout.flush()
    return rc

def confirm(mod, facets, rec, paths):
    """A failure counts if it fails three times in fresh executors: alone, or (state that earlier calls left behind) after
    the cases that came before it, of which as few as possible are kept."""
    f = facets[rec['facet']]
    def fails(case, history=(), n=3):
        for _ in range(n):
            m = run_case(mod, f, case, paths, history)
            if m is None: return None
        return m
    if fails(rec['fail']['case']): return True
    first = rec['first']; h = first['history']; end = time.time() + 240
    if rec['fail']['msg'].startswith('HANG') or first['msg'].startswith('HANG'): return False
    k = 1; got = None
    while got is None and time.time() < end:
        if fails(first['case'], h[-k:], 1): got = h[-k:]
        elif k >= len(h): return False
        k *= 4
    if got is None: return False
    step = len(got) // 2
    while step and time.time() < end:
        i = 0
        while i < len(got) and time.time() < end:
            t = got[:i] + got[i + step:]
            if fails(first['case'], t, 1): got = t
            else: i += step
        step //= 2
    msg = fails(first['case'], got)
    if not msg: return False
    rec['fail'] = dict(case=first['case'], msg='after %d other cases (see history in the replay file): %s' % (len(got), msg), history=got,
                       size=10 ** 6 + len(json.dumps(got, default=str)))
    return True
