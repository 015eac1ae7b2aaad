#!/usr/bin/env python3-vt
"""Mutation campaign over /repo's sources (not a registered check; how its results were used: DESIGN.md).

  mutate.py cov OUT               line coverage of every facet -> OUT/cov.json (facet -> file -> lines), OUT/time.json
  mutate.py gaps OUT              lines of functions no facet executes
  mutate.py run OUT [n] [seed] [file...]   n random mutants of covered lines; results appended to OUT/results.jsonl

Mutants live in copies under OUT (one per worker); /repo is only read."""
import sys, os, json, time, glob, random, re, shutil, subprocess, importlib, hashlib, signal
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
SRC = os.environ.get('VP_REPO', '/repo')
SKIP = set(os.environ.get('MUT_SKIP', 'c40').split(','))

def modules():
    return [os.path.basename(p)[:-3] for p in sorted(glob.glob(VERIF + '/pbt/checks/c*.py')) if os.path.basename(p)[:-3] not in SKIP]

def cov(out):
    from pbt import core
    import multiprocessing as mp
    core.FLAVOURS['cov'] = ['-O0', '-g1', '--coverage']
    core.BUILD = out + '/covbuild'
    ts = set()
    mods = {m: importlib.import_module('pbt.checks.' + m) for m in modules()}
    for m in mods.values(): ts |= {(k, n, 'cov') for k, n, _ in core.all_targets(m)}
    built = core.build(ts)
    only = os.environ.get('MUT_ONLY')
    jobs = [(m, f.name) for m in mods for f in mods[m].FACETS if not only or m in only.split(',')]
    random.Random(1).shuffle(jobs)
    covj, tim = {}, {}
    if only and os.path.exists(out + '/cov.json'):
        covj = json.load(open(out + '/cov.json')); tim = json.load(open(out + '/time.json'))
        covj = {k: v for k, v in covj.items() if k.split('/')[0] not in only.split(',')}
    with mp.Pool(8, maxtasksperchild=1) as pool:
        for (m, f), c, t, err in pool.imap_unordered(cov_one, [(j, out, built) for j in jobs], chunksize=1):
            covj['%s/%s' % (m, f)] = c; tim['%s/%s' % (m, f)] = t
            print(m, f, '%.1fs' % t, {k: len(v) for k, v in c.items()} if not err else err, flush=True)
    json.dump(covj, open(out + '/cov.json', 'w')); json.dump(tim, open(out + '/time.json', 'w'))

def cov_one(a):
    (m, fname), out, built = a
    from pbt import core
    d = '%s/gc/%s_%s' % (out, m, re.sub(r'\W', '_', fname))
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    core.ENV['GCOV_PREFIX'] = d
    def close(self):
        if self.p:
            try: self.p.stdin.close(); self.p.wait(20)
            except Exception: self.p.kill(); self.p.wait()
            for f in (self.p.stdout, self.err): f.close()
            self.p = None
    core.Executor.close = close
    mod = importlib.import_module('pbt.checks.' + m)
    f = [x for x in mod.FACETS if x.name == fname][0]
    paths = {}
    for (k, n, fl), p in built.items():
        for g in ('asan', 'opt', 'msan'): paths[(k, n, g)] = p
    t0 = time.time()
    n = max(5, int(f.quick * float(os.environ.get('MUT_COVSCALE', '0.15'))))
    rec = core.run_shard((m, fname, 0, n, 99, paths, time.time() + 300))
    dt = (time.time() - t0) / max(1, rec['evals']) * f.quick
    res = {}
    for g in glob.glob(d + '/**/*.gcda', recursive=True):
        no = g[len(d):-5] + '.gcno'
        try: os.symlink(no, g[:-5] + '.gcno')
        except OSError: pass
        j = subprocess.run(['gcov', '--json-format', '--stdout', g], capture_output=True, text=True, cwd=d).stdout
        for line in j.splitlines():
            for fl in json.loads(line)['files']:
                if fl['file'].startswith(SRC + '/'):
                    s = res.setdefault(fl['file'][len(SRC) + 1:], set())
                    s.update(l['line_number'] for l in fl['lines'] if l['count'] > 0)
    shutil.rmtree(d, ignore_errors=True)
    return (m, fname), {k: sorted(v) for k, v in res.items()}, dt, (rec['error'] or rec['fail'] and str(rec['fail'])[:300])

def gaps(out):
    covj = json.load(open(out + '/cov.json'))
    seen = {}
    for c in covj.values():
        for f, ls in c.items(): seen.setdefault(f, set()).update(ls)
    for f in sorted(seen):
        g = sorted(glob.glob(out + '/covbuild/*/cov/**/%s.o.tmp.gcno' % os.path.basename(f)[:-2], recursive=True) +
                   glob.glob(out + '/covbuild/*/cov/**/prog_%s.o.tmp.gcno' % os.path.basename(f)[5:-2], recursive=True))
        if not g: print('no notes for', f); continue
        j = subprocess.run(['gcov', '--json-format', '--stdout', g[-1]], capture_output=True, text=True, cwd=out).stdout
        fn = {}
        for line in j.splitlines():
            for fl in json.loads(line)['files']:
                if fl['file'].endswith(f):
                    for l in fl['lines']: fn.setdefault(l.get('function_name', '?'), set()).add(l['line_number'])
        for name, ls in sorted(fn.items(), key=lambda kv: min(kv[1])):
            miss = sorted(ls - seen[f])
            if miss: print('%s:%s %d of %d lines not executed%s' % (f, name, len(miss), len(ls), '' if len(miss) == len(ls) else ': ' + ' '.join(map(str, miss))))

# ---------------------------------------------------------------- mutants
SWAP = [(r'(?<![<>=!+\-*/&|])<=(?!=)', ['<']), (r'(?<![<>=!\-])>=', ['>']), (r'(?<![<])<(?![<=])', ['<=']), (r'(?<![>\-])>(?![>=])', ['>=']),
        (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']), (r'\+=', ['-=']), (r'-=', ['+=']),
        (r'(?<=[\w)\] ])\+(?=[\w( ])(?!\+)', ['-']), (r'(?<=[\w)\] ])(?<!-)-(?=[\w( ])(?![->])', ['+']), (r'(?<=[\w)\]] )\*(?= [\w(])', ['/']), (r' / ', [' * ']),
        (r'\+\+', ['--']), (r'(?<![\w.])0(?![\w.])', ['1']), (r'(?<![\w.])1(?![\w.])', ['0', '2']), (r'(?<![\w.])2(?![\w.])', ['1']),
        (r'(?<![\w])0\.0?(?![\w])', ['1.0']), (r'(?<![\w.])1\.0?(?![\w])', ['0.0']), (r'(?<![\w.])0\.5(?!\d)', ['0.25']), (r'(?<![\w.])2\.0?(?!\d)', ['1.0'])]

def mutants_of_line(line):
    code = re.sub(r'//.*|/\*.*?\*/', lambda m: ' ' * len(m.group()), line)
    code = re.sub(r'"(\\.|[^"\\])*"', lambda m: '"' + '\0' * (len(m.group()) - 2) + '"', code)
    res = []
    for pat, subs in SWAP:
        for m in re.finditer(pat, code):
            for s in subs: res.append(line[:m.start()] + s + line[m.end():])
    s = code.strip()
    if re.match(r'^[^;{}]*;$', s) and not re.match(r'^(int|double|float|char|struct|long|unsigned|FILE|gsl_|static|const|for|if|else|while|return|do|\}|goto|case|[A-Z]\w* \*?\w+( =|;|,))', s):
        res.append(re.match(r'\s*', line).group() + ';\n')
    m = re.match(r'^(\s*(?:\}\s*)?(?:else )?if ?)\((.*)\)(\s*\{?\s*)$', code.rstrip('\n'))
    if m:
        a = m.start(2); b = m.end(2)
        if code[a:b].count('(') == code[a:b].count(')'):
            res += [line[:a] + '0' + line[b:], line[:a] + '1' + line[b:]]
    return [r for r in dict.fromkeys(res) if r != line]

def worker(wid, out, q, resq, mode):
    os.setpgid(0, 0)
    repo = '%s/w%d/repo' % (out, wid)
    shutil.rmtree('%s/w%d' % (out, wid), ignore_errors=True); os.makedirs(repo)
    for pat in ('src/*.[ch]', 'lib/search*', '*.h', '*/main_*.c'):
        for p in glob.glob(SRC + '/' + pat):
            d = repo + p[len(SRC):]; os.makedirs(os.path.dirname(d), exist_ok=True); shutil.copy2(p, d)
    os.environ['VP_REPO'] = repo; os.environ['VP_BUILD'] = '%s/w%d/build' % (out, wid); os.environ['VP_NPROC'] = '1'
    from pbt import core
    core.REPO = repo; core.BUILD = os.environ['VP_BUILD']; core.NPROC = 1
    core.COMMON[:] = [x.replace(SRC, repo) for x in core.COMMON]
    for k in core.PROGRAMS: core.PROGRAMS[k] = core.PROGRAMS[k].replace(SRC, repo)
    base = json.load(open(out + '/base.json'))
    while True:
        job = q.get()
        if job is None: break
        f, ln, new, facets = job
        p = repo + '/' + f
        lines = open(SRC + '/' + f, encoding='latin-1').read().split('\n')
        old = lines[ln - 1]; lines[ln - 1] = new.rstrip('\n')
        open(p, 'w', encoding='latin-1').write('\n'.join(lines))
        t0 = time.time()
        try: r = one_mutant(core, base, repo, f, facets)
        except Exception as e: r = dict(status='error', why=repr(e)[:500])
        shutil.copy2(SRC + '/' + f, p)
        r.update(file=f, line=ln, old=old.strip(), new=new.strip(), t=round(time.time() - t0, 1))
        resq.put(r)

def one_mutant(core, base, repo, f, facets):
    key = core._tree_key(); root = os.path.join(core.BUILD, key)
    for d in glob.glob(core.BUILD + '/*'): shutil.rmtree(d, ignore_errors=True)
    isprog = '/main_' in f
    stem = ('prog_' + os.path.basename(f)[5:-2]) if isprog else os.path.basename(f)[:-2]
    same = True
    mods = {}
    # compile the mutated file at -O2: rejected, or the same code as before?
    o = '%s/../mut.o' % repo
    fl = core.COMMON + (['-I' + VERIF + '/pbt/c', '-include', VERIF + '/pbt/c/implicit.h'] if isprog else [])
    c = subprocess.run(['gcc', '-c', '-O2', '-g0'] + fl + [repo + '/' + f, '-o', o], capture_output=True)
    if c.returncode: return dict(status='does not compile')
    b = '%s/../base.o' % repo
    sv = open(repo + '/' + f, 'rb').read(); shutil.copy2(SRC + '/' + f, repo + '/' + f)
    subprocess.run(['gcc', '-c', '-O2', '-g0'] + fl + [repo + '/' + f, '-o', b], capture_output=True)
    open(repo + '/' + f, 'wb').write(sv)
    if open(o, 'rb').read() == open(b, 'rb').read(): return dict(status='same code')
    broot = base['root']
    for flv in ('asan', 'opt', 'msan'):
        if not os.path.isdir(broot + '/' + flv): continue
        os.makedirs(root + '/' + flv)
        for p in glob.glob(broot + '/' + flv + '/*.o'):
            n = os.path.basename(p)
            if n == stem + '.o': continue
            os.link(p, root + '/' + flv + '/' + n) if os.stat(p).st_dev == os.stat(root).st_dev else shutil.copy2(p, root + '/' + flv + '/' + n)
        for p in glob.glob(broot + '/' + flv + '/*'):
            n = os.path.basename(p)
            if not n.endswith('.o') and isprog and n != stem and not n.endswith('.tmp'):
                os.link(p, root + '/' + flv + '/' + n)
    import multiprocessing as mp
    spent = 0.0; ran = 0
    budget = float(os.environ.get('MUT_BUDGET', '150'))
    paths = {}
    for fac, est in facets:
        if spent > budget: break
        m, name = fac.split('/', 1)
        mod = importlib.import_module('pbt.checks.' + m)
        fo = [x for x in mod.FACETS if x.name == name][0]
        ts = {('exec', n, fl) for n, fl in fo.exes} | {('prog', n, fl) for n, fl in fo.progs}
        if any(t not in paths for t in ts):
            try: paths.update(core.build(ts))
            except core.BuildError as e: return dict(status='does not compile', why=str(e)[-300:])
        t1 = time.time()
        sys.stdout.flush()
        fo.shrink_s = 0.0
        rec = core.run_shard((m, name, 0, max(8, int(fo.quick)), 1000 + 7 * len(name), paths, time.time() + 100))
        spent += time.time() - t1; ran += 1
        if rec['fail']: return dict(status='killed', by=fac, why=rec['fail']['msg'][:150], ran=ran)
        if rec['error']: return dict(status='killed', by=fac, why='ERROR ' + rec['error'][-150:], ran=ran, err=1)
    return dict(status='survived', ran=ran, of=len(facets))

def run(out, n, seed, files):
    import multiprocessing as mp
    from pbt import core
    covj = json.load(open(out + '/cov.json')); tim = json.load(open(out + '/time.json'))
    core.BUILD = out + '/basebuild'
    ts = set()
    for m in modules(): ts |= core.all_targets(importlib.import_module('pbt.checks.' + m))
    core.build(ts)
    json.dump(dict(root=os.path.join(core.BUILD, core._tree_key())), open(out + '/base.json', 'w'))
    by = {}
    size = {fac: sum(len(v) for v in c.values()) for fac, c in covj.items()}
    for fac, c in covj.items():
        for f, ls in c.items():
            for l in ls: by.setdefault((f, l), []).append(fac)
    allm = []
    for (f, l), facs in by.items():
        if files and not any(x in f for x in files): continue
        if f.endswith('.h'): continue
        line = open(SRC + '/' + f, encoding='latin-1').read().split('\n')[l - 1]
        for new in mutants_of_line(line): allm.append((f, l, new, facs))
    done = set()
    if os.path.exists(out + '/results.jsonl'):
        for r in map(json.loads, open(out + '/results.jsonl')): done.add((r['file'], r['line'], r['new']))
    allm = [m for m in allm if (m[0], m[1], m[2].strip()) not in done]
    allm.sort(key=lambda m: (m[0], m[1], m[2]))
    random.Random(seed).shuffle(allm)
    print(len(allm), 'mutants available', flush=True)
    q = mp.Queue(); resq = mp.Queue()
    chosen = allm[:n]
    for f, l, new, facs in chosen:
        q.put((f, l, new, sorted(((x, tim[x]) for x in facs), key=lambda x: (max(1.0, x[1]) * size[x[0]]))))
    W = int(os.environ.get('MUT_WORKERS', '8'))
    for _ in range(W): q.put(None)
    ws = [mp.Process(target=worker, args=(i, out, q, resq, None)) for i in range(W)]
    for w in ws: w.start()
    k = 0; cnt = {}
    with open(out + '/results.jsonl', 'a') as fo:
        while k < len(chosen):
            try: r = resq.get(timeout=1200)
            except Exception: print('timeout'); break
            k += 1; cnt[r['status']] = cnt.get(r['status'], 0) + 1
            fo.write(json.dumps(r) + '\n'); fo.flush()
            if r['status'] in ('survived', 'error'): print(r, flush=True)
            if k % 50 == 0: print(k, cnt, flush=True)
    print(cnt)

if __name__ == '__main__':
    out = os.path.abspath(sys.argv[2]); os.makedirs(out, exist_ok=True)
    if sys.argv[1] == 'cov': cov(out)
    elif sys.argv[1] == 'gaps': gaps(out)
    else: run(out, int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 1, sys.argv[5:])
