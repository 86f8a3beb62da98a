"""Builds the explorer, the library (from /repo's working tree) and a harness,
runs the sharded exploration, confirms and records violations, writes evidence."""
import os, sys, json, hashlib, subprocess, shutil, time, struct, re, fcntl, signal, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
SIM = os.path.join(VERIF, 'sim')
HARN = os.path.join(VERIF, 'harness')
EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
NW = int(os.environ.get('VERIF_WORKERS', '8'))
CC = 'clang'
COMMON = '-O1 -g -fPIC -w -std=gnu11 -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -ffp-contract=off -fno-builtin-printf'.split()
NAMEDEF = '-DGSLIB_UNDERSCORE -DGSLIB_PREFIX=gslib_ -DGSLIB_FPREFIX=fgslib_'.split()
BASEDEF = NAMEDEF + ['-DGSLIB_USE_GLOBAL_LONG_LONG']
REALDEF = ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC', '-DGSLIB_USE_NAIVE_BLAS']
VARIANT = {
    'nbc':     BASEDEF + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC', '-DGSLIB_USE_NAIVE_BLAS'],
    'default': BASEDEF + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NAIVE_BLAS'],
    'cblas':   BASEDEF + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC', '-DGSLIB_USE_CBLAS'],
    'mxm':     BASEDEF + ['-DGSLIB_USE_MPI', '-DGSLIB_USE_NBC'],
    # the other choices of integer types types.h documents
    'i32':     NAMEDEF + REALDEF,
    'glong':   NAMEDEF + REALDEF + ['-DGSLIB_USE_GLOBAL_LONG'],
    'wide':    NAMEDEF + REALDEF + ['-DGSLIB_USE_LONG', '-DGSLIB_USE_GLOBAL_LONG'],
    'widell':  NAMEDEF + REALDEF + ['-DGSLIB_USE_LONG_LONG', '-DGSLIB_USE_GLOBAL_LONG_LONG'],
    'nompi':   BASEDEF + ['-DGSLIB_USE_NAIVE_BLAS'],
    'usrexit': BASEDEF + REALDEF + ['-DGSLIB_USE_USR_EXIT'],
    # copies to be linked beside 'nbc' in one program: other prefixes, Fortran naming, integer types and message layer
    'jl':      ['-DGSLIB_PREFIX=jl_', '-DGSLIB_FPREFIX=jlf_'] + REALDEF + ['-DGSLIB_USE_LONG', '-DGSLIB_USE_GLOBAL_LONG'],
    'bare':    ['-DGSLIB_UPCASE', '-DGSLIB_USE_GLOBAL_LONG_LONG', '-DGSLIB_USE_MPI', '-DGSLIB_USE_NAIVE_BLAS'],
    'uc1':     ['-DGSLIB_UPCASE', '-DGSLIB_PREFIX=ab_', '-DGSLIB_FPREFIX=ABF_', '-DGSLIB_USE_GLOBAL_LONG_LONG'] + REALDEF,
    'uc2':     ['-DGSLIB_UPCASE', '-DGSLIB_PREFIX=cd_', '-DGSLIB_FPREFIX=CDF_', '-DGSLIB_USE_GLOBAL_LONG'] + REALDEF,
    'lc':      ['-DGSLIB_FPREFIX=ef_'] + REALDEF,
}
def fortran_names(variant):
    """the harnesses call Fortran entry points as fgslib_NAME_: how this variant spells them"""
    v = VARIANT[variant]
    pre = ''.join(x.partition('=')[2] for x in v if x.startswith('-DGSLIB_FPREFIX='))
    names = re.findall(r'void fgslib_(\w+)_\(', open(os.path.join(HARN, 'fort.h')).read())
    return [f'-Dfgslib_{n}_={pre}' + (n.upper() if '-DGSLIB_UPCASE' in v else n + '_' * ('-DGSLIB_UNDERSCORE' in v)) for n in names]
WRAP = ['-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=strdup,--wrap=exit,--wrap=_exit,--wrap=abort']
SKIP = {'gen_poly_imp.c'}
POLNAMES = ['EAGER_EARLY', 'RDV_LATE', 'EAGER_LATE', 'RDV_EARLY', 'RDV_LATE_DESC', 'EAGER_EARLY_DESC']


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:16]


def src_files():
    return sorted(f for f in glob.glob(os.path.join(REPO, 'src', '*')) if os.path.isfile(f) and f.endswith(('.c', '.h')) and os.path.basename(f) != 'config.h')


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout.decode(errors='replace')[-4000:])
    return p.stdout.decode(errors='replace')


def prun(cmds):
    ps = []
    def reap(p, c):
        out = p.communicate()[0]
        if p.returncode:
            raise BuildError(' '.join(c) + '\n' + out.decode(errors='replace')[-4000:])
    for c in cmds:
        while len(ps) >= 8:
            reap(*ps.pop(0))
        ps.append((subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), c))
    for p in ps:
        reap(*p)


def lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(f, fcntl.LOCK_EX)
    return f


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + '*')), key=os.path.getmtime, reverse=True)
    for d in ds[keep:]:
        shutil.rmtree(d, ignore_errors=True)


def gen_config(d, defs):
    with open(os.path.join(d, 'config.h'), 'w') as f:
        for x in defs:
            n, _, v = x[2:].partition('=')
            if n in ('GSLIB_USE_NBC', 'GSLIB_USE_USR_EXIT'):
                continue
            f.write(f'#ifndef {n}\n#define {n} {v}\n#endif\n')


def build_lib(variant, san=True, extra=()):
    """objects of the library from /repo's working tree"""
    flags = [f for f in COMMON if san or 'sanitize' not in f] + list(extra)
    fs = src_files()
    key = sha(variant, repr(flags), repr(VARIANT[variant]), open(os.path.join(SIM, 'mpi.h'), 'rb').read(), *[os.path.basename(f).encode() + open(f, 'rb').read() for f in fs])
    d = os.path.join(BUILD, f'lib-{variant}-{key}')
    if not os.path.exists(os.path.join(d, 'done')):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d + '/src')
        for f in fs:
            shutil.copy(f, d + '/src/')
        gen_config(d + '/src', VARIANT[variant])
        cs = [f for f in fs if f.endswith('.c') and os.path.basename(f) not in SKIP]
        prun([[CC] + flags + VARIANT[variant] + (['-I' + SIM] if variant != 'nompi' else []) + ['-I' + d + '/src', '-c', d + '/src/' + os.path.basename(f), '-o', d + '/' + os.path.basename(f)[:-2] + '.o'] for f in cs])
        if variant == 'nompi':
            und = set(re.findall(r'^\s*U (P?MPI_\w+)', run(['nm', '-u'] + sorted(glob.glob(d + '/*.o'))), re.M))
            if und:
                raise BuildError('the library built without MPI refers to ' + ' '.join(sorted(und)))
        open(os.path.join(d, 'done'), 'w').close()
        prune(f'lib-{variant}-', 3)
    os.utime(d)
    return d


def build_driver():
    key = sha(open(SIM + '/mpisim.c', 'rb').read(), open(SIM + '/mpi.h', 'rb').read(), open(SIM + '/sim.h', 'rb').read())
    p = os.path.join(BUILD, f'mpisim-{key}')
    if not os.path.exists(p):
        for q in glob.glob(os.path.join(BUILD, 'mpisim-*')):
            os.unlink(q)
        run([CC, '-O2', '-g', '-w', '-c', '-I' + SIM, SIM + '/mpisim.c', '-o', p + '.o'])
        run([CC, '-fsanitize=address', '-rdynamic', p + '.o', '-o', p + '.tmp', '-ldl', '-lm'])
        os.unlink(p + '.o')
        os.rename(p + '.tmp', p)
    return p


def build_harness(harness, variant, defs, npmax, outdir, link=(), copies=()):
    lib = build_lib(variant)
    obj = os.path.join(outdir, 'h.o')
    run([CC] + COMMON + VARIANT[variant] + list(defs) + ['-I' + SIM, '-I' + HARN, '-I' + lib + '/src', '-c', os.path.join(HARN, harness + '.c'), '-o', obj])
    so = os.path.join(outdir, 'h.0.so')
    objs = [obj]
    for tag, v, src, d in copies: # further copies of the library in the same program
        l = build_lib(v)
        o = os.path.join(outdir, f'copy{tag}.o')
        run([CC] + COMMON + VARIANT[v] + list(d) + [f'-DCOPY={tag}'] + fortran_names(v) + ['-I' + SIM, '-I' + HARN, '-I' + l + '/src', '-c', os.path.join(HARN, src + '.c'), '-o', o])
        objs += [o] + (sorted(glob.glob(l + '/*.o')) if v != variant else [])
    run([CC, '-shared', '-fsanitize=address', '-Wl,-z,now,-z,relro,-Bsymbolic'] + WRAP + objs + sorted(glob.glob(lib + '/*.o')) + ['-o', so] + list(link) + ['-lm'])
    for o in objs:
        if o.startswith(outdir):
            os.unlink(o)
    for i in range(1, npmax):
        shutil.copy(so, os.path.join(outdir, f'h.{i}.so'))


def asan_env(outdir, tag, extra=''):
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = ('detect_leaks=0:detect_odr_violation=0:abort_on_error=0:exitcode=77:quarantine_size_mb=8:'
                         'handle_segv=1:allow_user_segv_handler=0:allocator_may_return_null=1:max_allocation_size_mb=6144:'
                         f'log_path={outdir}/asan.{tag}:' + (extra or 'detect_stack_use_after_return=0'))
    e['OMP_NUM_THREADS'] = e['OPENBLAS_NUM_THREADS'] = '1'
    return e


def asan_summary(outdir, tag):
    for f in sorted(glob.glob(f'{outdir}/asan.{tag}.*')):
        t = open(f, errors='replace').read()
        m = re.search(r'ERROR: (.*)', t)
        fr = re.findall(r'#\d+ 0x[0-9a-f]+ in (\S+) (\S+)', t)
        fr = [f'{a} ({os.path.basename(b)})' for a, b in fr if 'mpisim' not in b and 'compiler-rt' not in b][:4]
        if m:
            return re.sub(r'0x[0-9a-f]+', '0x..', m.group(1))[:200] + ' in ' + ' < '.join(fr), t
    return None, ''


REC_FMT = '=QQiiiiQQQ'


def read_rec(p):
    b = open(p, 'rb').read()
    magic, idx, pol, nch, frank, _, fk, execs, done = struct.unpack_from('=QQiiiiQQQ', b, 0)
    off = struct.calcsize('=QQiiiiQQQ')
    n = min(nch, 4096)
    ch = list(struct.unpack_from(f'={n}I', b, off))
    while ch and ch[-1] == 0:
        ch.pop()
    return dict(case=idx, policy=pol, fault_rank=frank, fault_k=fk, choices=ch, execs=execs, cases=done)


def known_list(pid):
    r = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                r.append((m.group(2), m.group(3).strip()))
    return r


class Explorer:
    def __init__(self, pid, spec, tier, outdir):
        self.pid, self.spec, self.tier, self.outdir = pid, spec, tier, outdir
        os.makedirs(outdir, exist_ok=True)

    def build(self):
        s = self.spec
        self.driver = build_driver()
        build_harness(s['harness'], s.get('variant', 'nbc'), s.get('defs', []), s.get('npmax', 4), self.outdir, s.get('link', []), s.get('copies', []))
        self.ref = None
        if s.get('compare'):
            self.ref = Explorer(self.pid, dict(s, variant=s['compare'], compare=None, dump=True), self.tier, self.outdir + '/ref')
            self.ref.build()

    def base(self):
        b = [self.driver, '--so', self.outdir, '--tier', str(self.spec.get('harness_tier', 1 if self.tier == 'thorough' else 0)), '--known', ',' + ','.join([k for k, _ in known_list(self.pid)] + self.spec.get('tolerate', [])) + ',']
        return b + (['--npmax', str(self.spec['only_np'])] if 'only_np' in self.spec else [])

    def env(self, tag):
        return asan_env(self.outdir, tag, self.spec.get('asan', ''))

    def outcome_of(self, case):
        f = self.outdir + '/one.dump'
        subprocess.run(self.base() + ['--case', str(case), '--dump', f], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=self.env('one'), timeout=300)
        b = open(f, 'rb').read() if os.path.exists(f) else b''
        return struct.unpack('=QQ', b[:16])[1] if len(b) >= 16 else None

    def dumps(self):
        d = {}
        for f in glob.glob(self.outdir + '/dump.*'):
            b = open(f, 'rb').read()
            for k in range(0, len(b) - 15, 16):
                c, o = struct.unpack_from('=QQ', b, k)
                d[c] = o
        return d

    def compare(self, budget, say):
        """the same cases in the reference build: every outcome must be identical"""
        st, known, smp, v, errs = self.ref.explore(budget, say)
        if v:
            return st, None, errs + ['the reference build violates: ' + v['violation'][:300]]
        a, b = self.dumps(), self.ref.dumps()
        for c in sorted(a):
            if c in b and a[c] != b[c]:
                x, y, z = self.outcome_of(c), self.ref.outcome_of(c), self.outcome_of(c)
                if x is not None and y is not None and x != y and x == z:
                    return st, dict(case=c, policy=0, fault_rank=-1, fault_k=0, choices=[], compare=True, describe=self.case_text(c), violation='the results differ from those of the ' + self.spec['compare'] + ' build on one process'), errs
                errs.append(f'case {c}: difference not reproduced')
        st['compared'] = len(set(a) & set(b))
        return st, None, errs

    def replay(self, v, hang=60):
        if v.get('compare'):
            x, y = self.outcome_of(v['case']), self.ref.outcome_of(v['case'])
            return None if x == y else v['violation']
        tag = 'replay'
        for f in glob.glob(f'{self.outdir}/asan.{tag}.*'):
            os.unlink(f)
        cmd = self.base() + ['--hang', str(hang), '--replay', str(v['case']), str(v['policy']), str(v['fault_rank']), str(v['fault_k']), ','.join(map(str, v['choices']))]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=self.env(tag), timeout=300)
        except subprocess.TimeoutExpired:
            return 'execution does not terminate (killed after 300 s)'
        out = p.stdout.decode(errors='replace')
        if p.returncode == 0:
            return None
        if p.returncode == 1:
            for l in out.splitlines():
                if '"violation"' in l:
                    return json.loads(l)['violation']
        if p.returncode == 78:
            return f'execution does not terminate (no progress for {hang} s of processor time)'
        s, _ = asan_summary(self.outdir, tag)
        if s:
            return 'memory error: ' + s
        if p.returncode < 0 or p.returncode == 77:
            return f'crash (status {p.returncode})'
        raise RuntimeError(f'explorer error {p.returncode}: {out[-500:]} {p.stderr.decode(errors="replace")[-500:]}')

    def describe(self, case):
        # a violation record carries the description; for crashes ask the driver
        return ''

    def explore(self, budget, say):
        n = int(subprocess.run(self.base() + ['--count'], stdout=subprocess.PIPE, env=self.env('count'), check=True).stdout)
        nw = min(NW, max(1, n))
        procs = []
        t0 = time.time()
        for w in range(nw):
            rec = f'{self.outdir}/rec.{w}'
            outf = open(f'{self.outdir}/out.{w}', 'w')
            cmd = self.base() + ['--shard', str(w), str(nw), '--rec', rec, '--budget', str(budget)]
            if self.spec.get('compare') or self.spec.get('dump'):
                cmd += ['--dump', f'{self.outdir}/dump.{w}']
            procs.append((subprocess.Popen(cmd, stdout=outf, stderr=subprocess.STDOUT, env=self.env(f'w{w}')), w, rec))
        tot = dict(total_cases=n, cases=0, skipped=0, executions=0, states=0, mpi_calls=0, steps=0, outcomes=0, max_choices=0, sched_points=0, capped=0, states_capped=0, truncated_cases=0)
        known, samples, vio, errors = {}, [], None, []
        live = list(procs)
        while live:
            for t in list(live):
                p, w, rec = t
                if p.poll() is None:
                    continue
                live.remove(t)
                out = open(f'{self.outdir}/out.{w}', errors='replace').read()
                if p.returncode == 0:
                    j = None
                    for l in out.splitlines():
                        if l.startswith('{"summary"'):
                            j = json.loads(l)
                    if j is None:
                        errors.append(f'worker {w}: no summary')
                        continue
                    for k in ('cases', 'skipped', 'executions', 'states', 'mpi_calls', 'steps', 'sched_points', 'truncated_cases', 'outcomes'):
                        tot[k] += j[k]
                    tot['capped'] |= j['capped']; tot['states_capped'] |= j['states_capped']
                    tot['max_choices'] = max(tot['max_choices'], j['max_choices'])
                    for k, (c, m) in j['known'].items():
                        known[k] = [known.get(k, [0, m])[0] + c, m]
                    samples += j['samples']
                    continue
                # violation, crash or hang
                cand = None
                if p.returncode == 1:
                    for l in out.splitlines():
                        if l.startswith('{"violation"'):
                            cand = json.loads(l)
                if cand is None and (p.returncode in (77, 78) or p.returncode < 0):
                    cand = read_rec(rec)
                    if p.returncode == 78:
                        cand['violation'] = 'execution does not terminate'
                    else:
                        s, full = asan_summary(self.outdir, f'w{w}')
                        cand['violation'] = 'memory error: ' + s if s else f'crash (status {p.returncode})'
                        cand['asan'] = full[:6000]
                if cand is None:
                    errors.append(f'worker {w}: status {p.returncode}: {out[-400:]}')
                    continue
                m1 = self.replay(cand)
                m2 = self.replay(cand) if m1 else None
                if m1 and m2:
                    cand['violation'] = m1
                    if not cand.get('describe'):
                        cand['describe'] = self.case_text(cand['case'])
                    vio = vio or cand
                else:
                    errors.append(f'worker {w}: not reproduced on replay: {json.dumps(cand)[:600]}')
                if vio:
                    for q, _, _ in live:
                        q.kill()
                    for q, _, _ in live:
                        q.wait()
                    live = []
                    break
            time.sleep(0.02)
        tot['total_cases'] -= tot['skipped']
        tot['wall_s'] = round(time.time() - t0, 2)
        return tot, known, samples, vio, errors

    def case_text(self, case):
        try:
            p = subprocess.run(self.base() + ['--describe', str(case)], stdout=subprocess.PIPE, env=self.env('d'), timeout=60)
            return p.stdout.decode(errors='replace').strip()
        except Exception:
            return ''
