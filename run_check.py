#!/usr/bin/env python3
"""Builds the monitor of one property from /repo's working tree, runs it and
gives the verdict.   usage: run_check.py <property id> [quick|thorough]

exit 0  held on everything explored (KNOWN-FINDING lines may be printed)
exit 1  VIOLATION property=<id> replay=<path>
exit 2  no verdict (build or harness failure, nothing observed)
"""
import concurrent.futures, glob, hashlib, json, os, re, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
HARN = os.path.join(VERIF, 'harness')
CXX, CC = 'clang++', 'clang'
GCC = False  # set when clang refuses sources that the project's own compiler accepts
JOBS = os.cpu_count() or 8

# per property: build kind, extra parts, harness source
CFG = {
    'C22': dict(kind='tsan'),
    'C21': dict(lua=True),
    'C24': dict(kind='ruby'),
    'C25': dict(mex=True),
}

INC = ['-I' + REPO + '/include', '-I' + REPO + '/src_yaml_interface', '-I' + REPO + '/src_json_interface',
       '-I' + REPO + '/src_toml_interface']


def flags(kind, tier):
    opt = '-O1' if tier == 'thorough' else '-O0'
    if GCC:  # address or thread checks only: gcc has no ignore list for the third-party parsers
        f = ['-std=c++17', '-O1', '-g1', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w']
        return f + (['-fsanitize=thread'] if kind == 'tsan' else ['-fsanitize=address', '-D_GLIBCXX_SANITIZE_VECTOR=1', '-ftrivial-auto-var-init=pattern']) + (['-fPIC'] if kind == 'ruby' else [])
    f = ['-std=c++17', opt, '-gline-tables-only', '-fno-omit-frame-pointer', '-D_GLIBCXX_ASSERTIONS', '-w', '-Wno-c++11-narrowing']
    if kind in ('asan', 'ruby'):
        f += ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all',
              '-D_GLIBCXX_SANITIZE_VECTOR=1', '-ftrivial-auto-var-init=pattern',
              '-fsanitize-ignorelist=' + HARN + '/ignorelist.txt']
    if kind == 'ruby':
        f += ['-fPIC']
    if kind == 'tsan':
        f[1] = '-O1'
        f += ['-fsanitize=thread']
    return f


def sources(kind, cfg):
    src = sorted(glob.glob(REPO + '/src/*.cc'))
    for d in ('src_yaml_interface', 'src_json_interface', 'src_toml_interface'):
        src += sorted(glob.glob('%s/%s/*.cc' % (REPO, d)))
    lua = []
    if cfg.get('lua'):
        src += sorted(glob.glob(REPO + '/src_lua_interface/*.cc'))
        lua = [f for f in sorted(glob.glob(REPO + '/src_lua_interface/lua-*/src/*.c')) if os.path.basename(f) not in ('lua.c', 'luac.c')]
    return src, lua


def die(msg):
    print('NO-VERDICT: ' + msg, flush=True)
    sys.exit(2)


def compile_one(args):
    src, fl, bdir = args
    comp = CC if src.endswith('.c') else CXX
    key = None
    pre = subprocess.run([comp, '-E', '-P'] + fl + [src], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pre.returncode != 0:
        return src, None, pre.stderr.decode(errors='replace')
    h = hashlib.sha256((comp + ' '.join(fl) + os.path.basename(src)).encode() + pre.stdout)
    # line tables: keep the file itself in the key
    h.update(open(src, 'rb').read())
    obj = os.path.join(bdir, h.hexdigest()[:32] + '.o')
    if os.path.exists(obj):
        return src, obj, ''
    tmp = obj + '.%d.tmp' % os.getpid()
    r = subprocess.run([comp] + fl + ['-c', src, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        return src, None, r.stdout.decode(errors='replace')
    os.replace(tmp, obj)
    return src, obj, ''


def build_gcc(pid, tier):
    global GCC, CXX, CC
    GCC, CXX, CC = True, 'g++', 'gcc'
    return build(pid, tier)


def build(pid, tier):
    cfg = CFG.get(pid, {})
    kind = cfg.get('kind', 'asan')
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    base = flags(kind, tier)
    src, lua = sources(kind, cfg)
    cov = ['-fsanitize-coverage=inline-8bit-counters'] if kind == 'asan' and not GCC else []
    work = [(s, base + cov + INC + (['-I' + os.path.dirname(lua[0])] if lua else []), bdir) for s in src]
    lf = [x for x in base if not x.startswith('-std') and x != '-Wno-c++11-narrowing'] + ['-DLUA_USE_LINUX', '-DLUA_COMPAT_5_3']
    if lua:
        # Lua itself is third-party C: address checks only
        lf = [x for x in lf if not x.startswith('-fsanitize=')] + ['-fsanitize=address', '-O2']
    work += [(s, lf, bdir) for s in lua]
    if kind == 'ruby':
        work += [(HARN + '/p_%s_help.cc' % pid, base + INC, bdir)]
    else:
        work += [(HARN + '/h.cc', base + ['-I' + HARN] + INC, bdir),
             (HARN + '/p_%s.cc' % pid, base + ['-I' + HARN] + INC + (['-I' + os.path.dirname(lua[0])] if lua else []), bdir)]
    if cfg.get('mex'):
        # the MATLAB interface over the stand-in runtime of harness/mex
        mi = ['-I' + HARN + '/mex', '-I' + REPO + '/include/GenericContainer']
        for s in sorted(glob.glob(REPO + '/src_matlab_interface/*.cc')):
            nm = os.path.splitext(os.path.basename(s))[0]
            work += [(s, base + cov + mi + INC + ['-DmexFunction=mf_' + nm], bdir)]
        work = [(s, fl + (mi if s.startswith(HARN) else []), b) for s, fl, b in work] + [(HARN + '/mex/mexsim.cc', base + mi, bdir)]
    # big ones first
    work.sort(key=lambda w: -os.path.getsize(w[0]))
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(compile_one, work))
    for s, o, err in objs:
        if o is None:
            if not GCC and s.startswith(REPO) and shutil.which('g++'):
                return build_gcc(pid, tier)
            die('%s does not compile:\n%s' % (s, err[-3000:]))
    key = hashlib.sha256(' '.join(sorted(o for _, o, _ in objs)).encode()).hexdigest()[:24]
    exe = os.path.join(bdir, 'm_%s_%s' % (pid, key))
    if not os.path.exists(exe):
        san = [x for x in base if x.startswith('-fsanitize=')] + (['-shared'] + ([] if GCC else ['-shared-libasan']) if kind == 'ruby' else [])
        tmp = exe + '.%d.tmp' % os.getpid()
        r = subprocess.run([CXX] + san + [o for _, o, _ in objs] + ['-o', tmp, '-lpthread', '-ldl', '-lm'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode != 0:
            die('link failed:\n' + r.stdout.decode(errors='replace')[-3000:])
        os.replace(tmp, exe)
    return exe


def command(pid, exe, E):
    """how the monitor is started; a 'ruby' monitor is a script that loads the library just built"""
    if CFG.get(pid, {}).get('kind') != 'ruby':
        return [exe]
    E['GCLIB'] = exe
    E['GCRB'] = REPO + '/src_ruby_interface/GenericContainer_ffi.rb'
    E['LD_PRELOAD'] = subprocess.run([CXX, '-print-file-name=' + ('libasan.so' if GCC else 'libclang_rt.asan-x86_64.so')], stdout=subprocess.PIPE).stdout.decode().strip()
    # the interpreter itself is not instrumented: no stack-use-after-return, no initialisation-order checks
    E['ASAN_OPTIONS'] = E['ASAN_OPTIONS'].replace('detect_stack_use_after_return=1', 'detect_stack_use_after_return=0') \
        .replace('check_initialization_order=1', 'check_initialization_order=0').replace('strict_init_order=1', 'strict_init_order=0')
    if not shutil.which('ruby'): die('ruby is missing')
    return ['ruby', HARN + '/p_%s.rb' % pid]


def env(tier):
    e = dict(os.environ)
    for k in list(e):
        if k.endswith('SAN_OPTIONS'):
            del e[k]
    e['ASAN_OPTIONS'] = ':'.join(['exitcode=86', 'detect_leaks=0', 'allocator_may_return_null=1', 'max_allocation_size_mb=2048',
                                  'max_malloc_fill_size=65536', 'malloc_fill_byte=190', 'max_free_fill_size=4096', 'free_fill_byte=85',
                                  'handle_abort=1', 'hard_rss_limit_mb=6000', 'quarantine_size_mb=16',
                                  'detect_stack_use_after_return=1' , 'strict_init_order=1', 'check_initialization_order=1',
                                  'intercept_send=0', 'allow_user_segv_handler=0'])
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1:exitcode=86'
    e['TSAN_OPTIONS'] = 'exitcode=66:halt_on_error=1:second_deadlock_stack=1'
    e['LC_ALL'] = 'C'
    for s in ('/usr/bin/llvm-symbolizer-18', '/usr/bin/llvm-symbolizer'):
        if os.path.exists(s):
            e['ASAN_SYMBOLIZER_PATH'] = e['UBSAN_SYMBOLIZER_PATH'] = e['TSAN_SYMBOLIZER_PATH'] = s
            break
    return e


def limits():
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (256 << 20, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except Exception:
        pass
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def unline(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '\\' and i + 1 < len(s):
            c = s[i + 1]
            if c == 'x':
                out.append('\\x' + s[i + 2:i + 4]); i += 4; continue
            out.append({'n': '\n', 't': '\t', 'r': '\\r', '\\': '\\'}.get(c, '\\' + c)); i += 2; continue
        out.append(s[i]); i += 1
    return ''.join(out)


def parse(path):
    d = dict(cases=0, nontrivial=0, counts={}, samples=[], violations=[], rule='', ended=False, cov=(0, 0))
    try:
        for ln in open(path, errors='replace'):
            f = ln.rstrip('\n').split('\t')
            if f[0] in ('cases', 'nontrivial'): d[f[0]] = int(f[1])
            elif f[0] == 'count': d['counts'][f[1]] = d['counts'].get(f[1], 0) + int(f[2])
            elif f[0] == 'cov': d['cov'] = (int(f[1]), int(f[2]))
            elif f[0] == 'sample': d['samples'].append(unline(f[1]))
            elif f[0] == 'violation': d['violations'].append((int(f[1]), unline(f[2]), unline(f[3]), unline(f[4])))
            elif f[0] == 'rule': d['rule'] = unline(f[1])
            elif f[0] == 'end': d['ended'] = True
    except FileNotFoundError:
        pass
    return d


def progress(path):
    try:
        b = open(path, 'rb').read()
        idx, state, ilen, hang = struct.unpack('<4Q', b[:32])
        return idx, state, b[32:32 + min(ilen, 1 << 20)], hang
    except Exception:
        return None, None, b'', 0


def crash_key(text):
    """Stable identification of a sanitizer report: kind + first frame of the code under test."""
    kind = 'crash'
    m = re.search(r'SUMMARY: (\w+Sanitizer): ([\w-]+)', text)
    if m: kind = m.group(2)
    m2 = re.search(r'runtime error: ([^\n]*)', text)
    if m2: kind = 'ub:' + re.sub(r'[-+]?\d[\w.+]*', 'N', m2.group(1))[:60].strip()
    m3 = re.search(r"Assertion '([^']*)' failed", text)
    if m3: kind = 'assert:' + m3.group(1)[:60]
    m4 = re.search(r"terminate called after throwing an instance of '([^']*)'", text)
    if m4: kind = 'terminate:' + m4.group(1)
    fr = re.search(r'#\d+ 0x[0-9a-f]+ in (GC_namespace::[^\s(]+|GC_\w+|[\w:~]*GenericContainer[\w:]*)', text)
    return kind + (' in ' + fr.group(1) if fr else '')


def load_known():
    k = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r'finding: property=(\S+) key=/(.*?)/ (.*)', ln.strip())
            if m:
                k.append((m.group(1), re.compile(m.group(2)), m.group(3)))
    return k


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    t0 = time.time()
    exe = build(pid, tier)
    tb = time.time() - t0
    odir = os.path.join(VERIF, 'out', pid)
    shutil.rmtree(odir, ignore_errors=True)
    os.makedirs(odir)
    E = env(tier)
    E['H_SCRATCH'] = os.path.join(odir, 'scratch')
    os.makedirs(E['H_SCRATCH'])
    known = load_known()
    base = command(pid, exe, E) + ['--seed', str(seed)] + (['--thorough'] if tier == 'thorough' else [])
    if os.environ.get('VERIF_CASES'):
        base += ['--cases', os.environ['VERIF_CASES']]
    shards = JOBS if CFG.get(pid, {}).get('kind') != 'tsan' else 6
    wall = 600 if tier == 'quick' else 6 * 3600

    def run(name, extra, wall_s):
        log = open(os.path.join(odir, name + '.log'), 'wb')
        try:
            r = subprocess.run(base + ['--progress', odir + '/' + name + '.prog', '--result', odir + '/' + name + '.res'] + extra,
                               stdout=log, stderr=log, stdin=subprocess.DEVNULL, env=E, preexec_fn=limits, timeout=wall_s, cwd=odir)
            rc = 77 if r.returncode == -24 else r.returncode   # -24: SIGXCPU, the CPU limit of a Ruby case
        except subprocess.TimeoutExpired:
            rc = 'timeout'
        log.close()
        return rc, open(os.path.join(odir, name + '.log'), errors='replace').read()

    results, problems, notes = [], [], []   # problems: (key, msg, idx, trace, input, log)

    def shard(k):
        start, part = 0, 0
        out = []
        while True:
            name = 's%d_%d' % (k, part)
            rc, log = run(name, ['--shard', str(k), '--shards', str(shards), '--from', str(start)], wall)
            res = parse(odir + '/' + name + '.res')
            if rc in (0, 1) and res['ended']:
                out.append(('res', name, res))
                for idx, key, msg, trace in res['violations']:
                    out.append(('viol', key, msg, idx, trace, b'', ''))
                return out
            if rc == 'timeout':
                out.append(('note', 'shard %d: wall-clock watchdog fired (inconclusive)' % k))
                return out
            if rc == 3:
                out.append(('note', 'shard %d: harness error: %s' % (k, log[-500:])))
                return out
            idx, state, inp, hang = progress(odir + '/' + name + '.prog')
            if idx is None or state is None:
                out.append(('note', 'shard %d died with %r before any case: %s' % (k, rc, log[-800:])))
                return out
            # confirm alone
            again, log2 = run(name + '_c', ['--only', str(idx), '-v', '--cpu', '60'], 900)
            pr = progress(odir + '/' + name + '_c.prog')
            if rc == 77:
                if again == 77:
                    out.append(('viol', 'hang', 'the case does not terminate (60 s of CPU time used)', idx, log2[-6000:], pr[2], ''))
                else:
                    out.append(('note', 'case %d hit the CPU watchdog once, not when repeated (inconclusive)' % idx))
            else:
                src, inp2 = (log2, pr[2]) if again not in (0, 1, 77, 'timeout') else (log, inp)
                report = 'Sanitizer' in src or 'runtime error' in src or 'Assertion' in src or 'terminate called' in src
                if again not in (0, 1, 77, 'timeout') or report:
                    out.append(('viol', crash_key(src), 'crash or sanitizer report (exit %r)' % (rc,), idx, '', inp2, src[-20000:]))
                elif again == 1:
                    for i2, key, msg, trace in parse(odir + '/' + name + '_c.res')['violations']:
                        out.append(('viol', key, msg, i2, trace, b'', ''))
                else:
                    out.append(('note', 'shard %d died with %r at case %d, not reproduced: %s' % (k, rc, idx, log[-800:])))
                    return out
            v = [o for o in out if o[0] == 'viol']
            if any(not is_known(o[1]) for o in v) or part > 200:
                return out
            start, part = (idx // shards + 1) * shards, part + 1

    def is_known(key):
        return next((w for p, rx, w in known if p == pid and rx.search(key)), None)

    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        allout = [o for l in ex.map(shard, range(shards)) for o in l]

    cases = nontriv = 0
    counts, samples, sigs, rule = {}, [], set(), ''
    cov, covn = None, 0
    for o in allout:
        if o[0] == 'res':
            r = o[2]
            cases += r['cases']; nontriv += r['nontrivial']
            for a, b in r['counts'].items(): counts[a] = counts.get(a, 0) + b
            samples += r['samples'][:2]; rule = r['rule'] or rule
            try:
                b = open(odir + '/' + o[1] + '.res.sig', 'rb').read()
                sigs.update(struct.unpack('<%dQ' % (len(b) // 8), b))
                c = open(odir + '/' + o[1] + '.res.cov', 'rb').read()
                if c:
                    covn = len(c)
                    cov = c if cov is None else bytes(x | y for x, y in zip(cov, c))
            except Exception:
                pass
        elif o[0] == 'note':
            notes.append(o[1])
    viol = [o for o in allout if o[0] == 'viol']
    seen_known, new = {}, []
    for o in viol:
        w = is_known(o[1])
        if w: seen_known.setdefault(w, o)
        else: new.append(o)
    for w in seen_known:
        print('KNOWN-FINDING: property=%s %s' % (pid, w))
    rdir = os.path.join(VERIF, 'out', 'replay')
    os.makedirs(rdir, exist_ok=True)
    replay = None
    if new:
        new.sort(key=lambda o: o[3])
        o = new[0]
        replay = os.path.join(rdir, '%s_seed%d_case%d.txt' % (pid, seed, o[3]))
        with open(replay, 'w', errors='replace') as f:
            f.write('property: %s\ntier: %s\nseed: %d\ncase: %d\nkey: %s\nwhat: %s\n' % (pid, tier, seed, o[3], o[1], o[2]))
            f.write('replay: cd %s && VERIF_SEED=%d python3 run_check.py --replay %s %s %d\n' % (VERIF, seed, pid, tier, o[3]))
            if o[5]: f.write('input (hex): %s\ninput (text): %r\n' % (o[5].hex(), o[5][:4000]))
            if o[4]: f.write('--- operations\n%s\n' % o[4])
            if o[6]: f.write('--- report\n%s\n' % o[6])
            for p in new[1:6]:
                f.write('--- also: case %d key %s: %s\n' % (p[3], p[1], p[2][:500]))
    coverage = dict(evaluations=cases, distinct_nontrivial=len(sigs), rule=rule, samples=samples[:6],
                    nontrivial_cases=nontriv, observed=counts, build_s=round(tb, 1))
    if cov is not None:
        coverage['edges_of_code_under_test'] = covn
        coverage['edges_reached'] = sum(1 for x in cov if x)
    if notes: coverage['inconclusive'] = notes
    level = 'fault_enumeration' if pid in ('C23',) else 'exploration'
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=coverage,
              assumptions=['held on the executions observed; nothing is claimed about executions not produced',
                           'clang %s runtimes and the reference model in /verif/harness are trusted' % ('ThreadSanitizer' if CFG.get(pid, {}).get('kind') == 'tsan' else 'AddressSanitizer/UBSan')],
              wall_s=round(time.time() - t0, 2), violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    if new:
        print('%s: %s' % (new[0][1], new[0][2][:1500].replace('\n', '\n    ')))
        print('VIOLATION property=%s replay=%s' % (pid, replay), flush=True)
        sys.exit(1)
    for n in notes: print('note: ' + n)
    if not any(o[0] == 'res' for o in allout) or sum(1 for o in allout if o[0] == 'res') < shards:
        die('%s: some shards gave no result' % pid)
    if cases == 0 or not sigs or not counts:
        die('%s: the monitors observed nothing' % pid)
    print('%s %s: held on %d cases (%d distinct, %d/%d edges), %.1f s (build %.1f s)' % (
        pid, tier, cases, len(sigs), coverage.get('edges_reached', 0), covn, time.time() - t0, tb))
    shutil.rmtree(odir, ignore_errors=True)
    sys.exit(0)


def replay_main():
    # run_check.py --replay <id> <tier> <case>
    pid, tier, case = sys.argv[2], sys.argv[3], sys.argv[4]
    exe = build(pid, tier)
    seed = os.environ.get('VERIF_SEED', '1')
    E = env(tier)
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        E['H_SCRATCH'] = d
        a = command(pid, exe, E) + ['--seed', seed, '--only', case, '-v'] + (['--thorough'] if tier == 'thorough' else [])
        r = subprocess.run(a, env=E, preexec_fn=limits)
    sys.exit(1 if r.returncode else 0)


if __name__ == '__main__':
    if len(sys.argv) > 1 and sys.argv[1] == '--replay':
        replay_main()
    if len(sys.argv) > 1 and sys.argv[1] == '--setup':
        # nothing has to be prepared: each check builds what it needs; only see that the tools are there
        for t in (CXX, CC):
            if not shutil.which(t): die(t + ' is missing')
        print('ready'); sys.exit(0)
    if len(sys.argv) < 2:
        print(__doc__); sys.exit(2)
    try:
        main()
    except SystemExit:
        raise
    except BaseException as e:
        import traceback; traceback.print_exc()
        sys.exit(2)
