#!/usr/bin/env python3
"""Runs the monitors of one property against the working tree of the repository.

  check.py PROPERTY [--tier quick|thorough] [--case N] [--pass NAME]

Exit 0: held on everything explored.  Exit 1: a VIOLATION line.  Exit 2: the
check itself could not give an answer.
"""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'bin'))
from passes import PASSES, LEVEL_RULES  # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
EVIDENCE = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = int(os.environ.get('VERIF_JOBS', '0') or 0) or min(8, os.cpu_count() or 1)
ENV = {'PATH': '/usr/local/bin:/usr/bin:/bin', 'HOME': '/root', 'LC_ALL': 'C.UTF-8', 'CCACHE_DISABLE': '1'}
ENV_RUN = dict(ENV, LC_ALL='C',
    ASAN_OPTIONS='abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=1:quarantine_size_mb=32:handle_abort=1:color=never',
    UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:abort_on_error=1:color=never',
    TSAN_OPTIONS='halt_on_error=0:exitcode=66:report_signal_unsafe=0:second_deadlock_stack=1:history_size=4:color=never:suppressions=' + os.path.join(HERE, 'harness', 'tsan.supp'))


class Broken(Exception):
    pass


def run(cmd, cwd=None, timeout=900, env=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env or ENV)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


SAN = {'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-O1', '-U_FORTIFY_SOURCE'], # a fortified call passes by the replacements of gethostname and others
       'tsan': ['-fsanitize=thread', '-O1', '-U_FORTIFY_SOURCE'],
       'plain': ['-O1', '-U_FORTIFY_SOURCE']}


def write_config(work):
    """what cmake generates from the *.in files"""
    gen = os.path.join(work, 'gen')
    for sub, name, proj in (('FileUtilities', 'FileUtilitiesConfigure.h', 'FILEUTILITIES'),
                            ('TestingFramework', 'TestFrameworkConfigure.h', 'TESTINGFRAMEWORK')):
        os.makedirs(os.path.join(gen, sub), exist_ok=True)
        s = open(os.path.join(REPO, sub, name + '.in')).read()
        s = s.replace('@PROJECT_NAME@', proj).replace('@BUILD_SHARED_LIBS@', '0')
        open(os.path.join(gen, sub, name), 'w').write(s)
    return gen


def build_core(work, kind, sources):
    """compiles the core library and the harness sources; returns {src: binary}"""
    gen = write_config(work)
    obj = os.path.join(work, 'obj-' + kind)
    os.makedirs(obj, exist_ok=True)
    flags = ['-std=c++14', '-g', '-fno-omit-frame-pointer', '-include', 'numeric', '-w', '-Wno-deprecated-declarations', '-pthread', '-DVF_LOCALES'] + SAN[kind]
    inc = ['-I' + REPO, '-I' + gen, '-I' + os.path.join(gen, 'FileUtilities'), '-I' + os.path.join(gen, 'TestingFramework'),
           '-I' + os.path.join(REPO, 'FileUtilities'), '-I' + os.path.join(REPO, 'TestingFramework'), '-I' + os.path.join(HERE, 'harness')]
    lib = sorted(glob.glob(os.path.join(REPO, 'FileUtilities', '*.cpp')) + glob.glob(os.path.join(REPO, 'TestingFramework', '*.cpp')))
    jobs = []
    for s in lib:
        jobs.append((s, os.path.join(obj, 'lib_' + os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s) + '.o'), True))
    for s in sources:
        jobs.append((os.path.join(HERE, 'harness', 'core', s), os.path.join(obj, 'h_' + s + '.o'), False))

    def comp(j):
        rc, out = run(['g++'] + flags + inc + ['-c', j[0], '-o', j[1]])
        if rc:
            raise Broken('compile of %s failed:\n%s' % (j[0], out[-3000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(comp, jobs))
    libo = [j[1] for j in jobs if j[2]]
    res = {}

    def link(s):
        b = os.path.join(obj, os.path.splitext(s)[0])
        rc, out = run(['g++'] + flags + [os.path.join(obj, 'h_' + s + '.o')] + libo + ['-lexpat', '-ldl', '-o', b])
        if rc:
            raise Broken('link of %s failed:\n%s' % (s, out[-3000:]))
        res[s] = b
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, sources))
    return res


def build_itk(work, kind, sources, outdir, optional=()):
    bd = os.path.join(work, 'itk-' + kind)
    os.makedirs(bd, exist_ok=True)
    cfg = ['cmake', '-S', os.path.join(HERE, 'harness', 'itk'), '-B', bd, '-G', 'Ninja', '-Wno-dev', '-DCMAKE_BUILD_TYPE=None',
           '-DCMAKE_C_COMPILER=/usr/bin/gcc', '-DCMAKE_CXX_COMPILER=/usr/bin/g++',
           '-DREPO=' + REPO, '-DVH=' + os.path.join(HERE, 'harness'), '-DSRCS=' + ';'.join(sources),
           '-DSANFLAGS=' + ' '.join(SAN[kind]), '-DOUTDIR=' + outdir]
    rc, out = run(cfg)
    if rc:
        raise Broken('cmake failed:\n' + out[-3000:])
    rc, out = run(['ninja', '-C', bd, '-j', str(JOBS), '-k', '0'])
    res = {s: os.path.join(bd, os.path.splitext(os.path.basename(s))[0]) for s in sources}
    if rc and any(not os.path.exists(res[s]) for s in sources if s not in optional):
        raise Broken('build failed:\n' + out[-6000:])
    return res


class Shard:
    def __init__(self, pas, binary, work, idx, shards, cases, tier, only=None, data=None):
        self.idx = idx
        self.name = '%s-%d%s' % (pas['name'], idx, '' if only is None else '-only%d' % only)
        self.scratch = os.path.join(work, 'run-' + self.name)
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)
        os.chmod(self.scratch, 0o777)
        self.out = os.path.join(work, 'out-' + self.name)
        self.log = os.path.join(work, 'log-' + self.name)
        cmd = [binary, '--seed', str(SEED), '--shard', str(idx), '--shards', str(shards), '--cases', str(cases),
               '--thorough', '1' if tier == 'thorough' else '0', '--scratch', self.scratch, '--out', self.out,
               '--secs', str(pas.get('secs', 300 if tier == 'quick' else 3000))]
        if data:
            cmd += ['--data', data]
        if only is not None:
            cmd += ['--only', str(only)]
        if pas.get('run') == 'valgrind':
            cmd = ['valgrind', '-q', '--error-exitcode=99', '--exit-on-first-error=yes', '--leak-check=no', '--track-origins=no', '--child-silent-after-fork=yes'] + cmd
        self.cmd = cmd
        env = dict(ENV_RUN, **pas.get('env', {}))
        env['TMPDIR'] = self.scratch
        self.lf = open(self.log, 'wb')
        self.p = subprocess.Popen(cmd, cwd=self.scratch, stdin=subprocess.DEVNULL, stdout=self.lf, stderr=subprocess.STDOUT, env=env, start_new_session=True)
        self.t0 = time.time()
        self.lastcase = None
        self.lastchange = time.time()

    def case(self):
        try:
            return int(open(self.out + '.cur').read().split()[0])
        except Exception:
            return None

    def poll(self):
        rc = self.p.poll()
        if rc is not None:
            return rc
        c = self.case()
        if c != self.lastcase:
            self.lastcase, self.lastchange = c, time.time()
        return None

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except Exception:
            pass
        self.p.wait()
        self.lf.close()

    def finish(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)  # leftovers of the session
        except Exception:
            pass
        self.lf.close()
        subprocess.run(['chmod', '-R', 'u+rwX', self.scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(self.scratch, ignore_errors=True)

    def logtext(self, n=20000):
        s = open(self.log, 'rb').read()
        if len(s) > n:
            s = s[:n // 2] + b'\n...\n' + s[-n // 2:]
        return s.decode('utf-8', 'replace')

    def records(self):
        r = []
        try:
            for l in open(self.out, errors='replace'):
                try:
                    r.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        return r


SANRE = re.compile(r'(ERROR: AddressSanitizer|runtime error:|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|UndefinedBehaviorSanitizer|==\d+== (Invalid|Conditional|Use of uninit|Syscall param|Mismatched|Source and dest|Argument)|Assertion .* failed|terminate called|pure virtual|glibc detected|\*\*\* .* \*\*\*)')
CRASHSIG = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGPIPE, -signal.SIGTRAP}


def kind_of(log):
    for pat in (r'ERROR: AddressSanitizer: ([\w-]+)', r'runtime error: ([^\n]{0,80})', r'WARNING: ThreadSanitizer: ([\w ]+)', r"Assertion `([^']{0,80})", r'==\d+== ((?:Invalid|Conditional|Use of|Syscall|Mismatched|Source)[^\n]{0,50})', r'(terminate called[^\n]{0,80})'):
        m = re.search(pat, log)
        if m:
            return re.sub(r'0x[0-9a-f]+', '', m.group(1)).strip()
    return 'abnormal end'


def monitor(shards, limit, casemax):
    """waits for the shards; returns {shard: rc or 'hang'}"""
    res = {}
    left = list(shards)
    while left:
        for s in list(left):
            rc = s.poll()
            if rc is not None:
                res[s] = rc
                left.remove(s)
                s.finish()
            elif time.time() - s.lastchange > casemax or time.time() - s.t0 > limit:
                s.kill()
                res[s] = 'hang'
                left.remove(s)
                s.finish()
        time.sleep(0.02)
    return res


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    only = None
    onlypass = None
    a = sys.argv[2:]
    while a:
        o = a.pop(0)
        if o == '--tier':
            tier = a.pop(0)
        elif o == '--case':
            only = int(a.pop(0))
        elif o == '--pass':
            onlypass = a.pop(0)
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    base = '/dev/shm' if os.environ.get('VERIF_SHM') else None
    work = tempfile.mkdtemp(prefix='vf-%s-' % prop, dir=base)
    os.chmod(work, 0o755)
    try:
        rc = check(prop, tier, only, onlypass, work, t0)
    except Broken as e:
        print('CHECK-ERROR property=%s %s' % (prop, e))
        rc = 2
    except Exception as e:  # an error of the check, not of the repository
        import traceback
        traceback.print_exc(file=sys.stdout)
        print('CHECK-ERROR property=%s %r' % (prop, e))
        rc = 2
    finally:
        if not os.environ.get('VERIF_KEEP'):
            subprocess.run(['chmod', '-R', 'u+rwX', work], stderr=subprocess.DEVNULL)
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('kept', work)
    sys.stdout.flush()
    sys.exit(rc)


def known(prop):
    ks = {}
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l)
            if m and m.group(1) == prop:
                ks[m.group(2)] = m.group(3).strip()
    return ks


def counts(p, key):
    # a pass that is there for memory errors does not judge anything else
    return not p.get('memonly') or key.startswith(('crash:', 'sanitizer:', 'leak'))


def check(prop, tier, only, onlypass, work, t0):
    passes = [p for p in PASSES[prop] if (p['quick'] or tier == 'thorough') and (not onlypass or p['name'] == onlypass)]
    outdir = os.path.join(work, 'itkout')
    os.makedirs(outdir, exist_ok=True)
    bins = {}
    for kind in sorted({p['build'] for p in passes}):
        srcs = []
        for p in passes:
            if p['build'] == kind:
                for s in [p['src']] + p.get('tools', []):
                    if s not in srcs:
                        srcs.append(s)
        if kind.startswith('itk-'):
            bins[kind] = build_itk(work, kind[4:], srcs, outdir, [p['src'] for p in passes if p.get('optional')])
        else:
            bins[kind] = build_core(work, kind, srcs)
    tb = time.time() - t0
    violations = []   # (key, detail, pass, case, log)
    counters, samples, distinct = {}, [], set()
    evaluations = ncases = 0
    notes = []
    for p in passes:
        binary = bins[p['build']][p['src']]
        if p.get('optional') and not os.path.exists(binary):
            # uses of templates that the repository itself does not make
            notes.append('%s does not compile' % p['src'])
            continue
        data = os.path.dirname(binary)
        n = p['quick'] if tier == 'quick' else p.get('thorough', p['quick'] * 10)
        shards = max(1, min(p.get('shards', JOBS), n))
        casemax = p.get('casemax', 60)
        limit = 600 if tier == 'quick' else 6000
        if only is not None:
            ss = [Shard(p, binary, work, 0, 1, n, tier, only, data)]
        else:
            ss = [Shard(p, binary, work, i, shards, n, tier, None, data) for i in range(shards)]
        res = monitor(ss, limit, casemax)
        for s in ss:
            rc = res[s]
            recs = s.records()
            done = [r for r in recs if r.get('done')]
            for r in recs:
                if 'violation' in r and counts(p, r['violation']):
                    violations.append((r['violation'], r['detail'], p, r['case'], ''))
            if done:
                d = done[0]
                evaluations += d['evaluations']
                ncases += d['cases']
                for k, v in d['counters'].items():
                    counters[p['name'] + '.' + k] = counters.get(p['name'] + '.' + k, 0) + v
                if len(samples) < 6:
                    samples += d['samples'][:2]
                try:
                    b = open(s.out + '.hash', 'rb').read()
                    distinct.update(struct.unpack('<%dQ' % (len(b) // 8), b))
                except OSError:
                    pass
            log = s.logtext()
            if rc == 0 and done:
                continue
            if rc == 66 or (done and SANRE.search(log)):
                violations.append(('sanitizer:' + kind_of(log), log, p, s.case() or 0, log))
                continue
            if rc == 3 and not SANRE.search(log):
                raise Broken('harness error in %s: %s' % (s.name, log[-2000:]))
            # ended in the middle of a case: hang, crash, or killed from outside
            case = s.case()
            if rc == 'hang':
                if case is None or case < 0:
                    raise Broken('%s did not end: %s' % (s.name, log[-1000:]))
                s2 = Shard(p, binary, work, 0, 1, n, tier, case, data)
                r2 = monitor([s2], 3 * casemax, 3 * casemax)[s2]
                if r2 == 'hang' and p.get('memonly'):
                    notes.append('%s case %d does not end' % (s.name, case))
                elif r2 == 'hang':
                    violations.append(('hang', 'case %d does not end (%d s, twice)' % (case, 3 * casemax), p, case, log))
                elif r2 == 0:
                    notes.append('%s case %d was slow once, ended when run again' % (s.name, case))
                    for r in s2.records():
                        if 'violation' in r and counts(p, r['violation']):
                            violations.append((r['violation'], r['detail'], p, r['case'], ''))
                else:
                    violations.append(('crash:' + kind_of(s2.logtext()), s2.logtext(), p, case, s2.logtext()))
                continue
            if rc in CRASHSIG or rc == 99 or SANRE.search(log) or rc not in (-signal.SIGKILL, -signal.SIGTERM):
                if not SANRE.search(log) and rc not in CRASHSIG and case in (None, -1):
                    raise Broken('%s: exit %s: %s' % (s.name, rc, log[-2000:]))
                key = 'crash:' + kind_of(log)
                detail = 'exit %s in case %s\n%s' % (rc, case, log)
                violations.append((key, detail, p, case if case is not None else -1, log))
                continue
            # killed, by what watches the memory for example: once more, alone
            s2 = Shard(p, binary, work, s.idx, shards, n, tier, only, data)
            r2 = monitor([s2], limit, casemax)[s2]
            recs2 = s2.records()
            for r in recs2:
                if 'violation' in r and counts(p, r['violation']):
                    violations.append((r['violation'], r['detail'], p, r['case'], ''))
            if r2 != 0 and not SANRE.search(s2.logtext()):
                raise Broken('%s was ended from outside: %s' % (s.name, r2))
            if r2 != 0:
                violations.append(('crash:' + kind_of(s2.logtext()), s2.logtext(), p, s2.case() or -1, s2.logtext()))
            else:
                evaluations += sum(r['evaluations'] for r in recs2 if r.get('done'))
    ks = known(prop)
    rep = {}
    seenknown = {}
    for key, detail, p, case, log in violations:
        if key in ks:
            seenknown.setdefault(key, (detail, case))
        else:
            rep.setdefault(key, (detail, p, case))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': SEED, 'level': LEVEL_RULES[prop]['level'],
          'coverage': {'cases': ncases, 'evaluations': evaluations, 'distinct_nontrivial': len(distinct), 'rule': LEVEL_RULES[prop]['rule'] + ' A case with several judgements counts as that many evaluations.',
                       'samples': samples or ['(none)'], 'observed': counters, 'passes': [dict(name=p['name'], build=p['build'], run=p.get('run', 'native'), cases=p['quick'] if tier == 'quick' else p.get('thorough', p['quick'] * 10)) for p in passes],
                       'known_findings_seen': sorted(seenknown), 'notes': notes, 'build_s': round(tb, 1)},
          'assumptions': LEVEL_RULES[prop].get('assumptions', []),
          'wall_s': round(wall, 2), 'violations': len(rep)}
    os.makedirs(EVIDENCE, exist_ok=True)
    if only is None and onlypass is None:
        with open(os.path.join(EVIDENCE, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
    # a listed finding that was not met this time is still open
    for key in sorted(ks):
        print('KNOWN-FINDING: property=%s key=%s %s' % (prop, key, ks[key]))
    if rep:
        for i, key in enumerate(sorted(rep)):
            detail, p, case = rep[key]
            path = os.path.join(EVIDENCE, '%s-violation-%d.json' % (prop, i))
            json.dump({'property': prop, 'key': key, 'pass': p['name'], 'case': case, 'seed': SEED, 'tier': tier,
                       'replay': 'VERIF_SEED=%d python3 bin/check.py %s --tier %s --pass %s --case %s' % (SEED, prop, tier, p['name'], case),
                       'detail': detail}, open(path, 'w'), indent=1)
            if i < 8:
                print('VIOLATION property=%s replay=%s' % (prop, path))
                print('  %s (pass %s, case %s): %s' % (key, p['name'], case, detail[:700].replace('\n', '\n    ')))
        return 1
    if only is None and not onlypass and (evaluations == 0 or len(distinct) < LEVEL_RULES[prop].get('min', 2)):
        raise Broken('nothing was observed (%d evaluations, %d distinct)' % (evaluations, len(distinct)))
    print('OK property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs (build %.1fs)' % (prop, tier, ncases, evaluations, len(distinct), wall, tb))
    return 0


main()
