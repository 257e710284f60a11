"""Machinery shared by the checks: building the drivers from /repo's working tree, running them, running TLC."""
import concurrent.futures as cf
import json, os, random, re, shutil, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SHARG_REPO', '/repo')
SPEC = os.path.join(ROOT, 'spec')
HARNESS = os.path.join(ROOT, 'harness')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = min(8, os.cpu_count() or 1)


class Broken(Exception):
    """The check itself could not do its work (no verdict)."""


class Hang(Exception):
    """Many cases did not end within their time: the rest of the list was not run."""


class TlcResult:
    def __init__(self):
        self.states = self.distinct = self.depth = 0
        self.lines = []       # decoded JSON values printed by the model
        self.violated = None  # text of a violated invariant / property / postcondition
        self.out = ''
        self.coverage = {}


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.rng = random.Random(f'{prop}-{seed}')
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix=f'sharg-{prop}-')
        self.home = os.path.join(self.dir, 'home')
        os.makedirs(self.home)
        self.violations = []
        self.known = []
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
        self.assumptions = []
        self.parts = {}
        self.level = 'model_checking'

    # ---- building -------------------------------------------------------------------------------------------------
    def build(self, name, sources, flags=(), libs=()):
        """Compiles and links /verif/harness sources against /repo/include; returns the path of the executable."""
        out = os.path.join(self.dir, name)
        if os.path.exists(out):
            return out
        objdir = out + '.o.d'
        os.makedirs(objdir, exist_ok=True)
        base = ['g++', '-std=c++20', '-O0', '-I', os.path.join(REPO, 'include'), '-I', HARNESS, *flags]

        def one(src):
            obj = os.path.join(objdir, os.path.basename(src) + '.o')
            r = subprocess.run([*base, '-c', os.path.join(HARNESS, src), '-o', obj], capture_output=True, text=True)
            if r.returncode:
                raise Broken(f'{src} does not compile:\n' + r.stderr[-3000:])
            return obj
        with cf.ThreadPoolExecutor(JOBS) as ex:
            objs = list(ex.map(one, sources))
        r = subprocess.run(['g++', *flags, *objs, '-o', out, '-lpthread', *libs], capture_output=True, text=True)
        if r.returncode:
            raise Broken(f'{name} does not link:\n' + r.stderr[-3000:])
        return out

    def build_async(self, *a, **k):
        ex = cf.ThreadPoolExecutor(1)
        fut = ex.submit(self.build, *a, **k)
        ex.shutdown(wait=False)
        return fut

    # ---- running the implementation -----------------------------------------------------------------------------
    def run(self, exe, cases, extra=(), env=None, seconds=20, shards=None, user=None, cwd=None):
        """Runs every case (a JSON object) in the driver; returns the results in the order of the cases."""
        if not cases:
            return []
        n = max(1, min(shards or JOBS, (len(cases) + 49) // 50))
        e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': self.home, 'LANG': 'C', 'LC_ALL': 'C',
             'SHARG_NO_VERSION_CHECK': '1'}
        for k, v in (env or {}).items():
            if v is None:
                e.pop(k, None)
            else:
                e[k] = v
        parts = [cases[i::n] for i in range(n)]

        def one(i):
            d = tempfile.mkdtemp(prefix='run-', dir=self.dir)
            with open(os.path.join(d, 'in'), 'w') as f:
                for c in parts[i]:
                    f.write(json.dumps(c) + '\n')
            if user:
                os.chmod(self.dir, 0o711)
                os.chmod(exe, 0o755)
                os.chown(d, user, user)
            cmd = [exe, os.path.join(d, 'in'), os.path.join(d, 'out'), d, str(seconds), *extra]
            r = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, capture_output=True, cwd=cwd or d,
                               **(dict(user=user, group=user, extra_groups=[]) if user else {}))
            if r.returncode:
                raise Broken(f'{os.path.basename(exe)} ended with {r.returncode}: {r.stderr[-2000:]!r}')
            res = []
            with open(os.path.join(d, 'out'), encoding='latin-1') as f:
                for line in f:
                    res.append(json.loads(line))
            shutil.rmtree(d)
            if res and res[-1]['end'] == 'skipped':
                raise Hang([(parts[i][x['idx']], x) for x in res if x['end'] == 'timeout'])
            if [x['idx'] for x in res] != list(range(len(parts[i]))):
                raise Broken(f'{os.path.basename(exe)}: {len(res)} results for {len(parts[i])} cases')
            return res
        with cf.ThreadPoolExecutor(n) as ex:
            got = list(ex.map(one, range(n)))
        out = [None] * len(cases)
        for i in range(n):
            for k, r in enumerate(got[i]):
                out[i + k * n] = r
        return out

    def confirm(self, exe, cases, bad, judge, limit=100, **kw):
        """bad: indices of cases that judge(index, result) rejected; returns [(index, result, what)] for those whose rejection
        repeats, when they run alone or (static state) when the whole list runs in the same order again."""
        bad = bad[:limit]
        for idx in ([bad, list(range(len(cases)))] if bad else []):
            got = dict(zip(idx, self.run(exe, [cases[i] for i in idx], **kw)))
            out = [(i, got[i], w) for i in bad if (w := judge(i, got[i]))]
            if out:
                return out
        return []

    # ---- TLC ----------------------------------------------------------------------------------------------------
    def tlc(self, module, cfg, env=None, workers=JOBS, args=(), timeout=800, expect_ok=True, heap='3g', name=None,
            dfs=False):
        d = tempfile.mkdtemp(prefix='tlc-', dir=self.dir)
        with open(os.path.join(d, 'm.cfg'), 'w') as f:
            f.write(cfg)
        e = dict(os.environ)
        e.update(env or {})
        cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{heap}', '-Xss64m', '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + d,
               '-DTLA-Library=' + SPEC, '-cp', JARS, 'tlc2.TLC', '-config', os.path.join(d, 'm.cfg'), '-metadir',
               os.path.join(d, 'meta'), '-workers', str(workers), '-nowarning', '-noGenerateSpecTE', *args, os.path.join(SPEC, module + '.tla')]
        outp = os.path.join(d, 'out')
        with open(outp, 'w') as f:
            try:
                rc = subprocess.run(cmd, env=e, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, cwd=d,
                                    timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Broken(f'TLC timed out on {module}')
        res = TlcResult()
        res.rc = rc
        text = []
        with open(outp, encoding='utf-8', errors='replace') as f:
            for line in f:
                if line.startswith('"{') or line.startswith('"['):
                    try:
                        res.lines.append(json.loads(json.loads(line)))
                        continue
                    except ValueError:
                        pass
                text.append(line)
        res.out = ''.join(text)
        shutil.rmtree(d)
        for m in re.finditer(r'(\d+) states generated.*?, (\d+) distinct states found', res.out.replace(',', ',')):
            res.states, res.distinct = int(m.group(1)), int(m.group(2))
        m = re.search(r'The number of states generated: (\d+)', res.out)
        if m:
            res.states = res.distinct = int(m.group(1))
        m = re.search(r'depth of the complete state graph search is (\d+)', res.out)
        if m:
            res.depth = int(m.group(1))
        m = re.search(r'Error: (Invariant|Action property|Temporal properties|Postcondition|The postcondition|Evaluating|Property|Assumption|Deadlock).*', res.out)
        if m:
            res.violated = m.group(0)
        if rc != 0 and not (rc in (10, 11, 12, 13) and not expect_ok):
            raise Broken(f'TLC rejects {module} (exit {rc}):\n' + re.sub(r'(Parsing file|Semantic processing|Linting).*\n', '', res.out)[:600] + ' ... ' + res.out[-1200:])
        self.cov['states'] += res.distinct
        self.cov['transitions'] += res.states
        part = self.parts.setdefault(name or module, dict(distinct_states=0, generated_states=0, runs=0))
        part['distinct_states'] += res.distinct
        part['generated_states'] += res.states
        part['runs'] += 1
        return res

    def write_json(self, name, obj):
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            json.dump(obj, f)
        return p

    def write_nd(self, name, objs):
        p = os.path.join(self.dir, name)
        with open(p, 'w') as f:
            for o in objs:
                f.write(json.dumps(o) + '\n')
        return p

    # ---- verdicts -----------------------------------------------------------------------------------------------
    def sample(self, s):
        if len(self.cov['samples']) < 6:
            self.cov['samples'].append(s)

    def validated(self, n, part=None):
        self.cov['traces_validated_against_impl'] += n
        if part:
            self.parts[part] = dict(self.parts.get(part, {}), cases=self.parts.get(part, {}).get('cases', 0) + n)

    def violation(self, what, detail):
        self.violations.append((what, detail))

    def known_finding(self, key):
        """True iff KNOWN_FINDINGS.txt lists `key` for this property; then it is reported as such."""
        with open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) as f:
            for line in f:
                m = re.match(r'known: property=(\S+) key=(\S+) (.*)', line)
                if m and m.group(1) == self.prop and m.group(2) == key:
                    if m.group(3) not in self.known:
                        self.known.append(m.group(3))
                    return True
        return False

    def finish(self):
        ev = os.path.join(ROOT, 'evidence')
        os.makedirs(ev, exist_ok=True)
        wall = round(time.time() - self.t0, 1)
        self.cov['parts'] = self.parts
        if not self.cov['samples']:
            self.cov['samples'] = ['(none)']
        doc = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                   assumptions=self.assumptions, wall_s=wall, violations=len(self.violations))
        with open(os.path.join(ev, self.prop + '.json'), 'w') as f:
            json.dump(doc, f, indent=1)
        for k in self.known:
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        rc = 0
        if self.violations:
            os.makedirs(os.path.join(ev, 'replay'), exist_ok=True)
            for i, (what, detail) in enumerate(self.violations[:int(os.environ.get("SHOW", 5))]):
                p = os.path.join(ev, 'replay', f'{self.prop}-{i + 1}.json')
                with open(p, 'w') as f:
                    json.dump(dict(property=self.prop, what=what, detail=detail), f, indent=1)
                print(f'VIOLATION property={self.prop} replay={p}')
                print('  ' + what[:600].encode('unicode_escape').decode())
            if len(self.violations) > 5:
                print(f'  ... and {len(self.violations) - 5} more')
            rc = 1
        c = self.cov
        print(f'{self.prop} {self.tier}: {c["states"]} states, {c["transitions"]} transitions, '
              f'{c["traces_validated_against_impl"]} behaviours compared with the implementation, '
              f'{len(self.violations)} violations, {wall} s')
        return rc

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
