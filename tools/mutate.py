#!/usr/bin/env python3
"""Development tool (no check uses it): systematic small changes of /repo/include, run against the checks.
   mutate.py list FILE                 number of candidates
   mutate.py run OUT N SEED FILE...    N random candidates per file, 4 at a time, against the properties of PROPS; results as JSON lines
   mutate.py one DIR full|fast PROP... runs the checks against DIR/include, prints the first property that notices"""
import concurrent.futures as cf, hashlib, json, os, pickle, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = '/tmp/m/cache'
INC = '/repo/include/sharg/'
PROPS = {
    'detail/format_parse.hpp': 'C02 C01 C04 C05 C12 C11 C10 C08 C03 C07',
    'parser.hpp': 'C09 C22 C08 C07 C12 C02 C03 C13 C19 C01',
    'validators.hpp': 'C11 C17 C18 C19',
    'detail/safe_filesystem_entry.hpp': 'C18 C17', 'detail/to_string.hpp': 'C19', 'detail/type_name_as_string.hpp': 'C19', 'detail/terminal.hpp': 'C20 C13',
    'enumeration_names.hpp': 'C10 C19', 'config.hpp': 'C09 C19',
    'detail/format_base.hpp': 'C19 C20', 'detail/format_help.hpp': 'C19 C20', 'detail/format_html.hpp': 'C19 C20', 'detail/format_man.hpp': 'C19 C20',
    'detail/version_check.hpp': 'C13 C14 C15 C16 C23',
}
OPS = [(r'==', '!='), (r'!=', '=='), (r'<=', '<'), (r'>=', '>'), (r'(?<![<\w\-])<(?![<\w=])', '<='), (r' < ', ' > '), (r' > ', ' >= '), (r'&&', '||'), (r'\|\|', '&&'), (r'\btrue\b', 'false'),
       (r'\bfalse\b', 'true'), (r'\+ 1\b', '+ 2'), (r'- 1\b', '- 2'), (r'\+ 2\b', '+ 1'), (r'\b1\b', '0'), (r'\b0\b', '1'), (r'\b2\b', '3'), (r'!(?=[\w(])', ''), (r'\bif \((?!constexpr)(.*)\)$', r'if (!(\1))'),
       (r'\bif \((?!constexpr)(.*)\)$', r'if (true)'), (r'\bif \((?!constexpr)(.*)\)$', r'if (false)'), (r'\+\+', '--'), (r'\+=', '='), (r'^(\s+)([\w\->.:]+(\(.*\)| (\+|-)?= .*|\+\+));$', r'\1;'),
       (r'^(\s+)(\+\+\w+|\w+ << .*|std::\w+\(.*\));$', r'\1;'), (r'^(\s+)(throw .*|continue|break|return);$', r'\1;'), (r'"([^"]+)"', r'""'), (r"'(.)'", r"'_'"), (r'\.begin\(\)', '.end()'), (r'\brbegin\b', 'begin'),
       (r'\bfind\(', 'rfind('), (r'find_first_of', 'find_last_of'), (r'\bsubstr\((\w+)\)', r'substr(0, \1)'), (r'starts_with', 'ends_with'), (r'\bempty\(\)', 'size()'), (r'\.size\(\)', '.size() - 1'),
       (r'(?<=\w) \+ (?=\w)', ' - '), (r'(?<=\w) - (?=\w)', ' + '), (r'std::max', 'std::min'), (r'std::min', 'std::max'), (r'\bconst &', '')]


def candidates(f):
    lines = open(INC + f).read().split('\n')
    out, doc = [], False
    for n, l in enumerate(lines):
        t = l.strip()
        if t.startswith('/*'):
            doc = True
        if doc:
            if '*/' in t:
                doc = False
            continue
        if t.startswith(('//', '#', 'static_assert', 'template', 'requires', 'using', 'namespace')) or not t or 'SHARG_' in t or 'assert(' in t:
            continue
        code = l.split(' //')[0]
        for k, (a, b) in enumerate(OPS):
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new != code:
                    out.append((f, n, code, new))
    return out


def one(d, mode, props):
    os.environ['SHARG_REPO'] = d
    sys.path.insert(0, V + '/lib')
    sys.path.insert(0, V)
    sys.dont_write_bytecode = True
    import vh, check, parse, io, contextlib
    vh.JOBS = 2
    tlc, build = vh.Check.tlc, vh.Check.build

    def cached(self, module, cfg, env=None, args=(), **k):
        if not module.startswith('MC'):
            return tlc(self, module, cfg, env=env, args=args, **k)
        key = hashlib.sha256(repr((module, cfg, [open(p).read() for p in (env or {}).values()], args, [open(vh.SPEC + '/' + x).read() for x in sorted(os.listdir(vh.SPEC))])).encode()).hexdigest()
        p = f'{CACHE}/{key}'
        if os.path.exists(p):
            return pickle.load(open(p, 'rb'))
        k['workers'] = 4 if k.get('workers', 8) > 4 else k['workers']
        r = tlc(self, module, cfg, env=env, args=args, **k)
        os.makedirs(CACHE, exist_ok=True)
        pickle.dump(r, open(p + f'.{os.getpid()}', 'wb'))
        os.rename(p + f'.{os.getpid()}', p)
        return r

    def sampled(self, module, cfg, **k):
        r = cached(self, module, cfg, **k)
        if mode == 'fast' and module.startswith('MC') and len(r.lines) > 2000:
            r.lines = r.lines[::1 + len(r.lines) // 2000]
        return r
    vh.Check.tlc = sampled
    shared = d + '/bin'
    os.makedirs(shared, exist_ok=True)

    def built(self, name, sources, flags=(), libs=()):
        flags = ['-DVH_VALUES'] if list(flags) == ['-DVH_LIGHT'] else list(flags)
        key = name + '-' + hashlib.sha256(repr((sources, flags)).encode()).hexdigest()[:8]
        out = f'{shared}/{key}'
        if not os.path.exists(out):
            shutil.copy(build(self, name, sources, flags, libs), out)
        os.chmod(d, 0o711); os.chmod(shared, 0o711)
        p = os.path.join(self.dir, name)
        shutil.copy(out, p)
        return p
    vh.Check.build = built
    if mode == 'fast':
        parse.random_traces = lambda *a, **k: None
    for p in props:
        chk = vh.Check(p, 'quick', 1)
        try:
            mod = __import__(check.MODULES[p])
            getattr(mod, 'check_' + p, None or getattr(mod, 'check', None))(chk)
            n, w = len(chk.violations), [v[0] for v in chk.violations[:1]]
        except vh.Hang as e:
            n, w = 1, ['hang']
        except vh.Broken as e:
            print(json.dumps(dict(prop=p, broken=str(e)[-600:])), flush=True)
            return
        finally:
            chk.close()
        if n:
            print(json.dumps(dict(prop=p, what=w[0][:300])), flush=True)
            return
    print(json.dumps(dict(prop=None)), flush=True)


def run(out, n, seed, files, mode='fast', workers=4):
    rng = random.Random(seed)
    todo = []
    for f in files:
        c = candidates(f)
        todo += rng.sample(c, min(n, len(c)))
    done = set()
    if os.path.exists(out):
        done = {(r['f'], r['n'], r['new']) for r in map(json.loads, open(out))}

    def work(k):
        f, l, old, new = todo[k]
        if (f, l, new) in done:
            return
        d = f'/tmp/m/{os.getpid()}-{k}'
        os.makedirs(d)
        shutil.copytree('/repo/include', d + '/include')
        p = d + '/include/sharg/' + f
        lines = open(p).read().split('\n')
        lines[l] = new
        open(p, 'w').write('\n'.join(lines))
        try:
            r = subprocess.run([sys.executable, __file__, 'one', d, mode, *PROPS[f].split()], capture_output=True, text=True, timeout=1500)
            last = json.loads(r.stdout.strip().split('\n')[-1]) if r.stdout.strip() else dict(prop='?', broken=r.stderr[-600:])
        except subprocess.TimeoutExpired:
            last = dict(prop='?', broken='timeout')
        shutil.rmtree(d)
        with open(out, 'a') as o:
            o.write(json.dumps(dict(f=f, n=l, old=old, new=new, **last)) + '\n')
    with cf.ThreadPoolExecutor(workers) as ex:
        list(ex.map(work, range(len(todo))))


if __name__ == '__main__':
    a = sys.argv
    if a[1] == 'list':
        for f in PROPS:
            print(f, len(candidates(f)))
    elif a[1] == 'one':
        one(a[2], a[3], a[4:])
    else:
        run(a[2], int(a[3]), int(a[4]), a[5:])
