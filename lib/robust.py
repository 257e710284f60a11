"""How parse() ends (spec/Endings.tla and spec/Parser.tla), in a sanitizer build: C21."""
import os, re
import help as pages
import parse, randgen
from files import NOBODY
from progs import *
from vh import Broken

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-D_GLIBCXX_ASSERTIONS', '-g1']
ENV = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:detect_stack_use_after_return=1', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:print_stacktrace=1'}
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nINVARIANT Reached\nPOSTCONDITION TraceAccepted\n'

WORDS = {
    'plain': ['-i', '--int', '-i5', '--int=7', '-s', '--string', '-sx', '--string=', '-l', '--list', '-la', '--list=b', '-f', '--flag', '-g', '-fg', '-gf', 'x', '12', ''],
    'types': [p + i for i in 'abcdeijkmnoqwxABCDf' for p in ('-', '-', '--')] + ['--i8', '--u8=300', '--i16', '--u64=99999999999999999999999', '--f64', '--bool', '--enum', '--enum=red', '--word', '--char',
              '--char=', '--li8', '--lf64', '--lbool=1', '--lenum', '0', '-1', '127', '128', '255', '1e999', 'nan', 'true', 'red', 'abc', '-o1', '-qgreen', '-xy', '-wab', '-Dred', '-Dx'],
    'validated': ['-' + i for i in 'abcdeijkmnrs'] + ['--in', '--in-ext', '--out', '--out-ext', '--in-dir', '--out-dir', '--ins', '--range', '--ranges', '--one', '--regex', '--regexes', '/', '.', '..', './', 'a.fa',
                  'x/', '/dev/null', '/proc/self/mem', '/etc/passwd', 'file.fa', 'file.x', 'no/such/file.fa', 'dir', 'dir/', 'link', 'loop', 'loop/x.fa', 'dangling', 'closed', 'closed/x.fa', 'x.fa.gz', '.fa', 'fa', '\xff.fa', '...fa',
                  '5', '-5', '6', 'x', '\xff', 'axyxy', 'abc', 'abz', '"', '\n', '//', '/.', 'file.fa/', 'file.fa/x', '~', ''],
    'subs': ['run', 'build', '-x', '-s', 'v', '-sv', '--string=run', '-f', '-i', '7', '--int=3', '-a', '-b5', 'rum', '', 'run ', 'x'],
    'nothing': ['x', '-x', '--y'],
}
ANY = ['-h', '--help', '-hh', '--advanced-help', '--version', '--copyright', '--export-help', '--export-help=html', '--export-help=man', 'html', 'man', 'ctd', '--export-help=x', '--version-check', '--version-check=1', '0',
       '--', '-', '---', '--=', '-=', '=', '--=x', '-\xff', '--\x80', ' ', '\t', '-h=', '-hhh', '--help=', '--version=1', '--i', '--in', '--version-check=maybe']


def rand_bytes(rng, n):
    return ''.join(chr(rng.choice([rng.randint(1, 255), rng.randint(1, 31), ord('-'), ord('='), 0x80, 0xff])) for _ in range(n))


def rand_token(rng, prog):
    r = rng.random()
    if r < .55:
        return rng.choice(WORDS[prog])
    if r < .68:
        return rng.choice(ANY)
    if r < .78:
        return rand_bytes(rng, rng.choice([0, 1, 2, 3, 5, 20]))
    if r < .9:
        t = rng.choice(WORDS[prog] + ANY)
        k = rng.randrange(len(t) + 1)
        return rng.choice([t[:k], t[:k] + rand_bytes(rng, 1) + t[k:], t + '=' + rand_bytes(rng, 2), t + t, '-' + t, t[k:], t + rng.choice(WORDS[prog])])
    return rng.choice(WORDS[prog]) + '=' + rng.choice(WORDS[prog])


def settings(rng):
    """What surrounds the run."""
    tty = rng.random() < .3
    return dict(updates=rng.random() < .5, close=rng.choice([[], [], [], [], [0], [1], [2], [0, 1, 2]]), tty=tty, width=rng.choice([0, 1, 40, 80, 65535]) if tty else 0,
                answer=rng.choice(['', 'y', 'a\n', 'n\n', '\xff', 'x' * 5000]))


def any_case(rng, prog, n):
    return dict(prog=prog, argv=[rand_token(rng, prog) for _ in range(n)], rep=[], many=0, **settings(rng))


def extreme_cases(rng, big):
    """Very long arguments and very many of them."""
    out = []
    plain = dict(updates=False, close=[], tty=False, width=0, answer='')
    for n in big:
        for prog in ('plain', 'types', 'subs', 'validated'):
            for argv, k in ([['-f'], 0], [['x'], 0], [['-'], 0], [['='], 0], [['--'], 0], [['-s', 'y'], 1], [['-i', '9'], 1], [['--a'], 0], [['\xff'], 0], [['-i9'], 0],
                            [['--in', 'a/'], 1], [['--out', 'a'], 1], [['--out', '/'], 1], [['--in-dir', '../'], 1], [['--out-dir', 'q/'], 1], [['--out-ext', 'a.fa'], 1], [['-a', './'], 1],
                            [['--f64', '1'], 1], [['-m', '0.'], 1], [['--bool', '1'], 1], [['-n', 'x'], 1], [['-w', 'a'], 1], [['--export-help', 'h'], 1], [['--version-check', '1'], 1]):
                if n > 300 and prog == 'validated' and argv[0] == '-s':
                    continue        # regex_validator: see known_long_regex
                if len(argv) == 1 or argv[0] in WORDS[prog] or argv[0] in ANY:
                    out.append(dict(prog=prog, argv=argv, rep=[[k, n]], many=0, **plain))
            for argv in (['-l', 'a'], ['x'], ['--'], ['-f'], ['-i', '3'], ['run'], [''], ['-A', '1'], ['--lf64=0'], ['-C1'], ['-j', 'file.fa'], ['--version-check', '1'], ['--u']):
                if argv[0] in WORDS[prog] or argv[0] in ANY:
                    out.append(dict(prog=prog, argv=argv, rep=[], many=n // 20, **plain))
    return out


def environments(chk):
    """Homes and directories for temporary files that are fine, missing, or useless."""
    d = os.path.join(chk.dir, 'env')
    os.makedirs(d)
    for n in ('home', 'tmp', 'ro', 'noexec'):
        os.makedirs(os.path.join(d, n))
    open(os.path.join(d, 'file'), 'w').close()
    os.makedirs(os.path.join(d, 'cfg'))
    open(os.path.join(d, 'cfg', '.config'), 'w').close()
    os.symlink('loop', os.path.join(d, 'loop'))
    os.makedirs(os.path.join(d, 'broken/.config/seqan'))
    for n in ('app_dev.timestamp', 'app_usr.timestamp', 'app-run_dev.timestamp'):
        with open(os.path.join(d, 'broken/.config/seqan', n), 'wb') as f:
            f.write(b'\xff' * 300 + b'\n\x00\n' + b'9' * 400)
    with open(os.path.join(d, 'broken/.config/seqan/app.version'), 'wb') as f:
        f.write(b'9' * 300 + b'.1.1\n\x00\xff\n')
    for p in ('home', 'tmp', 'cfg', 'broken', 'broken/.config', 'broken/.config/seqan'):
        os.chown(os.path.join(d, p), NOBODY, NOBODY)
    os.chmod(os.path.join(d, 'noexec'), 0o444)
    p = lambda n: os.path.join(d, n)
    homes = [p('home'), None, p('missing'), p('file'), p('ro'), p('noexec'), p('cfg'), p('loop'), p('broken'), '/proc/self/fd', 'x' * 5000, p('home') + '/\xff" $(x)']
    tmps = [p('tmp'), p('missing'), p('file'), p('ro'), 'x' * 5000, '']
    return [dict(HOME=h, TMPDIR=tmps[i % len(tmps)] or p('missing'), SHARG_NO_VERSION_CHECK=None if i % 5 else '') for i, h in enumerate(homes + homes[:6])]


def world(chk):
    """A directory with files for the validators, of an unprivileged user."""
    d = os.path.join(chk.dir, 'files')
    os.makedirs(d + '/dir')
    os.makedirs(d + '/closed')
    open(d + '/file.fa', 'w').close()
    os.symlink('loop', d + '/loop')
    os.symlink('nothing', d + '/dangling')
    os.symlink('dir', d + '/link')
    for n in ('', '/dir', '/file.fa'):
        os.chown(d + n, NOBODY, NOBODY)
    os.chmod(d + '/closed', 0)
    return d


def ending(c, r):
    out = re.sub('\x1b\\[\\d*m', '', r['stdout'])
    page = '' if not out else 'shorthelp' if ' '.join(out.split()).endswith('Try -h or --help for more information.') else parse.page_of(out)
    if r['end'] == 'return':
        return dict(kind=r['kind'], emptymsg=r['message'] == '', code=0, out=page, closed=False, **{'class': r['class']})
    return dict(kind=r['end'], emptymsg=True, code=r['code'], out=page, closed=1 in c['close'], **{'class': ''})


def validate(chk, run, cases, results, part):
    def rejected(evs, k):
        f = chk.write_nd(f'ends-{part}-{k}.json'.replace(' ', '-'), evs)
        r = chk.tlc('EndingsTrace', TRACE_CFG, env={'SHARG_TRACE': f}, workers=1, expect_ok=False, name='EndingsTrace')
        if r.rc == 0:
            return None
        if not r.lines:
            raise Broken('EndingsTrace: ' + r.out[-1500:])
        return r.lines[-1]['reached'] - 1
    todo, k = list(range(len(cases))), 0
    while todo and len(chk.violations) < 6:
        n = rejected([ending(cases[i], results[i]) for i in todo], k)
        if n is None:
            break
        i = todo[n]
        for cs in ([cases[i]], cases):      # alone; in the same order again
            r = run(cs)[-1 if len(cs) == 1 else i]
            if rejected([ending(cases[i], r)], 'again') is not None:
                short = dict(cases[i], argv=[a[:60] for a in cases[i]['argv'][:12]])
                chk.violation(f'{short} ended with {ending(cases[i], r)}: {r.get("message", "")!r} {r["stderr"][:300]!r}', dict(case=cases[i], observed=dict(r, stdout=r['stdout'][:2000])))
                break
        todo, k = todo[n + 1:], k + 1
    chk.validated(len(cases), part)
    kinds = chk.parts[part].setdefault('endings', {})
    for c, r in zip(cases, results):
        e = ending(c, r)
        key = f'{e["kind"]}:{e["class"]}{e["out"]}'
        kinds[key] = kinds.get(key, 0) + 1


def known_long_regex(chk, run):
    """std::regex recurses once per character: recorded in KNOWN_FINDINGS.txt."""
    c = dict(prog='validated', argv=['-r', 'a', 'out'], rep=[[1, 400000]], many=0, updates=False, close=[], tty=False, width=0, answer='')
    r = run([c])[0]
    if r['end'] == 'signal':
        if not chk.known_finding('regex-long-value'):
            chk.violation(f'a value of 400000 characters of an option with regex_validator: {r["end"]} {r["code"]}', dict(case=c))


C21_DECL = decl(opts=[opt('o', 'opt', 'i8'), opt('l', 'list', 'str', list=True)], flags=[flag('f', 'flag')], pos=[pos('str'), pos('i32', list=True)])
C21_SUBS = decl(opts=[opt('o', 'opt')], flags=[flag('f', '')], subs=[('run', C21_DECL), ('-x', decl(flags=[flag('f', '')], opts=[opt('x', '')]))])
BYTES = ['\xff', '-\xff', '--\xff', '-o\xff', '--opt=\xff', '-', '--', '---', '-=', '--=', '', '-o', '--opt', '-f', '-f\x01', '--flag=', '-l', '1', '-h\x80', '--export-help', '--export-help=', '--version-check', '--version-check=', '-f-', '\n']


def check_C21(chk):
    full = not chk.quick
    futs = [chk.build_async('h_ends', ['h_ends.cpp'], [*SAN, '-O1']), chk.build_async('h_parse', parse.LIGHT, SAN + ([] if full else ['-DVH_LIGHT'])),
            chk.build_async('h_help', ['h_help.cpp'], SAN)]
    fams = [dict(id='bytes', decl=C21_DECL, alphabet=BYTES, depth=2 if chk.quick else 3, permdepth=0),
            dict(id='bytes-subs', decl=C21_SUBS, alphabet=BYTES[:20] + ['run', '-x', 'ru', 'run\xff'], depth=2 if chk.quick else 3, permdepth=0)]
    vectors = [(f, parse.enumerate_vectors(chk, [f])) for f in fams]
    rng = chk.rng
    n = 500 if chk.quick else 8000
    files = world(chk)
    envs = environments(chk)
    ends, exe, helper = (f.result() for f in futs)
    os.chmod(chk.dir, 0o711)
    for f in (ends, exe, helper):
        os.chmod(f, 0o755)

    def run_in(env, seconds=60):
        return lambda cs: chk.run(ends, cs, env={**ENV, 'PATH': '/nonexistent', 'TMPDIR': envs[0]['TMPDIR'], **env}, user=NOBODY, cwd=files, seconds=seconds)
    for prog in WORDS:
        cases = [any_case(rng, prog, rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 8, 20])) for _ in range(n)]
        validate(chk, run_in({}), cases, run_in({})(cases), 'any arguments')
        chk.sample(dict(prog=prog, argv=cases[0]['argv']))
    for env in envs:
        cases = [any_case(rng, rng.choice(list(WORDS)), rng.choice([0, 1, 2, 4])) for _ in range(40 if chk.quick else 600)]
        validate(chk, run_in(env), cases, run_in(env)(cases), 'environments')
    big = extreme_cases(rng, (300, 100000) if chk.quick else (300, 5000, 100000, 1000000))
    validate(chk, run_in({}, 120), big, run_in({}, 120)(big), 'long arguments')
    known_long_regex(chk, run_in({}))
    # the precise specification, in the sanitizer build
    for f, v in vectors:
        parse.replay(chk, exe, [f], v, env=ENV)
    parse.random_traces(chk, exe, 900 if chk.quick else 20000, weights=dict(junk=2, mutate=3, special=1), env=ENV, types=randgen.FULL_TYPES if full else None, lists=randgen.FULL_LISTS if full else None)
    pages.validate(chk, helper, pages.random_cases(rng, 60 if chk.quick else 2000, True), True, 'pages', env=ENV)
    chk.assumptions += ['the drivers are built with AddressSanitizer, UndefinedBehaviorSanitizer and the assertions of libstdc++', 'no memory is short',
                        'values of options with regex_validator are shorter than 300 characters here (KNOWN_FINDINGS.txt)']


TEXT = {'C21': ('TLA+ model checking (TLC): every result of the parser model is one that the weak specification of endings permits; runs of the real parser in a '
                'sanitizer build, with arbitrary bytes, very long arguments and missing environment, validated against TLA+ trace specifications',
                'All command lines up to length 2 (3) over 25 byte-level tokens for two programs, thousands of random ones over five programs with all supported types and validators, 18 environments, closed standard '
                'streams, arguments of up to 100 000 (1 000 000) characters or tokens. Memory safety is judged by sanitizers.')}
