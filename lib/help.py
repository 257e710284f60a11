"""Help pages and the other pages (spec/HelpPages.tla): C19 (what is shown) and C20 (how it is printed)."""
import concurrent.futures as cf
import itertools, os, re
from vh import Broken, HARNESS, JOBS

LIB = '1.1.2-rc.1'
PAGES = ['help', 'adv', 'short', 'version', 'copyright', 'html', 'man']
ARGV = dict(help=[['-h'], ['--help']], adv=[['-hh'], ['--advanced-help']], short=[[]], version=[['--version']], copyright=[['--copyright']],
            **{f: [['--export-help', f], ['--export-help=' + f]] for f in ('html', 'man', 'ctd', 'cwl')})
META = dict(app='app', short='', synopsis=[], description=[], version='', date='', url='', short_copyright='', long_copyright='',
            citation='', author='', email='', examples=[], man_title='', man_section=1)
FULL = dict(app='app', short='a short description', synopsis=['app [OPTIONS] IN', 'app\t--x'], description=['First.', 'Second paragraph.'],
            version='1.2.3', date='May 2024', url='https://example.org/x?a=1&b=2', short_copyright='2024 me', long_copyright='long\ncopyright  text',
            citation='Cite et al. (2024)', author='Jane "J" Doe', email='jane@doe.org', examples=['app -x', 'app <y>'], man_title='The app manual', man_section=3)


def option(short='', long='', type='str', list=False, default=None, **k):
    d = {'str': ['dflt'], 'path': ['a/b'], 'bool': ['true'], 'enum': ['green'], 'f32': ['2.5'], 'f64': ['0.25']}.get(type, ['-7'] if type[0] == 'i' else ['7'])
    r = dict(e='option', short=short, long=long, type=type, list=list, defmsg='', req=False, adv=False, hid=False, desc='', chain=[])
    r['def'] = default if default is not None else [] if list else d
    r.update(k)
    return r


def flag(short='', long='', **k):
    return dict(dict(e='flag', short=short, long=long, req=False, adv=False, hid=False, desc=''), **k)


def text(e, t='', **k):
    return dict(dict(e=e, t=t, adv=False, hid=False, **({'par': False} if e == 'line' else {'desc': ''} if e == 'item' else {})), **k)


def v(kind, *args, msg=''):
    return dict(kind=kind, args=[*args], msg=msg)


def inp(page='help', width=0, tty=False, updates=False, meta=(), subs=(), pos=(), elems=()):
    return {'page': page, 'exports': '[html, man]', 'exe': ['/usr/bin/program'], 'width': width, 'tty': tty, 'updates': updates, 'lib': LIB, 'subs': sorted(subs), 'pos': [*pos], 'elems': [*elems],
            'meta': dict(META, **dict(meta))}


def case(x, i=0, through=False, move=False):
    a = ARGV[x['page']]
    return {'in': x, 'argv': a[i % len(a)], 'through': through, 'move': move}


CHAINS = [('i32', [v('range', '-5', '77')]), ('u8', [v('range', '0', '9')]), ('i32', [v('oneof', '1', '2', '3')]), ('u8', [v('oneof', '9', '1')]),
          ('str', [v('oneof', 'one')]), ('str', [v('oneof', 'x y', 'b')]), ('str', [v('regex', '[a-z]+<\\d>')]), ('i32', [v('dyn', msg='Own message.')]),
          ('f64', [v('dyn', msg='')]), ('i32', [v('dyn', msg='First.'), v('dyn', msg='Second.')]), ('str', [v('dyn', msg=''), v('dyn', msg='Last.')]),
          ('u8', [v('range', '1', '2'), v('dyn', msg='And own.')]), ('i32', [v('range', '1', '2'), v('dyn', msg='And <own>.')]),
          ('path', [v('infile')]), ('path', [v('infile', 'fa', 'fasta')]), ('path', [v('outnew')]), ('path', [v('outnew', 'sam')]), ('path', [v('outany')]),
          ('path', [v('outany', 'a', 'b.c')]), ('path', [v('indir')]), ('path', [v('outdir')])]
LISTS = dict(i8=['-3', '65'], u8=['65', '0'], i32=['-1', '100000'], u64=['18446744073709551615'], f64=['1.5', '-2.25'], str=['a b', 'c"d\\e', ''],
             path=['x/y z', '.'], enum=['red', '<UNKNOWN_VALUE>'], bool=['true', 'false'])


def typed_options():
    out = []
    for t in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f64', 'f32', 'bool', 'str', 'path', 'enum'):
        out.append(option(type=t))
    for t, d in LISTS.items():
        out += [option(type=t, list=True), option(type=t, list=True, default=d[:1]), option(type=t, list=True, default=d)]
    for t, d in (('i8', '65'), ('u8', '255'), ('i64', '-9223372036854775808'), ('str', ''), ('str', 'q"uo\\te <&>'), ('path', ''), ('path', 'a "b"'), ('bool', 'false'),
                 ('enum', 'red'), ('enum', '<UNKNOWN_VALUE>'), ('f64', '1e+20'), ('f32', '-0.5')):
        out.append(option(type=t, default=[d]))
    for t, m in (('str', 'mes"sage'), ('path', 'the path'), ('i32', 'none'), ('bool', 'on'), ('enum', 'x'), ('f64', 'Infinite <>')):
        out.append(option(type=t, defmsg=m))
    for t in ('i32', 'str', 'path', 'enum'):
        out.append(option(type=t, list=True, defmsg='some ' + t))
        out.append(option(type=t, req=True))
        out.append(option(type=t, list=True, req=True))
    for t, c in CHAINS:
        out.append(option(type=t, chain=c))
        if t not in ('f64',):
            out.append(option(type=t, list=True, chain=c))
        out.append(option(type=t, chain=c, req=True))
    return out


def marked(pool):
    for i, e in enumerate(pool):
        if e['e'] in ('option', 'flag', 'item'):
            e['desc'] = f'#{i + 1}# ' + e['desc'] if e['desc'] else f'#{i + 1}#'
        else:
            e['t'] = f'#{i + 1}# ' + e['t']
    return pool


def visibility_pool():
    p = [option('a', 'aa', 'i32', desc='plain'), option('b', '', 'str', adv=True, desc='advanced'), option('', 'cc', 'u8', hid=True),
         option('d', 'dd', 'path', req=True, desc='required'), option('e', 'ee', 'f64', adv=True, hid=True),
         flag('f', 'ff', desc='a flag'), flag('', 'gg', adv=True), flag('i', '', hid=True), flag('', 'jj', adv=True, hid=True),
         option('k', 'kk', 'enum', list=True, default=['red'], adv=True, req=True),
         text('section', 'section one'), text('section', 'advanced section', adv=True), text('subsection', 'sub'), text('subsection', 'advanced sub', adv=True),
         text('line', 'a line'), text('line', 'an advanced paragraph', par=True, adv=True), text('line', 'a paragraph', par=True),
         text('item', 'key', desc='value'), text('item', 'a longer key', desc='value', adv=True)]
    return marked(p)


def c19_configs(quick):
    out = []

    def add(id, base, pool=(), len=0, pages=PAGES):
        out.append(dict(id=id, base={k: x for k, x in base.items() if k not in ('page', 'elems')}, pool=[*pool], len=len, pages=[*pages]))
    pool = visibility_pool()
    add('visibility', inp(), pool, 2 if quick else 3, ['help', 'adv', 'html', 'man'])
    add('visibility-more', inp(updates=True, meta=FULL, pos=[option(type='i32', desc='first'), option(type='path', list=True, desc='others')]),
        pool, 1 if quick else 2)
    add('visibility-subs', inp(updates=True, meta=dict(short='x'), subs=['build', 'run']), pool, 1 if quick else 2, ['help', 'adv', 'html', 'man', 'short', 'version'])
    typed = typed_options()
    for i, o in enumerate(typed):
        o.update(short=['x', '', 'y'][i % 3], long=['', 'long', 'id_2'][i % 3])
    for k in range(0, len(typed), 12):
        part = marked([dict(o) for o in typed[k:k + 12]])
        add(f'types-{k}', inp(), part, 1, ['help', 'html', 'man'])
    for i, o in enumerate(typed_options()):       # as positional options
        if not (o['defmsg'] or o['req']):
            p = dict(o, desc=['', 'Described.'][i % 2])
            p['def'] = p['def'] if p['list'] or i % 2 else ([''] if p['type'] in ('str', 'path') else p['def'])
            add(f'pos-{i}', inp(pos=([option(type='str', desc='The first.')] if i % 2 else []) + [p]), pages=['help', 'html', 'man'])
    fields = [k for k in META if k not in ('app', 'man_section')]
    subsets = [()] + [(f,) for f in fields] + [tuple(fields)] + [tuple(g for g in fields if g != f) for f in fields]
    if not quick:
        subsets += [*itertools.combinations(fields, 2)]
        subsets += [tuple(g for g in fields if g not in p) for p in itertools.combinations(fields, 2)]
    else:
        subsets += [p for i, p in enumerate(itertools.combinations(fields, 2)) if i % 4 == 0]
    for i, sset in enumerate(subsets):
        add(f'meta-{i}', inp(tty=i % 3 == 0, updates=i % 2 == 0, meta={f: FULL[f] for f in sset} | dict(man_section=i % 9, app=('app', 'My_App', 'x-y')[i % 3])))
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Complete\nINVARIANT Emit\n'
TEXT_CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(f'INVARIANT {i}\n' for i in ('Unlost', 'Fits', 'Balanced', 'NoRequest', 'WidthIsLength'))
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'


def clean(s):
    """The page as the specification writes it (TLC's strings are ASCII)."""
    s = s.encode('latin-1').decode('utf-8', 'replace')
    return re.sub(r'[^\x00-\x7f]', '?', s.replace('\x1b', '~'))


def words(s):
    return s.replace('\t', ' ').replace('\n', ' ').split(' ')


def failure(res):
    if res['end'] != 'exit' or res['code'] != 0:
        return f'no page: {res["end"]} {res["code"]} {res.get("what", "")!r} {res["stderr"][-200:]!r}'
    if res['stderr']:
        return f'output on stderr: {res["stderr"][:200]!r}'
    return None


def strip_html(x, s):
    if x['page'] in ('ctd', 'cwl'):         # the values of these have no counterpart in a tool description
        for e in x['elems']:
            if e['e'] == 'option' and (e['list'] or e['type'] == 'enum'):
                s = re.sub(r'(?m)^( *node %s \[[^\]]*\] ).*? \| ' % re.escape(e['long'] or e['short']), r'\1* | ', s)
        return s
    return s if x['page'] != 'html' or s.endswith('\n') else s + '\n'


def differs(x, lines, res, exact):
    w = failure(res)
    if w:
        return w
    got, exp = strip_html(x, clean(res['stdout'])), '\n'.join(lines) + '\n'
    if exact:
        if got == exp:
            return None
        a, b = exp.split('\n'), got.split('\n')
    else:
        a, b = [t for t in words(exp) if t], [t for t in words(got) if t]
        if a == b:
            return None
    for i, (p, q) in enumerate(zip(a + [None], b + [None])):
        if p != q:
            return f'{"line" if exact else "word"} {i + 1} of the page is {q!r} instead of {p!r} (before it: {a[max(0, i - 3):i]})'
    return 'the pages differ in length'


def shows(x):
    return dict(page=x['page'], width=x['width'], tty=x['tty'], subs=x['subs'], elements=[e.get('t') or e.get('long') or e.get('short') for e in x['elems']])


def replay(chk, exe, items, exact, part):
    """items: (in, lines, case)"""
    judge = lambda k, r: differs(items[k][0], items[k][1], r, exact)
    results = chk.run(exe, [c for _, _, c in items])
    bad = [k for k, r in enumerate(results) if judge(k, r)]
    for k, r, w in chk.confirm(exe, [c for _, _, c in items], bad, judge, limit=60):
        chk.violation(f'{shows(items[k][0])}: {w}', dict(case=items[k][2], expected=items[k][1], observed=r))
    chk.validated(len(items), part)
    kinds = chk.parts[part].setdefault('pages', {})
    for x, _, _ in items:
        kinds[x['page']] = kinds.get(x['page'], 0) + 1
    for k in range(len(items) // 2, min(len(items), len(items) // 2 + 2)):
        chk.sample(dict(argv=items[k][2]['argv'], **shows(items[k][0])))


def validate(chk, exe, cases, exact, part, env=None):
    """Runs the cases, records the pages and lets TLC accept or reject them."""
    def events(cs, rs):
        return [{'in': c['in'], 'lines': strip_html(c['in'], clean(r['stdout'])).split('\n')[:-1], 'aspect': 'exact' if exact else 'words'} for c, r in zip(cs, rs)]

    def verdict(ev, k):
        f = chk.write_nd(f'{part}-{k}.json'.replace(' ', '-'), ev)
        return chk.tlc('HelpTrace', TRACE_CFG, env={'SHARG_TRACE': f}, workers=1, expect_ok=False, name='HelpTrace', heap='2g')

    def first_rejected(ev, k):
        res = verdict(ev, k)
        if res.rc == 0:
            return None
        n = res.depth - 1 if res.depth else None
        if n is None or n >= len(ev):
            raise Broken('HelpTrace: ' + res.out[-1500:])
        return n
    results = chk.run(exe, cases, env=env)
    good, broken = [], []
    for i, r in enumerate(results):
        (broken if failure(r) else good).append(i)
    for i, r in zip(broken[:20], chk.run(exe, [cases[i] for i in broken[:20]], env=env)):
        if failure(r):
            chk.violation(f'{shows(cases[i]["in"])}: {failure(r)}', dict(case=cases[i], observed=r))
    n = max(1, min(JOBS, len(good) // 8))

    def shard(k):
        idx = good[k::n]
        bad = []
        while idx and len(bad) < 4:
            m = first_rejected(events([cases[i] for i in idx], [results[i] for i in idx]), k)
            if m is None:
                break
            bad.append(idx[m])
            idx = idx[m + 1:]
        return bad
    with cf.ThreadPoolExecutor(n) as ex:
        rejected = [i for b in ex.map(shard, range(n)) for i in b]
    for i in rejected:
        def judge(i, r):
            w = failure(r)
            if not w:
                res = verdict(events([cases[i]], [r]), 'again')
                if res.rc == 0:
                    return None
                w = differs(cases[i]['in'], res.lines[-1]['lines'], r, exact) if res.lines else res.out[-300:]
            return w or 'not a behaviour'
        for _, r, w in chk.confirm(exe, cases, [i], judge, env=env):
            chk.violation(f'{shows(cases[i]["in"])}: {w}', dict(case=cases[i], observed=r))
    chk.validated(len(cases), part)
    for c in cases[len(cases) // 2:len(cases) // 2 + 2]:
        chk.sample(dict(argv=c['argv'], **shows(c['in'])))


# ---- random programs -------------------------------------------------------------------------------------------------
CHARS = 'abcdefgXYZ0123456789_-./:;,!?()[]{}|%$#@^*+=`'
SPICE = ['\\fB', '\\fI', '\\fP', '\\-', '\\\\', '\\', '\\f', '\\fX', '\\"', '<', '>', '&', '"', "'", '.', '..', '\\fB\\fI', '\\e', '&lt;', '<b>', '%s', '\\n', "'\\fP", '\\fBb\\fP']


def rand_text(rng, n=None, spicy=True, blanks=' '):
    """Texts of words; some words are markup or special characters."""
    out = ''
    for i in range(rng.choice([1, 2, 3, 6, 12, 30]) if n is None else n):
        w = ''.join(rng.choice(CHARS) for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12] + ([20, 60, 110] if rng.random() < .1 else []))))
        if spicy and rng.random() < .25:
            k = rng.randrange(len(w) + 1)
            w = rng.choice([rng.choice(SPICE), w[:k] + rng.choice(SPICE) + w[k:]])
        out += w + (rng.choice(blanks) * rng.choice([1, 1, 1, 1, 2, 3]))
    if rng.random() < .5:
        out = out.strip()
    return (' ' if rng.random() < .05 else '') + out


def rand_in(rng, spicy, elems=None, **k):
    used = {'h', 'help', 'hh'}

    def ident():
        while True:
            s = rng.choice('abcdefgijklmnopqrstuvwxyz@ABCXYZ0129_')
            l = ''.join(rng.choice('abcdefgh_-XY09') for _ in range(rng.choice([2, 3, 5, 9, 20]))).lstrip('-_') + 'z'
            s, l = rng.choice([(s, ''), ('', l), (s, l)])
            if len(l) == 1:
                continue
            if not ({s, l} - {''}) & used:
                used.update({s, l} - {''})
                return s, l
    txt = lambda n=None: rand_text(rng, n, spicy) if rng.random() < .93 else ''
    short = lambda: rng.choice([txt(1), txt(2), 'plain', 'Two words'])
    typed = typed_options()

    def rand_option(positional=False):
        while True:
            o = dict(rng.choice(typed))
            if positional and (o['req'] or o['defmsg']):
                continue
            if not positional:
                o['short'], o['long'] = ident()
                o['adv'], o['hid'] = rng.random() < .2, rng.random() < .2
                if o['defmsg']:
                    o['defmsg'] = short() or 'm'
            o['chain'] = [dict(c, msg=txt(3)) if c['kind'] == 'dyn' else c for c in o['chain']]
            o['desc'] = txt()
            return o
    es = []
    for _ in range(rng.randrange(0, 9) if elems is None else elems):
        r = rng.random()
        adv = rng.random() < .25
        if r < .4:
            es.append(rand_option())
        elif r < .55:
            s, l = ident()
            es.append(flag(s, l, adv=adv, hid=rng.random() < .2, desc=txt()))
        elif r < .65:
            es.append(text('section', short(), adv=adv))
        elif r < .75:
            es.append(text('subsection', short(), adv=adv))
        elif r < .87:
            es.append(text('line', txt(), par=rng.random() < .5, adv=adv))
        else:
            es.append(text('item', rng.choice([short(), 'k', 'kk', 'abcd', 'abcde', '\\fBx\\fP', '']), desc=txt(), adv=adv))
    subs = rng.sample(['build', 'run', 'x', 'index-it'], rng.choice([1, 2])) if rng.random() < .2 else []
    pos = [] if subs else [rand_option(True) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    for i, p in enumerate(pos):
        if i + 1 < len(pos) and p['list']:
            pos[i] = option(type='str', desc=txt())
    m = {}
    for f in META:
        if f in ('synopsis', 'description', 'examples'):
            m[f] = [txt() if f != 'synopsis' else 'app ' + txt(2) for _ in range(rng.choice([0, 1, 2]))]
        elif f == 'man_section':
            m[f] = rng.randrange(1, 10)
        elif f == 'app':
            m[f] = rng.choice(['app', 'My_App', 'x9', 'a-b'])
        elif f in ('version', 'date', 'man_title'):
            m[f] = rng.choice(['', '1.0.0', 'May 2024', 'some words'])
        else:
            m[f] = txt(rng.choice([1, 3, 8])) if rng.random() < .5 else ''
    return inp(**{**dict(meta=m, subs=subs, pos=pos, elems=es, updates=rng.random() < .5), **k})


def terminal(rng):
    tty = rng.random() < .6
    return dict(tty=tty, width=rng.choice([0, 1, 39, 40, 41, 60, 79, 80, 81, 100, 119, 120, 121, 200, 1000, 65535, rng.randrange(38, 124)]) if tty else 0)


def random_cases(rng, n, spicy, pages=PAGES):
    out = []
    for i in range(n):
        page = pages[i % len(pages)]
        x = rand_in(rng, spicy, page=page, **terminal(rng))
        sub = page != 'short' and rng.random() < .15
        if sub:
            words = rng.choice([['run'], ['go'], ['index', 'show'], ['a', 'b', 'c']])
            x['exe'] = ['/usr/bin/program', *words]
            x['meta']['app'], x['updates'] = '-'.join([rng.choice(['top', 'my-top']), *words]), False
        out.append(case(x, rng.randrange(2), through=sub, move=rng.random() < .2))
    return out


def enumerated(chk, cfgs, name='HelpPages'):
    by = {c['id']: c for c in cfgs}
    r = chk.tlc('MCHelp', CFG, env={'SHARG_CONFIGS': chk.write_json('configs.json', cfgs)}, name=name)
    items = []
    for i, p in enumerate(r.lines):
        c = by[p['c']]
        x = dict(c['base'], page=p['page'], elems=[c['pool'][k - 1] for k in p['own']])
        items.append((x, p['lines'], case(x, i, move=i % 5 == 4)))
    return items


def check_C19(chk):
    fut = chk.build_async('h_help', ['h_help.cpp'])
    items = enumerated(chk, c19_configs(chk.quick))
    exe = fut.result()
    replay(chk, exe, items, False, 'replay')
    validate(chk, exe, random_cases(chk.rng, 350 if chk.quick else 8000, False), False, 'random pages')
    chk.assumptions += ['pages are compared word by word (their layout is C20)', 'standard output is replaced by a file, the terminal by a stand-in',
                        'type names are those of the Itanium demangler']


# ---- C25 -------------------------------------------------------------------------------------------------------------
TOOL = ['ctd', 'cwl']


def tool_configs(quick):
    out = [dict(c, pages=TOOL + ['help'] * (i % 9 == 0)) for i, c in enumerate(c19_configs(quick)) if c['id'] != 'visibility-more']
    pool = marked([option('a', 'aa', 'i32', adv=True, req=True), option('b', '', 'str', desc='short only'), option('', 'cc', 'path', chain=[v('infile')]),
                   option('d', '', 'path', chain=[v('outany', 'fa')], adv=True, req=True), option('', 'ee', 'path', chain=[v('indir')]),
                   option('f', 'ff', 'path', chain=[v('outdir')], req=True), option('g', 'gg', 'path', list=True, chain=[v('infile')]), option('i', 'ii', 'i32', hid=True),
                   flag('j', ''), flag('', 'kk', adv=True), flag('l', 'll', hid=True), text('line', 'a line')])
    base = {k: x for k, x in inp(meta=FULL, pos=[option(type='path', chain=[v('infile')]), option(type='u8', list=True, default=['4', '9'])]).items() if k not in ('page', 'elems')}
    out.append(dict(id='tool', base=base, pool=pool, len=3 if quick else 4, pages=TOOL))
    for c in out:
        c['base']['exports'] = '[html, man, ctd, cwl]'
    return out


def check_C25(chk):
    fut = chk.build_async('h_tool', ['h_help.cpp'], ['-DSHARG_HAS_TDL=1', '-I', os.path.join(HARNESS, 'stub')])
    items = enumerated(chk, tool_configs(chk.quick), name='tool descriptions')
    exe = fut.result()
    replay(chk, exe, items, True, 'replay')
    cases = random_cases(chk.rng, 300 if chk.quick else 8000, False, TOOL)
    for c in cases:
        c['in']['exports'] = '[html, man, ctd, cwl]'
    validate(chk, exe, cases, True, 'random tools')
    chk.assumptions += ['the library that writes CTD and CWL documents is not present: harness/stub/tdl/tdl.h stands in for it and lists what it is given',
                        'flags have no command line mapping (the existing tests demand that); values of lists and enumerations have no counterpart']


# ---- C20 -------------------------------------------------------------------------------------------------------------
ALPHABETS = [(['a', ' ', '\\', 'f', 'B', 'I', 'P', '-'], 4, 5), (['a', ' ', '\\', '"', '.', "'", '\n', '<', '&', '>'], 3, 4)]


def enum_texts(quick):
    out = []
    for chars, q, t in ALPHABETS:
        for n in range(0, (q if quick else t) + 1):
            out += [''.join(p) for p in itertools.product(chars, repeat=n)]
    return list(dict.fromkeys(out))


def text_cases(rng, texts, size=40):
    """Many texts in one page, in all places where a page takes a text."""
    rng.shuffle(texts)
    out = []
    for k in range(0, len(texts), size):
        ts = texts[k:k + size]
        es, desc, ex, syn = [], [], [], []
        meta = dict(META)
        for i, t in enumerate(ts):
            place = (i + k) % 10
            if place < 2:
                es.append(text('line', t, par=place == 1))
            elif place < 4:
                es.append(text('item', 'key' if place == 2 else 'long key', desc=t))
            elif place == 4:
                es.append(text('item', t, desc='d'))
            elif place == 5:
                es.append(option('', f'id{i}', 'i32', desc=t))
            elif place == 6:
                es.append(flag('', f'id{i}', desc=t))
            elif place == 7:
                (desc if i % 2 else ex).append(t)
            elif place == 8:
                es.append(option('', f'id{i}', 'f64', chain=[v('dyn', msg=t)]))
            else:
                f = ('short_copyright', 'long_copyright', 'citation', 'author', 'email', 'url', 'short')[(i // 10) % 7]
                if '\n' not in t:
                    meta[f] = t
                syn.append('app ' + t)
        meta.update(description=desc, examples=ex, synopsis=syn)
        for page in ('adv', 'html', 'man') + (('copyright',) if k % 5 == 0 else ()):
            tty = page == 'adv' and (k // size) % 2 == 0
            out.append(case(inp(page, width=rng.choice([40, 41, 80, 120]) if tty else 0, tty=tty, meta=meta, elems=es)))
    return out


def width_cases(rng, n):
    """Texts whose words end around the width of the terminal."""
    out = []
    for k in range(n):
        width = 38 + k % 86
        eff = min(max(width, 40), 120) - 2
        es = []
        for _ in range(8):
            indent = rng.choice([4, 10])
            room, ws = eff - indent, []
            while sum(map(len, ws)) + len(ws) < room * 3:
                left = room - (sum(map(len, ws)) + len(ws)) % (room + 1)
                m = rng.choice([left - 1, left, left + 1, 3, 5, 8, room - 1, room, room + 1, 1])
                w = 'x' * max(1, m)
                ws.append(rng.choice([w, w, '\\fB' + w + '\\fP', w[:-1] + '\\-', w[:len(w) // 2] + '\\fI' + w[len(w) // 2:], w[:-1] + '\\', w[:-2] + '\\e', w[:-3] + '\\fx', w[:-2] + '\\f']))
            t = ' '.join(ws)
            es.append(text('line', t, par=rng.random() < .5) if indent == 4 else text('item', rng.choice(['k', 'longer', 'abcd', 'ab\\-', '\\fBa\\fP']), desc=t))
        out.append(case(inp(rng.choice(['help', 'adv']), width=width, tty=True, elems=es)))
    return out


def check_C20(chk):
    fut = chk.build_async('h_help', ['h_help.cpp'])
    alph = [dict(chars=c, len=q if chk.quick else t, widths=[5, 7]) for c, q, t in ALPHABETS]
    chk.tlc('MCText', TEXT_CFG, env={'SHARG_CONFIGS': chk.write_json('text.json', alph)}, name='HelpPages (texts)')
    exe = fut.result()
    texts = enum_texts(chk.quick)
    validate(chk, exe, text_cases(chk.rng, texts), True, 'all texts')
    chk.parts['all texts']['texts'] = len(texts)
    validate(chk, exe, width_cases(chk.rng, 86 if chk.quick else 1500), True, 'widths')
    validate(chk, exe, random_cases(chk.rng, 200 if chk.quick else 6000, True), True, 'random pages')
    chk.assumptions += ['texts are ASCII without "~" (which stands for ESC)', 'standard output is replaced by a file, the terminal by a stand-in']


TEXT = {'C19': ('TLA+ model checking (TLC) of the contents of all pages over sequences of elements, every page replayed in the real parser; random '
                'programs validated against the TLA+ trace specification',
                'Sequences of up to 2 (quick) or 3 (thorough) of 19 elements with all combinations of hidden and advanced, all supported types, validators '
                'and subsets of the meta data, in all formats; compared word by word. Assumes the demangler\'s type names.'),
        'C20': ('TLA+ model checking (TLC) of the text layout over all texts of two alphabets; recorded pages of the real parser validated against the '
                'TLA+ trace specification, character by character',
                'All texts up to length 4/3 (quick) or 5/4 (thorough) of two alphabets of special characters in ten places of the pages, all terminal widths '
                '38..123, random programs. ASCII texts only.'),
        'C25': ('TLA+ model checking (TLC) of the contents of tool descriptions over sequences of elements, every description replayed in the real parser; '
                'random programs validated against the TLA+ trace specification',
                'Sequences of up to 3 (quick) or 4 (thorough) elements with all combinations of hidden, advanced and required, all supported types and file '
                'validators, subsets of the meta data, subcommands. The TDL library is replaced by a stand-in that lists the description.')}
