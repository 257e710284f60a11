"""Lives of parser objects (spec/Lifecycle.tla): C09 (declarations) and C22 (order of calls, moves)."""
import json
import parse, randgen
from vh import Broken
from progs import *

SOURCES = ['h_api.cpp', *parse.LIGHT[1:]]


def call(fn, **k):
    c = dict(fn=fn)
    if fn in ('option', 'flag', 'positional'):
        c.update(short='', long='', type='str', list=False, req=False, adv=False, hid=False, defmsg='', chain=[], true=False)
        c.update(k)
        if 'def' not in c:
            c['def'] = [] if c['list'] else ['-1'] if c['type'] == 'i32' else ['dflt']
        return c
    c.update(k)
    return c


CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT OnlyOnce
INVARIANT NothingAfter
INVARIANT Sane
PROPERTY WrittenOnlyByParse
PROPERTY MovesAreSilent
INVARIANT Emit
'''
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'


def enumerate_lives(chk, configs, simulate=None):
    f = chk.write_json('lives.json', configs)
    args = ()
    if simulate:
        args = ('-simulate', f'num={simulate[0]}', '-depth', str(simulate[1]), '-seed', str(chk.seed))
    r = chk.tlc('MCLifecycle', CFG, env={'SHARG_CONFIGS': f}, args=args, name='Lifecycle' + (' simulation' if simulate else ''),
                workers=1 if simulate else 8)
    if not simulate:
        return r.lines
    seen = {}
    for v in r.lines:
        seen[(v['c'], *v['h'])] = v
    return list(seen.values())


def res_differs(exp, obs):
    k = exp['kind']
    if k == 'any':
        return None if obs['kind'] in 'tf' else f'{obs} instead of an answer'
    if k == 'err':
        if obs['kind'] != 'err':
            return f'returned normally ({obs["kind"]}), expected {exp["classes"]}'
        if obs['class'] not in exp['classes']:
            return f'threw {obs["class"]}, expected {exp["classes"]}'
        return 'empty message' if obs['emptymsg'] else None
    return None if obs['kind'] == k else f'{obs["kind"]} {obs["class"]}, expected {k}'


def differs(v, calls, res):
    last = v['res'][-1]
    shown = [c['fn'] for c in calls]
    if last['kind'] == 'page':
        if res['end'] != 'exit':
            return f'{shown}: expected page {last["page"]}, got {res.get("results", [res["end"]])[-1]}'
        if res['phase'] != len(calls) or res['code'] != 0 or res['stderr'] or parse.page_of(res['stdout']) != last['page']:
            return f'{shown}: expected page {last["page"]}, got exit {res["code"]} in call {res["phase"]}: {res["stdout"][:80]!r} {res["stderr"][:80]!r}'
        return None
    if res['end'] != 'return':
        return f'{shown}: the program ended by {res["end"]} {res["code"]} in call {res["phase"]}: {res["stderr"][-300:]!r}'
    if res['stdout'] or res['stderr']:
        return f'{shown}: unexpected output {res["stdout"][:80]!r} {res["stderr"][:80]!r}'
    for i, (e, o) in enumerate(zip(v['res'], res['results'])):
        w = res_differs(e, o)
        if w:
            return f'call {i + 1} of {shown} ({calls[i]}): {w}'
    if res['changed']:
        return f'{shown}: variables changed outside of parse(), in call {res["changed"][0] + 1}'
    for i, (e, o) in enumerate(zip(v['cells'], res['cells'])):
        if e != ['any'] and e != o:
            return f'{shown}: the variable of call {i + 1} ({calls[i]}) is {o}, expected {e}'
    return None


def replay(chk, exe, configs, vectors, part, variant=lambda i: {}):
    by = {c['id']: c for c in configs}
    cases = []
    for i, v in enumerate(vectors):
        cfg = by[v['c']]
        cases.append(dict(app=v['app'], argv=v['argv'], subs=v['subs'], calls=[cfg['calls'][h - 1] for h in v['h']], ctor=i % 2, **variant(i)))

    def judge(i, r):
        return differs(vectors[i], cases[i]['calls'], r)
    env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1'}
    results = chk.run(exe, cases, env=env)
    bad = [i for i, r in enumerate(results) if judge(i, r)]
    for i, r, w in chk.confirm(exe, cases, bad, judge, env=env):
        chk.violation(f"app {cases[i]['app']!r}, arguments {cases[i]['argv']}: {w}", dict(case=cases[i], expected=vectors[i], observed=r))
    chk.validated(len(cases), part)
    for i in range(len(cases) // 2, min(len(cases), len(cases) // 2 + 2)):
        chk.sample(dict(app=cases[i]['app'], argv=cases[i]['argv'], calls=[c['fn'] for c in cases[i]['calls']],
                        expected=[r['kind'] for r in vectors[i]['res']]))
    kinds = {}
    for v in vectors:
        k = v['res'][-1]['kind']
        kinds[k] = kinds.get(k, 0) + 1
    chk.parts[part]['last result'] = kinds


# ---- C09 ---------------------------------------------------------------------------------------------------------------
ALNUM = [chr(c) for c in (*range(48, 58), *range(65, 91), *range(97, 123))]


def c09_configs(quick):
    bools = (False, True)
    single = []
    for c in range(1, 256):       # every short identifier
        for fn in ('option', 'flag'):
            single.append(call(fn, short=chr(c)))
            if c % 7 == 0:
                single.append(call(fn, short=chr(c), long='long-id'))
    chars = ['a', 'B', '0', '_', '@', '-', '.', ' ', '=', '\u00e4', '\n', 'h']
    longs = chars + [a + b for a in chars for b in chars]
    longs += [a + b + c for a in 'aB0_@-' for b in chars for c in (chars if not quick else 'a-@. \n')]
    longs += ['x' + chr(c) + 'y' for c in range(1, 256)] + ['ab' + chr(c) for c in range(1, 256)] + ['a' * 200, 'a' * 199 + '!']
    longs += ['h', 'hh', 'help', 'advanced-help', 'export-help', 'version', 'copyright', 'helpx', 'hel', 'Help', 'VERSION', 'h-h',
              'version-checks', 'advanced-hel', 'copyrigh', 'export_help']
    for i, l in enumerate(longs):
        for fn in ('option', 'flag') if not quick or len(l) < 3 or i % 3 == 0 else (('option', 'flag')[i % 2],):
            single.append(call(fn, long=l))
    for i, l in enumerate(longs[:160]):
        single.append(call(('option', 'flag')[i % 2], short='s', long=l))
    for s in ('', 'a', '-', '!', 'h'):
        for l in ('', 'lo', '-l', 'l', 'help'):
            for m in ('', 'msg'):
                for req in bools:
                    for adv in bools:
                        for hid in bools:
                            single.append(call('option', short=s, long=l, defmsg=m, req=req, adv=adv, hid=hid, list=adv))
                            for t in bools:
                                single.append(call('flag', short=s, long=l, defmsg=m, req=req, adv=adv, hid=hid, true=t))
                            if l in ('', 'lo', '-l') and s in ('', 'a', '-'):
                                single.append(call('positional', short=s, long=l, defmsg=m, req=req, adv=adv, hid=hid, list=not hid))
    out = [dict(id='single', app='app', argv=['x'], subs=[], calls=single, depth=1),
           dict(id='single-sub', app='app', argv=['x'], subs=['x'], depth=2,
                calls=[call('parse')] + [c for c in single if c['fn'] == 'positional'][:40] + [call('subcommands', names=['y']), call('option', short='x')])]
    seq = [call('option', short='a', long='aa'), call('flag', short='a'), call('option', long='aa', list=True), call('flag', short='A', long='aaa'),
           call('option', short='b', long='a-'), call('flag', short='b', long='b@', true=True), call('option', short='h'), call('flag', long='help'),
           call('option', short='c', long='c'), call('flag', short='d', long='bb', defmsg='m'), call('positional'), call('positional', list=True),
           call('positional', defmsg='m'), call('positional', list=True, short='p'), call('option', short='e', long='ee', req=True, defmsg='m'),
           call('subcommands', names=['x', 'y']), call('subcommands', names=[]), call('parse'), call('option', short='b', long='bb', req=True)]
    out.append(dict(id='sequences', app='app', argv=['x'], subs=[], calls=seq, depth=3 if quick else 4))
    out.append(dict(id='sequences-sub', app='app', argv=['-a', 'v', 'x', '-a'], subs=['x'], calls=seq, depth=2 if quick else 3))
    # application and subcommand names
    names = ['app', 'a', 'A-b_c0', '-', '_', '--', '', ' ', 'a b', 'a.b', 'a;b', 'a$b', '$(x)', '`x`', 'a\n', '\na', 'a\nb', 'a/b', '../a', 'a|b',
             'a&', "a'b", 'a"b', 'a\\b', 'a=b', 'a@b', 'a:b', '\u00e4', 'a\x01', 'a\r', 'a\t', '~', '*', 'a' * 300, 'a>b', 'a%', '#a', 'a+b', '0']
    names += ['a' + chr(c) for c in range(1, 256)] + [chr(c) for c in range(33, 127)]
    for i, n in enumerate(names):
        out.append(dict(id=f'name{i}', app=n, argv=[] if i % 2 else ['--version'], subs=[], calls=[call('parse'), call('flag', short='f'), call('move')], depth=2))
        out.append(dict(id=f'sub{i}', app='app', argv=[n] if i % 2 else ['go'], subs=['go', n],
                        calls=[call('subcommands', names=['zz', n]), call('parse'), call('sub')], depth=3 if i % 2 else 2))
    return out


def c22_configs(quick):
    d = quick
    base = [call('option', short='a', long='aa', type='i32'), call('flag', short='f'), call('positional', list=True), call('section'),
            call('subsection'), call('line'), call('list_item'), call('subcommands', names=['s', 't']), call('parse'), call('move'),
            call('assign'), call('sub'), call('query', id='-a')]
    out = []
    for i, argv in enumerate((['-a', '1'], ['-z'], ['-a', '7', 's', '-f', 'q'], ['x', 'y', '-f'])):
        out.append(dict(id=f'all{i}', app='app', argv=argv, subs=[], calls=base, depth=3 if d else 4))
    few = [call('option', short='a', long='aa'), call('positional'), call('parse'), call('move'), call('assign'), call('query', id='--aa'), call('line')]
    for i, argv in enumerate((['--aa=q', 'r'], ['r'], ['--aa', 's', 't', 'u'])):
        out.append(dict(id=f'few{i}', app='app', argv=argv, subs=[], calls=few, depth=(5 if i == 0 else 4) if d else 6))
    subs = [call('option', short='a'), call('parse'), call('move'), call('sub'), call('assign'), call('query', id='-a'), call('flag', short='f')]
    for i, argv in enumerate((['-a', 's', 's', '-a', 'w'], ['s'], ['-f', 's', '-f', '-a', '--'], ['-a', 'x'], ['u'], ['-f', '--', 's', '-f'])):
        out.append(dict(id=f'sub{i}', app='app', argv=argv, subs=['s'], calls=subs, depth=(5 if i == 0 else 4) if d else 6))
    return out


def check_lives(chk, configs, sim_depth, flags):
    fut = chk.build_async('h_api', SOURCES, ['-DVH_LIGHT', *flags])
    vectors = enumerate_lives(chk, configs)
    sim = enumerate_lives(chk, [c for c in configs if c['depth'] > 2 or len(c['calls']) > 10], (100 if chk.quick else 3000, sim_depth)) if sim_depth else []
    exe = fut.result()
    replay(chk, exe, configs, vectors, 'replay')
    replay(chk, exe, configs, sim, 'long lives')
    random_lives(chk, exe, 400 if chk.quick else 8000)


def random_lives(chk, exe, count):
    """Seeded random call sequences in the real parser; the recorded lives are validated by TLC."""
    rng = chk.rng
    cases = []
    for _ in range(count):
        d = randgen.rand_decl(rng, ['str', 'i32'], ['str', 'i32'], subs=.3, chains=0)
        calls = []
        for o in d['opts']:
            calls.append(call('option', short=o['short'], long=o['long'], type=o['type'], list=o['list'], req=o['req'], adv=rng.random() < .2,
                              hid=rng.random() < .2, **{'def': o['def']}))
        for f in d['flags']:
            calls.append(call('flag', short=f['short'], long=f['long'], hid=rng.random() < .2))
        for p in d['pos']:
            calls.append(call('positional', type=p['type'], list=p['list']))
        lists = [c for c in calls if c['fn'] == 'positional']
        rest = [c for c in calls if c['fn'] != 'positional']
        rng.shuffle(rest)
        calls = rest + lists if rng.random() < .7 else lists + rest
        bad = [lambda: call('option', short=rng.choice('!.- h='), long=rng.choice(['', 'ok'])),
               lambda: call('flag', long=rng.choice(['x', '-xx', 'x x', 'help', 'x.y', 'version'])),
               lambda: call('option', long='zzz', req=True, defmsg='m'), lambda: call('flag', short='Z', true=True),
               lambda: call('positional', short='Y'), lambda: call('positional', hid=True)]
        extra = [lambda: call('move'), lambda: call('assign'), lambda: call('line'), lambda: call('section'), lambda: call('list_item'), lambda: call('subsection')]
        for _ in range(rng.randint(0, 4)):
            calls.insert(rng.randint(0, len(calls)), rng.choice(bad + extra * 2)())
        calls.append(call('parse'))
        ids = ['-' + o['short'] for o in d['opts'] if o['short']] + ['--' + o['long'] for o in d['opts'] if o['long']]
        for _ in range(rng.randint(0, 5)):
            calls.append(rng.choice(extra + bad[:2] + [lambda: call('parse'), lambda: call('sub')]
                                    + [lambda: call('query', id=rng.choice(ids + ['-z', '--undeclared', 'o']))] * 4)())
        cases.append(dict(app=d['app'], argv=[a or 'e' for a in randgen.rand_argv(rng, d, rng.randint(0, 6))], subs=[s['name'] for s in d['subs']], calls=calls, full=True))
    env = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1'}

    def events(c, r):
        yield dict(e='new', app=c['app'], argv=c['argv'], subs=c['subs'])
        if r['end'] == 'return':
            rs = r['results']
        else:
            rs = json.loads(r['note']) if r['note'] else []
            last = dict(kind='page' if r['end'] == 'exit' and r['code'] == 0 and not r['stderr'] else r['end'], cells=[],
                        page=parse.page_of(r['stdout']), **{'class': ''})
            rs = rs + [last]
        for k, x in enumerate(rs):
            yield dict(e='call', call=c['calls'][k], res=dict(kind=x['kind'], page=x['page'], **{'class': x['class']}), cells=x['cells'])

    def rejected(idx, results, tag):
        """The first case of the given ones that is no behaviour of the specification."""
        evs, owner = [], []
        for i in idx:
            for e in events(cases[i], results[i]):
                evs.append(e)
                owner.append(i)
        f = chk.write_nd(f'lives-{tag}.json', evs)
        r = chk.tlc('LifecycleTrace', TRACE_CFG, env={'SHARG_TRACE': f}, workers=1, expect_ok=False, name='LifecycleTrace')
        if r.rc == 0:
            return None
        if 'ostcondition' not in r.out:
            raise Broken('LifecycleTrace: ' + r.out[-3000:])
        return owner[min(r.depth - 1, len(owner) - 1)]
    results = chk.run(exe, cases, env=env)
    # calls whose effect is not specified end the comparison: drop such cases by asking the specification
    todo = list(range(len(cases)))
    while todo and len(chk.violations) < 5:
        i = rejected(todo, results, 'all')
        if i is None:
            break
        def judge(i, r):
            return '' if rejected([i], {i: r}, 'one') is None else 'not a behaviour'
        for _, r, w in chk.confirm(exe, cases, [i], judge, env=env):
            chk.violation(f'the recorded life of a parser is not a behaviour of the specification: arguments {cases[i]["argv"]}, calls '
                          f'{[c["fn"] for c in cases[i]["calls"]]}: {r.get("results", r["end"])}'[:1500],
                          dict(case=cases[i], observed=r))
        todo = todo[todo.index(i) + 1:]
    chk.validated(len(cases), 'random lives')


def check_C09(chk):
    check_lives(chk, c09_configs(chk.quick), 0, [])
    chk.assumptions += ['identifiers of rejected declarations are not used again (whether they count as used is not specified)',
                        'declaring subcommands behind positional options and the identifier version-check are not specified']


def check_C22(chk):
    check_lives(chk, c22_configs(chk.quick), 9, ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-g1'])
    chk.assumptions += ['queries for options after a failed parse() are only required to answer',
                        'the driver is built with AddressSanitizer and UndefinedBehaviorSanitizer: dangling references of moved parsers are noticed']


TEXT = {
    'C09': ('TLA+ model checking (TLC) of the life of a parser object; all enumerated declaration sequences replayed on the real class, recorded '
            'random call sequences validated against the TLA+ trace specification',
            'Every single-byte short identifier, long identifiers over a 12 character alphabet up to length 3 and every byte inside, all attribute '
            'combinations, all declaration sequences of length 3 over 19 declarations, application and subcommand names with every byte.'),
    'C22': ('TLA+ model checking (TLC) of the life of a parser object; all enumerated call sequences replayed on the real class (sanitizer build), '
            'recorded random lives validated against the TLA+ trace specification',
            'All call sequences up to the stated length over 13 calls and several command lines, long random walks of the specification, random '
            'lives; variables are compared after every call; moves by construction and assignment anywhere.'),
}
