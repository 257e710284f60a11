"""The command line machine (spec/Parser.tla) against the real parser: C01..C08, C11, C12, C21."""
import json, os, re
from vh import Broken
from progs import *

LIGHT = ['h_parse.cpp', 'cells_int.cpp', 'cells_int2.cpp', 'cells_real.cpp', 'cells_str.cpp', 'cells_list.cpp',
         'cells_list2.cpp']

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT Conservation
INVARIANT Balanced
INVARIANT Untouched
INVARIANT PageJustified
INVARIANT SubIsolation
INVARIANT OrderIndependent
INVARIANT Ends
{dd}
INVARIANT Emit
'''


def page_of(text):
    if text.startswith('<!DOCTYPE') or text.startswith('<html'):
        return 'html'
    if text.startswith('.TH'):
        return 'man'
    if text.startswith('====='):
        return 'copyright' if 'Copyright information' in text else '?'
    if 'Try -h or --help for more information.' in text:
        return 'shorthelp'
    if '\nOPTIONS\n' in text:
        return 'advhelp' if 'advmark' in text else 'help'
    if '\nVERSION\n' in text:
        return 'version'
    return '?'


def has_adv(decl):
    return any(f['long'] == 'advmark' for f in decl['flags'])


def seteq(a, b):
    return sorted(a) == sorted(b)


def prefix_ok(actual, expected):
    return all(len(a) <= len(e) and e[:len(a)] == a for a, e in zip(actual, expected))


def calls_ok(actual, expected):
    return len(actual) == len(expected) and all(a == e for a, e in zip(actual, expected))


def strip(fr):
    return {k: fr[k] for k in ('name', 'opts', 'flags', 'pos')}


def norm_calls(frames_calls):
    return [[dict(v=c['v'], vals=c['vals']) for c in o] for o in frames_calls]


def differs(exp, res, decl, aspects):
    """None, or what is wrong. aspects: which parts of the outcome are judged."""
    kind = exp['kind']
    if res['end'] in ('signal', 'timeout'):
        return f"parse() ended by {res['end']} {res['code']}"
    if kind == 'page':
        if res['end'] != 'exit':
            return f"expected page {exp['page']} and exit, got {res.get('kind')} {res.get('class')}"
        if res['code'] != 0:
            return f"exit code {res['code']} instead of 0"
        if res['phase'] != exp['at']:
            return f"exit in phase {res['phase']} (1000+n: after the n-th parse()), expected in parse() number {exp['at']}"
        got = page_of(res['stdout'])
        d = decl
        want = exp['page']
        if got != want and not ({got, want} == {'help', 'advhelp'} and not has_adv(d)):
            return f'expected page {want}, printed {got}: {res["stdout"][:200]!r}'
        if res['stderr']:
            return f'page written with messages on stderr: {res["stderr"][:200]!r}'
        return None
    if res['end'] == 'exit':
        return f"expected {kind} {exp['classes']}, but the process exited with {res['code']} and printed {page_of(res['stdout'])}"
    if res['stdout'] or res['stderr']:
        return f"unexpected output {res['stdout'][:100]!r} {res['stderr'][:100]!r}"
    if kind == 'err':
        if res['kind'] != 'err':
            return f"expected one of {sorted(exp['classes'])}, but parse() returned normally with {res['frames']}"
        if res['class'] not in exp['classes']:
            return f"threw {res['class']}, but only {sorted(exp['classes'])} is justified"
        if res['at'] != exp['at']:
            return f"parse() number {res['at']} threw, expected number {exp['at']}"
        if res['emptymsg']:
            return 'exception with empty message'
    else:
        if res['kind'] != 'ok':
            return f"expected success, but parse() number {res['at']} threw {res['class']}"
        if len(res['frames']) != len(exp['frames']):
            return f"{len(res['frames'])} parsers instead of {len(exp['frames'])}"
    if any(x != 'design_error' for x in res.get('early', [])):
        return f"is_option_set() before parse(): {res['early']}"
    for i, fr in enumerate(res['frames']):
        if i >= len(exp['frames']):
            return f'unexpected parser {fr["name"]}'
        ex = exp['frames'][i]
        complete = kind == 'ok' or i + 1 < exp['at']
        if 'values' in aspects and complete:
            for k in ('name', 'opts', 'flags', 'pos'):
                if fr[k] != ex[k]:
                    return f'parser {i + 1}: {k} = {fr[k]}, expected {ex[k]}'
        if 'set' in aspects and complete:
            if not seteq(fr['set'], ex['set']):
                return f"parser {i + 1}: is_option_set is true for {sorted(fr['set'])}, expected {sorted(ex['set'])}"
            if fr['badprobes']:
                return f"parser {i + 1}: is_option_set answers {fr['badprobes']}"
        if 'calls' in aspects:
            for k in ('ocalls', 'pcalls'):
                a, e = norm_calls(fr[k]), norm_calls(ex[k])
                if complete and a != e:
                    return f'parser {i + 1}: validator calls {a}, expected {e}'
                if not complete and not prefix_ok(a, e):
                    return f'parser {i + 1}: validator calls {a} are no prefix of {e}'
    return None


def decls_of(programs):
    return [dict(id=p['id'], decl=p['decl']) for p in programs]


def enumerate_vectors(chk, programs, simulate=None, name=None):
    """programs: [{id, decl, alphabet, depth, permdepth}]; returns the vectors printed by TLC."""
    for p in programs:
        p.setdefault('permdepth', 3)
    cfgs = chk.write_json('configs.json', programs)
    args = ()
    workers = 8
    if simulate:
        num, depth = simulate
        args = ('-simulate', f'num={num}', '-depth', str(depth), '-seed', str(chk.seed), )
        workers = 1 if num <= 200 else 8
    r = chk.tlc('MCParser', CFG.format(dd='' if simulate else 'PROPERTY AfterDD'), env={'SHARG_CONFIGS': cfgs},
                args=args, workers=workers, name=name or 'Parser')
    if simulate:
        seen = set()
        out = []
        for v in r.lines:
            k = (v['c'], *v['argv'])
            if k not in seen:
                seen.add(k)
                out.append(v)
        return out
    return r.lines


def replay(chk, exe, programs, vectors, aspects=('values', 'set', 'calls'), variants=lambda i, v: {}, part='replay',
           known=None, env=None):
    """Runs every vector in the real parser and compares the outcomes."""
    decls = {p['id']: p['decl'] for p in programs}
    dfile = chk.write_nd('decls.json', decls_of(programs))
    cases = []
    for i, v in enumerate(vectors):
        c = dict(c=v['c'], argv=v['argv'])
        c.update(variants(i, v) or {})
        cases.append(c)

    def judge(v, res):
        w = differs(v['out'], res, decls[v['c']], aspects)
        if w and v['alt'] and not differs(v['alt'][0], res, decls[v['c']], aspects):
            # recorded deviation: empty positional arguments are dropped
            return None if chk.prop != 'C02' or chk.known_finding('empty-positional') else w
        return w
    results = chk.run(exe, cases, extra=(dfile,), env=env)
    bad = [i for i, (v, r) in enumerate(zip(vectors, results)) if judge(v, r)]
    for i, r, w in chk.confirm(exe, cases, bad, lambda i, r: judge(vectors[i], r), extra=(dfile,), env=env):
        chk.violation(f"program {cases[i]['c']}, arguments {cases[i]['argv']}: {w}",
                      dict(case=cases[i], decl=decls[cases[i]['c']], expected=vectors[i]['out'], observed=r))
    chk.validated(len(cases), part)
    kinds = {}
    for v in vectors:
        k = v['out']['kind']
        kinds[k] = kinds.get(k, 0) + 1
    chk.parts[part] = dict(chk.parts.get(part, {}), outcomes=kinds)
    for v in vectors[len(vectors) // 2:len(vectors) // 2 + 2]:
        chk.sample(dict(program=v['c'], argv=v['argv'], expected=v['out']['kind'], classes=v['out']['classes'],
                        page=v['out']['page']))
    return results


# ---- trace validation ------------------------------------------------------------------------------------------------
def observed(res):
    """The recorded outcome in the form that ParserTrace.tla expects."""
    if res['end'] == 'exit':
        return dict(kind='page', page=page_of(res['stdout']), at=res['phase'], clean=res['code'] == 0 and not res['stderr'],
                    **{'class': ''}, frames=[])
    if res['end'] != 'return':
        return dict(kind=res['end'], page='', at=0, clean=False, frames=[], **{'class': ''})
    clean = not res['stdout'] and not res['stderr'] and not res['emptymsg'] and all(x == 'design_error' for x in res['early'])
    fr = []
    for f in res['frames']:
        f = dict(f)
        f.setdefault('set', [])
        f.setdefault('badprobes', [])
        fr.append(f)
    return dict(kind=res['kind'], page='', at=res['at'], clean=clean, frames=fr, msg=res['msg'], **{'class': res['class']})


TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'


def validate(chk, programs, cases, results, shards=4, module='ParserTrace'):
    """Returns the indices of the cases whose recorded run is not a behaviour of the specification."""
    import concurrent.futures as cf
    index = {p['id']: i + 1 for i, p in enumerate(programs)}
    pfile = chk.write_json('programs.json', [p['decl'] for p in programs])

    def events(i):
        yield dict(e='start', p=index[cases[i]['c']])
        for t in cases[i]['argv']:
            yield dict(e='token', t=t)
        yield dict(e='end', r=observed(results[i]))

    def shard(k):
        todo = list(range(k, len(cases), shards))
        bad = []
        while todo and len(bad) < 5:
            evs, owner = [], []
            for i in todo:
                for e in events(i):
                    evs.append(e)
                    owner.append(i)
            f = chk.write_nd(f'trace-{k}.json', evs)
            r = chk.tlc(module, TRACE_CFG if module == 'ParserTrace' else TRACE_CFG.replace('TraceSpec', 'MsgSpec'), env={'SHARG_TRACE': f, 'SHARG_PROGRAMS': pfile}, workers=1, expect_ok=False,
                        name=module, heap='2g')
            if r.rc == 0:
                break
            # one state per consumed event: the first event that is not accepted belongs to the failing case
            if not (r.violated or 'TraceAccepted' in r.out or 'ostcondition' in r.out):
                raise Broken(module + ': ' + r.out[-3000:])
            i = owner[min(r.depth - 1, len(owner) - 1)]
            bad.append(i)
            todo = todo[todo.index(i) + 1:]
        return bad
    with cf.ThreadPoolExecutor(shards) as ex:
        out = []
        for b in ex.map(shard, range(shards)):
            out += b
    return sorted(out)


def random_traces(chk, exe, count, length=(0, 9), types=None, lists=None, weights=None, subs=.25, chains=.3, part='random traces',
                  per_program=6, variants=lambda rng: {}, env=None, module='ParserTrace'):
    """Seeded random programs and command lines, run in the real parser, the recorded runs checked by TLC."""
    import randgen
    rng = chk.rng
    programs, cases = [], []
    while len(cases) < count:
        scale = 8 if len(programs) % 12 == 7 else 1     # every now and then a big one
        d = randgen.rand_decl(rng, types or randgen.LIGHT_TYPES, lists or randgen.LIGHT_LISTS, subs=subs, chains=chains, scale=scale)
        if not any(f['long'] == 'advmark' for f in d['flags']):
            for x in randgen.all_decls(d):
                x['flags'].append(dict(flag('', 'advmark'), advanced=True))
        pid = f'r{len(programs)}'
        floats = any(o['type'] in ('f32', 'f64') for x in randgen.all_decls(d) for o in x['opts'] + x['pos'])
        programs.append(dict(id=pid, decl=d))
        for _ in range(per_program):
            while True:
                argv = randgen.rand_argv(rng, d, rng.randint(*length), weights, scale)
                if not floats or not any(len(m.replace('.', '')) > 6 for t in argv for m in re.findall(r'[\d.]+', t)):
                    break       # a float with many digits may be rounded: not specified
            cases.append(dict(c=pid, argv=argv, **variants(rng)))
    dfile = chk.write_nd('rdecls.json', decls_of(programs))
    results = chk.run(exe, cases, extra=(dfile,), env=env)
    bad = validate(chk, programs, cases, results, module=module)
    by = {p['id']: p for p in programs}

    def judge(i, r):
        return '' if not validate(chk, [by[cases[i]['c']]], [cases[i]], [r], shards=1, module=module) else 'not a behaviour'
    for i, r, w in chk.confirm(exe, cases, bad, judge, limit=20, extra=(dfile,), env=env):
        chk.violation(f'the run of a random program with arguments {cases[i]["argv"]} is not a behaviour of the specification: '
                      f'{observed(r)}'[:1500], dict(case=cases[i], decl=by[cases[i]['c']]['decl'], observed=r))
    chk.validated(len(cases), part)
    kinds = {}
    for r in results:
        k = r['end'] + ':' + r.get('kind', '') + ':' + r.get('class', '')
        kinds[k] = kinds.get(k, 0) + 1
    chk.parts[part]['observed'] = kinds
    chk.sample(dict(program=programs[0]['decl'], argv=cases[0]['argv'], observed=observed(results[0])['kind']))
    return programs, cases, results


# ---- the checks --------------------------------------------------------------------------------------------------------
ASSUME = ['the declared programs are those of lib/families.py and seeded random ones; TLC enumerates all command lines over the '
          'listed alphabets up to the listed length',
          'command line arguments are byte strings without NUL; the harness uses the public API only']

WEIGHTS = {
    'C01': dict(att=6, id=6, flag=.7, cluster=.7, value=1.5, junk=.2, special=.3, mutate=.3, cross=2),
    'C02': dict(junk=1.2, mutate=1.2),
    'C03': dict(dd=2.5, special=1),
    'C04': dict(cluster=7, flag=3, att=1, id=1, value=1),
    'C05': dict(id=6, att=6, flag=.5, cluster=.5),
    'C07': dict(special=4),
    'C08': dict(sub=4),
    'C12': dict(id=5, att=5, cross=2, junk=.1, mutate=.2),
}
ASPECTS = {'C12': ('set',), 'C11': ('calls', 'values'), }


def check(chk):
    from families import FAMILIES
    prop = chk.prop
    full = prop in ('C11',)
    fut = chk.build_async('h_parse', LIGHT, () if full else ['-DVH_LIGHT'])
    depth = 0 if chk.quick else 1
    progs = [dict(p, depth=p['depth'][depth]) for p in FAMILIES[prop]]
    aspects = ASPECTS.get(prop, ('values', 'calls', 'set') if prop != 'C06' else ('values', 'calls'))

    def variants(i, v):
        if prop in ('C04', 'C06', 'C05'):
            return dict(perm=0 if i % 3 == 0 else 1 + (i * 7919 + chk.seed) % 1000)
        if prop in ('C07', 'C08'):
            return dict(updates=i % 2 == 0)
        return {}
    vectors = []
    for p in progs:
        v = enumerate_vectors(chk, [p])
        vectors.append((p, v))
        chk.parts.setdefault('alphabets', {})[p['id']] = dict(tokens=len(p['alphabet']), length=p['depth'], command_lines=len(v))
    sim = enumerate_vectors(chk, [dict(p, depth=12, permdepth=0) for p in progs], simulate=(120 if chk.quick else 3000, 13),
                            name='Parser simulation')
    exe = fut.result()
    for p, v in vectors:
        replay(chk, exe, [p], v, aspects, variants)
    if prop == 'C06':       # every declaration order seed on a sample of the long command lines
        for k in range(4):
            replay(chk, exe, progs, sim, aspects, lambda i, v: dict(perm=1 + k + 10 * i), part='long command lines')
    else:
        replay(chk, exe, progs, sim, aspects, variants, part='long command lines')
    import randgen
    rv = (lambda rng: dict(perm=rng.randint(0, 1000))) if prop in ('C04', 'C05', 'C06') else (lambda rng: {})
    random_traces(chk, exe, 6000 if chk.quick else 100000, weights=WEIGHTS.get(prop), subs=.9 if prop == 'C08' else .2,
                  chains=.8 if prop == 'C11' else .25, variants=rv,
                  types=randgen.FULL_TYPES if full else None, lists=randgen.FULL_LISTS if full else None)
    chk.assumptions += ASSUME
