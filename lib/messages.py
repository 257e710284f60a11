"""Whom error messages blame (spec/Messages.tla): C24."""
import parse, randgen
from families import FAMILIES
from progs import *

TEXT = {'C24': ('TLA+ model checking (TLC) of the command line machine and of who may be blamed for its errors; messages of the real parser compared for every enumerated failing command line, messages of recorded random runs validated against the TLA+ trace specification',
                'Every failing command line over the stated alphabets up to the stated length is enumerated by TLC with all culprits that a message of the respective class may name; the real message has to name one of them. Only the facts a message has to contain are specified, not its wording. Assumes: behaviour beyond the bounds is like within; values of float ranges and lists of other types than integers and strings are not compared.')}

CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT SomebodyToBlame
INVARIANT EmitBlame
'''


def mentions(msg, n):
    if not n['s']:
        return True
    glue = (lambda c: c in '0123456789') if n['k'] == 'num' else (lambda c: (c.isascii() and c.isalnum()) or c in '_@-')
    i = msg.find(n['s'])
    while i >= 0:
        e = i + len(n['s'])
        if (i == 0 or not glue(msg[i - 1])) and (e == len(msg) or not glue(msg[e])):
            return True
        i = msg.find(n['s'], i + 1)
    return False


def justified(blame, cls, msg):
    return any(b['class'] == cls and any(all(mentions(msg, n) for n in who) for who in b['who']) for b in blame)


def judge(v, r):
    """None, or what is wrong. Only messages are judged; whether there has to be an error is decided by C02, C10, C11."""
    if r['end'] in ('signal', 'timeout'):
        return f"parse() ended by {r['end']} {r['code']}"
    if r['end'] != 'return' or r['kind'] != 'err' or r['class'] not in v['classes']:
        return None
    for a in [v, *v['alt']]:
        if r['at'] == a['at'] and justified(a['blame'], r['class'], r['msg']):
            return None
    return f"{r['class']}: {r['msg']!r} does not name any of {[[ ' '.join(n['s'] for n in w) for w in b['who']] for b in v['blame'] if b['class'] == r['class']]}"


def check(chk):
    fut = chk.build_async('h_parse', parse.LIGHT)
    depth = 0 if chk.quick else 1
    progs = [dict(p, depth=p['depth'][depth], permdepth=0) for p in FAMILIES['C24']]
    vectors = []
    for p in progs:
        r = chk.tlc('MCMessages', CFG, env={'SHARG_CONFIGS': chk.write_json('configs.json', [p])}, name='Messages')
        chk.parts.setdefault('alphabets', {})[p['id']] = dict(tokens=len(p['alphabet']), length=p['depth'], failing_command_lines=len(r.lines))
        vectors += r.lines
    exe = fut.result()
    decls = {p['id']: p['decl'] for p in progs}
    dfile = chk.write_nd('decls.json', parse.decls_of(progs))
    cases = [dict(c=v['c'], argv=v['argv']) for v in vectors]
    results = chk.run(exe, cases, extra=(dfile,))
    bad = [i for i, (v, r) in enumerate(zip(vectors, results)) if judge(v, r)]
    for i, r, w in chk.confirm(exe, cases, bad, lambda i, r: judge(vectors[i], r), extra=(dfile,)):
        chk.violation(f"program {cases[i]['c']}, arguments {cases[i]['argv']}: {w}", dict(case=cases[i], decl=decls[cases[i]['c']], expected=vectors[i]['blame'], observed=r))
    chk.validated(len(cases), 'failing command lines')
    seen = {}
    for r in results:
        if r.get('kind') == 'err':
            seen[r['class']] = seen.get(r['class'], 0) + 1
    chk.parts['failing command lines']['messages'] = seen
    for v, r in list(zip(vectors, results))[len(vectors) // 2:len(vectors) // 2 + 2]:
        chk.sample(dict(program=v['c'], argv=v['argv'], message=r.get('msg'), blame=v['blame']))
    parse.random_traces(chk, exe, 6000 if chk.quick else 60000, weights=dict(junk=.8, mutate=1, cluster=3), subs=.2, chains=.5, per_program=6,
                        types=randgen.FULL_TYPES, lists=randgen.FULL_LISTS, module='MessageTrace', part='recorded messages')
    chk.assumptions += parse.ASSUME
