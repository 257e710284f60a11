"""Conversion of tokens (spec/Values.tla) against the real parser: C10."""
import parse, randgen
from progs import *

INTS = ['i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64']
ODD_INTS = ['+5', ' 5', '5 ', '\t5', '5\n', '0x1f', '0b1', '1e3', '1E0', '5.', '5,0', '1_000', '--5', '-+5', '- 5', '5-', 'five', '\u00b2',
            '0' * 40, '0' * 40 + '7', '-' + '0' * 40 + '7', '9' * 40, '-' + '9' * 40, '340282366920938463463374607431768211456',
            '18446744073709551617', '-18446744073709551615', '36893488147419103233', '1\x00'[:1], '1\x7f', '1\xff', '\xff', '5u', '5l', '0o7']
FLOATS = {
    'f64': ['1.7976931348623157e308', '1.7976931348623157E+308', '-1.7976931348623157e308', '1.8e308', '1e309', '-1e309', '2e308',
            '1e99999999999', '3.141592653589793', '2.718281828459045', '0.1', '.1', '123456789012345', '1e-300', '1e15', '1e-5',
            '4.35', '1e22', '1e23', '0.30000000000000004', '1e-400', '-1e-400', '5e-324'],
    'f32': ['3.4028235e38', '-3.4028235e38', '3.5e38', '1e39', '1e38', '-1e39', '0.1', '1.1754944e-38', '3.1415927', '16777216',
            '1e-60', '1e10', '1e300', '9e-46'],
}
ODD_FLOATS = ['inf', '-inf', 'INF', 'Infinity', '-infinity', 'infinit', 'nan', 'NaN', '-nan', 'nan(1)', 'nan(', 'nan()', '+1.0', '+inf', '1,5', '1.5.2',
              '0x1p3', '0x10', '1e', '1e+', '1e-', '1E', '.', '-.', '.e1', 'e1', '-e1', '1 ', ' 1', '1.5f', '1.5x', '--1', '1-', '0e0',
              '-0', '0', '00', '-0.0', '1e0000000000000000001', '1e+1', '1.e2', '-.5', '00012.50', '1e1.5', '1e1e1', '1d3', 'one', '-', '1\xb2']


def configs(quick):
    out = []

    def add(type, seeds, alphabet, depth, good, forms, lists=True):
        ltype = type
        d = decl(opts=[opt('x', 'xx', type, default=[good]), opt('l', 'll', ltype, list=True, default=[good, good])], flags=[flag('f', '')])
        pd = decl(flags=[flag('f', '')], pos=[pos(type, default=[good]), pos(type, list=True, default=[good])])
        out.append(dict(id='v-' + type, decl=d, pdecl=pd, type=type, seeds=seeds, alphabet=alphabet, depth=depth, good=good, forms=forms))
    forms = ['sep', 'att', 'eq', 'list', 'lsep', 'pos']
    for t in INTS:
        add(t, ODD_INTS, list('0129-+ x.'), 2 if quick else 4, '5', forms if quick or t in ('i8', 'u64') else ['eq', 'list'])
    for t in ('f64', 'f32'):
        add(t, FLOATS[t] + ODD_FLOATS, list('015.eE-+ x'), 3 if quick else 5, '5e-1', ['eq'] if not quick else ['eq', 'list', 'sep'])
    add('bool', ['true', 'false', 'True', 'TRUE', 'yes', 'no', 'on', 'off', '2', '-1', '00', '01', '10', '+1', 't', 'f', 'tru', 'truee',
                 'false ', ' true', 'true\n', '1.0', 'falsee'], list('01-tf '), 3, 'true', forms)
    add('enum', [p + k + s for k in ('red', 'green', 'blue', 'azure', 'Red', 'RED', 'r', 'colour::red') for p in ('', ' ', 'x')
                 for s in ('', ' ', 'x', ',', '\n')] + ['0', '1', 'redgreen', 'red,green', 'gree', 'greenblue'],
        ['red', 'blue', 're', 'd', ' '], 5, 'green', forms)
    odd = list(' "\'\\=-/,*$\n\t\x01\x7f\x80\xff;a')
    long = ['a' * 300, ' ' * 40, '-' * 40, 'a b c', '"a b"', '"a" b', 'a"b', "'a b'", '\\"', './a//b/../c', '/', '.', '..', '~', '%s%n',
            'a\nb', '--xx=1', '=', '==', '-x', '-f', '--', '\u00e4\u00f6\u00fc', 'caf\u00c3\u00a9']
    for t in ('str', 'path'):
        add(t, long, odd, 2 if quick else 3, 'ok', forms)
    add('user', ['ab', 'ab ', ' ab', 'a1', '1', 'A', 'aB', 'ab cd', 'a' * 50], list('az1A '), 3, 'ok', forms)
    return out


CFG = '''SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANT InRange
INVARIANT Idempotent
INVARIANT Narrowing
INVARIANT Lossless
INVARIANT Verbatim
INVARIANT Emit
'''


def check(chk):
    fut = chk.build_async('h_parse', parse.LIGHT, ['-DVH_VALUES'])
    cfgs = configs(chk.quick)
    f = chk.write_json('configs.json', cfgs)
    r = chk.tlc('MCValues', CFG, env={'SHARG_CONFIGS': f}, name='Values')
    exe = fut.result()
    programs = cfgs + [dict(id=c['id'] + '-pos', decl=c['pdecl']) for c in cfgs]
    exact = [v for v in r.lines if v['exact']]
    inexact = [v for v in r.lines if not v['exact']]
    chk.parts['tokens'] = {c['type']: len({tuple(v['argv']) for v in r.lines if v['c'].startswith(c['id'])}) for c in cfgs}
    parse.replay(chk, exe, programs, exact)
    # more digits than the type distinguishes: only acceptance is specified
    parse.replay(chk, exe, programs, inexact, aspects=(), part='acceptance only')
    parse.random_traces(chk, exe, 1500 if chk.quick else 30000, weights=dict(att=7, id=5, value=6, junk=.1, mutate=1, special=.1, dd=.5),
                        types=randgen.FULL_TYPES, lists=randgen.FULL_LISTS, subs=.05, chains=0)
    chk.assumptions += ['decimal floating point tokens with more significant digits than the type preserves and tokens in the subnormal '
                        'range are checked for acceptance only or not at all',
                        'tokens are enumerated up to the stated length plus all integer range borders and the listed odd tokens']


TEXT = {'C10': ('TLA+ model checking (TLC) of the token conversion for every value type, all enumerated tokens replayed in the real parser '
                'in six argument forms, random runs validated against the TLA+ trace specification',
                'All tokens over per-type alphabets up to the stated length, every integer border +-1 of every width for every width, '
                'and listed odd tokens, in all spellings, as list element and positional. Assumes representative alphabets; floats compared '
                'exactly up to 6/15 significant digits and for listed shortest representations.')}
