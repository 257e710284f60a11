"""The programs and alphabets from which TLC enumerates command lines, per property.
depth = (quick, thorough): every command line of up to that many tokens is enumerated."""
from progs import *


def P(id, decl, alphabet, depth, permdepth=3):
    return dict(id=id, decl=decl, alphabet=alphabet if isinstance(alphabet, list) else alphabet.split(), depth=depth,
                permdepth=permdepth)


FLAGS = [flag('f', 'flag'), flag('g', '')]
ADV = dict(flag('', 'advmark'), advanced=True)

FAMILIES = {}

# C01 ---------------------------------------------------------------------------------------------------------------
c01_odd = decl(opts=[opt('o', 'opt'), opt('p', ''), opt('', 'long')], flags=FLAGS, pos=[])
c01_prefix = decl(opts=[opt('o', 'opt'), opt('p', 'option'), opt('', 'opt-x'), opt('x', '', 'i8')], flags=[flag('t', 'opti')])
FAMILIES['C01'] = [
    P('odd-values', c01_odd,
      ['-o', '--opt', '-p', '--long', '-oV', '-o=V', '--opt=V', '-o=-f', '-o==', '-pf', '-p-', '--long=--opt', '--long=a=b',
       '--', '-h', '--help', '-f', '--flag', '-gf', '-', '', 'x', '--export-help=man', '--version'], (3, 4), 2),
    P('prefixes', c01_prefix,
      ['--opt', '--option', '--opt-x', '--opti', '-t', '--opt=1', '--option=2', '--opt-x=3', '--optionx', '--opt-', '-o',
       '-oopt', '-p=', '-x', '-x-7', '-x=-8', '-128', '127', 'x', '--option='], (3, 4), 2),
    P('attached', decl(opts=[opt('o', 'opt'), opt('n', 'num', 'i32')], flags=FLAGS, pos=[pos(list=True)]),
      ['-o--', '-o-', '-oo', '-o=o', '-ofg', '-o -f', '--opt= ', '--opt==', '--opt=--', '-n5', '-n=-5', '--num=+5', '-n 5',
       '--num=5 ', '-n', '-o', '5', '--', 'y'], (3, 4), 2),
]

# C02 ---------------------------------------------------------------------------------------------------------------
c02 = decl(opts=[opt('o', 'opt', 'i8'), opt('r', 'req', req=True), opt('l', 'list', 'i32', list=True)],
           flags=[flag('f', 'flag')], pos=[pos('str'), pos('i8')])
FAMILIES['C02'] = [
    P('mistakes', c02, '-o 7 -o=8 -rx --req -l=5 -f -z --zz a -- -', (4, 5), 2),
    P('surplus', decl(opts=[opt('o', 'opt', 'i8', chain=[val('ne', '3')])], flags=FLAGS, pos=[pos('str', chain=[val('ne', 'a')])]),
      ['-o', '3', '-o4', '-o=999', '--opt=', 'a', 'b', '-f', '-ff', '-x', '--', '', '-'], (4, 4), 2),
    P('nothing-required', decl(opts=[opt('o', 'opt')], flags=FLAGS), ['-o', 'x', '-', '', '--', '-f', '-fx', '--flag=1', '--fla', '---'], (4, 5), 2),
    P('two-required', decl(opts=[opt('a', '', 'i8', req=True), opt('', 'bb', req=True)], flags=FLAGS, pos=[pos(list=True)]),
      ['-a', '1', '-a2', '--bb', '--bb=', '--bb=x', '-f', '--', 'z'], (4, 5), 2),
]

# C03 ---------------------------------------------------------------------------------------------------------------
c03 = decl(opts=[opt('o', 'opt')], flags=[flag('f', 'flag'), flag('', 'gg')], pos=[pos(list=True)])
FAMILIES['C03'] = [
    P('dashdash', c03, ['--', '-f', '--flag', '-o', '-oV', '--opt=V', '-h', '--help', '--gg', 'x'], (4, 5), 2),
    P('specials', c03, ['--', '-o', '-f', '-hh', '--advanced-help', '--version', '--copyright', '--export-help', '--export-help=man',
                        '--version-check', '1', '-'], (4, 4), 2),
    P('no-positional', decl(opts=[opt('o', 'opt')], flags=[flag('f', '')]), ['--', '-f', '-o', 'x', '-h', ''], (4, 5), 2),
    P('single', decl(opts=[opt('o', 'opt', list=True)], flags=[flag('f', '')], pos=[pos('str'), pos('str')]),
      ['--', '-f', '-o', '--opt', '-x', '--version', '--help'], (4, 5), 2),
]

# C04 ---------------------------------------------------------------------------------------------------------------
c04 = decl(flags=[flag('a', 'alpha'), flag('b', 'beta'), flag('c', ''), flag('', 'delta')], opts=[opt('o', 'opt')], pos=[])
FAMILIES['C04'] = [
    P('clusters', c04, ['-a', '-b', '-c', '-ab', '-ba', '-cb', '-abc', '-cab', '-aa', '-aba', '-abz', '-za', '--alpha', '--beta',
                        '--delta', '--', '-bo', '-ov', '-a-', '-a-b'], (3, 4), 2),
    P('cluster-values', decl(flags=[flag('a', 'alpha'), flag('b', ''), flag('7', ''), flag('@', ''), flag('_', '')],
                             opts=[opt('o', 'opt'), opt('n', '', 'i32')], pos=[pos(list=True)]),
      ['-a', '-ab', '-7', '-a7', '-@', '-@_', '-_', '-o', '-n', '-n-7', '-ba', 'ab', 'a', '-', '--', '--a', '--alpha=1', '--alphab'], (3, 4), 2),
]

# C05 ---------------------------------------------------------------------------------------------------------------
c05 = decl(opts=[opt('l', 'list', list=True, default=['d1', 'd2']), boxed('list', opt('i', 'ints', 'i32', list=True, default=['42']))],
           flags=[flag('f', '')], pos=[pos('str'), boxed('deque', pos(list=True, default=['p1']))])
FAMILIES['C05'] = [
    P('lists', c05, ['-l', '--list', '-la', '--list=b', '-l=c', '-i', '--ints=3', '-i4', '3', '--', 'z'], (4, 5), 2),
    P('list-errors', decl(opts=[opt('i', 'ints', 'i32', list=True, default=['42']), opt('l', 'list', 'str', list=True)], flags=[]),
      ['-i', '--ints', '-i1', '--ints=2', '-i=2147483648', '--ints=x', '-l', 'red', '--list=azure', '-l=', '5'], (4, 5), 2),
    P('list-positional', decl(opts=[opt('l', '', list=True)], flags=[flag('f', 'flag')], pos=[pos('i32', list=True, default=['9', '9'])]),
      ['1', '2', '-3', '-l', '-l1', '-f', '--', 'x', '2147483648', '-0'], (4, 5), 2),
]

# C06 ---------------------------------------------------------------------------------------------------------------
c06 = decl(opts=[opt('o', 'opt'), opt('n', 'num', 'i32'), opt('l', 'list', list=True)], flags=[flag('f', 'flag'), flag('g', 'gg')],
           pos=[pos('str'), pos(list=True)])
FAMILIES['C06'] = [
    P('permute', c06, ['-o', '-n=3', '--num', '4', '-l', '--list=m', '-f', '-gf', '--gg', 'a', '-'], (4, 5), 4),
    P('prefix-ids', decl(opts=[opt('o', 'opt'), opt('p', 'op'), opt('t', ''), opt('', 'opt2')],
                         flags=[flag('a', 'aa'), flag('b', 'opt3')], pos=[pos()]),
      ['-o', '-ot', '-p', '--opt', '--opt2', '--opt=-t', '--op=o', '-t', '-ab', '-a', '--opt3', 'v'], (4, 4), 3),
]

# C07 ---------------------------------------------------------------------------------------------------------------
c07 = decl(opts=[opt('o', 'opt')], flags=[flag('f', 'flag'), ADV], pos=[pos(list=True)])
SPECIALS = ['-h', '--help', '-hh', '--advanced-help', '--version', '--copyright', '--export-help', '--export-help=html',
            '--export-help=man', '--version-check']
FAMILIES['C07'] = [
    P('specials', c07, SPECIALS + ['html', 'man', 'true', '0', '-o', '--', 'x'], (3, 4), 2),
    P('special-errors', c07, ['-h', '--version', '--export-help', '--export-help=', '--export-help=ctd', '--export-help=HTML', 'cwl',
                              'html', '--version-check', '1', 'false', '2', '--version-check=1', '-o', '-f', '-z', '-hx', '--helpme'],
      (3, 4), 2),
    P('special-sub', decl(opts=[opt('o', 'opt')], flags=[flag('f', ''), ADV],
                          subs=[('run', decl(opts=[opt('o', 'opt')], flags=[ADV], pos=[pos()]))]),
      ['-h', '-hh', '--version', '--export-help', 'html', '--export-help=man', '--version-check', '1', '-o', 'run', '-f', '--', 'x'],
      (3, 4), 2),
]

# C08 ---------------------------------------------------------------------------------------------------------------
c08_leaf = decl(opts=[opt('o', 'opt'), opt('s', '')], flags=[flag('f', 'flag')], pos=[pos(list=True)])
c08 = decl(opts=[opt('o', 'opt'), opt('n', 'num', 'i32')], flags=[flag('f', '')],
           subs=[('build', c08_leaf), ('search', decl(opts=[opt('n', 'num', 'i32')], flags=[flag('f', '')], pos=[]))])
c08_deep = decl(opts=[opt('o', '')], flags=[flag('f', '')], subs=[
    ('remote', decl(opts=[opt('o', '')], flags=[flag('f', '')], subs=[
        ('add', decl(opts=[opt('o', '')], flags=[flag('f', '')], pos=[pos()])),
        ('remote', decl(opts=[], flags=[flag('f', '')], pos=[pos(list=True)]))])),
    ('-x', decl(flags=[flag('f', '')], pos=[pos(list=True)]))])
FAMILIES['C08'] = [
    P('subcommands', c08, ['build', 'search', 'bui', '-o', '--opt=build', '-n', '3', '-f', '--', '-z', '-h'], (4, 5), 2),
    P('nested', c08_deep, ['remote', 'add', '-x', '-o', '-oadd', '-f', '--', 'y', '--help'], (4, 5), 2),
    P('sub-like-alone', decl(subs=[('run', c01_odd)], flags=[flag('f', '')]),
      ['run', '-o', '--opt', '--opt=run', '-p', '-', '--', '-h', '-f', '--flag', '', 'x'], (4, 4), 2),
]

# C11 ---------------------------------------------------------------------------------------------------------------
c11 = decl(opts=[opt('o', 'opt', chain=[val('rec'), val('ne', 'a'), val('ne', 'b', exc='runtime')]),
                 opt('n', 'num', 'i32', default=['3'], chain=[val('ne', '3', exc='odd'), val('rec')]),
                 opt('l', 'list', list=True, default=['b', 'b', 'b'], chain=[val('maxlen', '2', exc='too_many'), val('ne', 'b')])],
           flags=[flag('f', '')], pos=[pos('str', chain=[val('ne', 'b'), val('rec')])])
c11_real = decl(opts=[opt('n', 'num', 'i32', default=['100'], chain=[val('rec'), val('range', '-2', '10'), val('rec')]),
                      boxed('list', opt('i', 'ints', 'i32', list=True, default=['100'], chain=[val('rec'), val('range', '0', '3')])),
                      opt('d', 'dbl', 'f64', default=['1e2'], chain=[val('range', '-5e-1', '25e-1')]),
                      opt('w', 'word', default=['zz'], chain=[val('oneof', 'ab', 'cd', 'abx'), val('regex', '[a-c]+x?')]),
                      opt('v', 'vals', 'i32', list=True, chain=[val('oneof', '1', '-1', '7'), val('rec')]),
                      opt('r', 'rgx', chain=[val('rec'), val('regex', 'ab|cd')]),
                      opt('s', 'rgxs', list=True, chain=[val('regex', '[0-9]*'), val('rec')])],
                flags=[], pos=[])
FAMILIES['C11'] = [
    P('chains', c11, ['-oa', '-o=b', '--opt=c', '-n3', '--num=4', '-l=b', '--list=c', '-ld', 'a', 'b', '-f', '--'], (4, 4), 2),
    P('range-list-regex', c11_real,
      ['-n-2', '-n-3', '-n10', '-n11', '-i0', '-i3', '-i4', '-i-1', '-d-.5', '-d2.5', '-d2.50001', '-d-5.1e-1', '-d25e-1', '-dnan',
       '-d-0', '-dinf', '-wab', '-wcd', '-wabx', '-wa', '-v1', '-v-1', '-v2', '-v7', '-rab', '-rcd', '-rabcd', '-rb', '-r=ab ',
       '-s12', '-s1x', '--rgxs', ''], (2, 3), 2),
    P('pos-validators', decl(opts=[opt('o', 'opt', 'i32', req=True, chain=[val('range', '1', '1')])], flags=[flag('f', '')],
                             pos=[pos('i32', chain=[val('rec'), val('range', '0', '9'), val('rec')]),
                                  pos('str', list=True, default=['q', 'q', 'q'],
                                      chain=[val('maxlen', '2'), val('oneof', 'p', 'q'), val('rec')])]),
      ['-o1', '-o2', '3', '10', 'p', 'q', 'r', '-f', '--', '-1'], (4, 5), 2),
    P('never-given', decl(opts=[opt('o', 'opt', default=['a'], chain=[val('ne', 'a'), val('rec')]),
                                opt('l', 'list', list=True, default=['a'], chain=[val('ne', 'a')]),
                                opt('e', 'en', 'enum', default=['red'], chain=[val('ne', 'blue'), val('rec')])],
                          flags=[flag('f', ''), flag('g', '')]),
      ['-f', '-g', '-o', 'a', 'b', '-la', '-lb', '-ered', '-eazure', '-e=blue'], (4, 5), 2),
]

# C12 ---------------------------------------------------------------------------------------------------------------
c12 = decl(opts=[opt('o', 'opt', default=['v']), opt('p', ''), opt('', 'opt2'), opt('l', 'ls', list=True)],
           flags=[flag('f', 'ff'), flag('q', '')], pos=[pos(list=True)])
FAMILIES['C12'] = [
    P('set', c12, ['-o', '-ov', '--opt', '--opt=v', '-p', '--opt2', '--opt2=x', '-l', '--ls=a', '--', '-f', '-fq', 'v', '-po'], (3, 4), 2),
    P('set-values', c12, ['v', '-o', '-p', '--opt', '-p=-o', '--opt2=--opt', '--ls', '-l-o', '--'], (4, 5), 2),
    P('set-sub', decl(opts=[opt('o', 'opt'), opt('n', '')], flags=[flag('f', '')],
                      subs=[('go', decl(opts=[opt('o', 'opt'), opt('n', '')], flags=[], pos=[pos(list=True)]))]),
      ['-o', '-og', '--opt=go', '-n', 'go', '--', '-f', 'v'], (4, 5), 2),
]

# C24 ---------------------------------------------------------------------------------------------------------------
FAMILIES['C24'] = [
    P('identifiers', decl(opts=[opt('o', 'opt', 'i8'), opt('r', 'req', req=True), opt('', 'opt-x', 'u16', req=True), opt('l', 'list', 'i32', list=True)],
                          flags=[flag('f', 'flag'), flag('g', '')], pos=[pos('str'), pos('i8'), pos('i8')]),
      ['-o', '--opt=', '--opt=300', '-ox', '-rx', '--req=y', '--opt-x=1', '-l5', '--list', '-f', '-fg', '--flag', '-fz', '-xyz', '--zz=3', '-r-', '7', 'a', '--'], (3, 4)),
    P('conversions', decl(opts=[opt('a', 'i8', 'i8'), opt('b', 'u64', 'u64', list=True), opt('c', 'f32', 'f32'), opt('d', '', 'f64', list=True), opt('e', 'enum', 'enum'),
                                opt('', 'bool', 'bool'), opt('g', 'i64', 'i64')], flags=[], pos=[pos('u8'), pos('i16', list=True)]),
      ['-a', '--i8=-129', '-a=128x', '-bx', '--u64=18446744073709551616', '-b=-1', '-c1e39', '--f32=-x', '-d=1e400', '-d=', '-ered', '--enum=yellow', '--bool=yes',
       '--i64=9223372036854775808', '-g-', '256', '12', '-32769', '--', 'x', ''], (2, 4)),
    P('validators', decl(opts=[opt('n', 'num', 'i32', default=['100'], chain=[val('rec'), val('range', '-2', '10'), val('rec')]),
                               boxed('list', opt('i', '', 'i32', list=True, chain=[val('rec'), val('range', '0', '3')])),
                               opt('w', 'word', default=['zz'], chain=[val('oneof', 'ab', 'cd', 'abx'), val('regex', '[a-c]+x?')]),
                               opt('', 'vals', 'i32', list=True, chain=[val('oneof', '1', '-1', '7'), val('rec')]),
                               opt('s', 'rgxs', list=True, chain=[val('regex', '[0-9]*'), val('rec')]),
                               opt('o', 'odd', chain=[val('ne', 'a', exc='odd'), val('ne', 'b', exc='too_many')])],
                         flags=[flag('f', '')], pos=[pos('i32', chain=[val('rec'), val('range', '0', '9'), val('rec')]), pos('str', list=True, chain=[val('maxlen', '2'), val('oneof', 'p', 'q'), val('rec')])]),
      ['-n-3', '--num=11', '-i4', '-i1', '-wa', '-wcd', '--vals=2', '--vals=7', '--rgxs=1x', '-s12', '-oa', '--odd=b', '5', '10', 'p', 'r', '-f', '--'], (3, 4)),
    P('subcommands', decl(opts=[opt('o', 'opt', 'i8')], flags=[flag('f', '')],
                          subs=[('build', decl(opts=[opt('o', 'opt', 'i8', req=True)], pos=[pos('i8'), pos('i8')])), ('search', decl(opts=[opt('n', 'num', 'i32', chain=[val('range', '1', '2')])])), ('-x', decl(pos=[pos()]))]),
      ['build', 'search', 'bui', '-x', '-o', '-o7', '--opt=999', '-n1', '-n3', '-f', '--', '1', '--export-help', '--export-help=txt', '--version-check', 'no'], (4, 4)),
]
