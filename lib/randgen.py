"""Random programs and command lines for trace validation."""
from progs import *

SHORT = 'abcdefgijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXY0123456789@_'   # 'Z' is the harness' undeclared identifier
RESERVED = {'h', 'hh', 'help', 'advanced-help', 'export-help', 'version', 'copyright', 'version-check'}
LIGHT_TYPES = ['str', 'str', 'str', 'i32', 'i8', 'enum']
LIGHT_LISTS = ['str', 'i32']
FULL_TYPES = LIGHT_TYPES + ['u8', 'i16', 'u16', 'u32', 'i64', 'u64', 'bool', 'path', 'f64', 'f32']
FULL_LISTS = LIGHT_LISTS + ['i8', 'u64', 'path', 'enum', 'f64']
SPECIAL = ['-h', '--help', '-hh', '--advanced-help', '--version', '--copyright', '--export-help', '--export-help=html',
           '--export-help=man', '--version-check', 'html', '1', 'false']


def word(rng, lo=2, hi=7):
    stem = rng.choice(['o', 'opt', 'option', 'out', 'in', 'x', 'list', 'num', 'f', 'flag', 'se', ''])
    n = rng.randint(lo, hi)
    w = stem
    while len(w) < max(n, 2):
        w += rng.choice('abcdefopt0189_-@' if w else 'abcdefopt0189_@')
    return w[:max(n, len(stem), 2)]


def rand_decl(rng, types, lists, depth=0, subs=0.25, chains=0.3, app='app', scale=1):
    """scale > 1: many options, flags, positionals, subcommands; long identifiers."""
    used = set(RESERVED)

    def ids():
        for _ in range(50):
            s = rng.choice(SHORT) if rng.random() < .75 else ''
            if scale == 1 and rng.random() < .6:
                s = rng.choice('ofxna') if s else ''
            l = word(rng, *((2, 60) if scale > 1 else (2, 7))) if rng.random() < .75 or not s else ''
            if (s and s in used) or (l and (l in used or l[0] == '-')) or (not s and not l):
                continue
            used.add(s), used.add(l)
            return s, l
        return None

    def box(o):     # another container than std::vector
        if o['list'] and o['type'] in ('str', 'i32') and rng.random() < .3:
            o['box'] = {'str': 'deque', 'i32': 'list'}[o['type']]

    def chain(type, is_list):
        if rng.random() > chains:
            return []
        k = rng.choice(['rec', 'ne', 'ne', 'maxlen'])
        exc = rng.choice(['', '', 'runtime', 'odd', 'too_many'])
        a = {'rec': [], 'maxlen': [rng.choice(['1', '2'])],
             'ne': [{'str': 'x', 'enum': 'blue', 'path': 'x', 'bool': 'true', 'f32': '5e-1', 'f64': '5e-1'}.get(type, '7')]}[k]
        return [val(k, *a, exc=exc)]
    opts, flags, poss, sub = [], [], [], []
    for _ in range(rng.randint(0, 5 if scale == 1 else 25)):
        i = ids()
        is_list = rng.random() < .3
        t = rng.choice(lists if is_list else types)
        if i:
            dv = {'str': 'dd', 'path': 'dd', 'bool': 'false', 'enum': 'red', 'f32': '0', 'f64': '0'}.get(t, '7')
            opts.append(opt(*i, t, is_list, rng.random() < .12 / scale, chain(t, is_list),
                            [dv] * rng.randint(0, 2) if is_list else [dv]))
            box(opts[-1])
    for _ in range(rng.randint(0, 4 if scale == 1 else 45)):
        i = ids()
        if i:
            flags.append(flag(*i))
    if rng.random() < subs and depth < 3:
        names = set()
        for _ in range(rng.randint(1, 3 if scale == 1 else 12)):
            n = rng.choice(['run', 'build', 'run-x', '-x', 'o', 'add', 'X_1', word(rng).replace('@', '_')])
            if n not in names:
                names.add(n)
                sub.append((n, rand_decl(rng, types, lists, depth + 1, subs / 2, chains)))     # the subprograms are small
    else:
        for k in range(rng.randint(0, 3 if scale == 1 else 12)):
            is_list = rng.random() < .3 / scale
            t = rng.choice(lists if is_list else types)
            poss.append(pos(t, is_list, chain(t, is_list)))
            box(poss[-1])
            if is_list:
                break
    return decl(opts, flags, poss, sub, app)


BYTES = [chr(c) for c in range(1, 256)]


def rand_value(rng, type='str'):
    r = rng.random()
    if type in ('i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
        b = int(type[1:])
        lim = [0, 1, 7, -1, 2 ** b, 2 ** b - 1, 2 ** (b - 1), 2 ** (b - 1) - 1, -2 ** (b - 1), -2 ** (b - 1) - 1, 10 ** 20, 42]
        if r < .8:
            v = str(rng.choice(lim) if rng.random() < .4 else rng.randint(-130, 130))
            if rng.random() < .1:
                v = v.replace('-', '-00') if v[0] == '-' else '000' + v
            return v
        if r < .93:
            return rng.choice(['', '+1', ' 1', '1 ', '1x', 'x', '0x10', '1.0', '--1', '-', '1e2', '\u00b2', '-0', '007'])
    elif type == 'enum':
        return rng.choice(['red', 'green', 'blue', 'azure', 'Red', 'red ', '', '0', 're', 'redd'])
    elif type == 'bool':
        return rng.choice(['0', '1', 'true', 'false', 'True', '2', '', '01', 'yes'])
    elif type in ('f32', 'f64') and r < .85:
        return rng.choice(['0.5', '5e-1', '.5', '1.', '1e3', '1E+3', '-2.25', '1e', '.', 'inf', 'nan', '-inf', '0x1p3', '1e400',
                           '-0', '0.0', '1e-400', '1.5x', '+1', 'e5', '-.5e-2', '12345.6', '0000.100'])
    if r < .5:
        return rng.choice(['x', 'y', 'zz', 'a b', '=', '', '-', '1', 'run', 'build'])
    return ''.join(rng.choice(BYTES) for _ in range(rng.randint(1, 6))) if r < .7 else rng.choice(['x', 'val', '-x', '--', 'a=b'])


def all_decls(d):
    yield d
    for s in d['subs']:
        yield from all_decls(s['decl'])


def good_value(rng, o):
    t = o['type']
    if t in ('str', 'path'):
        return rng.choice(['x', 'y', 'zz', 'a b', 'v=1', 'run', '-f', '--', '-h', '--opt', '-o', '1', ' ', '"', 'a', '\\', '\u00fe'])
    if t == 'enum':
        return rng.choice(['red', 'green', 'blue', 'azure'])
    if t == 'bool':
        return rng.choice(['0', '1', 'true', 'false'])
    if t in ('f32', 'f64'):
        return rng.choice(['0.5', '5e-1', '.5', '1.', '1e3', '1E+3', '-2.25', 'inf', '-0', '12345.6', '0000.100'])
    return str(rng.choice([0, 1, 2, 7, 42, 100, 127] + ([-1, -128] if t[0] == 'i' else [128, 255])))


def valid_argv(rng, d, scale=1):
    """A command line without mistakes, as far as types go."""
    groups, last = [], {}
    for k, o in enumerate(d['opts']):
        times = rng.randint(0, 3 * scale) if o['list'] else rng.random() < .6
        for _ in range(1 if o['req'] and not times else int(times)):
            v = good_value(rng, o)
            if scale > 1 and o['type'] == 'str' and rng.random() < .1:
                v = v * rng.randint(1, 200)
            forms = []
            if o['short']:
                forms += [['-' + o['short'], v]]
                if v:
                    forms += [['-' + o['short'] + '=' + v]] + ([['-' + o['short'] + v]] if v[0] != '=' else [])
            if o['long']:
                forms += [['--' + o['long'], v]] + ([['--' + o['long'] + '=' + v]] if v else [])
            groups.append(rng.choice(forms))
    fl = [f for f in d['flags'] if rng.random() < (.4 if scale == 1 else .8)]
    rng.shuffle(fl)
    while fl:
        f = fl.pop()
        if f['short'] and fl and fl[-1]['short'] and rng.random() < .7:
            c = '-' + f['short']
            while fl and fl[-1]['short'] and rng.random() < (.8 if scale == 1 else .95):
                c += fl.pop()['short']
            groups.append([c])
        else:
            groups.append(['-' + f['short'] if f['short'] and (not f['long'] or rng.random() < .5) else '--' + f['long']])
    rng.shuffle(groups)
    if d['subs']:
        out = [t for g in groups for t in g]
        if rng.random() < .15:
            out.append('--')
        if rng.random() < .93:
            s = rng.choice(d['subs'])
            out += [s['name']] + valid_argv(rng, s['decl'])
        return out
    poss = []
    for p in d['pos']:
        for _ in range(rng.randint(1, 4 * scale) if p['list'] else 1):
            v = good_value(rng, p)
            poss.append(v)
    cut = rng.randint(0, len(poss))
    at = [i for i, v in enumerate(poss) if v.startswith('-')]
    if at:
        cut = min(cut, at[0])
    elif rng.random() < .6:
        cut = len(poss)
    slots = sorted(rng.randint(0, len(groups)) for _ in range(cut))
    out, k = [], 0
    for i, g in enumerate(groups + [[]]):
        while k < cut and slots[k] == i:
            out.append(poss[k])
            k += 1
        out += g
    if cut < len(poss):
        out += ['--'] + poss[cut:]
    elif rng.random() < .1:
        out.append('--')
    return out


def rand_argv(rng, d, n, w=None, scale=1):
    r = rng.random()
    if r > .65:
        return weird_argv(rng, d, n, w)
    toks = valid_argv(rng, d, scale)
    if r > .4:      # one mistake or oddity
        k = rng.randint(0, len(toks))
        kind = rng.randint(0, 4)
        if kind == 0 and toks:
            del toks[k % len(toks)]
        elif kind == 1 and toks:
            toks.insert(k, rng.choice(toks))
        elif kind == 2:
            toks[k:k] = weird_argv(rng, d, 1, w)
        elif kind == 3 and toks:
            k %= len(toks)
            t = toks[k]
            i = rng.randint(0, len(t))
            toks[k] = rng.choice([t[:i] + t[i + 1:], t[:i] + rng.choice('-=xh1 \x80') + t[i:], t + t, t + 'x', '-' + t])
        else:
            toks.insert(k, rng.choice(SPECIAL) if rng.random() < .3 else '--')
    return toks


def weird_argv(rng, d, n, w=None):
    """w: weights of the kinds of tokens."""
    w = dict(dict(id=3, att=4, flag=2, cluster=2, value=4, special=.4, dd=.5, junk=.6, sub=1, mutate=.6, cross=1), **(w or {}))
    kinds = list(w)
    toks = []
    cur = d
    while len(toks) < n:
        k = rng.choices(kinds, [w[x] for x in kinds])[0]
        o = rng.choice(cur['opts']) if cur['opts'] else None
        f = rng.choice(cur['flags']) if cur['flags'] else None
        if k == 'id' and o:
            toks.append('-' + o['short'] if o['short'] and (not o['long'] or rng.random() < .5) else '--' + o['long'])
            if rng.random() < .85:
                toks.append(rand_value(rng, o['type']))
        elif k == 'att' and o:
            v = rand_value(rng, o['type'])
            if o['short'] and (not o['long'] or rng.random() < .6):
                toks.append('-' + o['short'] + rng.choice(['', '=']) + v)
            else:
                toks.append('--' + o['long'] + '=' + v)
        elif k == 'flag' and f:
            toks.append('-' + f['short'] if f['short'] and (not f['long'] or rng.random() < .5) else '--' + f['long'])
        elif k == 'cluster' and cur['flags']:
            cs = [x['short'] for x in cur['flags'] if x['short']]
            rng.shuffle(cs)
            cs = cs[:rng.randint(1, 4)]
            if rng.random() < .1:
                cs.append(rng.choice('zh-=' + ''.join(cs)))
            if cs:
                toks.append('-' + ''.join(cs))
        elif k == 'value':
            t = rng.choice(cur['pos'])['type'] if cur['pos'] else 'str'
            toks.append(rand_value(rng, t))
        elif k == 'special':
            toks.append(rng.choice(SPECIAL))
        elif k == 'dd':
            toks.append('--')
        elif k == 'sub' and cur['subs']:
            s = rng.choice(cur['subs'])
            toks.append(s['name'])
            cur = s['decl']
        elif k == 'cross' and o:   # tokens of another (sub-)program, or identifiers as values
            e = rng.choice([*all_decls(d)])
            ids = [x for y in e['opts'] + e['flags'] for x in ('-' + y['short'], '--' + y['long']) if len(x) > 1]
            if ids:
                toks.append(rng.choice(ids))
        elif k == 'junk':
            toks.append(rng.choice(['-z', '--zz', '---', '-=', '--=', '--=x', '-\xff', '\x01', '-hx', '--helpx', '-Z=1']))
        elif k == 'mutate' and toks:
            t = toks[-1]
            i = rng.randint(0, len(t))
            toks[-1] = rng.choice([t[:i] + t[i + 1:], t[:i] + rng.choice('-=xh1\x80') + t[i:], t + t])
    return toks[:n]
