"""File and directory validators (spec/FileValidators.tla): C17 (what is accepted) and C18 (nothing is changed)."""
import itertools, os
from vh import Broken

NOBODY = 65534


def node(path, kind='file', r=True, w=True, x=None, target='', data=None):
    x = kind != 'file' if x is None else x
    if kind in ('link', 'null'):
        r = w = x = True
    if kind == 'fifo':
        x = False
    return dict(path=path, kind=kind, r=r, w=w, x=x, target=target, data=('content of ' + path if data is None else data) if kind == 'file' else '')


def V(kind, exts=(), over=False, mask=''):
    return dict(kind=kind, exts=[*exts], over=over, mask=mask)


MASKS = ('r', 'w', 'x', 'rw', 'rx', 'wx', 'rwx')


def tree():
    n = [node('', 'dir')]
    for f in ('f.fa', 'F.FA', 'g.txt', 'noext', '.hidden', '.h.fa', 'x.tar.gz', 'x.notfa', 'a b.fa', '.fa', 'x.gz', 'y.Fa'):
        n.append(node(f))
    n += [node('empty.fa', data=''), node('ro.fa', w=False), node('wo.fa', r=False), node('no.fa', r=False, w=False),
          node('run.fa', x=True)]
    for name, r, w, x in (('d', 1, 1, 1), ('d_ro', 1, 0, 1), ('d_x', 0, 0, 1), ('d_wx', 0, 1, 1), ('d_r', 1, 0, 0), ('d_w', 0, 1, 0),
                          ('d_rw', 1, 1, 0), ('d_no', 0, 0, 0), ('d.fa', 1, 1, 1)):
        n.append(node(name, 'dir', bool(r), bool(w), bool(x)))
        n.append(node(name + '/in.fa'))
        if name in ('d', 'd_ro'):
            n += [node(name + '/ro.fa', w=False), node(name + '/up', 'link', target='..'), node(name + '/back.fa', 'link', target='../f.fa'),
                  node(name + '/sub', 'dir'), node(name + '/dang.fa', 'link', target='missing.fa')]
    for name, target in (('l_file', 'f.fa'), ('l_file.fa', 'd/in.fa'), ('l_dir', 'd'), ('l_dang.fa', 'nowhere.fa'), ('l_dangdir', 'd_ro/nowhere'),
                         ('l_loop', 'l_loop'), ('l_ro.fa', 'ro.fa'), ('l_deep.fa', 'missing/x.fa'), ('l_l.fa', 'l_file.fa'), ('l_dir.fa', './d/'),
                         ('l_no', 'd_no'), ('l_slash', 'f.fa/')):
        n.append(node(name, 'link', target=target))
    n += [node('l_null', 'null'), node('null.fa', 'null'), node('fifo.fa', 'fifo')]
    n += [node('dummydir', 'dir'), node('dummydir/dummy.txt'), node('dummydir/dummy.txt_'), node('dummydir/dummy', 'dir')]
    n += [node('dummyro', 'dir', w=False), node('dummyro/dummy.txt')]
    return n


def configs(quick):
    t = tree()
    top = sorted({p['path'].split('/')[0] for p in t} - {''})
    inner = ['in.fa', 'new.fa', 'NEW.FA', 'new', '.', '..', '', 'sub', 'up', 'back.fa', 'dang.fa', 'dummy.txt', 'x.gz', '.new.fa', 'new.tar.gz', 'f.fa', 'd']
    exts = [[], ['fa'], ['.FA'], ['tar.gz'], ['gz', 'fa'], ['Tar.GZ', 'txt']]
    vs = [V('infile', e) for e in (exts if not quick else exts[:2] + exts[3:5])]
    vs += [V('outfile', e, over) for over in (False, True) for e in (exts if not quick else exts[:2] + exts[3:4])]
    vs += [V('indir'), V('outdir')]
    out = [dict(id='main', nodes=t, names=sorted(set(top + inner + ['n' * 255, 'n' * 256, 'n' * 253 + '.fa', 'nö.fa'])),
                more=sorted(set(inner + ([] if quick else top))), depth=2, validators=vs,
                partners=['f.fa', 'new2.fa'] if quick else ['f.fa', 'new2.fa', 'd', 'd/in.fa', 'd_no/x'])]
    deep = ['d', 'l_dir', 'up', 'sub', '..', '.', '', 'in.fa', 'new.fa', 'd_ro', 'back.fa', 'dummydir', 'dummy.txt']
    out.append(dict(id='deep', nodes=t, more=deep, names=deep, depth=3 if quick else 4, partners=[],
                    validators=[V('infile', ['fa']), V('outfile', ['fa']), V('outfile', ['fa'], True), V('indir'), V('outdir')]))
    masked = ['d', 'l_dir', 'f.fa', 'ro.fa', 'd_ro', 'd_wx', 'd_w', 'new.fa', 'new', '', '.', 'dummydir', 'l_dang.fa', 'l_dangdir']
    out.append(dict(id='mask', nodes=t, more=masked, names=masked[:9] + masked[11:], depth=2 if quick else 3, partners=['new', 'new2'],
                    validators=[V('outdir', mask=m) for m in MASKS] + [V('outfile', mask=m) for m in MASKS[:3:2] + MASKS[-1:]] +
                    [V('outfile', [], True, 'rwx'), V('infile', ['fa'], mask='rwx'), V('indir', mask='rwx')]))
    letters = ['.', 'f', 'a', 'F', 't']
    long = [''.join(c) for n in range(1, 5 if quick else 6) for c in itertools.product(letters, repeat=n)]
    short = [s for s in long if len(s) <= 3 and s not in ('.', '..')]
    lists = [['fa'], ['.fa'], ['fa.fa'], ['t', 'FA'], ['.f.a', 'a'], ['.t.FA'], ['f'], ['aF', 'ta', 't.t']]
    out.append(dict(id='ext-out', nodes=[node('', 'dir')], names=long, more=[], depth=1, partners=[], validators=[V('outfile', e, i % 2 == 1) for i, e in enumerate(lists)]))
    out.append(dict(id='ext-in', nodes=[node('', 'dir')] + [node(s) for s in short], names=short, more=[], depth=1, partners=['fa', 't.fa'],
                    validators=[V('infile', e) for e in lists[:5 if quick else 8]]))
    return out


CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Disjoint\nINVARIANT Monotone\nINVARIANT SmallDeviation\nINVARIANT Emit\n'
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'
SINGLE, MANY = (0, 1, 2, 3, 6, 7, 8, 4, 5), (4, 5, 6, 7, 0)


def modes_for(paths, absolute):
    m = SINGLE if len(paths) == 1 else MANY
    if not absolute and any(p == '' for p in paths):
        return [x for x in m if x in (0, 6)]
    return m


def judge(chk, v, case, r):
    if r['end'] != 'return':
        return f'the program ended by {r["end"]} {r["code"]}: {r["stderr"][-300:]!r}' if chk.prop == 'C17' or r['end'] == 'signal' else None
    if chk.prop == 'C17':
        if r['ok'] != v['ok']:
            return ('accepted, must be rejected' if r['ok'] else f'rejected with {r["class"]}, must be accepted')
        if not r['ok'] and (r['class'] != 'validation_error' or r['emptymsg']):
            return f'rejected with {r["class"]}' + (' without a message' if r['emptymsg'] else '')
        if not r['kept']:
            return 'the value was changed'
        return None
    if r['other']:
        return f'the file system was changed: {r["other"]}'
    if r['gone']:
        if sorted(r['gone']) == sorted(v['gone']) and chk.known_finding('open-or-create-removes'):
            return None
        return f'removed: {r["gone"]}'
    return None


def check(chk):
    fut = chk.build_async('h_files', ['h_files.cpp'], ['-O1'])
    cfgs = configs(chk.quick)
    by = {c['id']: c for c in cfgs}
    f = chk.write_json('files.json', cfgs)
    r = chk.tlc('MCFiles', CFG, env={'SHARG_CONFIGS': f}, name='FileValidators')
    exe = fut.result()
    trees = chk.write_nd('trees.json', [dict(id=c['id'], nodes=c['nodes']) for c in cfgs])
    os.chmod(trees, 0o644)
    vectors = sorted(r.lines, key=lambda v: (v['c'], v['paths'], v['v']))
    cases = []
    for i, v in enumerate(vectors):
        absolute = i % 3 == 0 and '' not in v['paths']
        m = modes_for(v['paths'], absolute)
        cases.append(dict(tree=v['c'], v=by[v['c']]['validators'][v['v'] - 1], paths=v['paths'], mode=m[i % len(m)], abs=absolute))

    def go(cs):
        return chk.run(exe, cs, extra=[trees], user=NOBODY)
    results = go(cases)
    bad = [i for i, r in enumerate(results) if judge(chk, vectors[i], cases[i], r)]
    for i, r, w in chk.confirm(exe, cases, bad, lambda i, r: judge(chk, vectors[i], cases[i], r), limit=1000, extra=[trees], user=NOBODY):
        c = cases[i]
        chk.violation(f'{c["v"]} with {c["paths"]} (mode {c["mode"]}): {w}', dict(case=c, expected=vectors[i], observed=r, tree=by[c['tree']]['nodes']))
    chk.validated(len(cases), 'replay')
    chk.parts['replay']['accepted'] = sum(v['ok'] for v in vectors)
    for i in range(len(cases) // 3, len(cases), len(cases) // 3):
        chk.sample(dict(case=cases[i], ok=vectors[i]['ok']))
    histories(chk, exe, trees, 300 if chk.quick else 6000)
    chk.assumptions += ['the file system obeys POSIX permission rules for an unprivileged owner (the drivers run as user 65534)',
                        'opening a named pipe with open_or_create and empty strings in the list of extensions are not specified']


def histories(chk, exe, trees, count):
    rng = chk.rng
    names = ['a.fa', 'b.FA', 'c', 'l.fa', 'd', 'e', 'dummy.txt', '.h.fa']
    kinds = [V('infile'), V('infile', ['fa']), V('outfile'), V('outfile', ['fa']), V('outfile', [], True), V('outfile', ['fa'], True), V('indir'), V('outdir')]
    scripts = []

    def path(depth=2):
        return '/'.join(rng.choice(names) for _ in range(rng.randint(1, depth)))
    for _ in range(count):
        n = {'': node('', 'dir', w=rng.random() < .9)}
        for _ in range(rng.randint(2, 8)):
            p = path()
            parent = p.rsplit('/', 1)[0] if '/' in p else ''
            if parent not in n or n[parent]['kind'] != 'dir' or p in n:
                continue
            k = rng.choice(['file', 'file', 'dir', 'dir', 'link', 'null'])
            n[p] = node(p, k, r=rng.random() < .8, w=rng.random() < .8, x=(rng.random() < .9) if k == 'dir' else False,
                        target=rng.choice(['.', '..', path(1), path(), './' + path(1)]) if k == 'link' else '')
        steps = [dict(op='new', nodes=[n[k] for k in sorted(n)])]
        for _ in range(rng.randint(3, 10)):
            u = rng.random()
            if u < .15:
                k = rng.choice(['file', 'dir', 'link'])
                steps.append(dict(op='put', **node(path(), k, r=rng.random() < .8, w=rng.random() < .8, target=rng.choice(['.', path(1), path()]) if k == 'link' else '')))
            elif u < .25:
                steps.append(dict(op='rm', path=rng.choice(names)))
            elif u < .35:
                steps.append(dict(op='chmod', path=rng.choice(sorted(n)), r=rng.random() < .8, w=rng.random() < .8, x=rng.random() < .8))
            else:
                ps = [rng.choice([path(), path(), path() + rng.choice(['/', '/.', '/..', '/new.fa', 'x']), rng.choice(sorted(n))]) or 'c' for _ in range(rng.choice([1, 1, 2, 3]))]
                ms = modes_for(ps, False)
                steps.append(dict(op='check', v=dict(rng.choice(kinds), mask=rng.choice(('',) * 7 + MASKS)), paths=ps, mode=rng.choice(ms), abs=False))
        scripts.append(dict(script=steps))

    def go(cs):
        return chk.run(exe, cs, extra=[trees], user=NOBODY)

    def rejected(idx, results, tag):
        evs, owner = [], []
        for i in idx:
            if results[i]['end'] != 'return':
                return i
            for e in results[i]['events']:
                e = dict(e, aspect=chk.prop)
                if e['e'] == 'check' and e['other'] and chk.prop == 'C18':
                    return i
                evs.append(e)
                owner.append(i)
        f = chk.write_nd(f'files-{tag}.json', evs)
        r = chk.tlc('FilesTrace', TRACE_CFG, env={'SHARG_TRACE': f}, workers=1, expect_ok=False, name='FilesTrace')
        if r.rc == 0:
            return None
        if 'ostcondition' not in r.out:
            raise Broken('FilesTrace: ' + r.out[-3000:])
        return owner[min(r.depth - 1, len(owner) - 1)]
    results = go(scripts)
    todo = list(range(len(scripts)))
    while todo and len(chk.violations) < 5:
        i = rejected(todo, results, 'all')
        if i is None:
            break
        def judge(i, r):
            return '' if rejected([i], {i: r}, 'one') is None else 'not a behaviour'
        for _, r, w in chk.confirm(exe, scripts, [i], judge, extra=[trees], user=NOBODY):
            chk.violation(f'a recorded history of files and validations is not a behaviour of the specification: {[s for s in scripts[i]["script"][1:]]}'[:1500],
                          dict(case=scripts[i], observed=r))
        todo = todo[todo.index(i) + 1:]
    chk.validated(len(scripts), 'histories')
    chk.parts['histories']['validations'] = sum(s['op'] == 'check' for c in scripts for s in c['script'])


TEXT = {
    'C17': ('TLA+ model checking (TLC) of the validators on an explicit file system; every enumerated path replayed in real directories by an '
            'unprivileged process, recorded random histories validated against the TLA+ trace specification',
            'All paths of up to 2 (3) components over a tree with every combination of permissions, links (dangling, looping, to devices), hidden files '
            'and multi-part extensions, 12-20 validators, used directly, in options, positionals, lists and chains; all file names over a 5 letter '
            'alphabet up to length 4 (5) for 8 extension lists. POSIX, as user nobody.'),
    'C18': ('TLA+ model checking (TLC) of the validators on an explicit file system; listings of the real directories before and after each validation '
            'compared, recorded random histories validated against the TLA+ trace specification',
            'The same paths, validators and histories as C17; the complete listing (kinds, modes, contents, sizes, modification times) is compared '
            'around every validation. Known finding: accepted existing files with open_or_create are removed.'),
}
