"""The update check (spec/VersionCheck.tla): C13 (who decides), C14 (cookies), C15 (shell), C16 (messages), C23 (files)."""
import itertools, os, re, shlex
from files import node, NOBODY
from vh import Broken

T0 = 1600000000
DAY = 86400
WEIRD = "h o'm;e$(x) \"&|"
HOMES = {'h': ('usable', 'h/.config/seqan'), 'h2': ('usable', 'h2/.config/seqan'), WEIRD: ('usable', WEIRD + '/.config/seqan'),
         'hconf': ('usable', 'hconf/.config/seqan'), 'hlink': ('usable', 'h2/.config/seqan'),
         'hro': ('fallback', ''), 'hcfg': ('dead', ''), 'hnox': ('dead', ''), 'hfile': ('fallback', ''), 'nohome': ('fallback', ''), None: ('fallback', '')}
TMPS = {'tmp1': True, 'tmpro': False, 'notmp': False, 'tmpfile': False}
PLACES = ['h/.config/seqan', 'h2/.config/seqan', 'hconf/.config/seqan', WEIRD + '/.config/seqan', 'tmp1']


def world():
    n = [node('', 'dir'), node('h', 'dir'), node('h/notes.txt'), node(WEIRD, 'dir'), node('hconf', 'dir'), node('hconf/.config', 'dir'),
         node('hconf/.config/other.conf')]
    n += [node('h2', 'dir'), node('h2/.config', 'dir'), node('h2/.config/seqan', 'dir')]
    n += [node('h2/.config/seqan/' + f) for f in ('dummy.txt', 'dummy.txt_', 'unrelated', 'app', 'app.versions', 'app_dev.timestamp2')]
    n += [node('hlink', 'link', target='h2')]
    n += [node('hro', 'dir', w=False), node('hro/notes.txt'), node('hcfg', 'dir'), node('hcfg/.config', 'dir'), node('hcfg/.config/seqan', 'dir', w=False),
          node('hcfg/.config/seqan/dummy.txt'), node('hnox', 'dir'), node('hnox/.config', 'dir'), node('hnox/.config/seqan', 'dir', x=False),
          node('hfile', 'dir'), node('hfile/.config', data='a file')]
    n += [node('tmp1', 'dir'), node('tmp1/dummy.txt'), node('tmp1/else'), node('tmpro', 'dir', w=False), node('tmpro/dummy.txt'), node('tmpfile')]
    return n


def run_of(home='h', tmp='tmp1', **k):
    kind, place = HOMES[home]
    if kind == 'fallback':
        place = 'tmp1'
    r = dict(build='dbg', app='app', version='1.0.0', url='', dev=True, env=False, home=kind, tmp=TMPS[tmp], place=place, user='unset', tin=True,
             terr=True, tout=False, answer='s', tool='wget', args='ok', server=dict(ok=True, text='1.0.0\n1.0.0\n'), slow=False, hang=False,
             homedir=home, tmpdir=tmp, envvalue=None, move=False)
    r.update(k)
    if r['env'] and r['envvalue'] is None:
        r['envvalue'] = '1'
    return r


MODELLED = ('build', 'app', 'version', 'url', 'dev', 'env', 'home', 'tmp', 'place', 'user', 'tin', 'terr', 'answer', 'tool', 'args', 'server', 'slow')


def model_run(r):
    """The run as the specification understands it."""
    return {k: r[k] for k in MODELLED}


def model_configs(cfgs):
    return [dict(c, inputs=[model_run(r) for r in c['inputs']]) for c in cfgs]


def driver_run(r, at, i):
    """The run as the driver understands it."""
    d = dict(r, now=at)
    argv = []
    if r['user'] != 'unset':
        argv += ['--version-check', {'true': ['true', '1'], 'false': ['false', '0']}[r['user']][i % 2]]
    if i % 5 == 0 and r['user'] != 'unset':     # the last one counts
        argv = ['--version-check', 'false' if r['user'] == 'true' else '1'] + argv
    d['subs'] = ['sub', 'x'] if r['args'] == 'sub' else []
    argv = {'ok': ['-i', '7'] + argv, 'error': argv + ['-i', 'x'], 'page': argv + [['--help'], ['--version'], ['-hh'], ['--copyright'], ['--export-help=man'], ['-h']][i % 6],
            'early': argv + ['--version-check'], 'sub': argv + ['sub', '-f'], 'none': argv}[r['args']]
    d['argv'] = argv
    d['answer'] = r['answer'] if r['answer'].endswith('\n') or i % 3 == 0 else r['answer'] + '\n'
    d['answer_path'] = (r['place'] or 'tmp1') + '/' + re.sub('[^A-Za-z0-9_-]', '', r['app']) + '.version'
    return d


MARKERS = {'update': 'A new version of this application is now available', 'register': 'wish to register your app',
           'library': 'A new Sharg version is available', 'newer': 'is newer than the one registered'}
PROMPT = 'Automatic Update Notifications'
CHECKERS = ('C13', 'C14', 'C15', 'C16', 'C23')


def own_file(path):
    d, _, f = path.rpartition('/')
    return d if d in PLACES and (f.endswith('.timestamp') or f.endswith('.version')) and not f.startswith('.') else None


def files_of(fs):
    return sorted([dict(place=own_file(n['path']), name=n['path'].rpartition('/')[2], text=n['data'])
                   for n in fs if own_file(n['path']) is not None and n['kind'] == 'file'], key=lambda f: (f['place'], f['name']))


def observe(r, a):
    """What a run did, in the terms of the specification."""
    commands = [c for c in a['calls'] if c['kind'] != 'probe']
    told = [m for m, t in MARKERS.items() if t in a['stderr']]
    return dict(yes=bool(a['calls']), asked=PROMPT in a['stderr'], told=told, sent=bool(commands),
                result=a.get('result', f'ended with {a["code"]}'))


def command_differs(r, version, a, root):
    commands = [c for c in a['calls'] if c['kind'] != 'probe']
    if len(commands) > 1:
        return f'{len(commands)} commands were run: {commands}'
    for c in a['calls']:
        if c['kind'] not in ('probe', 'command'):
            return f'started a program by other means: {c}'
        if c['kind'] == 'probe' and not re.fullmatch(r'[A-Za-z0-9/ ._-]+ > /dev/null 2>&1', c['what']):
            return f'unexpected command {c["what"]!r}'
    for c in commands:
        text = c['what']
        bare = re.sub(r"'[^']*'|\\'", '', text)
        if not re.fullmatch(r'[A-Za-z0-9/ ._:=-]+ > /dev/null 2>&1', bare):
            return f'unsafe command {text!r}'
        try:
            words = shlex.split(text[:text.rindex(' > /dev/null')])
        except ValueError:
            return f'unbalanced quotes in {text!r}'
        tool = 'curl' if 'curl' in words else 'wget'
        target = f'{root}/{r["place"]}/{r["app"]}.version'
        if target.replace('/h2/', '/hlink/') in words:
            target = target.replace('/h2/', '/hlink/')
        url = f'https://seqan-update.informatik.uni-tuebingen.de/check/SeqAn-Sharg_Linux_64_{r["app"]}_{version}'
        if tool != r['tool'] or words[-1:] != [url] or target not in words or words[words.index(target) - 1] not in ('-O', '-o'):
            return f'the command is {text!r}, expected {r["tool"]} with target {target!r} and {url!r}'
        if [w for w in words if '://' in w] != [url] or not re.fullmatch(r'(/usr/bin/env -i )?(wget|curl)( -[A-Za-z0-9=-]+| \d+)*', ' '.join(words[:words.index(target)])):
            return f'unexpected command {text!r}'
    return None


def differs(prop, r, d, out, files, before, version, a, root):
    """r: run; out, files: expected; a: answer of the driver; before: listing before the run."""
    o = observe(r, a)
    if 'result' not in a:
        if prop in ('C15', 'C13') or a['code'] != 1014:
            return f'the run ended with {a["code"]}: {a["stderr"][-300:]!r}'
    seen = files_of(a['fs'])
    want = sorted(files, key=lambda f: (f['place'], f['name']))
    cookies = lambda fs: [f for f in fs if f['name'].endswith('.timestamp')]
    if prop in ('C13', 'C14'):
        if o['yes'] != out['yes']:
            return f'a check {"was" if o["yes"] else "was not"} performed, decided by {out["by"]}'
        if o['asked'] != out['asked']:
            return f'the user {"was" if o["asked"] else "was not"} asked, decided by {out["by"]}'
        if cookies(seen) != cookies(want):
            return f'the cookies are {cookies(seen)}, expected {cookies(want)}'
    if prop == 'C15':
        w = command_differs(r, version, a, root)
        if w:
            return w
        if o['sent'] != out['sent']:
            return f'a request {"was" if o["sent"] else "was not"} sent'
        if o['result'] != out['result']:
            return f'the result was {o["result"]} {a.get("message")!r}, expected {out["result"]}'
        if a.get('early_request'):
            return 'parse() waited for the answer of the server'
        if o['result'] == 'ok' and (a['value'], a['flag'], a['sub_flag']) != ((7, False, False) if r['args'] == 'ok' else (-1, False, r['args'] == 'sub')):
            return f'the values were {a["value"], a["flag"], a["sub_flag"]}'
        if a.get('waited_ms', 0) > 10000:
            return f'the destructor waited for {a["waited_ms"]} ms'
        if r['hang'] and out['sent'] and o['result'] == 'ok' and a['waited_ms'] < 1000:
            return 'the destructor did not wait for the server'
    if prop == 'C16':
        if sorted(o['told']) != sorted(out['told']):
            return f'the messages {o["told"]} were printed, expected {sorted(out["told"])}'
        if any(a['stderr'].count(t) > 1 for t in MARKERS.values()):
            return 'a message was printed twice'
        if 'update' in o['told'] and (r['url'] != '' and f'Visit {r["url"]} for updates' not in a['stderr'] or r['url'] == '' and ':: Visit' in a['stderr']):
            return f'the URL {r["url"]!r} is not told correctly'
        if not o['told'] and not o['asked'] and a['stderr']:
            return f'unexpected output {a["stderr"][:200]!r}'
        if any(t in a['stdout'] for t in [*MARKERS.values(), PROMPT]):
            return 'a message was printed to the standard output'
    if prop == 'C23':
        now, was = ({n['path']: n for n in fs} for fs in (a['fs'], before))
        place = r['place'] if out['valid'] else None
        mine = {place + '/' + r['app'] + s for s in ('_dev.timestamp', '_usr.timestamp', '.version')} if place and re.fullmatch('[A-Za-z0-9_-]+', r['app']) else set()
        dirs = {place, place.rpartition('/')[0]} if place and out['valid'] else set()
        for p in sorted({*now, *was}):
            if p in mine or (p in dirs and p not in was and now[p]['kind'] == 'dir'):
                continue
            if now.get(p) != was.get(p):
                return f'{p!r} was {"removed" if p not in now else "created" if p not in was else "changed"}'
        if seen != want:
            return f'the files are {seen}, expected {want}'
    return None


# ---- what is enumerated ------------------------------------------------------------------------------------------------
def cookie_files(texts, place='h/.config/seqan', name='app_dev.timestamp'):
    return [dict(place=place, name=name, text=t) for t in texts]


COOKIES = [f'{T0 - d}\n{m}' for d in (0, 1, DAY - 1, DAY, DAY + 1, 10 * DAY) for m in ('ASK', 'ALWAYS', 'NEVER')] + \
          ['', 'NEVER', 'ALWAYS', 'ASK', f'{T0 - 5}', f'{T0 - 2 * DAY}', f'{T0 - 2 * DAY}\n', f'{T0 - 2 * DAY}\nALWAYS\nNEVER', f'{T0 - 2 * DAY}\nALWAYS\n',
           f'{T0 - 2 * DAY}\nalways', f'{T0 - 2 * DAY}\nNEVER ', 'xyz\nALWAYS', f'{T0 - 2 * DAY}xyz\nNEVER', f'{T0 + 5}\nALWAYS', f'{T0 + 5}\nASK', '\n\nNEVER', '\nNEVER',
           f'{T0 - DAY}\nYES', '0\nALWAYS', f'{T0 - DAY + 1}x\nALWAYS', f' {T0}\nALWAYS']


def config(id, inputs, deltas=(0,), depth=1, files=(), emit=True, last=False):
    return dict(id=id, inputs=inputs, deltas=[*deltas], depth=depth, start=T0, files=[*files], places=PLACES, emit=emit, last=last)


def decide_configs(quick):
    out = []
    ttys = [(1, 1), (1, 0), (0, 1), (0, 0)]
    tty = lambda t: dict(tin=bool(t[0]), terr=bool(t[1]))
    # vetoes, with every kind of cookie
    some = [None] + [f'{T0 - 2 * DAY}\n{m}' for m in ('ALWAYS', 'NEVER', 'ASK')] + [f'{T0}\nALWAYS']
    for ci, c in enumerate(some):
        inputs = []
        for i, (dev, env, home, user, t, b) in enumerate(itertools.product((True, False), (False, True), ('h', 'hcfg', None), ('unset', 'true', 'false'), ttys, ('dbg', 'rel'))):
            inputs.append(run_of(home=home, dev=dev, env=env, user=user, build=b, answer='ya'[i % 2], args=('ok', 'page', 'error', 'sub')[i % 4] if not quick or i % 3 == 0 else 'ok', **tty(t)))
        files = [] if c is None else [f for n in ('app_dev.timestamp', 'app_usr.timestamp') for p in ('h/.config/seqan', 'tmp1') for f in cookie_files([c], p, n)]
        out.append(config(f'veto{ci}', inputs, files=files))
    # every cookie
    for ci, c in enumerate(COOKIES):
        inputs = [run_of(build=b, answer=a, user=u, home=('h', 'h2', WEIRD)[k % 3], **tty(t))
                  for k, (b, (a, t), u) in enumerate(itertools.product(('dbg', 'rel'), [('y', (1, 1)), ('', (1, 1)), ('a', (0, 1)), ('a', (1, 0)), ('n', (1, 1))], ('unset', 'true') if not quick else ('unset',)))]
        out.append(config(f'cookie{ci}', inputs, files=[f for p in ('h/.config/seqan', 'h2/.config/seqan', WEIRD + '/.config/seqan') for n in ('app_dev.timestamp', 'app_usr.timestamp')
                                                        for f in cookie_files([c], p, n)]))
    # every answer
    answers = ['', '\n', 'y', 'Y', 'yes', 'no', 'n', 'N', 'a', 'A', 'always', 's', 'S', ' y', 'x', '1', '0', 'yn', 'ya', 'q\ny', '-', 'never', '\ty', 'ä']
    answers += [chr(c) for c in range(33, 127)]
    out.append(config('answers', [run_of(answer=a, build=b) for a in answers for b in ('dbg', 'rel')]))
    # values of the environment variable, places
    out.append(config('places', [run_of(home=h, tmp=t, user=u, answer='y', build=b, dev=dev) for h in HOMES for t in TMPS for u in ('unset', 'true') for b in ('dbg', 'rel') for dev in (True, False)]))
    out.append(config('environment', [run_of(env=True, envvalue=e, user=u, answer='y') for e in ('', '0', 'false', 'no', '1', 'x y') for u in ('unset', 'true', 'false')]))
    out.append(config('arguments', [run_of(args=a, user=u, answer='y', tool=t, slow=s, build=b) for a in ('ok', 'error', 'page', 'early', 'sub') for u in ('unset', 'true', 'false')
                                    for t in ('wget', 'curl', 'none') for s in (False, True) for b in ('dbg', 'rel')]))
    return out


def history_inputs(full):
    out = [run_of(answer='a'), run_of(answer='n'), run_of(answer='y'), run_of(answer='s'), run_of(tin=False), run_of(user='true'), run_of(user='false')]
    if full:
        out += [run_of(build='rel', answer='y'), run_of(build='rel', answer='a'), run_of(env=True), run_of(dev=False), run_of(terr=False, args='error'), run_of(app='app2', answer='a'),
                run_of(tin=False, args='page'), run_of(home=None, answer='y'), run_of(answer='a', tool='none'), run_of(tin=False, args='sub')]
    return out


def history_configs(quick):
    deltas = (1, DAY - 1, DAY)
    return [config('short', history_inputs(True), deltas, 2), config('core', history_inputs(False), deltas, 3, last=True, emit=False),
            config('explore', history_inputs(True), deltas, 3 if quick else 4, emit=False)] + \
           ([] if quick else [config('core4', history_inputs(False), (DAY - 1, DAY), 4, last=True, emit=False)])


def message_configs(quick):
    vs = ['1.0.0', '0.9.9', '1.0.1', '1.1.2', '1.1.3', '1.1.1', '1.2.0', '2.0.0', '10.0.0', '1.10.0', '1.9.0', '1.0.10', '0.0.0', '0.0.1', '1.2.3', '3.2.1', '01.0.0', '1.1', '1.1.2.3',
          'v1.0.0', '1.0.0-rc1', '1.0.0 ', ' 1.0.0', '', 'UNREGISTERED_APP', 'unregistered_app', 'UNREGISTERED_APP ', '1..0', '-1.0.0', 'a.b.c', '<html>', '1.0.0\r', '2147483647.0.0', '1,0,0']
    own = ['1.0.0', '1.9.0', '1.10.0', '0.0.1', '', '2.0.0-rc.1', 'v3', '10.0.0', '1.2.3.4', '1.0', '1.0.0abc']
    out = []
    stored = [f'{a}\n{b}\n' for a in vs for b in ('1.1.2', '1.1.3')] + [f'{a}\n{b}\n' for a in ('1.0.0', 'UNREGISTERED_APP', '') for b in vs]
    stored += [a for a in ('9.9.9', 'UNREGISTERED_APP', '1.0.0\n', '9.9.9\n9.9.9', '\n9.9.9', '9.9.9\n\n9.9.9', '9.9.9\n9.9.9\n9.9.9\n', 'UNREGISTERED_APP\n\n', '\n')] + [None]
    for i, s in enumerate(dict.fromkeys(stored)):
        inputs = [run_of(version=v, build=b, user='true', url=('', 'https://example.org/?a=b')[(i + k) % 2], args=('ok', 'page', 'error', 'sub')[k % 4] if k % 3 == 0 else 'ok', server=dict(ok=k % 2 == 0, text='1.0.0\n1.1.2\n'))
                  for k, (v, b) in enumerate(itertools.product(own if not quick else own[i % 3::3] + ['1.0.0'], ('dbg', 'rel')))]
        inputs += [run_of(user=u, build=b, tin=False) for u in ('false', 'unset') for b in ('dbg', 'rel')]
        out.append(config(f'stored{i}', inputs, files=[] if s is None else [dict(place='h/.config/seqan', name='app.version', text=s)]))
    answers = [dict(ok=True, text=t) for t in ('2.0.0\n9.0.0\n', 'UNREGISTERED_APP\n1.1.2\n', '0.5.0\n1.1.2\n', 'oops', '')] + [dict(ok=False, text='')]
    out.append(config('successive', [run_of(user='true', build=b, server=s, version=v) for b in ('dbg', 'rel') for s in answers for v in ('1.0.0', '2.0.0')], (1,), 2))
    out.append(config('automatic', [run_of(build=b, server=s, answer=a) for b in ('dbg', 'rel') for s in answers[:3] for a in 'an'], (1, DAY), 2 if quick else 3))
    return out


def shell_configs(quick):
    alphabet = ['1', '.', 'a', ';', ' ', '$', '\n', '-']
    versions = [''.join(v) for n in range(0, 4 if quick else 5) for v in itertools.product(alphabet, repeat=n)]
    versions += [a + b + c for a in ('1.2.3', '01.002.0', '123456789.98765432.1') for b in alphabet + ['', '`', "'", '"', '&', '|', '>', '\\', '\t', '/', '4', '\u00e9', '#', '..'] for c in ('', 'x', '; touch x', '.4')]
    versions += ['1.2.', '1.2', '1..3', '.1.2.3', ' 1.2.3', 'v1.2.3', '1.2.x', '$(x)', '1.2.3$(touch y)', '1.2.3`x`', '1.2.3\n; touch x', '\n1.2.3', '1.2;3', '1.2.3-rc.1', '1.2.3_4', '9' * 30 + '.1.1']
    names = ['app', 'A', '-', '_', '-rf', 'a' * 100, 'a_b-c', '0', '', 'a b', 'a;b', '$(x)', '`x`', "a'b", 'a"b', 'a\\b', 'a\nb', 'a\n', '\na', 'a/b', '../x', '.', '..', 'a.b', 'a&b', 'a|b', 'a>b', 'a<b', 'a*', '~', 'ä', 'a\tb', 'a\x7f', 'a#b', 'a%20b', 'a=b', 'a(b)']
    names += ['x' + chr(c) for c in range(1, 127)]
    out = [config('versions', [run_of(version=v, user='true', tool=('wget', 'curl')[i % 2], args=('ok', 'page')[i % 5 == 0], build=('dbg', 'rel')[i % 3 == 0]) for i, v in enumerate(versions)]),
           config('names', [run_of(app=n, user='true', tool=('wget', 'curl')[i % 2], build=b, home=('h', 'h2', WEIRD)[i % 3]) for i, n in enumerate(names) for b in ('dbg', 'rel')]),
           config('homes', [run_of(home=h, tmp=t, user='true', tool=tool, args=a) for h in HOMES for t in TMPS for tool in ('wget', 'curl', 'none') for a in ('ok', 'sub')]),
           config('server', [run_of(user='true', tool=tool, args=a, slow=s, server=dict(ok=ok, text='1.0.0\n'), build=b, move=m) for tool in ('wget', 'curl', 'none') for a in ('ok', 'error', 'page', 'sub', 'early')
                             for s in (False, True) for ok in (True, False) for b in ('dbg', 'rel') for m in (False, True)]),
           config('hanging', [run_of(user='true', hang=True, slow=True, args=a, build=b, server=dict(ok=False, text=''), move=m) for a in ('ok', 'sub', 'page', 'error') for b in ('dbg', 'rel') for m in (False, True)])]
    return out


def file_configs(quick):
    inputs = [run_of(home=h, tmp=t, dev=d, user=u, answer='y', build=b) for h in HOMES for t in TMPS for d in (True, False) for u in ('unset', 'true', 'false') for b in ('dbg', 'rel')]
    bad = [run_of(app=n, home=h, user='true') for n in ('a/b', '../../x', 'a b', '', 'a;touch b', '/tmp/x') for h in HOMES]
    early = [run_of(args='early', home=h) for h in HOMES]
    pages = [run_of(args=a, home=h, answer='a') for h in HOMES for a in ('page', 'error', 'sub')]
    return [config('places', inputs + bad + early + pages), config('two', [run_of(app=a, home=h, build=b, answer='a') for a in ('app', 'app2', 'app_dev') for h in ('h', 'h2', 'hlink', 'hconf') for b in ('dbg', 'rel')], (1, DAY), 2)]


CONFIGS = {'C13': decide_configs, 'C14': lambda q: history_configs(q) + decide_configs(q)[5:5 + len(COOKIES) + 1], 'C15': shell_configs, 'C16': message_configs, 'C23': file_configs}
CFG = 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + ''.join(f'INVARIANT {i}\n' for i in (
    'Daily', 'AskedDaily', 'Persist', 'NoTerminal', 'Vetoes', 'OptionYes', 'Silence', 'Consistent', 'SafeText', 'Emit')) + 'PROPERTY Untouched\n'
TRACE_CFG = 'SPECIFICATION TraceSpec\nCHECK_DEADLOCK FALSE\nPOSTCONDITION TraceAccepted\n'


def nodes_for(cfg):
    n = world()
    have = {x['path'] for x in n}
    for f in cfg['files']:
        parts = f['place'].split('/')
        for i in range(1, len(parts) + 1):
            p = '/'.join(parts[:i])
            if p not in have:
                have.add(p)
                n.append(node(p, 'dir'))
        n.append(node(f['place'] + '/' + f['name'], data=f['text']))
    return n


def start(chk):
    a = chk.build_async('h_version', ['h_version.cpp'], ['-rdynamic'], ['-ldl'])
    b = chk.build_async('h_version_rel', ['h_version.cpp'], ['-rdynamic', '-DNDEBUG'], ['-ldl'])
    return a, b


def check(chk):
    futs = start(chk)
    cfgs = CONFIGS[chk.prop](chk.quick)
    by = {c['id']: c for c in cfgs}
    f = chk.write_json('version.json', model_configs(cfgs))
    r = chk.tlc('MCVersion', CFG, env={'SHARG_CONFIGS': f}, name='VersionCheck')
    vectors = r.lines
    if chk.prop == 'C14':
        sim = [dict(config('walks', history_inputs(True), (1, DAY - 1, DAY), 9, emit=False, last=True))]
        f = chk.write_json('walks.json', model_configs(sim))
        by['walks'] = sim[0]
        r = chk.tlc('MCVersion', CFG, env={'SHARG_CONFIGS': f}, args=('-simulate', f'num={12 if chk.quick else 200}', '-depth', '10', '-seed', str(chk.seed)), workers=1, name='VersionCheck simulation')
        seen = {}
        for v in r.lines:
            seen[str(v['h'])] = v
        vectors = vectors + list(seen.values())
    vectors.sort(key=lambda v: (v['c'], str(v['h'])))
    exe, rel = (x.result() for x in futs)
    os.chmod(rel, 0o755)
    cases = []
    for i, v in enumerate(vectors):
        c = by[v['c']]
        cases.append(dict(nodes=nodes_for(c), runs=[driver_run(c['inputs'][h['in'] - 1], h['at'], i + k) for k, h in enumerate(v['h'])]))
    env = {'SHARG_NO_VERSION_CHECK': None}

    def go(cs):
        return chk.run(exe, cs, extra=[rel], user=NOBODY, seconds=120, env=env)

    def judge(i, res):
        v, case = vectors[i], cases[i]
        if res['end'] != 'return':
            raise Broken(f'h_version: {res}')
        # every prefix of a history is a vector of its own or checked in its last run: the final one is decisive,
        # the runs in between are compared by what they did
        before = case['nodes']
        for k, (r, out, a) in enumerate(zip(case['runs'], v['outs'], res['runs'])):
            last = k + 1 == len(case['runs'])
            files = v['files'] if last else None
            out = dict(out, valid=out['result'] != 'design_error' and out['by'] != 'nobody')
            want = [dict(place=p, name=n, text=t) for p, fs in v['files'].items() if fs for n, t in fs.items()] if last else files_of(a['fs'])
            w = differs(chk.prop, r, r, out, want, before, v['versions'][k], a, res['root'])
            if w:
                return f'run {k + 1} of {[(x["argv"], x["now"] - T0) for x in case["runs"]]}: {w}'
            before = a['fs']
        return None
    results = go(cases)
    bad = [i for i, r in enumerate(results) if judge(i, r)]
    for i, r, w in chk.confirm(exe, cases, bad, judge, limit=60, extra=[rel], user=NOBODY, seconds=120, env=env):
        chk.violation(w, dict(case=cases[i], expected=vectors[i], observed=r))
    chk.validated(len(cases), 'replay')
    chk.parts['replay']['runs'] = sum(len(c['runs']) for c in cases)
    for i in range(len(cases) // 3, len(cases), len(cases) // 3 + 1):
        chk.sample(dict(runs=[(r['argv'], r['answer'], r['now'] - T0) for r in cases[i]['runs']], expected=vectors[i]['outs']))
    histories(chk, go, 60 if chk.quick else 1500)
    chk.assumptions += ['time, terminals and the shell are replaced by stand-ins inside the process; no request is really sent',
                        'runs of one user follow each other (no two programs decide at the same moment)',
                        'cookies written by somebody else: only the listed contents']


def histories(chk, go, count):
    rng = chk.rng
    cases = []
    for _ in range(count):
        now, runs = T0, []
        always = rng.random() < .5
        for _ in range(rng.randint(3, 12)):
            r = run_of(home=rng.choice(['h', 'h', 'h', 'h2', WEIRD, None, 'hcfg', 'hlink']), tmp=rng.choice(['tmp1', 'tmp1', 'tmpro']), build=rng.choice(['dbg', 'dbg', 'rel']),
                       app=rng.choice(['app', 'app', 'app2', 'a b'][:4 if rng.random() < .1 else 3]), version=rng.choice(['1.0.0', '1.2.3-x', 'x', '2.0.0']),
                       url=rng.choice(['', 'http://x.y']), dev=rng.random() < .93, env=rng.random() < .07, user=rng.choice(['unset'] * 6 + ['true', 'false']),
                       tin=rng.random() < .75, terr=rng.random() < .85, answer=rng.choice(['a', 'y', 'n', 's', '', 'yes', 'x'] if not always else ['a', 'y', 's']),
                       tool=rng.choice(['wget', 'wget', 'curl', 'none']), args=rng.choice(['ok'] * 4 + ['error', 'page', 'early', 'sub']), slow=rng.random() < .3,
                       server=rng.choice([dict(ok=True, text=t) for t in ('2.0.0\n9.0.0\n', 'UNREGISTERED_APP\n1.1.2\n', '0.5.0\n1.1.2\n')] + [dict(ok=False, text='')]), move=rng.random() < .2)
            runs.append(driver_run(r, now, rng.randint(0, 29)))
            now += rng.choice([0, 1, 3600, DAY - 1, DAY, DAY + 1, 5 * DAY])
        cases.append(dict(nodes=world(), runs=runs))

    def events(case, res):
        yield dict(e='new', files=[], places=PLACES)
        for r, a in zip(case['runs'], res['runs']):
            yield dict(e='run', now=r['now'], out=observe(r, a), files=files_of(a['fs']),
                       **{'in': model_run(r)})

    def rejected(idx, results, tag):
        evs, owner = [], []
        for i in idx:
            for e in events(cases[i], results[i]):
                evs.append(e)
                owner.append(i)
        f = chk.write_nd(f'version-{tag}.json', evs)
        r = chk.tlc('VersionTrace', TRACE_CFG, env={'SHARG_TRACE': f}, workers=1, expect_ok=False, name='VersionTrace')
        if r.rc == 0:
            return None
        if 'ostcondition' not in r.out:
            raise Broken('VersionTrace: ' + r.out[-3000:])
        return owner[min(r.depth - 1, len(owner) - 1)]
    results = go(cases)
    todo = list(range(len(cases)))
    while todo and len(chk.violations) < 5:
        i = rejected(todo, results, 'all')
        if i is None:
            break
        results[i] = go([cases[i]])[0]
        if rejected([i], results, 'one') is not None:
            chk.violation(f'a recorded history is not a behaviour of the specification: {[(r["argv"], r["answer"], r["now"] - T0, observe(r, a)) for r, a in zip(cases[i]["runs"], results[i]["runs"])]}'[:1500],
                          dict(case=cases[i], observed=results[i]))
        todo = todo[todo.index(i) + 1:]
    chk.validated(len(cases), 'random histories')


_how = ('TLA+ model checking (TLC) of the update check over histories of runs; all enumerated histories replayed with the real parser (debug and release '
        'builds; time, terminals and the shell replaced), recorded random histories validated against the TLA+ trace specification')
TEXT = {
    'C13': (_how, 'All combinations of developer, environment, directory, option, terminal and build with each kind of cookie; 38 cookie contents, every answer, every kind of home and '
            'temporary directory, all command line outcomes, sub-parsers.'),
    'C14': (_how, 'All histories of 2 runs over 17 kinds of runs and 3 distances in time and of 3 runs over 7 kinds, random walks of 9 runs; the model itself to depth 3 (4).'),
    'C15': (_how, 'All version texts over 8 characters up to length 3 (4) plus listed ones, names with every byte, homes with shell metacharacters, servers that are slow, hang or fail; the recorded '
            'commands are split like a shell does and compared word by word.'),
    'C16': (_how, 'Over 130 stored answers x application versions x both builds x outcomes; successive runs that store an answer and then use it.'),
    'C23': (_how, 'The complete listing of all home and temporary directories is compared around each run, for every kind of directory and decision.'),
}
