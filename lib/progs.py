"""Programs (declarations) and token alphabets for the parser machine."""


def val(kind, *args, log=True, exc=''):
    return dict(kind=kind, args=list(args), log=log and kind in ('rec', 'ne', 'maxlen'), exc=exc, msg='')


def opt(short, long, type='str', list=False, req=False, chain=(), default=None):
    d = [] if list else {'str': ['dflt'], 'path': ['dflt'], 'bool': ['false'], 'enum': ['green'],
                         'f32': ['0'], 'f64': ['0']}.get(type, ['-1'] if type.startswith('i') else ['1'])
    return dict(short=short, long=long, type=type, list=list, req=req, chain=[*chain], **{'def': d if default is None else default})


def flag(short, long):
    return dict(short=short, long=long)


def pos(type='str', list=False, chain=(), default=()):
    return dict(type=type, list=list, chain=[*chain], **{'def': [*default]})


def decl(opts=(), flags=(), pos=(), subs=(), app='app'):
    return dict(app=app, opts=[*opts], flags=[*flags], pos=[*pos], subs=[dict(name=n, decl=d) for n, d in subs])


def boxed(box, o):
    """a list option in another container than std::vector"""
    return dict(o, box=box)
