"""C11: what an operation may create, change or delete.

Every function that runs in the main process or in a worker is interpreted; each creation, modification and deletion on
every path (failing paths included) is traced to the parameter its path is built from."""
from collections import Counter

from ..interp import Interp, HInst, HDict, HList
from ..roundtrip import RoundTrip, PARENT, SRC, FILE, DEST, PATH, OUT
from ..terms import K, T, Ref, Cls, Fn, Bound, Tup, NONE, TRUE, FALSE, comps, subterms, join
from ..prog import AnalysisBroken
from ..runner import parallel
from .. import targets, ops
from .. import judge as J
from .r_ops import cond, strip, opaque_but_worker

PROPS = ('C11',)
Q = 'v8unpack.'
WRITES = ('create', 'mkdir', 'modify', 'overwrite')
# functions of the library that change what a path names
CHANGING = {'chmod', 'chown', 'utime', 'truncate', 'unlink', 'rmdir', 'removedirs', 'replace', 'renames', 'link', 'symlink',
            'remove', 'rename', 'rmtree', 'move', 'copymode', 'copystat', 'mkdir', 'makedirs', 'copyfile', 'copy2', 'copy',
            'copytree', 'write_text', 'write_bytes', 'touch'}
WRAP = ('norm', 'abs', 'normcase', 'abspath', 'normpath', 'realpath', 'dirname', 'dir', 'parent', 'expanduser')


def root(p):
    """the first component a path is built from, and whether it climbs"""
    up = False
    while True:
        if isinstance(p, T) and p.op in WRAP and p.args:
            if p.op in ('dirname', 'dir', 'parent'):
                up = up or 'dir'
            p = p.args[0]
            continue
        c = comps(p)
        if K('..') in c:
            up = '..'
        if len(c) == 1 and c[0] == p:
            return p, up
        if isinstance(c[0], T) and c[0].op == 'cat' and isinstance(c[0].args[0], T):
            p = c[0].args[0]
            continue
        p = c[0]


def effects(st):
    for e in st.events():
        if e[0] in WRITES:
            yield 'write', e[1], e[-1]
        elif e[0] == 'delete':
            yield 'delete', e[1], e[-1]
        elif e[0] in ('ext', 'opaque') and isinstance(e[1], str) and e[1].split('.')[-1] in CHANGING:
            for a in e[2]:
                if isinstance(a, (T, K)) and (isinstance(a, T) or isinstance(a.v, str)):
                    yield 'change', a, e[-1]


class Spec:
    """which parameters of a function name places it may write (w), may delete below (d), and which it must leave alone"""

    def __init__(self, q, args, w, d=None, kw=None, hooks=(), cls=None, dev=1, results=None, fixed=(), label=None, climb=(), dirof=()):
        self.q, self.args, self.w, self.d, self.kw = q, args, w, w if d is None else d, kw or {}
        self.hooks, self.cls, self.dev, self.results, self.fixed = hooks, cls, dev, results or {}, fixed
        self.label = label or q
        self.climb, self.dirof = climb, dirof


P = lambda x: T('param', x)
S, D, IX, DS = P('src'), P('dest'), P('index'), P('descent')
POOL = ('helper.run_in_pool', 'helper.run_in_pool_encode_include')


def specs():
    out = []
    for c in ('organizer_file.OrganizerFile', 'organizer_file_ce.OrganizerFileCE'):
        for ix in (NONE, IX):
            for ds in (NONE, DS):
                n = '%s%s%s' % (c.split('.')[-1], '' if ix is NONE else ' with an index', '' if ds is NONE else ' with a version')
                out.append(Spec('organizer_file.OrganizerFile.pack', [S, D], {D}, kw=dict(index=ix, descent=ds), hooks=POOL, cls=c,
                                label='pack ' + n))
                out.append(Spec('organizer_file.OrganizerFile.unpack', [S, D], {D}, d=set() if ds is DS else {D},
                                kw=dict(index=ix, descent=ds), hooks=POOL, cls=c, label='unpack ' + n, climb={D}, dev=2,
                                fixed=((T('eq', DS, NONE), False),)))
                out.append(Spec('organizer_file.OrganizerFile.unpack_file', [S, P('file'), D, P('path'), P('name'), ix, ds], {D},
                                d=set(), cls=c, label='unpack_file ' + n, climb={D}, dev=3))
                if ix is NONE:
                    out.append(Spec('organizer_file.OrganizerFile._pack_file', [S, P('file'), D, P('name'), ds], {D}, d=set(),
                                    cls=c, label='pack_file ' + n, dev=3))
                out.append(Spec('organizer_file.OrganizerFile.unpack_code_file', [Tup(S, P('path'), P('file'), D, ix, ds)], {D},
                                d=set(), cls=c, label='unpack_code_file ' + n, climb={D}, hooks=('organizer_code.OrganizerCode.unpack',),
                                results={'organizer_code.OrganizerCode.unpack': 'areas'}))
    for fn, ds, ix in (('organizer_file.OrganizerFile', NONE, NONE), ('organizer_file.OrganizerFile', NONE, IX),
                       ('organizer_file_ce.OrganizerFileCE', DS, NONE), ('organizer_file_ce.OrganizerFileCE', DS, IX)):
        if True:
            fn = ('method', fn, 'pack_get_descent_filename')
            out.append(Spec('organizer_code.OrganizerCode.pack', [Tup(S, P('src-path'), P('file'), D, P('dest-path'), P('dest-file'), ix, ds, fn)],
                            {D}, d=set(), cls='organizer_code.OrganizerCode', label='OrganizerCode.pack'))
            out.append(Spec('organizer_form_elem.OrganizerFormElem.pack',
                            [Tup(S, P('src-path'), P('file'), D, P('dest-path'), P('dest-file'), ix, ds, fn)],
                            {D}, d=set(), cls='organizer_form_elem.OrganizerFormElem', label='OrganizerFormElem.pack'))
            fu = ('method', fn[1], 'unpack_get_descent_filename')
            out.append(Spec('organizer_form_elem.OrganizerFormElem.unpack', [Tup(S, P('path'), P('file'), D, ix, ds, fu)],
                            {D}, d=set(), cls='organizer_form_elem.OrganizerFormElem', label='OrganizerFormElem.unpack', climb={D}))
    out.append(Spec('container_writer.build', [S, D], {D}, d=set(), kw=dict(nested=TRUE), hooks=('container.Container.build',),
                    dirof={D}))
    out.append(Spec('container_writer.compress_and_build', [S, D], {D, S}, kw={}, hooks=('container.Container.build',
                    'container_doc.Document.compress')))
    out.append(Spec('container_reader.extract', [P('in'), D, FALSE, FALSE], {D},
                    hooks=('container.Container.read', 'container.Container.extract')))
    out.append(Spec('container_reader.decompress_and_extract', [S, D], {D}, hooks=POOL))
    out.append(Spec('container_reader.decompress_file_and_extract', [Tup(S, P('file'), D)], {D},
                    hooks=('container.Container.read', 'container.Container.extract')))
    out.append(Spec('helper.brace_file_write', [P('data'), D, P('file')], {D}, d=set()))
    out.append(Spec('decoder.decode', [S, D], {D}, kw=dict(options=P('options')), hooks=('decoder.Decoder.decode',)))
    out.append(Spec('decoder.encode', [S, D], {D}, kw=dict(options=P('options')), hooks=('decoder.Decoder.encode',)))
    return out


def callback(I, x):
    if not isinstance(x, tuple):
        return x
    c = I.get_class(Q + x[1])
    f = c.info.lookup(x[2])[1]
    return Bound(Cls(c.info), f.fn if isinstance(f, Bound) else f)


def late(a):
    return (lambda I: Tup(*[callback(I, x) for x in a.items])) if isinstance(a, Tup) else a


def run_spec(i):
    from .c10_inner import run
    s = specs()[i]
    results = {}
    if 'areas' in s.results.values():
        def areas(I, d, st, node):
            r = I.new(st, HDict({
                K('root'): I.new(st, HDict({K('data'): P('text')})),
                P('area'): I.new(st, HDict({K('data'): P('area-text'), K('area_type'): P('area-type'), K('parent'): K('root')}))}))
            return [(r, st)]
        results = {'organizer_code.OrganizerCode.unpack': areas}
    args = [late(a) for a in s.args]
    I, f, rs = run(s.q, args, s.kw, hooks=s.hooks, cls=s.cls, dev=s.dev, results=results)
    finds, und, n = {}, Counter(), 0
    paths = 0
    for kind, v, st in rs:
        paths += 1
        if any(st.facts.get(q) not in (None, b) for q, b in s.fixed):
            continue
        bad = []
        for what, p, where in effects(st):
            n += 1
            r, up = root(p)
            if isinstance(r, T) and r.op in ('mkdtemp', 'tempfile', 'mkstemp', 'tmpdir', 'tmp'):
                continue
            ok = r in (s.d if what == 'delete' else s.w)
            if ok and up == '..' and r not in s.climb:
                bad.append((what, p, where, 'a place above its own folder'))
            elif ok and up == 'dir' and not (r in s.dirof or r in s.climb or depth(p, r) > 0):
                bad.append((what, p, where, 'the folder around its own'))
            elif not ok:
                bad.append((what, p, where, name_of(r, s)))
        if bad and any(isinstance(x, T) and x.op == "call" for b in bad for x in subterms(b[1])) and opaque_but_worker(st):
            und['%s: path runs through code that is not modelled' % s.label] += 1
            continue
        for what, p, where, place in bad:
            k = (s.label, str(where).split(' ')[-1], what, place)
            if k not in finds:
                finds[k] = (str(p)[:160], cond(st))
    ok = sum(1 for kind, v, st in rs if kind == 'ret')
    return finds, dict(und), n, paths, (s.label, ok)


def depth(p, r):
    """number of components below the root minus the parents taken"""
    n = 0
    while True:
        if isinstance(p, T) and p.op in WRAP and p.args:
            if p.op in ('dirname', 'dir', 'parent'):
                n -= 1
            p = p.args[0]
            continue
        c = comps(p)
        n += len(c) - 1
        if len(c) == 1:
            return n
        p = c[0]


NAMES = {'src': 'the folder it reads', 'in': 'the input file', 'index': 'a shared folder named by the index',
         'area': 'a place named by a code area', 'descent': 'a version number', 'dest': 'its output folder'}


def name_of(r, s):
    if isinstance(r, T) and r.op == 'param':
        n = r.args[0].v if isinstance(r.args[0], K) else str(r.args[0])
        if n == 'dest':
            return 'its output folder, where nothing may be removed'
        return NAMES.get(n, str(n))
    for x in subterms(r) if isinstance(r, T) else ():
        if isinstance(x, T) and x.op == 'param':
            n = x.args[0].v if isinstance(x.args[0], K) else str(x.args[0])
            return NAMES.get(n, str(n))
    return str(r)[:60]


VERB = {'write': 'creates or changes files in', 'delete': 'deletes in', 'change': 'changes'}


def stages_(rep):
    ss = specs()
    n = paths = 0
    for finds, und, k, pp, (label, ok) in parallel(run_spec, range(len(ss))):
        n += k
        paths += pp
        if not ok:
            rep.floor('normal_paths:' + label, ok, 1)
        for (label, where, what, place), (p, c) in finds.items():
            rep.add('foreign-' + what, '%s %s' % (label, where), '%s %s' % (VERB[what], place), '%s; %s' % (p, c))
        for u, m in und.items():
            rep.undecided[u] = rep.undecided.get(u, 0) + m
    rep.cover(functions=len(ss), paths=paths)
    rep.floor('effects_traced', n, 60)


# ------------------------------------------------------------------------------------------------ whole operations
def operations(rep):
    from .r_ops import run_op, IN, OUT as O, TEMP, OPTS, INDEX
    n = 0
    for op in ('extract', 'build'):
        I, fn, rs = run_op(op)
        for kind, v, st in rs:
            desc = None
            for q, b in st.facts.items():
                if any(isinstance(x, K) and x.v == 'descent' for x in subterms(q)):
                    if q.op == 'eq' and q.args[1] is NONE or q.op == 'isnone':
                        desc = not b
            for what, p, where in effects(st):
                n += 1
                r, up = root(p)
                if isinstance(r, T) and r.op in ('mkdtemp', 'tempfile', 'mkstemp', 'tmpdir', 'tmp'):
                    continue
                ok = r == TEMP or op == 'extract' and r == O
                if op == 'build' and r == O and what == 'write':
                    ok = True
                if what == 'delete' and op == 'extract' and r == O and desc is True:
                    rep.add('foreign-delete', '%s %s' % (fn.info.qual, str(where).split(' ')[-1]),
                            'deletes in the output folder although a version is extracted', cond(st))
                    continue
                if not ok:
                    rep.add('foreign-' + what, '%s %s' % (fn.info.qual, str(where).split(' ')[-1]), '%s %s' % (
                        VERB[what], {IN: 'its input', O: 'its output'}.get(r, str(r)[:60])), cond(st))
    rep.floor('operation_effects', n, 4)


# ------------------------------------------------------------------------------------------------ metadata objects
_I = None


def interp():
    global _I
    if _I is None:
        _I = Interp()
    return _I


def one(case):
    name, cls, how = case
    I = interp()
    finds, n = {}, 0
    rt = RoundTrip(I, max_dev=1 if how == 'decode' else 0)
    if how == 'decode':
        rs = rt.decode(cls)
        allowed = {DEST}
    else:
        st = I.start()
        rs = rt.encode(cls, st, SRC, FILE)
        allowed = {OUT}
    paths = 0
    for kind, v, st in rs:
        paths += 1
        for what, p, where in effects(st):
            n += 1
            r, up = root(p)
            if r not in allowed or up == '..':
                k = (name, how, str(where).split(' ')[-1], what, str(r)[:40])
                finds.setdefault(k, (str(p)[:160], J.dev_text(st, None)))
    return finds, n, paths


def metadata(rep):
    I = interp()
    classes = [(n, c) for n, c in targets.metadata_classes(I) if c is not None
               and not targets.is_kind(c, 'IncludeSimple', 'IncludeEmpty')]
    gs = targets.groups(classes)
    cs = [(g[0][0], g[0][1], h) for g in gs for h in ('decode', 'encode')]
    n = paths = 0
    for finds, k, pp in parallel(one, cs):
        n += k
        paths += pp
        for (name, how, where, what, r), (p, c) in finds.items():
            rep.add('foreign-' + what, '%s.%s %s' % (name, how, where), '%s %s' % (VERB[what], r), '%s; %s' % (p, c))
    rep.cover(metadata_classes=len(classes), object_paths=paths)
    rep.floor('object_effects', n, 1000)


def roots(rep):
    from .c10_inner import run, ROOTS
    n = 0
    for finds, k, q, ok in parallel(one_root, [(c, w) for c in ROOTS for w in ('encode', 'decode')]):
        n += k
        for (where, what, place), (p, c) in finds.items():
            rep.add('foreign-' + what, '%s %s' % (q, where), '%s %s' % (VERB[what], place), '%s; %s' % (p, c))
        rep.floor('normal_paths:' + q, ok, 1)
    rep.floor('root_effects', n, 20)


def one_root(case):
    from .c10_inner import run
    cls, way = case
    q = 'MetaObject.%s.%s' % (cls, cls)
    info = Interp().get_class(Q + q).info
    _, m = info.lookup(way)
    inc = [x.fn if isinstance(x, Bound) else x for x in (info.lookup(n)[1] for n in ('decode_includes', 'fill_header_includes'))]
    args = dict(file_name=T('param', 'file_name'), include_index=T('param', 'include_index'),
                file_list=T('param', 'file_list')) if way == 'encode' else {}
    def write(I, d, st, node):
        where = I.where(node)
        st.event('mkdir', d.get('path', NONE), where)
        st.event('create', join([d.get('path', NONE), d.get('file_name', NONE)]), 'w', where)
        return [(NONE, st)]

    I, f, rs = run(m.info.qual[len(Q):], [S, D], args, setup=q,
                   init=dict(options=T('param', 'options'), obj_version=K('803')),
                   attrs=dict(header=T('param', 'header')) if way == 'encode' else None,
                   hooks=['helper.brace_file_read', 'helper.brace_file_write', 'helper.check_file_name', 'helper.check_version'] + [x.info.qual[len(Q):] for x in inc if isinstance(x, Fn)],
                   results={'helper.brace_file_read': lambda I, d, st, node: [(T('tree', d.get('file_name', NONE)), st)],
                            'helper.brace_file_write': write},
                   dev=1 if way == 'decode' or cls == 'ExternalDataProcessor' else 0)
    finds, n, ok = {}, 0, 0
    for kind, v, st in rs:
        ok += kind == 'ret'
        for what, p, where in effects(st):
            n += 1
            r, up = root(p)
            if r != D or up == '..':
                finds.setdefault((str(where).split(' ')[-1], what, NAMES.get(str(r).lstrip('$'), str(r)[:40])),
                                 (str(p)[:160], cond(st)))
    return finds, n, m.info.qual + (' ' + cls), ok


def check(rep):
    stages_(rep)
    roots(rep)
    operations(rep)
    metadata(rep)
    rep.explanation = (
        'Effect analysis: every creation, modification and deletion on every path of the functions of both directions (main '
        'process and workers) is traced to the parameter its path is built from; rule: building affects only its output and '
        'temporary parameters, extraction only its output folder (and what the index maps from there) and the temporary folder, '
        'nothing is deleted in the output folder when a version is given.')
    rep.assumptions = ['paths are not symbolic links', 'entries of an index file are chosen by the user']
