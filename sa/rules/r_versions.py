"""C13, C31: which variant of a file version inheritance takes and writes.

The directory a variant is looked for in is abstracted to the classes of names that matter (the name itself, a lower, equal,
higher number, a folder, another base name, another extension, no number, ...): the selecting function is interpreted over
its syntax tree for every combination of classes, in both orders.  The callers are interpreted with the selection replaced
by a marked value; every source they take and every file they write must carry the mark exactly when it lies in the source
folder, and nothing is left unwritten unless the comparison of the contents said so."""
from collections import Counter
from itertools import combinations

from ..interp import Interp, HDict
from ..terms import K, T, Ref, Cls, Fn, Bound, Tup, NONE, TRUE, FALSE, comps, subterms, join, unslash
from ..prog import AnalysisBroken
from ..runner import parallel
from .. import ops
from .r_ops import cond, opaque_but_worker

PROPS = ('C13', 'C31')
Q = 'v8unpack.'
P = lambda x: T('param', x)
W = join([P('w'), K('proj'), K('src')])
NEAR = 'helper.get_near_descent_file_name'
OWN = 'helper.get_descent_file_name'
CE = 'organizer_file_ce.OrganizerFileCE'
DS = P('descent')

# name -> classes of directory entries; F file, D folder
REQUESTED = {
    'Mod.bsl': dict(lower=['Mod.2.bsl', 'Mod.9.bsl'], equal=['Mod.10.bsl'], higher=['Mod.11.bsl', 'Mod.12.bsl', 'Mod.100.bsl'],
                    other=['ModX.3.bsl', 'Mod.X.3.bsl', 'XMod.4.bsl', 'Mo.5.bsl', 'Mod.3.txt', 'Mod.4.bslx', 'Mod.4.xbsl', 'Mod.4bsl', 'Mod.a.bsl',
                           'Mod..bsl', 'mod.6.bsl', 'Mod.7.BSL', 'Mod.03.bsl', 'Mod.5.', 'Mod.6', 'Mod.5.5.bsl', 'ModX.bsl'],
                    folder=['Mod.8.bsl']),
    'Mod.obj.bsl': dict(lower=['Mod.obj.2.bsl'], equal=['Mod.obj.10.bsl'], higher=['Mod.obj.11.bsl'],
                        other=['Mod.3.bsl', 'Mod.bsl', 'Mod.obj.3.4.bsl', 'Mod.mgr.5.bsl', 'Mod.5.obj.bsl', 'Mod.obj.x.bsl'], folder=['Mod.obj.8.bsl']),
}
D10 = 10


def number(name):
    return int(name.split('.')[-2])


def listings():
    for name, c in REQUESTED.items():
        core = [name] + c['lower'] + c['equal'] + c['higher'] + c['folder']
        for n in range(0, 5):
            for s in combinations(core, n):
                yield name, list(s)
                if n > 1:
                    yield name, list(reversed(s))
        for o in c['other']:
            for s in ([], [name], [c['lower'][0]], [name, c['higher'][0]], [c['higher'][0]]):
                yield name, s + [o]
                yield name, [o] + s


def oracle(name, names):
    c = REQUESTED[name]
    ok = sorted((x for x in names if x in c['lower'] + c['equal']), key=number)
    if ok:
        return ok[-1]
    return name if name in names else ''


def select(chunk):
    I = Interp()
    I.max_dev = 1
    f = I.get_func(Q + NEAR)
    f = f.fn if isinstance(f, Bound) else f
    d = P('dir')
    out = []
    for name, names in chunk:
        I.listings = {d: names}
        st = I.start()
        folders = REQUESTED[name]['folder']
        for n in names:
            p = join([d, K(n)])
            st.facts[T('isfile', p)] = n not in folders
            st.facts[T('isdir', p)] = n in folders
            st.facts[T('exists', p)] = True
        got = set()
        for kind, v, s in I.run(f, [d, K(name), K(D10)], {}, st):
            if kind == 'raise':
                got.add('raises ' + str(v)[:60])
            elif isinstance(v, Tup) and len(v.items) == 2 and isinstance(v.items[1], K):
                p = v.items[0]
                got.add((v.items[1].v, 'here' if unslash(p) == d else '' if p == K('') else '?'))
            else:
                got.add(None)
        out.append((name, names, got))
    return out


def selection(rep, exact):
    all_ = list(listings())
    n = und = 0
    for res in parallel(select, [all_[i::8] for i in range(8)]):
        for name, names, got in res:
            n += 1
            want = oracle(name, names)
            if None in got or len(got) != 1:
                und += 1
                continue
            g = next(iter(got))
            if isinstance(g, str):
                rep.add('variant', NEAR, 'the selection fails (%s)' % g, 'entries %s, version %d' % (names, D10))
                continue
            g, place = g
            c = REQUESTED[name]
            what = None
            if g and g not in names:
                what = 'a name that does not exist is selected'
            elif g in c['higher']:
                what = 'a version greater than the requested one is selected'
            elif g in c['other'] or g in c['folder']:
                what = 'something else than a variant of exactly this name is selected'
            elif g and place != 'here':
                what = 'the selected variant is looked for in another folder'
            elif want and not g:
                what = 'an admissible file is not found'
            elif g and not want:
                what = 'a file is selected although none is admissible'
            elif exact and g != want:
                what = 'another variant than the one with the greatest admissible version is selected'
            if what:
                rep.add('variant', NEAR, what, '%s among %s, version %d: %r' % (name, names, D10, g))
    rep.cover(directory_classes=n)
    if und:
        rep.undecide('%s: result not determined for %d of %d combinations' % (NEAR, und, n))
    else:
        rep.floor('combinations_decided', n, 400)


# ------------------------------------------------------------------------------------------------ names
def names(rep):
    I = Interp()
    I.max_dev = 1

    def const(q, *a):
        f = I.get_func(Q + q)
        rs = I.run(f.fn if isinstance(f, Bound) else f, [K(x) for x in a])
        if len(rs) == 1 and rs[0][0] == 'ret' and isinstance(rs[0][1], K):
            return rs[0][1].v
        return None
    n = 0
    for name in ('Mod.bsl', 'Mod.obj.bsl', 'a.b.c.json', 'F.elem.json', 'Имя.bin'):
        for v in (1, 10, 3000075100):
            got = const(OWN, name, v)
            b, e = name.rsplit('.', 1)
            n += 1
            if got is None:
                rep.undecide('%s: name not determined' % OWN)
            elif got != '%s.%d.%s' % (b, v, e):
                rep.add('own-name', OWN, 'the name of a version is not the name with the number before the extension',
                        '%s, %d: %s' % (name, v, got))
            else:
                back = const('helper.remove_descent_from_filename', got)
                if back is None:
                    rep.undecide('helper.remove_descent_from_filename: name not determined')
                elif back != name:
                    rep.add('own-name', 'helper.remove_descent_from_filename', 'the number is not taken off again', '%s: %s' % (got, back))
        for plain in (name, 'Mod.x.bsl', 'Mod.01.bsl', 'noext'):
            back = const('helper.remove_descent_from_filename', plain)
            if back is not None and back != plain:
                rep.add('own-name', 'helper.remove_descent_from_filename', 'a name without a version is changed', '%s: %s' % (plain, back))
    rep.cover(names_formed=n)


def listing(rep):
    """the source folder is seen without version numbers, every name once"""
    from .c10_inner import run
    L = ['Mod.2.bsl', 'Mod.bsl', 'Mod.10.bsl', 'F.elem.json', 'F.elem.3.json', 'x.7.bin', 'Dir', 'Dir.5.x', 'y.bin']
    want = sorted(['Mod.bsl', 'F.elem.json', 'x.bin', 'Dir', 'Dir.5.x', 'y.bin'])
    for l in (L, L[::-1]):
        I, f, rs = run('organizer_file_ce.OrganizerFileCE.list_descent_dir', [W, K(''), DS], cls=CE, dev=0, listings={W: l},
                       setup_st=lambda st: preset(st, W, l, {'Dir', 'Dir.5.x'}))
        for kind, v, st in rs:
            o = I.obj(st, v) if isinstance(v, Ref) else None
            it = [x.v if isinstance(x, K) else None for x in getattr(o, 'items', [None])]
            if kind != 'ret' or None in it:
                rep.undecide('%s: listing not determined' % f.info.qual)
            elif sorted(it) != want:
                miss, more = sorted(set(want) - set(it)), sorted(set(it) - set(want))
                rep.add('listing', f.info.qual, 'a folder of sources is not listed with every file once under its own name',
                        'missing %s, unexpected %s, %d names' % (miss, more, len(it)))
        rep.cover(listings=1)


def preset(st, d, names, folders):
    for n in names:
        p = join([d, K(n)])
        st.facts[T('isdir', p)] = n in folders
        st.facts[T('isfile', p)] = n not in folders
        st.facts[T('exists', p)] = True


# ------------------------------------------------------------------------------------------------ extraction
OUTCOME = (Tup(P('vdir'), P('vname')), Tup(K(''), K('')))
PLACES = {'': True, 'sub': True, 'sub/deep': True, '../shared': False, '../src2': False, '../../repo': False, '..': False}


def versioned(I, d, st, node):
    s2 = st.fork()
    st.facts[T('truthy', P('vname'))] = True
    return [(OUTCOME[0], st), (OUTCOME[1], s2)]


def writes(st):
    for e in st.events():
        if e[0] == 'create' or e[0] == 'overwrite':
            yield e[1], e[-1]


def extraction_job(job):
    from .c10_inner import run
    what, place = job
    out, und, n = [], [], 0
    V = 'organizer_file_ce.OrganizerFileCE.unpack_get_descent_filename'
    where = Tup(K(place), P('pname'))
    H = {V: versioned, 'index.get_dest_path': where, 'organizer_code.OrganizerCode.parse_include_path': where}
    src_file = P('file')
    if what == 'file':
        q, cls = 'organizer_file.OrganizerFile.unpack_file', CE
        args = [P('src'), src_file, W, P('path'), P('name'), P('index'), DS]
    elif what == 'code':
        q, cls = 'organizer_file.OrganizerFile.unpack_code_file', CE
        args = [Tup(P('src'), P('path'), src_file, W, P('index'), DS)]

        def areas(I, d, st, node):
            r = I.new(st, HDict({K('root'): I.new(st, HDict({K('data'): P('text')})),
                                 K('A'): I.new(st, HDict({K('data'): P('area'), K('area_type'): K('include'), K('parent'): K('root')}))}))
            return [(r, st)]
        H['organizer_code.OrganizerCode.unpack'] = areas
    else:
        q, cls = 'organizer_form_elem.OrganizerFormElem.unpack', 'organizer_form_elem.OrganizerFormElem'
        args = [lambda I: Tup(P('src'), P('path'), src_file, W, P('index'), DS, bound(I, CE, 'unpack_get_descent_filename'))]
        H['organizer_form_elem.OrganizerFormElem._unpack_get_areas'] = NONE
    I, f, rs = run(q, args, hooks=list(H), results=H, cls=cls, dev=2)
    inside = PLACES[place]
    folder = join([W, K(place)])
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        if opaque_but_worker(st):
            und.append('%s: path runs through code that is not modelled' % q)
            continue
        calls = [d for x, d, w in ops.stages(st) if x == Q + V]
        ws = list(writes(st))
        n += 1
        for p, w in ws:
            c = comps(p)
            marked = p == join([P('vdir'), P('vname')])
            if inside and not marked:
                out.append(('unversioned-write', w, 'writes a file of the source folder without regard to its version', str(p)[:120]))
            if not inside and (marked or c[-1] != P('pname') or p != join([folder, P('pname')])):
                out.append(('versioned-outside', w, 'a file outside the source folder is versioned or misplaced', str(p)[:120]))
        if not inside and calls:
            if not any(o[0] == 'versioned-outside' for o in out):
                out.append(('versioned-outside', q, 'a version is looked for outside the source folder', cond(st)))
        for d in calls:
            if d.get('descent') != DS:
                out.append(('version', q, 'another version than the requested one is used', str(d.get('descent'))[:80]))
            if unslash(d.get('dest_path')) != folder or d.get('dest_file_name') != P('pname'):
                out.append(('version', q, 'the variant is not looked for under the name the file is written to',
                            '%s %s' % (d.get('dest_path'), d.get('dest_file_name'))))
            cmp = d.get('comparer')
            fn = cmp.fn if isinstance(cmp, Bound) else cmp
            if not isinstance(fn, Fn):
                und.append('%s: the comparison of contents is not a function' % q)
            else:
                out.append(('comparer', fn.info.qual, '', what))
        # an outcome with a name leads to a write of the file's content
        some = st.facts.get(T('truthy', P('vname'))) is True
        if inside and some and calls and not ws and not any(q_.op == 'eq' and q_.args[1] is NONE and b for q_, b in st.facts.items()):
            out.append(('not-written', q, 'a changed file is not written', cond(st)))
        if not inside and not ws and not any(q_.op in ('eq', 'isnone') and b for q_, b in st.facts.items()) \
                and not any(q_.op == 'truthy' and not b for q_, b in st.facts.items()):
            out.append(('not-written', q, 'a file outside the source folder is not written', cond(st)))
    return what, place, out, und, n


def bound(I, cls, name):
    c = I.get_class(Q + cls)
    f = c.info.lookup(name)[1]
    return Bound(Cls(c.info), f.fn if isinstance(f, Bound) else f)


def extraction(rep):
    comparers = {}
    n = 0
    for what, place, out, und, k in parallel(extraction_job, [(w, p) for w in ('file', 'code', 'elem') for p in PLACES]):
        n += k
        for u in und:
            rep.undecide(u)
        for rule, where, msg, path in out:
            if rule == 'comparer':
                comparers.setdefault(where, set()).add(path)
            else:
                rep.add(rule, '%s (%s)' % (str(where).split(' ')[-1], what), msg, 'place %r: %s' % (place, path))
    rep.floor('extraction_paths', n, 40)
    for q in sorted(comparers):
        comparer(rep, q)
    rep.floor('comparisons', len(comparers), 1)
    decision(rep)


FULL = ('bytes', 'decode', 'json', 'text', 'read', 'txt', 'loads')


def comparer(rep, qual):
    """says equal only when the whole contents are"""
    I = Interp()
    I.max_dev = 2
    f = I.get_func(qual)
    fi = f.fn if isinstance(f, Bound) else f
    a = [P('src_path'), P('src_file'), P('src_data'), P('near_path'), P('near_file')]
    if fi.info.kind == 'class':
        a = [Cls(fi.info.owner)] + a
    near = join([P('near_path'), P('near_file')])
    src = join([P('src_path'), P('src_file')])
    m = 0
    for kind, v, st in I.run(fi, a, {}):
        if kind != 'ret':
            continue
        if v is FALSE or v is NONE:
            continue
        facts = [q for q, b in st.facts.items() if b and q.op == 'eq']
        if isinstance(v, T) and v.op == 'eq':
            facts.append(v)
        elif v is not TRUE:
            rep.undecide('%s: result %s is not determined' % (qual, str(v)[:60]))
            continue
        m += 1
        good = False
        for q in facts:
            x, y = q.args
            for x, y in ((x, y), (y, x)):
                if near in list(subterms(x)) and whole(x) and (y == P('src_data') or src in list(subterms(y)) and whole(y)):
                    good = True
        if not good:
            rep.add('comparison', qual, 'says equal without the whole contents being equal', cond(st))
    rep.cover(comparer_paths=m)


def whole(t):
    """the term is the whole content of a file"""
    while isinstance(t, T) and t.op in FULL and t.args:
        t = t.args[0]
    return isinstance(t, T) and t.op in ('join', 'param')


def decision(rep):
    """the version decision itself: left out only if the contents are equal, else the own name"""
    from .c10_inner import run
    q = 'organizer_file_ce.OrganizerFileCE.unpack_get_descent_filename'
    cmpq = 'organizer_file.OrganizerFile.equal_code_file'

    def near(I, d, st, node):
        return [(Tup(P('np'), P('nn')), st), (Tup(K(''), K('')), st.fork())]
    H = {NEAR: near, OWN: P('own'), cmpq: P('same')}
    C = lambda I: bound(I, CE, 'equal_code_file')
    I, f, rs = run(q, [P('sp'), P('sn'), P('sd'), P('dp'), P('dn'), DS, C], hooks=list(H), results=H, cls=CE, dev=4)
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            rep.add('decision', q, 'the decision fails', cond(st))
            continue
        n += 1
        calls = ops.stages(st)
        for x, d, w in calls:
            if x in (Q + NEAR, Q + OWN) and (d.get('descent') != DS or d.get('file_name') != P('dn')):
                rep.add('decision', q, 'another version or name than the requested one is used', '%s %s' % (d.get('descent'), d.get('file_name')))
            if x == Q + NEAR and unslash(d.get('path')) != P('dp'):
                rep.add('decision', q, 'the variant is looked for in another folder', str(d.get('path')))
            if x == Q + cmpq and [d.get(k) for k in ('src_path', 'src_file_name', 'src_data', 'near_descent_path', 'near_descent_file_name')] != \
                    [P('sp'), P('sn'), P('sd'), P('np'), P('nn')]:
                rep.add('decision', q, 'the comparison is made with something else than the file and its nearest variant', str(d)[:160])
        if not isinstance(v, Tup) or len(v.items) != 2:
            rep.undecide('%s: result %s not determined' % (q, str(v)[:60]))
            continue
        p, name = v.items
        if name == K('') or name is NONE:
            if not (any(x == Q + cmpq for x, d, w in calls) and st.facts.get(T('truthy', P('same'))) is True):
                rep.add('decision', q, 'a file is left out although its content was not found equal to the nearest variant', cond(st))
        elif name != P('own') or unslash(p) != P('dp'):
            rep.add('decision', q, 'a changed file is not written under the name of the requested version', '%s/%s; %s' % (p, name, cond(st)))
    rep.floor('decision_paths', n, 3)


# ------------------------------------------------------------------------------------------------ build
def mark(I, d, st, node):
    return [(Tup(d['path'], T('near', d['path'], d['file_name'], d['descent'])), st)]


def building(rep):
    from .c10_inner import run
    n = 0
    ent = ['Mod.bsl', 'F.elem.json', 'x.bin']
    H = {NEAR: mark, 'helper.run_in_pool': NONE}
    I, f, rs = run('organizer_file.OrganizerFile.pack', [W, P('dest')], dict(index=NONE, descent=DS), hooks=list(H), results=H, cls=CE,
                   dev=2, listings={W: ent}, setup_st=lambda st: preset(st, W, ent, ()))
    seen = Counter()
    for kind, v, st in rs:
        if kind != 'ret' or opaque_but_worker(st):
            continue
        n += 1
        for e in st.events():
            if e[0] in ('copy',):
                got(rep, seen, comps(e[1])[-1], e[1], comps(e[2])[-1], 'organizer_file.OrganizerFile._pack')
            elif e[0] == 'stage' and e[1] == Q + 'helper.run_in_pool':
                from .c10_inner import deep
                for t in tasks(I, st, e[2]):
                    name = next((x for x in t.items if isinstance(x, K) and x.v in ent), None)
                    m = [x for x in t.items if isinstance(x, T) and x.op == 'near']
                    got(rep, seen, m[0] if m else None, None, name, 'organizer_file.OrganizerFile._pack')
    for x in ent:
        if not seen[x]:
            rep.undecide('organizer_file.OrganizerFile.pack: %s not followed to its source' % x)
    # modules: the file itself, by place
    for place, inside in PLACES.items():
        H = {NEAR: mark}
        I, f, rs = run('organizer_code.OrganizerCode.pack_file', [W, K(place), P('file'), P('areas'), DS,
                       lambda I: bound(I, CE, 'pack_get_descent_filename')], hooks=list(H), results=H,
                       cls='organizer_code.OrganizerCode', dev=1)
        taken(rep, st_of(rs), join([W, K(place)]), P('file'), inside, 'organizer_code.OrganizerCode.pack_file', n)
        # areas of a form
        H2 = {NEAR: mark, 'organizer_code.OrganizerCode.parse_include_path': Tup(K(place), P('area'))}
        I, f, rs = run('organizer_form_elem.OrganizerFormElem.pack', [lambda I: Tup(W, K(''), P('file'), P('dest'), K(''), K('F.elem.json'), P('areas'),
                       DS, bound(I, CE, 'pack_get_descent_filename'))], hooks=list(H2), results=H2,
                       cls='organizer_form_elem.OrganizerFormElem', dev=3)
        taken(rep, st_of(rs), join([W, K(place)]), P('area'), inside, 'organizer_form_elem.OrganizerFormElem._pack_get_areas', n, first=P('file'))
        n += 1
    rep.floor('build_paths', n, 8)
    rep.floor('source_kinds', sum(1 for x in ent if seen[x]), 2)


def st_of(rs):
    return [st for kind, v, st in rs if not opaque_but_worker(st)]


def tasks(I, st, args):
    from .c10_inner import deep
    return [t for t in deep(I, st, [v for k, v in args]) if isinstance(t, Tup) and len(t.items) > 4]


def got(rep, seen, src, path, dest, where):
    """one source taken for one file of the build"""
    if not (isinstance(src, T) and src.op == 'near'):
        rep.add('unversioned-read', where, 'a file of the source folder is taken without looking for its version', '%s <- %s' % (dest, src))
        return
    p, name, d = src.args
    if isinstance(name, K):
        seen[name.v] += 1
    if d != DS:
        rep.add('version', where, 'another version than the requested one is taken', str(d)[:80])
    if dest is not None and name != dest:
        rep.add('version', where, 'the variant of another file is taken', '%s <- %s' % (dest, name))
    if unslash(p) != W or path is not None and join(comps(path)[:-1]) != unslash(p):
        rep.add('version', where, 'the variant is looked for in another folder', '%s, %s' % (p, path))


def taken(rep, sts, folder, name, inside, where, n, first=None):
    k = 0
    for st in sts:
        for e in st.events():
            if e[0] != 'read':
                continue
            c = comps(e[1])
            last = c[-1]
            if first is not None and last == first or not (last == name or isinstance(last, T) and name in list(subterms(last))):
                continue
            k += 1
            is_marked = isinstance(last, T) and last.op == 'near'
            if inside and not is_marked:
                rep.add('unversioned-read', where, 'a file of the source folder is taken without looking for its version', str(e[1])[:120])
            elif not inside and is_marked:
                rep.add('versioned-outside', where, 'a version is looked for outside the source folder', str(e[1])[:120])
            elif is_marked and (last.args[2] != DS or last.args[1] != name or unslash(last.args[0]) != folder
                                or join(c[:-1]) != folder):
                rep.add('version', where, 'another file or version than the requested one is taken', str(e[1])[:120])
            elif not is_marked and join(c[:-1]) != folder:
                rep.add('version', where, 'the file is looked for in another folder', str(e[1])[:120])
    rep.cover(sources_followed=k)
    if not k:
        rep.undecide('%s: nothing read' % where)


def modes(rep):
    """the inheriting organiser is used exactly when a version is given"""
    from .r_ops import run_op, OPTS
    n = 0
    for op in ('extract', 'build'):
        I, fn, rs = run_op(op)
        for kind, v, st in rs:
            given = None
            for q, b in st.facts.items():
                about = any(isinstance(x, K) and x.v == 'descent' for x in subterms(q))
                if q.op in ('eq', 'isnone') and about and (q.op == 'isnone' or NONE in q.args):
                    given = not b
                elif q.op == 'haskey' and q.args[1] == K('descent') and b is False:
                    given = False
                elif q.op == 'truthy' and about and b:
                    given = True
                elif q.op == 'truthy' and not about and not b and any(x == OPTS for x in subterms(q)):
                    given = False
            if kind != 'ret':
                continue
            for x, d, w in ops.stages(st):
                if x.startswith(Q + 'organizer_file') and 'cls' in d:
                    n += 1
                    ce = d['cls'] == Cls(I.get_class(Q + CE).info) or str(d['cls']).find('OrganizerFileCE') >= 0
                    if given is not False and not ce:
                        rep.add('mode', '%s' % fn.info.qual, 'a version is given but inheritance is not used', cond(st))
                    if given is not True and ce:
                        rep.add('mode', '%s' % fn.info.qual, 'inheritance is used although no version is given', cond(st))
    rep.cover(operation_paths=n)


def check(rep):
    if rep.prop == 'C31':
        selection(rep, True)
        rep.explanation = 'Every combination of the classes of directory entries: the greatest version not above the requested one is selected.'
        return
    selection(rep, False)
    names(rep)
    listing(rep)
    extraction(rep)
    building(rep)
    modes(rep)
    rep.explanation = (
        'Selection interpreted over the syntax tree for every combination of classes of directory entries; callers interpreted '
        'with the selection replaced by a marked value: rule: a source inside the source folder carries the mark of exactly its '
        'name, folder and the requested version, one outside never; extraction writes exactly what the version decision names, '
        'which leaves a file out only if the comparison of the whole contents said equal.')
