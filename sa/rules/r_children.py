"""C21: children that extraction takes out of their parent come back to it on build.

Extraction and build of whole families - root object, its children, children of children - are interpreted over the syntax
trees (symbolic property trees in which only the lists of children, names and identifiers are known); the tree every parent
has after the build is compared with the one it had: with the stored table of contents it has to be the same, with the
dynamic one every type of children found has to be the list of these children ordered by name."""
from ..interp import Interp, HDict, HList, HInst
from ..roundtrip import RoundTrip, SRC, DEST, OUT
from ..terms import K, T, Ref, Cls, Fn, Bound, Tup, FD, FL, OV, NONE, join, comps, under
from ..prog import AnalysisBroken
from ..runner import parallel, OUT_OF_TIME
from .. import ops, targets
from ..world import frozen
from .r_ops import opaque_but_worker
from .r_order import finishing, enum

PROPS = ('C21',)
Q = 'v8unpack.'
P = lambda x: T('param', x)


def uid(n):
    return '%08d-0000-4000-8000-%s' % (n, ('00000000abcd', '00000000ABCD')[n % 2])


class Family:
    """trees of a family; only what matters for children is known"""

    def __init__(self, auto, dev=0, options=None):
        self.options = options or {}
        self.I = I = Interp()
        self.rt = RoundTrip(I, max_dev=dev)
        I.fork_filter = self.filter
        I.MAX_WHILE = 60
        self.auto = auto
        self.st = I.start()
        self.headers = {}       # entry -> place of its header
        self.places = {}        # entry -> places of its lists of children
        self.types = {m.name: m.value.v if isinstance(m.value, K) else m.value
                      for m in I.enum_members(I.get_class(Q + 'metadata_types.MetaDataTypes').info)}
        I.order = lambda names: sorted(names, key=str)
        finishing(I, sorted)

    def filter(self, t, st):
        if t.op == 'nonempty':
            return self.rt.child_filter(t, st)      # lists of children that are not preset are empty
        if t.op == 'eq' and isinstance(t.args[0], T) and isinstance(t.args[1], K):
            return RoundTrip.token_filter(t.args[0], t.args[1].v, st)
        return None

    def opts(self, st):
        return self.I.new(st, HDict({K('obj_version'): K('803'), K('auto_include'): K(self.auto), **{K(k): K(v) for k, v in self.options.items()}}))

    def cls(self, name):
        return self.I.get_class(Q + 'MetaDataObject.%s.%s' % (name, name))

    def tree(self, name):
        return T('brace', join([SRC, K(name)]))

    def at(self, loc, *path):
        for p in path:
            loc = T('idx', loc, K(p))
        return loc

    def put(self, name, loc, value):
        v = value if isinstance(value, (T, K, FL)) else frozen(value)
        self.st.store[loc] = self.I.thaw(v, self.st)

    def header_of(self, c, tree):
        rs = self.I.run(self.method(c, 'get_decode_header'), [tree], {}, self.st)
        locs = [v for k, v, s in rs if k == 'ret' and isinstance(v, T)]
        if len(locs) != 1:
            raise AnalysisBroken('place of the header of %s' % c.info.name)
        return locs[0]

    def method(self, c, name):
        owner, f = c.info.lookup(name)
        return Bound(c, f) if isinstance(f, Fn) else f

    def named(self, c, entry, name, ident, owner='0'):
        h = self.header_of(c, self.tree(entry))
        self.headers[entry] = h
        if owner is None:       # a header of an old version has no owner mark
            self.put(entry, h, ['3', ['1', '0', ident], '"%s"' % name, ['0'], '"c"'])
            return
        self.put(entry, self.at(h, 2), '"%s"' % name)
        self.put(entry, self.at(h, 1, 2), ident)
        self.put(entry, self.at(h, 3, 0), '0')
        self.put(entry, self.at(h, 4), '"c"')
        self.put(entry, self.at(h, 5), owner)

    def path_to(self, c, name='get_decode_header'):
        """indexes that lead from the root of a tree to the header"""
        t = T('brace', K('?'))
        loc = self.header_of(c, t)
        out = []
        while loc is not t:
            out.append(loc.args[1].v)
            loc = loc.args[0]
        return out[::-1]

    def internal(self, kind, name, ident, owner='0'):
        """the tree of a child kept inside its parent"""
        v = ['3', ['1', '0', ident], '"%s"' % name, ['0'], '"c"'] + ([owner] if owner is not None else [])
        for i in reversed(self.path_to(self.cls(kind))):
            v = ['%s%d' % (name, j) for j in range(i)] + [v, 'after ' + name]
        return v

    # ---------------------------------------------------------------------------------------------- a whole operation
    def root(self, name):
        c = self.I.get_class(Q + 'MetaObject.%s.%s' % (name, name))
        return c

    def instance(self, c, st):
        o = self.opts(st)
        return self.I.instantiate(c, [], {'options': o, 'obj_version': K('803')}, st, None)[0]

    def decoder(self):
        return Cls(self.I.get_class(Q + 'decoder.Decoder').info)

    def extract(self, root):
        I = self.I
        obj, st = self.instance(self.root(root), self.st.fork())
        ops.install(I, [Q + 'decoder.Decoder.detect_version'], results={Q + 'decoder.Decoder.detect_version': obj})
        return I.run(I.get_func(Q + 'decoder.Decoder.decode'), [self.decoder(), SRC, DEST], {'pool': NONE, 'options': self.opts(st)}, st)

    def build(self, root, st):
        I = self.I
        s = st.fork()
        s.heap = dict(I.base.heap)
        s.store = {}
        s.ev = None
        s.exc = None
        obj, s = self.instance(self.root(root), s)
        ops.install(I, [Q + 'decoder.Decoder.get_handler_by_version_file'], results={Q + 'decoder.Decoder.get_handler_by_version_file': obj})
        return I.run(I.get_func(Q + 'decoder.Decoder.encode'), [self.decoder(), DEST, OUT], {'pool': NONE, 'file_name': NONE, 'options': self.opts(s)}, s)


UNKNOWN = 'ffffffff-0000-4000-8000-000000000001'     # a type identifier the tool does not know


def name_of(k, i):
    return 'NMAZKB'[i % 6] + k[:3] + str(i)


class Plan:
    """a parent and its children; `lists`: for every list of children of the parent [(type name or identifier, [child, ...])]"""

    def __init__(self, cls, name, ident, entry, lists=None, internal=False, owner='0', folder=None):
        self.cls, self.name, self.ident, self.entry = cls, name, ident, entry
        self.owner, self.folder = owner, folder or name
        self.lists = lists or []
        self.internal = internal

    def everyone(self):
        yield self
        for l in self.lists:
            for t, ch in l:
                for c in ch:
                    if isinstance(c, Plan):
                        yield from c.everyone()


def type_id(F, t):
    return F.types.get(t, t)


def data(F, c):
    if not isinstance(c, Plan):
        return frozen(c)
    return frozen(F.internal(c.cls, c.name, c.ident, c.owner)) if c.internal else K(c.ident)


def includes(F, c, entry):
    """places of the lists of children in a tree"""
    m = F.method(c, 'get_decode_includes')
    st = F.st.fork()
    st.store = {}
    rs = F.I.run(m, [F.tree(entry)], {}, st)
    out = set()
    for k, v, s in rs:
        if k == 'ret' and v is not NONE:
            x = F.I.freeze(v, s)
            out.add(tuple(x.key[0]) if isinstance(x, FL) else None)
    if len(out) != 1:
        return []
    ls = out.pop()
    return [y for y in ls if isinstance(y, T)] if ls else []


def implementation(F, c, entry):
    """the class that serves an object: one of the versions, with what selects it preset"""
    if c.info.lookup('get_handler') is None:
        return c
    tree = F.tree(entry)
    st = F.st.fork()
    st.store = {}
    for k, v, s in reversed(F.I.run(F.method(c, 'get_handler'), [tree, F.opts(st)], {}, st)):
        if k != 'ret' or not isinstance(v, Ref):
            continue
        for loc, x in s.eqs.items():
            if isinstance(x, K) and isinstance(loc, T) and loc.op == 'idx':
                F.put(entry, loc, x)
        o = F.I.obj(s, v).cls
        return o if isinstance(o, Cls) else Cls(o)
    return c


def lay(F, plan, places=None):
    """presets of the whole family"""
    c = F.cls(plan.cls) if places is None else F.root(plan.cls)
    F.named(implementation(F, c, plan.entry) if places is None and F.versions else c, plan.entry, plan.name, plan.ident, plan.owner)
    if places is None:
        places = includes(F, c, plan.entry)
    F.places[plan.entry] = places
    for inc, kinds in zip(places, plan.lists):
        F.put(plan.entry, F.at(inc, 2), str(len(kinds)))
        for i, (t, ch) in enumerate(kinds):
            F.put(plan.entry, F.at(inc, 3 + i), FL((K(type_id(F, t)), K(str(len(ch)))) + tuple(data(F, x) for x in ch)))
        for t, ch in kinds:
            for x in ch:
                if isinstance(x, Plan) and not x.internal:
                    lay(F, x)
    for inc in places[len(plan.lists):]:
        F.put(plan.entry, F.at(inc, 2), '0')


def root_places(F, root, entry, n):
    """lists of children of a root object; groups in the two shapes a configuration has"""
    t = F.tree(entry)
    if not isinstance(F.root(root).info.lookup('decode_includes')[1], Fn):
        raise AnalysisBroken('decode_includes')
    ls = includes(F, F.root(root), entry)
    if ls:
        return ls
    g = [getattr(m.value, 'v', m.value) for m in F.I.enum_members(F.I.get_class(Q + 'metadata_types.MetaDataGroup').info)]
    F.put(entry, F.at(t, 0, 2), str(n))
    out = []
    for i in range(n):
        gid = g[i]
        F.put(entry, F.at(t, 0, 3 + i, 0), gid)
        F.put(entry, F.at(t, 0, 3 + i, 1, 0), '6' if i % 2 else '1')
        out.append(F.at(t, 0, 3 + i, 1, 1) if i % 2 else F.at(t, 0, 3 + i, 1))
    return out


def expected(F, plan, found):
    """place -> value after the build; found: the family whose child objects are in the sources"""
    out = {}
    for inc, kinds, now in zip(F.places[plan.entry], plan.lists, found.lists):
        out[F.at(inc, 2)] = K(str(len(kinds)))
        for i, ((t, ch), (_, ch2)) in enumerate(zip(kinds, now)):
            ours = t in F.types and all(isinstance(x, Plan) for x in ch)
            if not F.auto or not ours or not ch and not ch2:
                v = [data(F, x) for x in ch]
            else:
                v = [data(F, x) for x in sorted(ch2, key=lambda x: x.name)]
            out[F.at(inc, 3 + i)] = FL((K(type_id(F, t)), K(str(len(v)))) + tuple(v))
    return out


def lookup(loc, root, store, value):
    """value at a place of a tree as it was written: frozen value and overlay"""
    path = []
    while loc is not root:
        path.append(loc.args[1])
        loc = loc.args[0]
    cur = value
    over = {}
    for p in reversed(path):
        if isinstance(cur, OV):
            over = dict(cur.key[1])
            cur = cur.key[0]
        if isinstance(cur, FL):
            i = p.v
            if not isinstance(i, int) or i >= len(cur.key[0]):
                return None
            cur = cur.key[0][i]
        elif isinstance(cur, T):
            nxt = T('idx', cur, p)
            cur = over.get(nxt, nxt)
        else:
            return None
    return cur.key[0] if isinstance(cur, OV) and not cur.key[1] else cur



def written(F, st, entry):
    e = st.fs.get(join([OUT, K(entry)]))
    if e is None or e[0] != 'text' or not isinstance(e[1], T) or e[1].op != 'bracetext':
        return None
    return F.I.frozen[e[1].args[0].v]


class Unsure(Exception):
    pass


def opened(root, plan, auto, devs, options=None):
    """extraction of the family; an object the tool only knows some kinds of is tried with more of its conditions varied,
    and with the header where the implementation for its version looks for it"""
    for dev in devs:
        for versions in (False, True) if len(devs) > 1 else (False,):
            F, sts = extracted(root, plan, auto, dev, versions, options)
            sts = [s for s in sts if all(any(under(f, d) for f in s.fs) for d in folders(plan))]
            if sts:
                return F, sts[:4]
    return F, []


def folders(plan, at=DEST):
    for l in plan.lists:
        for t, ch in l:
            for c in ch:
                if isinstance(c, Plan):
                    d = join([at, K(c.cls), K(c.folder)])
                    yield d
                    yield from folders(c, d)


def extracted(root, plan, auto, dev, versions, options=None):
    F = Family(auto, dev, options)
    F.versions = versions
    ps = root_places(F, root, plan.entry, max(1, len(plan.lists)))
    F.put('root', F.at(F.tree('root'), 0, 1), plan.entry)
    F.put('configinfo', F.at(F.tree('configinfo'), 1, 1), plan.entry)
    lay(F, plan, ps)
    rs = F.extract(root)
    if any(opaque_but_worker(s) for k, v, s in rs):
        raise Unsure('extraction runs through code that is not modelled')
    return F, [s for k, v, s in rs if k == 'ret']


def check_case(root, plan, auto, found=None, devs=(0, 1, 2)):
    """[(rule, what)]"""
    F, sts = opened(root, plan, auto, devs)
    where = '%s, %s table of contents' % (root, 'dynamic' if auto else 'stored')
    out = []
    if not sts:
        return [('extract-fails', '%s: extraction of a family fails or does not create the folders of the children' % where)], 0
    fs2 = None
    if found is not None:
        G, st2 = opened(root, found, auto, devs)
        if not st2 or not sts:
            return [('extract-fails', '%s: extraction of a family fails or does not create the folders of the children' % where)], 0
        sts = sts[:1]
        own = own_files(sts[0].fs, plan, found)
        fs2 = {p: e for p, e in st2[0].fs.items() if p not in own}
        fs2.update({p: e for p, e in sts[0].fs.items() if p in own})
        # folders of removed objects are gone, the folder of the type may have stayed
        left = st2[0].dirs | {DEST}
        dirs2 = left | {d for d in sts[0].dirs if getattr(comps(d)[-1], 'v', None) in F.types and join(comps(d)[:-1]) in left}
    n = 0
    for s in sts:
        s = s.fork()
        if fs2 is not None:
            s.fs, s.dirs = fs2, dirs2
        for k, v, z in F.build(root, s):
            if opaque_but_worker(z):
                raise Unsure('build runs through code that is not modelled')
            if k != 'ret':
                out.append(('build-fails', '%s: build of extracted sources fails' % where))
                continue
            n += 1
            for parent, now in pairs(plan, found or plan):
                w = written(F, z, parent.entry)
                if w is None:
                    out.append(('parent-missing', '%s: %s: its tree is not written' % (where, parent.cls)))
                    continue
                for loc, want in expected(F, parent, now).items():
                    got = lookup(loc, F.tree(parent.entry), z.store, w)
                    if got != want:
                        out.append(('children', '%s: list of children of %s is not what it has to be: %s instead of %s' % (
                            where, parent.cls, show(got), show(want))))
    if not out and not n:
        raise Unsure('build has no outcome')
    return out, n


def own_files(fs, plan, found):
    """files of the sources that belong to the common parents themselves: not below a child folder"""
    out = set()

    def kids(p):
        return {c.entry: c for l in p.lists for t, ch in l for c in ch if isinstance(c, Plan) and not c.internal}

    def walk(p, q, folder):
        types = {join([folder, K(t)]) for l in p.lists + q.lists for t, ch in l}
        for f in fs:
            if under(f, folder) and f is not folder and not any(under(f, x) for x in types):
                out.add(f)
        a, b = kids(p), kids(q)
        for e in a:
            if e in b:
                walk(a[e], b[e], join([folder, K(a[e].cls), K(a[e].folder)]))
    walk(plan, found, DEST)
    return out


def pairs(plan, found):
    """parents present in both families"""
    yield plan, found
    a = {c.entry: c for l in plan.lists for t, ch in l for c in ch if isinstance(c, Plan) and not c.internal}
    for l in found.lists:
        for t, ch in l:
            for c in ch:
                if isinstance(c, Plan) and c.entry in a:
                    yield from pairs(a[c.entry], c)


def show(v, top=True):
    if isinstance(v, FL):
        return '[%s]' % ', '.join(show(x, False) for x in v.key[0]) if top else 'tree of %s' % ' '.join(titles(v)[:1])
    if isinstance(v, K):
        return repr(v.v)
    return '-' if v is None else str(v)[:60]


def titles(v):
    if isinstance(v, FL):
        return [t for x in v.key[0] for t in titles(x)]
    return [v.v] if isinstance(v, K) and str(v.v).startswith('"') and v.v != '"c"' else []


LIST = [['kept', ['in', 'its parent']]]        # a child the tool does not take out


def commands(kinds, n, base):
    """inner children of every kind: names not in the order of the list, identifiers not in the order of the names"""
    out = []
    for j, k in enumerate(kinds):
        out.append((k, [Plan(k, 'BCAD'[i % 4] + '%d' % j, uid(base + 10 * j + (i + 2) % n if n else 0), None, internal=True) for i in range(n)]))
    return out


def shape(root, types):
    """spread the types of children over the lists a root has"""
    if root == 'ExternalDataProcessor':
        return Plan(root, 'Root', uid(2), uid(1), [types])
    h = (len(types) + 1) // 2
    return Plan(root, 'Root', uid(2), uid(1), [types[:h], types[h:], []])


def whole(root, ncat, ncmd, nmod, nextra):
    """catalogues with inner commands, modules, types that are unknown or have no class, an empty type"""
    cats = [Plan('Catalog', 'ZAM'[i], uid(10 + (i + 1) % 3), uid(10 + (i + 1) % 3), [
        commands(['CatalogCommand', 'DocumentCommand'], ncmd - i if ncmd > i else 0, 100 * (i + 1)) +
        [(UNKNOWN, LIST), ('FormAttribute', LIST), ('CommonModule', [Plan('CommonModule', 'BA'[j] + 'in', uid(100 * (i + 5) + j), uid(100 * (i + 5) + j))
                                                                     for j in range(nmod)]),
         # the same class and name below different parents
         ('Catalog', [Plan('Catalog', 'Same', uid(900 + i), uid(900 + i), [commands(['CatalogCommand'], ncmd, 2000 + 100 * i)])])]]) for i in range(ncat)]
    mods = [Plan('CommonModule', 'M%d' % (3 - i), uid(20 + i), uid(20 + i)) for i in range(nmod)]
    return shape(root, [('Catalog', cats), (UNKNOWN, ['x1', 'x2']), ('CommonModule', mods),
                        ('Constant', [Plan('Constant', 'K%d' % i, uid(30 + i), uid(30 + i)) for i in range(nextra)]), (UNKNOWN, LIST), (UNKNOWN, [])])


def of_class(c, simple, k, n, nin):
    """two objects of one class; every list of children it has gets inner and outer ones"""
    if simple:
        return shape('ExternalDataProcessor', [('Catalog', [Plan('Catalog', 'ZA'[i], uid(10 + i), uid(10 + i), [commands([c], nin, 100 * (i + 1))])
                                                            for i in range(n)])])
    lists = []
    for j in range(k):
        a = INNER[j % len(INNER)]
        lists.append((a, 'CommonModule' if j == 0 and c != 'CommonModule' else None))

    def inner(i):
        out = []
        for j, (a, m) in enumerate(lists):
            t = commands([a], nin, 1000 * (i + 1) + 100 * j)
            if m:
                t.append((m, [Plan(m, 'ZB'[x % 2], uid(5000 + 10 * i + x), uid(5000 + 10 * i + x)) for x in range(nin)]))
            t.append((UNKNOWN, LIST))
            out.append(t)
        return out
    return shape('ExternalDataProcessor', [(c, [Plan(c, 'ZA'[i % 2], uid(10 + i), uid(10 + i), inner(i)) for i in range(n)])])


INNER = ['CatalogCommand', 'DocumentCommand', 'TaskCommand', 'EnumCommand', 'ReportCommand', 'DataProcessorCommand']


def lists_of(I, c):
    F = Family(False)
    return len(includes(F, F.cls(c), uid(1)))


def one(case):
    kind, args, auto, args2 = case
    try:
        if kind == 'whole':
            root, plan, found = args[0], whole(*args), whole(*args2) if args2 else None
        else:
            c, simple = args[:2]
            k = 0 if simple else lists_of(None, c)
            root, plan = 'ExternalDataProcessor', of_class(c, simple, k, *args[2:])
            found = of_class(c, simple, k, *args2) if args2 else None
        return case, check_case(root, plan, auto, found, (0,) if kind == 'whole' else (0, 1, 2)), None
    except Unsure as e:
        return case, None, str(e)


ROOTS = ('ExternalDataProcessor', 'Configuration', 'ConfigurationExtension')


def cases(I, tier):
    out = []
    top = 3 if tier == 'thorough' else 2
    for root in ROOTS:
        full = (root, top, 3, 2, 2)
        for auto in (False, True):
            out.append(('whole', full, auto, None))
            out.append(('whole', (root, 1, 0, 1, 0), auto, None))
        changed = [(root, 1, 1, 1, 1), (root, 0, 0, 0, 0), (root, 3, 3, 1, 0)]
        if tier == 'thorough':
            changed += [(root, a, b, c, d) for a in range(4) for b in (0, 1, 3) for c in (0, 2) for d in (0, 1)]
        for ch in changed:
            out.append(('whole', full, True, ch))
            if ch[1]:
                out.append(('whole', ch, True, full))
    n = 0
    for name, c in targets.metadata_classes(I):
        if c is None or targets.is_kind(c, 'IncludeEmpty'):
            continue
        n += 1
        simple = targets.is_kind(c, 'IncludeSimple')
        for auto in (False, True):
            out.append(('class', (name, simple, 2, 2), auto, None))
        out.append(('class', (name, simple, 2, 2), True, (2, 1) if simple else (1, 1)))
        out.append(('class', (name, simple, 2, 2), True, (1, 0) if simple else (1, 0)))
        out.append(('class', (name, simple, 2, 0), True, (2, 2)))
    return out, n


def check(rep):
    I = Interp()
    cs, classes = cases(I, rep.tier)
    done = builds = 0
    for case, x in zip(cs, parallel(one, cs, each=40 if rep.tier == 'quick' else 120)):
        kind, args, auto, args2 = case
        _, r, why = (case, None, 'too many paths') if x == OUT_OF_TIME else x
        if r is None:
            rep.undecide('%s %s: %s' % (kind, args[0], why))
            continue
        fs, n = r
        done += 1
        builds += n
        for rule, what in fs:
            c = args[0]
            scen = ('unchanged sources' if args2 is None else 'children added or removed in the sources')
            rep.add(rule, ('MetaObject.%s' % c) if kind == 'whole' else 'MetaDataObject.%s' % c, '%s (%s)' % (what, scen),
                    'family: %s; table of contents: %s' % (', '.join(map(str, args)), 'dynamic' if auto else 'stored') + (
                        '; in the sources: %s' % ', '.join(map(str, args2)) if args2 else ''))
    rep.cover(families=len(cs), families_decided=done, builds_compared=builds, metadata_classes=classes, root_classes=len(ROOTS))
    rep.floor('metadata_classes', classes, 60)
    rep.floor('families', len(cs), 300)
    if not rep.undecided:
        rep.floor('builds_compared', builds, 300)
    rep.explanation = EXPL
    rep.assumptions = ASSUME


EXPL = ('Differential abstract interpretation of whole operations: extraction and build of a family (root object, children kept as '
        'entries, children kept in the tree of their parent, children of children) are interpreted over the syntax trees, workers '
        'included, with symbolic property trees in which only the lists of children, the names and the identifiers are known. Rule: '
        'after the build every list of children of every parent is, with the stored table of contents, the list that was read; with '
        'the dynamic one, type by type, the children found in the sources ordered by name with type identifier and count; lists of '
        'unknown types and children that are not taken out are unchanged; no build of such sources fails.')
ASSUME = ['a root object has its direct children as entries of their own, not inside its own tree (stored table of contents)',
          'two objects of a removed or added kind stand for any number; up to three objects per list',
          'the folder of a removed child is removed with it; the folder of its type may stay']
