"""C23: the name prefix is taken off and put on for the same objects.

Extraction and build of a root object with children - own, adopted, with a header of an old version, at the top level and
below another object - are interpreted over the syntax trees (families of r_children) with and without a prefix; the folder
of each child in the sources and its name after the build are compared with what they have to be."""
from ..interp import Interp
from ..terms import K, T, FL, join, under
from ..runner import parallel, OUT_OF_TIME
from .. import targets
from .r_children import Plan, DEST, extracted, folders, shape, uid, lookup, written, Unsure, ROOTS
from .r_ops import opaque_but_worker

PROPS = ('C23',)
OPTIONS = {'prefix': {'prefix': 'Pr_'}, 'no prefix': {}, 'prefix not set': {'prefix': None}, 'empty prefix': {'prefix': ''}}
OWNERS = {'own': '0', 'adopted': '1', 'header without owner mark': None}


def strip(name, owner, top, options):
    p = options.get('prefix') or ''
    return name[len(p):] if p and top and owner in ('0', None) and name.startswith(p) else name


def family(root, c, simple, options):
    """objects of one class at the top level and below a catalogue, every one with the prefix in its name"""
    n = [10]

    def child(cls, owner, top, lists=None, internal=False, name=None):
        n[0] += 1
        name = name or ('Pr_N%d' % n[0] if n[0] % 4 else 'Pr_Pr_N%d' % n[0])
        return Plan(cls, name, uid(n[0]), None if internal else uid(n[0]), lists, internal, OWNERS[owner],
                    strip(name, OWNERS[owner], top, options))
    below = [(c, [child(c, o, False, internal=simple) for o in OWNERS])]
    types = [('Catalog', [child('Catalog', o, True, [below if i == 0 else []]) for i, o in enumerate(OWNERS)])]
    if not simple:
        mine = [child(c, o, True) for o in OWNERS] + [child(c, 'own', True, name='OwnPr_N')]
        types = [('Catalog', types[0][1] + mine)] if c == 'Catalog' else types + [(c, mine)]
    p = shape(root, types)
    p.name = p.folder = 'Pr_Root'
    return p


def level(root, plan):
    """(child, place of its folder, description)"""
    def walk(p, at, top):
        for l in p.lists:
            for t, ch in l:
                for c in ch:
                    yield c, join([at, K(c.cls), K(c.folder)]), top, p
                    yield from walk(c, join([at, K(c.cls), K(c.folder)]), False)
    return walk(plan, DEST, True)


def title(c, top):
    return '%s object %s' % ([k for k, v in OWNERS.items() if v == c.owner][0], 'of the top level' if top else 'below another one')


def setting(root, c, simple):
    """how much has to be varied for the extraction of such a family to be carried out (found without a prefix)"""
    for dev in (0, 1, 2):
        for versions in (False, True):
            plan = family(root, c, simple, {})
            F, sts = extracted(root, plan, False, dev, versions, {})
            if any(complete(s, plan) for s in sts):
                return dev, versions
    return None


def complete(s, plan):
    return all(any(under(f, d) for f in s.fs) for d in folders(plan))


def one(case):
    """[(options, findings, number of builds, reason it is undecided)]"""
    root, c, simple = case
    out = []
    try:
        how = setting(root, c, simple)
    except Unsure as e:
        return [(on, [], 0, str(e)) for on in OPTIONS]
    for on in OPTIONS:
        if how is None:
            out.append((on, [], 0, 'no extraction without a prefix is carried out'))
            continue
        try:
            fs, n = with_options(root, c, simple, on, *how)
            out.append((on, fs, n, None if n or fs else 'no outcome'))
        except Unsure as e:
            out.append((on, [], 0, str(e)))
    return out


def with_options(root, c, simple, on, dev, versions):
    options = OPTIONS[on]
    plan = family(root, c, simple, options)
    F, sts = extracted(root, plan, False, dev, versions, options)
    out, n = set(), 0
    good = [s for s in sts if complete(s, plan)][:4]
    if not good:
        for s in sts:
            for x, d, top, _ in level(root, plan):
                if not any(under(f, d) for f in s.fs):
                    out.add(('source-name', '%s: %s: its sources are not in a folder named %s' % (
                        on, title(x, top), 'without the prefix' if x.folder != x.name else 'by its whole name')))
        if not sts:
            out.add(('extract-fails', '%s: extraction fails' % on))
    for s in good:
        for k, v, z in F.build(root, s):
            if opaque_but_worker(z):
                raise Unsure('build runs through code that is not modelled')
            if k != 'ret':
                out.add(('build-fails', '%s: build of extracted sources fails' % on))
                continue
            n += 1
            for x, d, top, parent in [(plan, None, True, None)] + list(level(root, plan)):
                if x.name.startswith('Own'):
                    continue        # build gives it the prefix
                h = name_of_built(F, z, x, parent)
                if h != K('"%s"' % x.name):
                    who = 'root object' if parent is None else title(x, top)
                    out.add(('built-name', '%s: %s: its name after the build is not the one it had' % (on, who)))
    return sorted(out), n


def name_of_built(F, z, x, parent):
    if x.entry is not None:
        h = F.headers[x.entry]
        w = written(F, z, x.entry)
        return lookup(F.at(h, 2), F.tree(x.entry), z.store, w) if w is not None else None
    # inside the tree of the parent
    w = written(F, z, parent.entry)
    if w is None:
        return None
    for inc, l in zip(F.places[parent.entry], parent.lists):
        for i, (t, ch) in enumerate(l):
            if x in ch:
                v = lookup(F.at(inc, 3 + i), F.tree(parent.entry), z.store, w)
                try:
                    v = v.key[0][2 + ch.index(x)]
                    for j in F.path_to(F.cls(x.cls)) + [2]:
                        v = v.key[0][j]
                    return v
                except (AttributeError, IndexError):
                    return None
    return None


def cases(I, tier):
    out = []
    for name, c in targets.metadata_classes(I):
        if c is None or targets.is_kind(c, 'IncludeEmpty'):
            continue
        simple = targets.is_kind(c, 'IncludeSimple')
        out.append((ROOTS[0], name, simple))
    return out + [(root, n, s) for root in ROOTS[1:] for _, n, s in list(out) if tier == 'thorough' or n == 'CommonModule']


def check(rep):
    I = Interp()
    cs = cases(I, rep.tier)
    builds = 0
    for (root, c, simple), r in zip(cs, parallel(one, cs, each=100)):
        for on, fs, n, why in [('every option', [], 0, 'too many paths')] if r == OUT_OF_TIME else r:
            if why:
                rep.undecide('%s, %s: %s' % (c, on, why))
            builds += n
            for rule, what in fs:
                rep.add(rule, 'MetaDataObject.%s' % c if root == ROOTS[0] else 'MetaObject.%s' % root, what,
                        'root %s, children of class %s' % (root, c))
    rep.cover(families=len(cs), builds_compared=builds)
    rep.floor('families', len(cs), 60)
    if not rep.undecided:
        rep.floor('builds_compared', builds, 200)
    rep.explanation = __doc__.strip()
    rep.assumptions = ['an own object of the top level carries the prefix in its name (build adds it to every such object)']
