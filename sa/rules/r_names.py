"""C12: a name read from a binary never decides where a file is created.

For every event that creates, renames or deletes a file or folder during extraction each component of the path is looked
at.  A component that contains data of the binary must not be able to leave the folder: it is given names that would
(witnesses) and the conditions recorded on the path are evaluated for them."""
from collections import Counter

from ..interp import Interp, HInst, HDict, HList
from ..roundtrip import RoundTrip, PARENT, SRC, FILE, DEST, PATH
from ..terms import K, T, Ref, Cls, Fn, Bound, Tup, NONE, TRUE, FALSE, comps, subterms, join
from ..prog import AnalysisBroken
from ..runner import parallel
from .. import targets
from .. import judge as J

PROPS = ('C12',)
Q = 'v8unpack.'
CREATES = ('create', 'mkdir', 'copy', 'rename', 'delete', 'overwrite', 'unarchive')
# names that point out of a folder on the systems the tool runs on
ALONE = ['..', '.', '', '../x', 'a/../../x', '/abs', '..\\x', 'a\\..\\..\\x', 'C:x', 'C:\\x']
INSIDE = ['/../x', '/../../x', 'x/../../y', 'x\\..\\..\\y']          # as a part of a composed component
CONTENT = ('brace', 'bytes', 'text', 'rd', 'unpack', 'slurp', 'read')


def from_binary(t, roots):
    return any(isinstance(x, T) and (x.op in CONTENT or x in roots) for x in subterms(t))


def targets_of(e):
    if e[0] in ('copy', 'rename'):
        return [e[2]]
    if e[0] == 'unarchive':
        return [e[2]]
    return [e[1]]


def leaves(c):
    """unknown parts of one path component"""
    if isinstance(c, T) and c.op == 'cat':
        return [a for a in c.args if isinstance(a, T)], True
    return [c], False


def escapes(name):
    parts = name.replace('\\', '/').split('/')
    return len(parts) > 1 or parts[0] in ('', '.', '..') or ':' in name


def whole(c, t, val):
    """the component when its unknown part has this value, as far as it can be told"""
    if c is t:
        return val
    return ''.join(a.v if isinstance(a, K) else val if a is t else 'x' for a in c.args)


def scan(I, st, roots, place, stats):
    """[(what, where)] of the path"""
    out = []
    for e in st.events():
        if e[0] not in CREATES:
            continue
        for p in targets_of(e):
            if not isinstance(p, (T, K)):
                continue
            for c in comps(p):
                if isinstance(c, K) or not from_binary(c, roots):
                    continue
                ls, part = leaves(c)
                for t in ls:
                    if not from_binary(t, roots):
                        continue
                    stats['components'] += 1
                    bad, unsure = judge_name(I, st, c, t, part)
                    stats['witnesses'] += len(INSIDE if part else ALONE)
                    if bad:
                        out.append(('bad', e[0], t, bad, e[-1]))
                    elif unsure:
                        out.append(('unsure', e[0], t, unsure, e[-1]))
    return out


def prefixes(t):
    """(inner, prefix) when t is inner without its leading prefix"""
    if isinstance(t, T) and t.op == 'slice' and t.args[2] in (NONE, K(None)):
        a = t.args[1]
        if isinstance(a, T) and a.op == 'len':
            return t.args[0], a.args[0]
    return None


_MEMO = {}


def judge_name(I, st, c, t, part):
    """witnesses that get through, and those of which it cannot be told"""
    terms = [t]
    pf = prefixes(t)
    if pf:
        terms += list(pf)
    rel = tuple((q, b) for q, b in st.facts.items() if q.op not in FS and any(mentions(q, x) for x in terms))
    eqs = tuple((q, k) for q, k in st.eqs.items() if any(mentions(q, x) for x in terms))
    key = (c, t, part, frozenset(rel), frozenset(eqs))
    if key in _MEMO:
        return _MEMO[key]
    bad, unsure = [], []
    for w in (INSIDE if part else ALONE):
        if not escapes(whole(c, t, w)):
            continue
        env = {t: w}
        if pf:
            # the unknown prefix may be anything: one that keeps the rest
            env[pf[1]] = 'pre'
            env[pf[0]] = 'pre' + w
        r = holds(rel, eqs, env, t)
        if r is True:
            bad.append(w)
        elif r is None:
            unsure.append(w)
    _MEMO[key] = bad, unsure
    return bad, unsure


_MENT = {}


def mentions(q, t):
    k = (q, t)
    if k not in _MENT:
        _MENT[k] = any(x == t for x in subterms(q))
    return _MENT[k]


def holds(rel, eqs, env, t):
    """True: every condition on the path admits the value; False: one rejects it; None: one about it cannot be told"""
    res = True
    for q, b in rel:
        v = J.evaluate(q, env)
        if v is J.UNKNOWN:
            if concerns(q, t, env):
                res = None
            continue
        if bool(v) != b:
            return False
    for q, k in eqs:
        v = J.evaluate(q, env)
        if v is not J.UNKNOWN and v != k.v:
            return False
    return res


FS = ('isfile', 'isdir', 'exists', 'nonempty', 'miss', 'raises', 'permission')


def concerns(q, t, env):
    """an undecided condition that speaks about the name itself, not about a file of that name"""
    if q.op in FS:
        return False
    for x in subterms(q):
        if x is q:
            continue
        if x == t or x in env:
            # nested in a path: about the file system
            return not any(isinstance(y, T) and y.op in FS + ('join', 'brace', 'bytes') and any(z == t for z in subterms(y))
                           for y in subterms(q))
    return False


# ------------------------------------------------------------------------------------------------ metadata objects
_I = None


def interp():
    global _I
    if _I is None:
        _I = Interp()
    return _I


def one(case):
    name, cls, cfg = case
    I = interp()
    stats = Counter()
    found, und = {}, Counter()
    opts = {'prefix': T('param', 'prefix')} if cfg['prefix'] else {}
    rt = RoundTrip(I, max_dev=cfg['dev'], policy=cfg['policy'], options=opts)
    for kind, v, st in rt.decode(cls):
        stats['paths'] += 1
        for sort, ev, t, ws, where in scan(I, st, (), name, stats):
            k = (sort, ev, where)
            if k not in found or len(ws) > len(found[k][1]):
                found[k] = (str(t), ws, J.dev_text(st, None))
    return name, found, dict(stats)


def report(rep, name, found):
    for (sort, ev, where), (t, ws, path) in found.items():
        if sort == 'unsure':
            rep.undecide('%s: a condition on %s is not understood' % (name, where))
            continue
        rep.add('unchecked-name', '%s %s' % (name, str(where).split(':')[0] + ' ' + str(where).split(' ')[-1]),
                'a name from the binary such as %s decides where %s happens' % (
                    ', '.join(repr(w) for w in ws[:3]), {'create': 'a file creation', 'mkdir': 'a folder creation',
                                                         'copy': 'a copy'}.get(ev, ev)), '%s; %s' % (t, path))


def metadata(rep):
    I = interp()
    classes = [(n, c) for n, c in targets.metadata_classes(I) if c is not None
               and not targets.is_kind(c, 'IncludeSimple', 'IncludeEmpty')]
    gs = targets.groups(classes)
    cfgs = [dict(policy='present', dev=0, prefix=True), dict(policy='present', dev=1, prefix=False)]
    if rep.tier != 'quick':
        cfgs += [dict(policy='present', dev=1, prefix=True), dict(policy='absent', dev=1, prefix=False)]
    cs = [(g[0][0], g[0][1], cfg) for cfg in cfgs for g in gs]
    total = Counter()
    for name, found, stats in parallel(one, cs):
        total.update(stats)
        report(rep, name, found)
    rep.cover(metadata_classes=len(classes), distinct_implementations=len(gs), extraction_paths=total['paths'],
              witness_evaluations=total['witnesses'])
    rep.floor('path_components_from_the_binary', total['components'], 2000)


# ------------------------------------------------------------------------------------------------ child objects
def children(rep):
    """the folder of a child type and the children kept inside their parent"""
    I = interp()
    n = k = 0
    simple = [(m, c) for m, c in targets.metadata_classes(I) if c is not None and targets.is_kind(c, 'IncludeSimple')]
    mt = I.get_class(Q + 'metadata_types.MetaDataTypes')
    value = {m.name: m.value for m in I.enum_members(mt.info)}
    seen = set()
    picked = []
    for m, c in simple:
        key = tuple(b.info.qual for b in c.info.mro[1:] if hasattr(b, 'info')) + (J_body(c),)
        if key not in seen:
            seen.add(key)
            picked.append((m, c))
    for m, c in picked:
        for text in (True, False):
            I2 = Interp()
            I2.max_dev = 2
            I2.max_rec = 1
            I2.virtual_roots = {DEST}
            I2.input_roots = {SRC}
            st = I2.start()
            h = I2.new(st, HDict({}))
            o = I2.instantiate(I2.get_class(Q + 'MetaDataObject.Catalog.Catalog'), [], {
                'options': I2.new(st, HDict({K('obj_version'): K('803'), K('prefix'): T('param', 'prefix')}))}, st, None)
            self_, st = o[0]
            I2.set_attr(self_, 'header', h, st, None)
            I2.set_attr(self_, 'container_uuid', T('param', 'container'), st, None)
            child = T('brace', T('param', 'child'))
            if text:
                child = T('tok', T('param', 'childid'))
            else:
                st.kinds[child] = frozenset(('list',))
            inc = value_list(I2, st, [K('a'), K('b'), K('1'), [value[m], K('1'), child]])
            tasks = I2.new(st, HList([]))
            f = I2.get_func(Q + 'MetaObject.MetaObject.decode_include')
            f = f.fn if isinstance(f, Bound) else f
            stats = Counter()
            for kind, v, x in I2.run(f, [self_, SRC, DEST, PATH, tasks, inc], {}, st):
                n += 1
                for sort, ev, t, ws, where in scan(I2, x, {child}, m, stats):
                    report(rep, 'child of type %s' % m, {(sort, ev, where): (str(t), ws, '')})
                k += sum(1 for e in x.events() if e[0] in CREATES)
    rep.floor('child_paths', n, 4)
    rep.floor('child_writes', k, 4)


def value_list(I, st, v):
    if isinstance(v, list):
        return I.new(st, HList([value_list(I, st, x) for x in v]))
    return v


def J_body(c):
    return targets.body_key(c.info)


# ------------------------------------------------------------------------------------------------ container entries
def entries(rep):
    n = 0
    NAME = T('param', 'entry-name')
    for cname in ('Container', 'Container64'):
        I = Interp()
        I.max_dev = 4
        I.max_rec = 1
        I.virtual_roots = {DEST}
        st = I.start()
        made = I.instantiate(I.get_class(Q + 'container.' + cname), [], {}, st, None)
        self_, st = made[0]
        fobj = T('param', 'entry')
        st.kinds[NAME] = frozenset(('str',))
        files = I.new(st, HDict({NAME: fobj}))
        I.set_attr(self_, 'files', files, st, None)
        own = I.get_class(Q + 'container.' + cname).info.lookup('extract')[1]
        f = own.fn if isinstance(own, Bound) else own
        for deflate in (TRUE, FALSE):
            stats = Counter()
            s = st.fork()
            rs = I.run(f, [self_, DEST], {'deflate': deflate, 'recursive': TRUE}, s)
            for kind, v, x in rs:
                n += 1
                for sort, ev, t, ws, where in scan(I, x, {NAME}, cname, stats):
                    report(rep, cname, {(sort, ev, where): (str(t), ws, '')})
            rep.cover(entry_components=stats['components'], entry_paths=len(rs))
            rep.floor('entry_components:%s:%s' % (cname, deflate), stats['components'], 2)


def check(rep):
    entries(rep)
    children(rep)
    metadata(rep)
    rep.explanation = (
        'Interprocedural path-sensitive dataflow: on every path of the extraction of a container entry, of a metadata object '
        'and of a child kept in its parent, each component of a path that is created, copied to, renamed or deleted and that '
        'derives from the binary is given the names that would leave the folder; rule: the conditions recorded on the path '
        'reject every one of them.')
    rep.assumptions = ['paths given on the command line and enum member names are not taken from the binary',
                       'area names written by the user in modules deliberately point to shared folders and are not names of '
                       'entries or objects']
