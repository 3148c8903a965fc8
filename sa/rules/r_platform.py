"""C08: every recognised type is served, and its positions are those of the platform.

The oracle is the table spec/platform.json: the identifier of every type, the place of name and identifier in the header of every
kind of object, the entry from which each file of its sources comes, the places of its lists of children, the kinds of templates
and of form elements, the versions of forms.  The source side is found by interpreting the extraction of every metadata class with a
symbolic header and symbolic entries: what is written under which name, and from where it was read - however the class says it.
(a) identifiers: each enumeration of types against the table, no identifier twice, every type of a child has a class;
(b) positions: name, identifier, entry of every artefact, lists of children, container;
(c) dispatch: a reader and a writer for every template kind, a class for every form version and form element kind."""
import json
import os

from ..interp import Interp
from ..prog import AnalysisBroken
from ..roundtrip import RoundTrip, SRC, FILE, DEST, PATH
from ..terms import K, T, Cls, Fn, Bound, Ref, NONE, FD, join, comps
from ..interp import HDict, HList
from ..runner import parallel, OUT_OF_TIME
from .. import targets
from .r_ops import opaque_but_worker

PROPS = ('C08',)
Q = 'v8unpack.'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), 'spec', 'platform.json')
ENUMS = ('metadata_types.MetaDataTypes', 'metadata_types.MetaDataGroup', 'MetaDataObject.Template.TmplType',
         'MetaDataObject.Form.FormElements4.FormElement.FormItemTypes', 'MetaDataObject.Form.FormElements27.FormElement.FormItemTypes')
HDR = T('param', 'header')
ROOTS = ('Configuration', 'ConfigurationExtension', 'ExternalDataProcessor')
_I = []


def interp():
    if not _I:
        _I.append(Interp())
    return _I[0]



ROOT = tuple(join([SRC, T('idx', T('idx', T('brace', join([SRC, K(n)])), K(i)), K(1))])     # the entry with the header of a root object
             for n, i in (('root', 0), ('configinfo', 1)))


def place_of(t):
    """path into the tree of the header, for a term made of constant subscripts of it"""
    path = []
    while isinstance(t, T) and t.op == 'idx' and isinstance(t.args[1], K):
        path.append(t.args[1].v)
        t = t.args[0]
    if isinstance(t, T) and (t is HDR or t.op == 'brace' and t.args[0] in (join([SRC, FILE]), *ROOT)):
        return ''.join('[%s]' % x for x in reversed(path)) or '[]'
    return None


def conditions(st):
    """what the path takes places of the header to be"""
    out = {}
    for f, v in st.facts.items():
        if isinstance(f, T) and f.op == 'eq' and v is True and isinstance(f.args[1], K) and isinstance(f.args[1].v, str):
            p = place_of(f.args[0])
            if p:
                out[p] = f.args[1].v
    return out


def walk(v):
    if isinstance(v, (T, tuple)):
        if isinstance(v, T):
            yield v
        for a in (v.args if isinstance(v, T) else v):
            yield from walk(a)
    elif hasattr(v, 'key'):
        yield from walk(v.key)


def entry(t):
    """the entry of the source a path denotes: its suffix after the identifier of the object"""
    cs = comps(t)
    if len(cs) < 2 or cs[0] is not SRC:
        return None
    out = []
    for i, c in enumerate(cs[1:]):
        if isinstance(c, K):
            out.append(str(c.v))
        elif isinstance(c, T) and c.op == 'cat' and place_of(c.args[0]) and all(isinstance(a, K) for a in c.args[1:]):
            out.append('<id>' + ''.join(str(a.v) for a in c.args[1:]))
        else:
            return None
    return '/'.join(out)


def entries(v):
    """entries a content is made of (the tree of the header left out)"""
    return {e for x in walk(v) if x.op == 'join' for e in [entry(x)] if e and e.startswith('<id>.')}


def local(p):
    """name of a file within the folder of its object"""
    c = comps(p)[-1]
    if isinstance(c, K):
        return str(c.v)
    if isinstance(c, T) and c.op == 'cat' and isinstance(c.args[0], K):
        return '%s?' % c.args[0].v
    return None


def keyed(d, key):
    if isinstance(d, FD):
        for k, v in d.key[0]:
            if k is K(key) or k == key:
                return v
    return None


def facts_of(case):
    """-> ([(conditions, kind, what, value)], undecided): where the extraction of a class takes everything from"""
    name, cls = case
    I = interp()
    out, und = [], []

    def add(st, kind, what, value):
        f = (conditions(st), kind, what, value)
        if f not in out:
            out.append(f)
    rt = RoundTrip(I, max_dev=0, policy='present')
    if name in ROOTS:
        rs = root(rt, cls)
    elif targets.is_kind(cls, 'IncludeSimple', 'IncludeEmpty'):
        rs = included(rt, cls)
    else:
        rs = rt.decode(cls)
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        if opaque_but_worker(st):
            und.append('%s: path runs through code that is not modelled' % name)
            continue
        for p, e in st.fs.items():
            n = local(p)
            if n is None or e[0] not in ('bin', 'text', 'json'):
                continue
            d = e[1]
            if n.endswith('.id.json'):
                t = keyed(d, 'uuid')
                add(st, 'place', 'identifier', place_of(t) if t is not None else None)
            elif n.endswith('.json') and e[0] == 'json' and not n.endswith('.elem.json'):
                t = keyed(d, 'compatibility_version')
                if t is not None and name in ROOTS:
                    add(st, 'place', 'compatibility version', place_of(t))
                t = keyed(d, 'uuid')
                if t is not None and name in ROOTS:
                    add(st, 'place', 'identifier', place_of(t))
                t = keyed(d, 'name')
                if isinstance(t, T) and t.op == 'slice':
                    add(st, 'place', 'name', place_of(t.args[0]))
            if e[0] == 'json' and isinstance(d, FD):
                for k, x in d.key[0]:
                    k = k.v if isinstance(k, K) else k
                    if isinstance(k, str) and isinstance(x, T) and x.op != 'slice':
                        for y in entries(x):
                            add(st, 'entry', '%s, %s' % (n, k), y)
            else:
                for x in entries(d):
                    add(st, 'entry', n, x)
                if isinstance(d, T) and d.op == 'slice' and place_of(d.args[0]):
                    add(st, 'place', n, place_of(d.args[0]))
    for m in ('get_decode_includes', 'get_container_uuid', 'get_template_type', 'get_form_root', 'get_decode_header'):
        f = cls.info.lookup(m)[1]
        f = f.fn if isinstance(f, Bound) else f
        if not isinstance(f, Fn) or f.info.kind != 'class':
            continue
        for kind, v, st in I.run(Bound(cls, f), [HDR], {}, I.start()):
            if kind != 'ret' or v is NONE:
                continue
            o = I.obj(st, v) if isinstance(v, Ref) else None
            vs = [place_of(x) for x in o.items] if isinstance(o, HList) else [place_of(v)]
            add(st, 'place', PLACES.get(m, m), ' '.join(map(str, vs)))
    return out, und


PLACES = {'get_decode_includes': 'lists of children', 'get_container_uuid': 'container', 'get_template_type': 'kind of template',
          'get_form_root': 'root of the form', 'get_decode_header': 'header'}


def included(rt, cls):
    """an object that lies in the header of its parent"""
    I = rt.I
    I.free_subjects = frozenset([HDR])
    st = I.start()
    f = unb(cls.info.lookup('decode_internal_include')[1])
    return I.run(Bound(cls, f), [NONE, HDR, SRC, DEST, PATH, rt.opts(st)], {}, st)


def root(rt, cls):
    I = rt.I
    I.free_subjects = frozenset(ROOT)
    out = []
    st = I.start()
    o = rt.opts(st)
    for kind, v, s in I.run(cls, [], {'options': o, 'obj_version': T('param', 'obj_version')}, st):
        if kind == 'ret':
            f = unb(cls.info.lookup('decode')[1])
            out += I.run(Bound(v, f), [SRC, DEST], {}, s)
    return out


def unknown(v):
    return v is None or 'None' in str(v)


def consistent(a, b):
    return all(b.get(k, v) == v for k, v in a.items())


# ------------------------------------------------------------------------------------------------ enumerations and dispatch
def enums(I):
    out = {}
    for q in ENUMS:
        try:
            c = I.get_class(Q + q)
        except AnalysisBroken:
            continue
        out[q] = [(m.name, m.value.v) for m in I.enum_members(c.info)]
    return out


def doubled(I):
    """identifiers used for two members of one enumeration"""
    out = []
    for q in ENUMS:
        try:
            c = I.get_class(Q + q)
        except AnalysisBroken:
            continue
        seen = {}
        for m in I.enum_members(c.info):
            v = m.value.v.lower() if isinstance(m.value.v, str) else m.value.v
            if v in seen:
                out.append((q, m.name, seen[v]))
            seen[v] = m.name
    return out


def dispatch(I):
    """facts about the handlers: {what: value}"""
    out = {}
    tm = I.get_class(Q + 'MetaDataObject.Template.Template2')
    for m in I.enum_members(I.get_class(Q + 'MetaDataObject.Template.TmplType').info):
        for d in ('decode', 'encode'):
            out['template %s %s' % (m.name, d)] = isinstance(unb(tm.info.lookup('%s_%s_data' % (d, m.name))[1]), Fn)
    for f in ('4', '27'):
        q = Q + 'MetaDataObject.Form.FormElements%s.FormElement.' % f
        base = I.get_class(q + 'FormElement')
        get = unb(base.info.lookup('get_class_form_elem')[1])
        for m in I.enum_members(I.get_class(q + 'FormItemTypes').info):
            args = [K(m.name)] if get.info.kind == 'static' else [base, K(m.name)]
            rs = I.run(get, args, {}, I.start())
            c = rs[0][1] if len(rs) == 1 and rs[0][0] == 'ret' else None
            ok = isinstance(c, Cls) and all(isinstance(unb(c.info.lookup(d)[1]), Fn) for d in ('decode', 'encode')) and c.info.name
            if not ok and c is None and rs and rs[0][0] == 'ret':
                continue        # the result is not determined
            out['form element %s of format %s' % (m.name, f)] = ok
    get = I.get_func(Q + 'helper.get_class_metadata_object')
    for m in I.enum_members(I.get_class(Q + 'metadata_types.MetaDataTypes').info):
        rs = I.run(get, [K(m.name)], {}, I.start())
        c = rs[0][1] if len(rs) == 1 and rs[0][0] == 'ret' else None
        if rs and (rs[0][0] == 'raise' or isinstance(c, Cls)):
            out['object %s' % m.name] = isinstance(c, Cls) and c.info.name == m.name
    return out


def unb(v):
    return v.fn if isinstance(v, Bound) else v


def versions(I, name, cls):
    v = cls.info.lookup('versions')[1]
    o = I.base.heap.get(v.addr) if isinstance(v, Ref) else None
    if not isinstance(o, HDict):
        return {}
    return {k.v: c.info.name for k, c in o.items.items() if isinstance(k, K) and isinstance(c, Cls)}


def table():
    I = interp()
    cs = targets.metadata_classes(I)
    cs += [(n, I.get_class(Q + 'MetaObject.%s.%s' % (n, n))) for n in ROOTS]
    d = dict(enums=enums(I), served=[n for n, c in cs if c is not None], dispatch=dispatch(I), facts={}, versions={})
    jobs = [(n, c) for n, c in cs if c is not None]
    und = []
    for (n, c), r in zip(jobs, parallel(facts_of, jobs, each=120)):
        if r == OUT_OF_TIME:
            und.append('%s: too many paths' % n)
            continue
        d['facts'][n], u = r
        und += u
        d['versions'][n] = versions(I, n, c)
    return d, und


def dump():
    d, und = table()
    assert not und, und
    with open(SPEC, 'w', encoding='utf-8') as f:
        json.dump(d, f, ensure_ascii=False, indent=None, separators=(',', ':'))


def check(rep):
    with open(SPEC, encoding='utf-8') as f:
        spec = json.load(f)
    I = interp()
    d, und = table()
    for u in und:
        rep.undecide(u)
    for q, m, other in doubled(I):
        rep.add('identifier', '%s.%s' % (q, m), 'has the identifier of %s as well' % other)
    n = 0
    for q, members in spec['enums'].items():
        here = dict(d['enums'].get(q, ()))
        for m, v in members:
            n += 1
            if m not in here:
                rep.add('identifier', '%s.%s' % (q, m), 'the type is not known any more')
            elif str(here[m]).lower() != str(v).lower():
                rep.add('identifier', '%s.%s' % (q, m), 'the identifier is not the one of the platform (%s)' % v, str(here[m]))
    for m in spec['served']:
        n += 1
        if m not in d['served']:
            rep.add('served', 'MetaDataObject.%s' % m, 'no class serves this type')
    for what, ok in d['dispatch'].items():
        n += 1
        want = spec['dispatch'].get(what, True)
        if not ok and want:
            rep.add('served', what, 'no function or class serves this kind')
        elif isinstance(want, str) and ok not in (want, what.split(' ')[2]):
            rep.add('served', what, 'served by %s instead of %s' % (ok, want))
    for name, vs in spec['versions'].items():
        for k, v in vs.items():
            n += 1
            h = d['versions'].get(name, {}).get(k)
            if h != v and name in d['served']:
                rep.add('served', 'MetaDataObject.%s' % name, 'version %s is served by %s instead of %s' % (k, h, v))
    for name, fs in spec['facts'].items():
        if name not in d['facts']:
            continue
        here = d['facts'][name]
        n += len(fs)
        known = {(k, w) for _, k, w, _ in fs}
        for c, k, w, v in here:
            if unknown(v):
                rep.cover(positions_unknown=1)
            elif (k, w) in known and not any((k, w, v) == (k2, w2, v2) and consistent(c, c2) for c2, k2, w2, v2 in fs):
                rep.add('position', 'MetaDataObject.%s' % name, '%s: taken from %s, which is not its place' % (w, v), str(c))
        for c, k, w, v in fs:
            if not any((k, w) == (k2, w2) and (v == v2 or unknown(v2)) and consistent(c, c2) for c2, k2, w2, v2 in here):
                rep.add('position', 'MetaDataObject.%s' % name, '%s: not taken from its place %s' % (w, v), str(c))
    rep.cover(classes=len(d['facts']), facts_compared=n)
    rep.floor('facts', n, 600)
    rep.explanation = __doc__.strip()
    rep.assumptions = ['the table spec/platform.json is right (identifiers and positions of the platform)']
