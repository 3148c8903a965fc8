"""Verdicts over (extraction outcome, build outcome) pairs of one metadata class."""
import re

from .terms import (K, T, Ref, Tup, FD, FL, OV, Star, NONE, EMPTY, cat, join, comps, under, subterms)
from . import models as M
from .roundtrip import SRC, DEST, OUT, FILE, ELEMS


class Finding:
    __slots__ = ('prop', 'rule', 'construct', 'what', 'path')

    def __init__(self, prop, rule, construct, what, path=''):
        self.prop, self.rule, self.construct, self.what, self.path = prop, rule, construct, what, path

    def key(self):
        return (self.prop, self.rule, self.construct, self.what)


def taken(st):
    """container entries extraction opened or copied"""
    out = {}
    for e in st.events():
        if e[0] == 'read' and e[2] != 'size':
            r = under(e[1], SRC)
            if r:
                out.setdefault(e[1], e[3])
    return out


def out_name(I, p, uuid):
    rel = under(p, SRC)
    c = [uuid if x == FILE else x for x in rel]
    return join([OUT] + list(c))


def short(t, uuid=None):
    """readable, stable name of a container entry: <uuid>.0/text"""
    c = under(t, SRC)
    if c is None:
        c = under(t, OUT)
    if c is None:
        c = comps(t)
    s = '/'.join(part(x, uuid) for x in c)
    return s


def part(x, uuid):
    if isinstance(x, K):
        return str(x.v)
    if uuid is not None and x == uuid or x == FILE:
        return '<uuid>'
    if isinstance(x, T) and x.op == 'cat':
        return ''.join(part(a, uuid) for a in x.args)
    return '<%s>' % (x.op if isinstance(x, T) else 'value')


def obj_uuid(ds):
    for p, v in ds.fs.items():
        c = comps(p)
        if isinstance(c[-1], K) and isinstance(c[-1].v, str) and c[-1].v.endswith('.id.json') and v[0] == 'json':
            for k, x in v[1].key[0]:
                if k == K('uuid'):
                    return x
    return None


def loc_name(loc, root):
    """path below a tree as [0][1][2]"""
    s = ''
    while isinstance(loc, T) and loc.op == 'idx' and loc is not root:
        k = loc.args[1]
        s = '[%s]' % (k.v if isinstance(k, K) else 'i' if isinstance(k, T) and k is not ELEMS else '*') + s
        loc = loc.args[0]
    return s


def tree_equal(I, f, root, st, path):
    """differences between a frozen tree and the original tree value `root`; list of (location, value)"""
    if f is root:
        return []
    if isinstance(f, T):
        f = st.eqs.get(f, f)
    if isinstance(f, T):
        c = M.canon(I, f, st)
        r = st.eqs.get(root, root)
        if c is root or c is r:
            return []
        if isinstance(c, T) and isinstance(r, K):
            c2 = st.eqs.get(c, c)
            if c2 is r:
                return []
            # text whose variable part is known to be empty
            if fold_empty(I, c, st) is r:
                return []
        return [(path, c)]
    if isinstance(f, K):
        if st.eqs.get(root) is f:
            return []
        if M.derive_full(I, T('eq', root, f), st) is True:
            return []
        if string_is(I, root, f, st):
            return []
        return [(path, f)]
    if isinstance(f, OV):
        if f.key[0] is not root:
            return [(path, f.key[0])]
        out = []
        for loc, v in f.key[1]:
            out.extend(tree_equal(I, v, loc, st, path + loc_name(loc, root)))
        return out
    if isinstance(f, FL):
        out = []
        items = f.key[0]
        for i, x in enumerate(items):
            if isinstance(x, Star):
                out.append((path + '[%d..]' % i, x))
                continue
            out.extend(tree_equal(I, x, T('idx', root, K(i)), st, path + '[%d]' % i))
        # a rebuilt list must not be shorter than the original
        if st.facts.get(T('hasidx', root, K(len(items)))) is True:
            out.append((path + '[%d]' % len(items), K('dropped')))
        return out
    return [(path, f)]


def fold_empty(I, c, st):
    """value of a term whose base64 / decoded parts are known empty"""
    if isinstance(c, K):
        return c
    if isinstance(c, T):
        if st.facts.get(T('truthy', c)) is False:
            return EMPTY
        if c.op == 'cat':
            return cat([fold_empty(I, a, st) for a in c.args])
        if c.op in ('b64s', 'b64enc', 'b64dec', 'decode', 'encode', 'slice', 'sub') and c.args:
            a = c.args[-1] if c.op == 'sub' else c.args[0]
            if isinstance(a, T) and st.facts.get(T('truthy', a)) is False:
                return EMPTY
    return c


def string_is(I, root, k, st):
    """original string location known to be the constant k: prefix known and remainder known empty"""
    if not isinstance(k.v, str):
        return False
    for q, v in st.facts.items():
        if v is False and q.op == 'truthy':
            x = q.args[0]
            # b64dec(slice(root, n, None)) empty, with root starting with k
            y = x.args[0] if isinstance(x, T) and x.op in ('b64dec', 'decode') else x
            if isinstance(y, T) and y.op == 'decode':
                y = y.args[0]
            if isinstance(y, T) and y.op == 'b64dec':
                y = y.args[0]
            if isinstance(y, T) and y.op == 'slice' and y.args[0] is root and isinstance(y.args[1], K) \
                    and y.args[1].v == len(k.v) and y.args[2] is NONE:
                if st.facts.get(T('startswith', root, k)) or not k.v:
                    return True
    return False


def judge(I, cls, d, e, stats):
    """findings of one (extraction path, build path) pair"""
    F = []
    name = cls.info.name
    dk, dv, ds = d
    if dk == 'raise':
        stats['decode-raises'] += 1
        return F
    stats['paths'] += 1
    uuid = obj_uuid(ds)
    if e == 'no id file' or uuid is None:
        F.append(Finding('C01', 'no-id-file', name, 'extraction returned without writing the object id file'))
        return F
    ek, ev, es = e
    got = taken(ds)
    if ek == 'raise':
        stats['encode-raises'] += 1
        F.append(Finding('C01', 'build-fails', name, 'build of an extracted object fails: %s' % exc_name(I, ev, es),
                         dev_text(es, uuid)))
        return F
    stats['pairs'] += 1
    if not (isinstance(ev, Tup) and ev.items and isinstance(ev.items[0], Ref)):
        F.append(Finding('C01', 'no-result', name, 'build returned nothing for an extracted object', dev_text(es, uuid)))
        return F
    # ---------------------------------------------------------------- C01, C02, C04 per entry
    outs = {p: v for p, v in es.fs.items() if under(p, OUT)}
    for p, where in got.items():
        stats['entries'] += 1
        o = out_name(I, p, uuid)
        v = outs.get(o)
        if v is None:
            w = outs.get(join(list(comps(o)) + [T('treeof', p)]))       # a folder taken over as a whole
            if w == ('bin', T('bytes', p)):
                stats['folders'] += 1
                continue
        sn = short(p, uuid)
        if v is None:
            F.append(Finding('C01', 'entry-lost', name, 'entry %s is read by extraction but not written by build' % sn,
                             dev_text(es, uuid)))
            continue
        check_content(I, F, name, p, sn, v, ds, es, stats, uuid)
    # ---------------------------------------------------------------- C03
    r = I.freeze(ev.items[0], es)
    fl = None
    if isinstance(r, FD):
        for k, x in r.key[0]:
            if k == K('file_list'):
                fl = x
    if not isinstance(fl, FL):
        F.append(Finding('C03', 'no-file-list', name, 'build result carries no file list'))
    else:
        listed = list(fl.key[0])
        written = []
        for p in outs:
            top = under(p, OUT)[0]
            if top not in written:
                written.append(top)
        stats['listed'] += len(listed)
        for x in written:
            n = sum(1 for y in listed if y == x)
            if n == 0:
                F.append(Finding('C03', 'not-listed', name, 'entry %s is written but not listed' % part(x, uuid),
                                 dev_text(es, uuid)))
            elif n > 1:
                F.append(Finding('C03', 'listed-twice', name, 'entry %s is listed %d times' % (part(x, uuid), n),
                                 dev_text(es, uuid)))
        for y in listed:
            if y not in written:
                F.append(Finding('C03', 'listed-not-written', name, 'entry %s is listed but not written'
                                 % (part(y, uuid) if isinstance(y, (T, K)) else repr(y)), dev_text(es, uuid)))
    # ---------------------------------------------------------------- C05: one file, two artefacts
    for st, root, rule in ((ds, DEST, 'source-collision'), (es, OUT, 'entry-collision')):
        for x in st.events():
            if x[0] == 'overwrite' and under(x[1], root):
                F.append(Finding('C05', rule, name, '%s is written twice' % short(x[1], uuid).split('/')[-1],
                                 dev_text(st, uuid)))
        files = [p for p in st.fs if under(p, root)]
        stats['files'] += len(files)
        fset = set(files)
        for p in files:
            c = comps(p)
            for n in range(len(comps(root)) + 1, len(c)):
                q = join(c[:n])
                if q in fset:
                    F.append(Finding('C05', rule, name, '%s is both a file and a folder' % short(q, uuid).split('/')[-1],
                                     dev_text(st, uuid)))
    F.extend(unify_names(I, name, ds, uuid, stats))
    for x in es.events():
        if x[0] == 'codec-mismatch':
            F.append(Finding('C04', 'codec-mismatch', name, '%s written as %s, read as %s'
                             % (short(x[1], uuid).split('/')[-1], x[2], x[3]), dev_text(es, uuid)))
    return F


def check_content(I, F, name, p, sn, v, ds, es, stats, uuid):
    kind = v[0]
    root = T('brace', p)
    if kind == 'text' and isinstance(v[1], T) and v[1].op == 'bracetext':
        stats['trees'] += 1
        f = I.frozen[v[1].args[0].v]
        if isinstance(f, FL):
            es = binary_record(root, es)
        if v[2] is not None and M.norm_enc(v[2]) not in ('utf-8', 'utf-8-sig'):
            F.append(Finding('C04', 'tree-codec', name, '%s is written as %s' % (sn, v[2]), dev_text(es, uuid)))
        for loc, val in tree_equal(I, f, root, es, ''):
            F.append(Finding('C02', 'tree-changed', name, '%s%s comes back as %s' % (sn, loc, brief(val, uuid)),
                             dev_text(es, uuid)))
        return
    stats['contents'] += 1
    if kind == 'bin':
        b = M.canon(I, v[1], es)
        if b is T('bytes', p):
            return
        if isinstance(b, K) and not b.v and es.facts.get(T('truthy', T('bytes', p))) is False:
            return
        F.append(Finding('C04', 'bytes-changed', name, '%s comes back as %s' % (sn, brief(b, uuid)), dev_text(es, uuid)))
        return
    if kind == 'text':
        t = M.canon(I, v[1], es)
        b = M.encode_(t, v[2], es)
        if b is T('bytes', p):
            return
        if t is EMPTY:
            e2 = M.norm_enc(v[2])
            for q, val in es.facts.items():
                if val is False and q.op == 'truthy' and isinstance(q.args[0], T) and q.args[0].op == 'decode' \
                        and q.args[0].args[0] is T('bytes', p):
                    e1 = M.norm_enc(q.args[0].args[1])
                    if e1 == e2 or e1 == 'utf-8-sig' and e2 == 'utf-8' and not M.has_bom(T('bytes', p), es):
                        return
                    if e1 == 'utf-8' and e2 == 'utf-8-sig' and M.has_bom(T('bytes', p), es):
                        return
        F.append(Finding('C04', 'text-changed', name, '%s comes back as %s in %s'
                         % (sn, brief(t, uuid), v[2]), dev_text(es, uuid)))
        return
    if kind == 'empty':
        if es.facts.get(T('truthy', T('bytes', p))) is not False:
            F.append(Finding('C04', 'emptied', name, '%s comes back empty' % sn, dev_text(es, uuid)))
        return
    F.append(Finding('C04', 'content-kind', name, '%s comes back as %s' % (sn, kind), dev_text(es, uuid)))


def binary_record(root, st):
    """format of a binary record the platform writes: {"1", {"#base64:<data>"}}, {"1", {"##base64:"}} when empty"""
    st = st.fork()
    st.eqs[T('idx', T('idx', root, K(0)), K(0))] = K('1')
    x = T('idx', T('idx', T('idx', root, K(0)), K(1)), K(0))
    empty = st.facts.get(T('truthy', T('b64dec', T('slice', x, K(8), NONE)))) is False
    if empty:
        st.eqs[x] = K('##base64:')
    else:
        st.facts[T('startswith', x, K('#base64:'))] = True
    return st


def brief(v, uuid=None, n=160):
    s = show2(v, uuid)
    return s if len(s) <= n else s[:n] + '…'


def show2(v, uuid):
    if isinstance(v, K):
        return repr(v.v)
    if isinstance(v, T):
        if v.op in ('bytes', 'brace', 'size', 'json'):
            return '%s(%s)' % (v.op, short(v.args[0], uuid))
        if uuid is not None and v is uuid:
            return '<uuid>'
        if v.op == 'param':
            return '$%s' % v.args[0]
        if v.op == 'idx':
            k = v.args[1]
            return '%s[%s]' % (show2(v.args[0], uuid), k.v if isinstance(k, K) else '*' if k is ELEMS else 'i')
        return '%s(%s)' % (v.op, ', '.join(show2(a, uuid) for a in v.args))
    if isinstance(v, FL):
        return '[%s]' % ', '.join(show2(a, uuid) for a in v.key[0])
    if isinstance(v, FD):
        return '{%s}' % ', '.join('%s: %s' % (show2(a, uuid), show2(b, uuid)) for a, b in v.key[0])
    if isinstance(v, OV):
        return '%s{changed}' % show2(v.key[0], uuid)
    return repr(v)


def dev_text(st, uuid):
    """the conditions of the path that depart from the ordinary case"""
    from .interp import Interp
    subs = set(st.dev)
    out = []
    for p, v in st.facts.items():
        if p.op == 'nonempty':
            continue
        if Interp.subject(None, p) in subs:
            out.append('%s%s' % ('' if v else 'not ', show2(p, uuid)))
    return '; '.join(out)


def exc_name(I, v, st):
    """name of the root exception (through the parent chain of wrapped ones)"""
    n = 0
    from .interp import HInst
    while n < 12:
        n += 1
        if isinstance(v, Ref):
            o = st.heap.get(v.addr)
            if isinstance(o, HInst):
                p = o.attrs.get('parent')
                if p is not None and p is not NONE and (isinstance(p, Ref) or type(p).__name__ == 'ExcV'):
                    v = p
                    continue
                return o.cls.name if hasattr(o.cls, 'name') else str(o.cls)
        if type(v).__name__ == 'ExcV':
            c = v.key[0]
            nm = c.info.name if hasattr(c, 'info') else c.name
            return nm + ''.join(' ' + brief(a) for a in v.key[1:2])
        break
    return repr(v)


def unify_names(I, name, st, uuid, stats):
    """two source files whose names coincide for some value of an unknown part (an extension taken from a comment)"""
    F = []
    files = [p for p in st.fs if under(p, DEST)]
    byname = {}
    for p in files:
        c = comps(p)
        byname.setdefault(c[:-1], []).append(c[-1])
    for dr, names in byname.items():
        for i, a in enumerate(names):
            for b in names[i + 1:]:
                for x, y in ((a, b), (b, a)):
                    bnd = bind(x, y)
                    if bnd is None:
                        continue
                    term, val = bnd
                    stats['name-pairs'] += 1
                    if feasible(I, term, val, st):
                        F.append(Finding('C05', 'source-collision', name, '%s and %s are one file when %s'
                                         % (part(x, uuid), part(y, uuid), brief(T('eq', term, K(val)), uuid)),
                                         dev_text(st, uuid)))
                        break
    return F


def bind(x, y):
    """x = prefix + unknown (+ suffix), y constant: value of the unknown that makes them equal"""
    if not (isinstance(y, K) and isinstance(y.v, str)):
        return None
    if isinstance(x, T) and x.op == 'cat':
        unk = [a for a in x.args if isinstance(a, T)]
        if len(unk) != 1:
            return None
        i = x.args.index(unk[0])
        pre = ''.join(a.v for a in x.args[:i])
        post = ''.join(a.v for a in x.args[i + 1:])
        if y.v.startswith(pre) and y.v.endswith(post) and len(y.v) > len(pre) + len(post):
            return unk[0], y.v[len(pre):len(y.v) - len(post)]
    return None


UNKNOWN = object()


def evaluate(t, env):
    """value of a term when some subterms are given constants; UNKNOWN when it cannot be told"""
    if t in env:
        return env[t]
    if isinstance(t, K):
        return t.v
    if not isinstance(t, T):
        return UNKNOWN
    a = [evaluate(x, env) for x in t.args]
    if t.op == 'eq' and len(a) == 2 and UNKNOWN not in a:
        return a[0] == a[1]
    if any(x is UNKNOWN for x in a):
        return UNKNOWN
    try:
        if t.op in ('lower', 'upper', 'strip', 'casefold', 'lstrip', 'rstrip', 'isalnum', 'isdigit', 'isalpha', 'isascii',
                    'startswith', 'endswith', 'find', 'split', 'replace'):
            return getattr(a[0], t.op)(*a[1:])
        if t.op == 'len':
            return len(a[0])
        if t.op == 'truthy':
            return bool(a[0])
        if t.op == 'in':
            return a[0] in a[1]
        if t.op in ('gt', 'lt', 'ge', 'le'):
            return {'gt': a[0] > a[1], 'lt': a[0] < a[1], 'ge': a[0] >= a[1], 'le': a[0] <= a[1]}[t.op]
        if t.op == 'cat':
            return ''.join(a)
        if t.op == 'match' and all(isinstance(x, str) for x in a[:2]):
            return None is not re.match(a[0], a[1])
        if t.op == 'slice':
            return a[0][a[1]:a[2]]
        if t.op == 'int':
            return int(a[0])
    except (TypeError, ValueError, AttributeError):
        pass
    return UNKNOWN


def feasible(I, term, val, st):
    """can the unknown have this value under the recorded facts?"""
    env = {term: val}
    for q, b in st.facts.items():
        v = evaluate(q, env)
        if v is not UNKNOWN and bool(v) != b:
            return False
    for t, k in st.eqs.items():
        v = evaluate(t, env)
        if v is not UNKNOWN and v != k.v:
            return False
    return True
