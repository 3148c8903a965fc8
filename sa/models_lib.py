"""Models of library functions and of methods of built-in types."""
import builtins

from .terms import (K, T, Ref, Cls, Fn, Bound, Mod, Ext, Tup, EnumM, ExcV, FD, FL, OV, Star, SuperV,
                    NONE, TRUE, FALSE, EMPTY, cat, join, comps, under, const_path)
from .prog import ClassInfo
from . import models as M

REMOVED = K('\0removed')


def path_arg(I, v, st):
    v = M.to_path(I, v, st)
    return v


def ok_exc(name):
    e = getattr(builtins, name, None)
    return isinstance(e, type) and issubclass(e, BaseException)


def call_ext(I, name, args, kwargs, st, node):
    from .interp import HList, HDict, HInst
    if any(isinstance(a, Star) for a in args):
        args = [a.v if isinstance(a, Star) else a for a in args]
    args = [M.resolve(a, st) if isinstance(a, T) else a for a in args]
    fn = TABLE.get(name)
    if fn is None and '.' in name:
        fn = TABLE.get('.'.join(name.split('.')[-2:]))
    if fn is not None:
        r = fn(I, args, kwargs, st, node)
        if r is not NotImplemented:
            return r
    short = name.split('.')[-1]
    if ok_exc(short) and '.' not in name:
        return [(ExcV(Ext(name), *args), st)]
    if name in M.PURE and all(isinstance(a, K) for a in args) and not kwargs:
        try:
            return [(K(getattr(builtins, name)(*[a.v for a in args])), st)]
        except Exception as err:
            I.raise_(ExcV(Ext(type(err).__name__)), st)
            return []
    st.event('ext', name, tuple(args), tuple(sorted(kwargs.items())), I.where(node))
    return [(T('call', K(name), *[I.as_term(I.freeze(a, st)) if isinstance(a, Ref) else I.as_term(a) for a in args]),
             st)]


def opaque_call(I, f, args, kwargs, st, node):
    I.stats['opaque'] += 1
    st.event('opaque', f, tuple(args), tuple(sorted(kwargs.items())), I.where(node))
    h = getattr(I, 'opaque_hook', None)
    if h is not None:
        r = h(I, f, args, kwargs, st, node)
        if r is not None:
            return r
    return [(T('call', I.as_term(f), *[I.as_term(a) for a in args]), st)]


# ------------------------------------------------------------------------------ builtins
def b_len(I, a, kw, st, node):
    from .interp import HList, HDict
    v = a[0]
    if isinstance(v, K):
        try:
            return [(K(len(v.v)), st)]
        except TypeError:
            if v.v is None:
                st.event('none-deref', 'len', I.where(node))
            I.raise_builtin('TypeError', st)
            return []
    if isinstance(v, Tup):
        return [(K(len(v.items)), st)]
    if isinstance(v, Ref):
        o = I.obj(st, v)
        if isinstance(o, HList):
            n = len([x for x in o.items if not isinstance(x, Star)])
            stars = [x for x in o.items if isinstance(x, Star)]
            if not stars:
                return [(K(n), st)]
            return [(M.mkadd(T('lenstar', *[I.as_term(I.star_key(x)) for x in stars]), K(n)), st)]
        if isinstance(o, HDict) and not o.open:
            return [(K(len(o.items)), st)]
        return [(T('len', T('ref', v)), st)]
    if isinstance(v, T) and v.op == 'split' and False:
        pass
    t = T('len', I.as_term(v))
    return [(M.resolve(t, st), st)]


def b_int(I, a, kw, st, node):
    if not a:
        return [(K(0), st)]
    v = a[0]
    if isinstance(v, K) and all(isinstance(x, K) for x in a):
        try:
            return [(K(int(*[x.v for x in a])), st)]
        except TypeError:
            if v.v is None:
                st.event('none-deref', 'int', I.where(node))
            I.raise_builtin('TypeError', st)
            return []
        except ValueError:
            I.raise_builtin('ValueError', st)
            return []
    v = I.as_term(v)
    if isinstance(v, T) and v.op in ('int', 'len', 'size', 'add'):
        return [(v, st)]
    if isinstance(v, T) and v.op == 'str' and isinstance(v.args[0], T) and v.args[0].op in M.INT_OPS:
        return [(v.args[0], st)]
    t = T('int', v, *[I.as_term(x) for x in a[1:]])
    if I.catchable('ValueError'):
        out = []
        for ok, x in I.split(T('isint', v), st):
            if ok:
                out.append((t, x))
            else:
                I.raise_(ExcV(Ext('ValueError'), v), x)
        return out
    return [(t, st)]


def b_str(I, a, kw, st, node):
    if not a:
        return [(EMPTY, st)]
    v = a[0]
    if isinstance(v, K):
        if isinstance(v.v, str):
            return [(v, st)]
        return [(K(str(v.v)), st)]
    if isinstance(v, T):
        if M.is_str(v):
            return [(v, st)]
        if v.op == 'int' and len(v.args) == 1 and False:
            return [(v.args[0], st)]
        return [(T('str', v), st)]
    if isinstance(v, Ref):
        return [(T('str', T('ref', v)), st)]
    if isinstance(v, EnumM):
        return [(K('%s.%s' % (v.cls.name, v.name)), st)]
    return [(T('str', I.as_term(v)), st)]


def b_range(I, a, kw, st, node):
    if all(isinstance(x, K) for x in a):
        try:
            r = range(*[x.v for x in a])
        except TypeError:
            I.raise_builtin('TypeError', st)
            return []
        if len(r) <= I.MAX_RANGE:
            return [(T('rangek', *a), st)]
        return [(T('elem_range', *a), st)]
    if I.unroll_range and (len(a) == 1 or isinstance(a[0], K)) and len(a) < 3:
        lo = 0 if len(a) == 1 else a[0].v
        out = []
        for n in range(I.unroll_range + 1):
            s2 = st.fork() if n < I.unroll_range else st
            s2.facts[T('eq', T('max', T('binSub', I.as_term(a[-1]), K(lo)), K(0)), K(n))] = True
            out.append((T('rangek', K(lo), K(lo + n)), s2))
        return out
    if len(a) == 1:
        return [(I.new_list(st, [Star(T('rangeel', I.as_term(a[0])))]), st)]
    return [(I.new_list(st, [Star(T('rangeel', T('rng', *[I.as_term(x) for x in a])))]), st)]


def b_isinstance(I, a, kw, st, node):
    from .interp import HList, HDict, HInst
    v, c = a
    if isinstance(c, Tup):
        pend = [st]
        out = []
        for one in c.items:
            nxt = []
            for x in pend:
                for r, y in b_isinstance(I, [v, one], kw, x, node):
                    for b, z in I.truth(r, y):
                        if b:
                            out.append((TRUE, z))
                        else:
                            nxt.append(z)
            pend = nxt
        return out + [(FALSE, x) for x in pend]
    if isinstance(c, Cls):
        if isinstance(v, Ref):
            o = I.obj(st, v)
            return [(K(isinstance(o, HInst) and isinstance(o.cls, ClassInfo) and o.cls.is_sub(c.info)), st)]
        if isinstance(v, EnumM):
            return [(K(v.cls.is_sub(c.info)), st)]
        if isinstance(v, ExcV):
            return [(K(isinstance(v.cls, Cls) and v.cls.info.is_sub(c.info)), st)]
        if isinstance(v, K):
            return [(FALSE, st)]
        if isinstance(v, T) and v.op in ('enum', 'enumbyname'):
            return [(K(v.args[0].v == c.info.qual), st)]
        return [(K(b), x) for b, x in I.split(T('isinst', I.as_term(v), K(c.info.name)), st)]
    if isinstance(c, Ext):
        n = c.name.split('.')[-1]
        if isinstance(v, K):
            return [(K(M._k_isinst(v, n) or n == 'object'), st)]
        if isinstance(v, Ref):
            o = I.obj(st, v)
            k = 'list' if isinstance(o, HList) else 'dict' if isinstance(o, HDict) else 'object'
            return [(K(n == k), st)]
        if isinstance(v, Tup):
            return [(K(n == 'tuple'), st)]
        if isinstance(v, ExcV):
            return [(K(I.exc_matches(v, c)), st)]
        if isinstance(v, (Cls, Fn, Bound, Mod, EnumM)):
            return [(K(n in ('type',) and isinstance(v, Cls)), st)]
        if isinstance(v, T):
            return [(K(b), x) for b, x in I.split(T('isinst', v, K(n)), st, default=n in ('list', 'dict'))]
    return [(K(b), x) for b, x in I.split(T('isinst', I.as_term(v), K(repr(c))), st)]


def b_getattr(I, a, kw, st, node):
    n = a[1]
    if isinstance(n, K) and isinstance(n.v, str):
        old = I.sink
        I.sink = []
        try:
            res = I.get_attr(a[0], n.v, st, node)
            exc = I.sink
        finally:
            I.sink = old
        for e, x in exc:
            if len(a) > 2 and isinstance(e, ExcV) and isinstance(e.cls, Ext) and e.cls.name == 'AttributeError':
                res.append((a[2], x))
            else:
                I.sink.append((e, x))
        return res
    st.event('getattr-dyn', a[0], n, I.where(node))
    return [(T('attrdyn', I.as_term(a[0]), I.as_term(n)), st)]


def b_hasattr(I, a, kw, st, node):
    n = a[1]
    if isinstance(n, K):
        old = I.sink
        I.sink = []
        try:
            res = I.get_attr(a[0], n.v, st, node)
            exc = I.sink
        finally:
            I.sink = old
        return [(TRUE, x) for _, x in res] + [(FALSE, x) for _, x in exc]
    return [(K(b), x) for b, x in I.split(T('hasattr', I.as_term(a[0]), I.as_term(n)), st)]


def b_setattr(I, a, kw, st, node):
    n = a[1]
    if isinstance(n, K):
        return [(NONE, x) for x in I.set_attr(a[0], n.v, a[2], st, node)]
    st.event('attr-write', a[0], n, a[2], I.where(node))
    return [(NONE, st)]


def b_type(I, a, kw, st, node):
    from .interp import HInst, HList, HDict
    v = a[0]
    if isinstance(v, Ref):
        o = I.obj(st, v)
        if isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
            return [(Cls(o.cls), st)]
        return [(Ext('list' if isinstance(o, HList) else 'dict'), st)]
    if isinstance(v, K):
        return [(Ext(type(v.v).__name__), st)]
    if isinstance(v, Tup):
        return [(Ext('tuple'), st)]
    if isinstance(v, ExcV):
        return [(v.cls, st)]
    return [(T('type', I.as_term(v)), st)]


def b_list(I, a, kw, st, node):
    if not a:
        return [(I.new_list(st), st)]
    v = a[0]
    if isinstance(v, T) and v.op not in ('rangek',):
        return [(T('list', v) if v.op not in ('list', 'sorted', 'split') else v, st)]
    return [(I.new_list(x, it), x) for it, x in I.iterate(v, st, node)]


def b_set(I, a, kw, st, node):
    return [(unordered(I, v, x), x) for v, x in b_list(I, a, kw, st, node)]


def unordered(I, v, st):
    '''a set of constants: each once, in the order of the run'''
    from .interp import HList
    o = I.obj(st, v) if isinstance(v, Ref) else None
    if isinstance(o, HList) and all(isinstance(x, (K, Tup)) for x in o.items):
        st.heap[v.addr] = HList((I.order or list)(list(dict.fromkeys(o.items))))
    return v


def b_tuple(I, a, kw, st, node):
    if not a:
        return [(Tup(), st)]
    v = a[0]
    out = []
    for it, x in I.iterate(v, st, node):
        if any(isinstance(i, Star) for i in it):
            out.append((I.new_list(x, it), x))
        else:
            out.append((Tup(*it), x))
    return out


def b_dict(I, a, kw, st, node):
    from .interp import HDict
    items = {}
    op = False
    if a:
        v = a[0]
        if isinstance(v, Ref) and isinstance(I.obj(st, v), HDict):
            o = I.obj(st, v)
            items.update(o.items)
            op = o.open
        elif isinstance(v, Ref):
            for x in I.obj(st, v).items:
                t = x.v if isinstance(x, Star) else x
                if isinstance(t, Tup) and len(t.items) == 2:
                    items[t.items[0]] = t.items[1]
        elif isinstance(v, K) and v.v is None:
            I.raise_builtin('TypeError', st)
            return []
        else:
            op = True
            items[K('\0src')] = I.as_term(v)
            r = I.new(st, HDict({}, True))
            for k, w in kw.items():
                st.heap[r.addr].items[K(k)] = w
            st.event('dict-copy', r, v, I.where(node))
            return [(T('dictcopy', I.as_term(v)) if not kw and isinstance(v, T) else r, st)]
    for k, v in kw.items():
        if k == '**':
            op = True
        else:
            items[K(k)] = v
    return [(I.new(st, HDict(items, op)), st)]


def plain(v):
    """the Python value of a constant or a tuple of constants"""
    if isinstance(v, K):
        return (v.v,)
    if isinstance(v, Tup):
        r = [plain(x) for x in v.items]
        return (tuple(x[0] for x in r),) if all(r) else ()
    return ()


def ordered(I, items, kw, st, node):
    """[(items in order, state)] when the keys are constants, else None"""
    key = kw.get('key')
    keys, x = [], st
    if not isinstance(kw.get('reverse', FALSE), K):
        return None
    for it in items:
        if isinstance(it, Star):
            return None
        if key is None or key is NONE:
            k = it
        else:
            rs = I.call(key, [it], {}, x, node)
            if len(rs) != 1:
                return None
            k, x = rs[0]
        p = plain(k)
        if not p:
            return None
        keys.append(p[0])
    try:
        ix = sorted(range(len(items)), key=lambda i: keys[i], reverse=bool(kw.get('reverse', FALSE).v))
    except TypeError:
        return None
    return [items[i] for i in ix], x


def b_sorted(I, a, kw, st, node):
    from .interp import HList
    v = a[0]
    st.event('sorted', v, kw.get('key'), I.where(node))
    if isinstance(v, Ref):
        o = I.obj(st, v)
        if isinstance(o, HList):
            it = list(o.items)
            res = ordered(I, it, kw, st, node)
            if res:
                it, st = res
            return [(I.new_list(st, it), st)]
        return [(I.new_list(st, list(o.items)), st)]
    if isinstance(v, Tup):
        res = ordered(I, list(v.items), kw, st, node)
        if res:
            return [(I.new_list(res[1], res[0]), res[1])]
        return [(I.new_list(st, v.items), st)]
    if isinstance(v, T):
        if kw.get('key') is not None and not isinstance(kw['key'], K):
            return [(T('sorted', v, I.as_term(kw['key']), kw['reverse'] if isinstance(kw.get('reverse'), K) else NONE),
                     st)]
        return [(T('sorted', v), st)]
    return [(T('sorted', I.as_term(v)), st)]


def b_reversed(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, Ref) and hasattr(I.obj(st, v), 'items') and isinstance(I.obj(st, v).items, tuple):
        return [(I.new_list(st, reversed(I.obj(st, v).items)), st)]
    if isinstance(v, Tup):
        return [(I.new_list(st, reversed(v.items)), st)]
    if isinstance(v, T) and v.op == 'rangek':
        return [(I.new_list(st, [K(i) for i in reversed(range(*[x.v for x in v.args]))]), st)]
    return [(T('reversed', I.as_term(v)), st)]


def b_enumerate(I, a, kw, st, node):
    v = a[0]
    start = a[1] if len(a) > 1 else kw.get('start', K(0))
    out = []
    for it, x in I.iterate(v, st, node):
        res = []
        i = start.v if isinstance(start, K) else None
        for el in it:
            if isinstance(el, Star):
                res.append(Star(Tup(T('index', I.as_term(I.star_key(el))), el.v)))
                i = None
            else:
                res.append(Tup(K(i) if i is not None else T('index', I.as_term(el)), el))
            if i is not None:
                i += 1
        out.append((I.new_list(x, res), x))
    return out


def b_zip(I, a, kw, st, node):
    cols = []
    x = st
    for v in a:
        r = I.iterate(v, x, node)
        if not r:
            return []
        it, x = r[0]
        cols.append(it)
    if all(not any(isinstance(e, Star) for e in c) for c in cols):
        return [(I.new_list(x, [Tup(*row) for row in zip(*cols)]), x)]
    firsts = []
    for c in cols:
        if not c:
            return [(I.new_list(x, []), x)]
        e = next((e for e in c if isinstance(e, Star)), c[0])
        firsts.append(e.v if isinstance(e, Star) else e)
    return [(I.new_list(x, [Star(Tup(*firsts))]), x)]


def b_map(I, a, kw, st, node):
    f = a[0]
    out = []
    for it, x in I.iterate(a[1], st, node):
        pend = [([], x)]
        for el in it:
            nxt = []
            for acc, y in pend:
                v = el.v if isinstance(el, Star) else el
                for r, z in I.call(f, [v], {}, y, node):
                    nxt.append((acc + [Star(r) if isinstance(el, Star) else r], z))
            pend = nxt
        out.extend((I.new_list(y, acc), y) for acc, y in pend)
    return out


def b_filter(I, a, kw, st, node):
    out = []
    for it, x in I.iterate(a[1], st, node):
        pend = [([], x)]
        for el in it:
            nxt = []
            for acc, y in pend:
                v = el.v if isinstance(el, Star) else el
                rs = [(v, y)] if a[0] is NONE else I.call(a[0], [v], {}, y, node)
                for r, z in rs:
                    for b, w in I.truth(r, z):
                        nxt.append((acc + [el] if b else acc, w))
            pend = nxt
        out.extend((I.new_list(y, acc), y) for acc, y in pend)
    return out


def b_anyall(isany):
    def f(I, a, kw, st, node):
        out = []
        for it, x in I.iterate(a[0], st, node):
            pend = [x]
            for el in it:
                nxt = []
                for y in pend:
                    v = el.v if isinstance(el, Star) else el
                    for b, z in I.truth(v, y):
                        if b == isany:
                            out.append((K(isany), z))
                        else:
                            nxt.append(z)
                pend = nxt
            out.extend((K(not isany), y) for y in pend)
        return out
    return f


def b_next(I, a, kw, st, node):
    from .interp import HList
    v = a[0]
    t = T('next', I.as_term(v) if not isinstance(v, Ref) else T('ref', v), K(len([1])))
    if isinstance(v, Ref):
        it = I.obj(st, v).items if hasattr(I.obj(st, v), 'items') else ()
        if it:
            e = it[0]
            out = []
            if isinstance(e, Star):
                for b, x in I.split(T('nonempty', I.star_key(e)), st):
                    if b:
                        out.append((e.v, x))
                    elif len(a) > 1:
                        out.append((a[1], x))
                    else:
                        I.raise_builtin('StopIteration', x)
                return out
            if I.eager_gen:
                I.set_obj(st, v, HList(it[1:]), node, 'next')
            return [(e, st)]
        if len(a) > 1:
            return [(a[1], st)]
        I.raise_builtin('StopIteration', st)
        return []
    out = [(M.elem_of(I.as_term(v)), st)]
    if len(a) > 1:
        out.append((a[1], st.fork()))
    return out


def b_print(I, a, kw, st, node):
    return [(NONE, st)]


def b_bool(I, a, kw, st, node):
    if not a:
        return [(FALSE, st)]
    return [(K(b), x) for b, x in I.truth(a[0], st)]


def b_minmax(which):
    def f(I, a, kw, st, node):
        it = None
        if len(a) > 1:
            it = list(a)
        elif len(a) == 1 and isinstance(a[0], Ref):
            it = getattr(I.obj(st, a[0]), 'items', ())
            it = list(it)
        elif len(a) == 1 and isinstance(a[0], Tup):
            it = list(a[0].items)
        if it is not None and not it:
            if 'default' in kw:
                return [(kw['default'], st)]
            I.raise_builtin('ValueError', st)
            return []
        if it is not None:
            res = ordered(I, it, {'key': kw.get('key', NONE), 'reverse': K(which == 'max')}, st, node)
            if res:
                return [(res[0][0], res[1])]
            if len(a) == 1 and isinstance(a[0], Ref):
                return [(T(which, T('ref', a[0])), st)]
        return [(T(which, *[I.as_term(x) for x in a]), st)]
    return f


def b_open(I, a, kw, st, node):
    path = path_arg(I, a[0], st)
    mode = a[1] if len(a) > 1 else kw.get('mode', K('r'))
    enc = a[3] if len(a) > 3 else kw.get('encoding', NONE)
    return M.open_file(I, path, mode, enc, st, node)


def b_import(I, a, kw, st, node):
    n = a[0]
    if isinstance(n, K):
        root = n.v.split('.')[0]
        if root in I.mods:
            if n.v not in I.mods:
                I.raise_builtin('ImportError', st)
                return []
            return [(Mod(root), st)]
    return [(T('module', I.as_term(n)), st)]


def b_callable(I, a, kw, st, node):
    return [(K(isinstance(a[0], (Fn, Bound, Cls))), st)]


def b_bytes(I, a, kw, st, node):
    if not a:
        return [(K(b''), st)]
    if len(a) == 2 or 'encoding' in kw:
        enc = a[1] if len(a) == 2 else kw['encoding']
        return [(T('encode', I.as_term(a[0]), I.as_term(enc)), st)]
    if all(isinstance(x, K) for x in a):
        return [(K(bytes(*[x.v for x in a])), st)]
    return NotImplemented


# ------------------------------------------------------------------------------ os / shutil
def p_join(I, a, kw, st, node):
    ps = [path_arg(I, x, st) for x in a]
    if any(p is NONE for p in ps):
        st.event('none-deref', 'path', I.where(node))
        I.raise_builtin('TypeError', st)
        return []
    if len(ps) > 1 and ps[-1] is K(''):
        return [(cat([join(ps), K('/')]), st)]
    return [(join(ps), st)]


def p_norm(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    if p is NONE:
        st.event('none-deref', 'path', I.where(node))
        I.raise_builtin('TypeError', st)
        return []
    return [(join([p]), st)]


def p_abs(I, a, kw, st, node):
    return p_norm(I, a, kw, st, node)


def p_base(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    c = comps(join([p]))
    if c and (isinstance(p, T) and p.op == 'join' or isinstance(p, K)):
        return [(c[-1], st)]
    return [(T('basename', p), st)]


def p_dir(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    c = comps(join([p]))
    if isinstance(p, T) and p.op == 'join' or isinstance(p, K):
        return [(join(list(c[:-1])) if len(c) > 1 else EMPTY, st)]
    return [(T('dirname', p), st)]


def p_split(I, a, kw, st, node):
    b, x = p_base(I, a, kw, st, node)[0]
    d, x = p_dir(I, a, kw, x, node)[0]
    return [(Tup(d, b), x)]


def p_splitext(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    if isinstance(p, K):
        import os
        return [(Tup(*[K(x) for x in os.path.splitext(p.v)]), st)]
    last = comps(p)[-1] if comps(p) else p
    if isinstance(last, T) and last.op == 'cat' and isinstance(last.args[-1], K) and '.' in last.args[-1].v[1:] + \
            ('' if len(last.args) == 1 else last.args[-1].v[:1]):
        s = last.args[-1].v
        i = s.rindex('.')
        base = cat(list(last.args[:-1]) + [K(s[:i])])
        return [(Tup(join(list(comps(p)[:-1]) + [base]), K(s[i:])), st)]
    return [(Tup(T('splitext', p, K(0)), T('splitext', p, K(1))), st)]


def p_test(op):
    def f(I, a, kw, st, node):
        p = join([path_arg(I, a[0], st)])
        st.event('test', op, p, I.where(node))
        return [(K(b), x) for b, x in I.split(T(op, p), st)]
    return f


def p_getsize(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    return [(T('size', p), x) for _, x in M.need_file(I, p, st, node, 'size')]


def p_commonpath(I, a, kw, st, node):
    if len(a) == 1 and isinstance(a[0], (Ref, Tup)):
        items = list(a[0].items if isinstance(a[0], Tup) else getattr(I.obj(st, a[0]), 'items', ()))
        ps = [comps(join([path_arg(I, x, st)])) for x in items if not isinstance(x, Star)]
        if len(ps) == len(items) and ps:
            n = 0
            while all(len(p) > n for p in ps) and all(p[n] == ps[0][n] for p in ps):
                n += 1
            rest = [M.tail(p[n:]) for p in ps]
            if n and (all(x is not None for x in rest) or any(x == '' for x in rest)):
                return [(join(list(ps[0][:n])), st)]
    return NotImplemented


def p_relpath(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    if len(a) > 1:
        b = join([path_arg(I, a[1], st)])
        r = under(p, b)
        if r is not None:
            return [(K(M.tail(r)) if r and M.tail(r) is not None else join(list(r)) if r else K('.'), st)]
        x, y = comps(p), comps(b)
        n = 0
        while n < len(x) and n < len(y) and x[n] == y[n]:
            n += 1
        if n and M.tail(y[n:]) is not None and (n == len(x) or M.tail(x[n:n + 1]) is not None):
            up = [K('..')] * (len(y) - n)
            if M.tail(x[n:]) is not None:
                return [(K('/'.join([u.v for u in up] + ([M.tail(x[n:])] if x[n:] else []))), st)]
            return [(join(up + list(x[n:])), st)]
    return [(T('relpath', *[I.as_term(x) for x in a]), st)]


def p_normcase(I, a, kw, st, node):
    return [(a[0], st)]


def o_makedirs(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    st.dirs = st.dirs | {p}
    st.event('mkdir', p, I.where(node))
    return [(NONE, st)]


def o_remove(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    st.event('delete', p, 'file', I.where(node))
    st.fs.pop(p, None)
    return [(NONE, st)]


def o_rename(I, a, kw, st, node):
    p, q = join([path_arg(I, a[0], st)]), join([path_arg(I, a[1], st)])
    st.event('delete', p, 'file', I.where(node))
    st.event('create', q, 'rename', I.where(node))
    if st.fs.get(q, ('empty',))[0] != 'empty':
        st.event('overwrite', q, I.where(node))
    e = st.fs.pop(p, None)
    st.fs[q] = e if e is not None else ('bin', T('bytes', p))
    return [(NONE, st)]


def o_rmtree(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    st.event('delete', p, 'tree', I.where(node))
    for q in list(st.fs):
        if under(q, p) is not None:
            del st.fs[q]
    st.dirs = frozenset(d for d in st.dirs if under(d, p) is None)
    return [(NONE, st)]


def o_listdir(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)]) if a else K('.')
    st.event('listdir', p, I.where(node))
    if p in I.listings:
        return [(I.new_list(st, [K(x) for x in (I.order or list)(I.listings[p])]), st)]
    if M.root_kind(I, p) == 'virtual':
        names = []
        for q in list(st.fs) + list(st.dirs):
            r = under(q, p)
            if r and r[0] not in names:
                names.append(r[0])
        return [(I.new_list(st, (I.order or list)(names)), st)]
    if I.catchable('FileNotFoundError'):
        out = []
        for b, x in I.split(T('isdir', p), st):
            if b:
                out.append((T('listdir', p), x))
            else:
                I.raise_(ExcV(Ext('FileNotFoundError'), p), x)
        return out
    return [(T('listdir', p), st)]


def o_walk(I, a, kw, st, node):
    p = join([path_arg(I, a[0], st)])
    st.event('listdir', p, I.where(node))
    return [(I.new_list(st, [Star(Tup(T('walkroot', p), T('walkdirs', p), T('listdir', T('walkroot', p))))]), st)]


def s_copy(I, a, kw, st, node):
    src = join([path_arg(I, a[0], st)])
    dst = join([path_arg(I, a[1], st)])
    out = []
    for _, x in M.need_file(I, src, st, node, 'copy'):
        d = dst
        if M.path_kinds(I, d, x) == frozenset(('dir',)):
            d = join(list(comps(d)) + [comps(src)[-1]])
        e = x.fs.get(src)
        if e is None:
            e = ('bin', T('bytes', src))
        if x.fs.get(d, ('empty',))[0] != 'empty':
            x.event('overwrite', d, I.where(node))
        x.event('create', d, 'copy', I.where(node))
        x.event('copy', src, d, I.where(node))
        x.fs[d] = e
        out.append((d, x))
    return out


def s_copytree(I, a, kw, st, node):
    src = join([path_arg(I, a[0], st)])
    dst = join([path_arg(I, a[1], st)])
    st.event('create', dst, 'copytree', I.where(node))
    st.event('read', src, 'copytree', I.where(node))
    st.dirs = st.dirs | {dst}
    if M.root_kind(I, src) == 'virtual':
        for q, v in list(st.fs.items()):
            r = under(q, src)
            if r:
                st.fs[join(list(comps(dst)) + list(r))] = v
    else:
        st.fs[join(list(comps(dst)) + [T('treeof', src)])] = ('bin', T('bytes', src))
    return [(dst, st)]


def s_archive(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    fmt = a[1] if len(a) > 1 else kw.get('format')
    if isinstance(fmt, K) and isinstance(fmt.v, str):
        c = list(comps(p))
        p = join(c[:-1] + [cat([c[-1], K('.' + fmt.v)])]) if c else p
    root = a[2] if len(a) > 2 else kw.get('root_dir')
    st.event('create', p, 'archive', I.where(node))
    if root is not None and root is not NONE:
        root = path_arg(I, root, st)
        st.event('read', root, 'archive', I.where(node))
    st.event('archive', p, root, I.where(node))
    return [(p, st)]


def s_unarchive(I, a, kw, st, node):
    p = path_arg(I, a[0], st)
    dest = a[1] if len(a) > 1 else kw.get('extract_dir')
    st.event('read', p, 'unarchive', I.where(node))
    if dest is not None and dest is not NONE:
        dest = path_arg(I, dest, st)
        st.event('create', join(list(comps(dest)) + [T('treeof', p)]), 'unarchive', I.where(node))
    st.event('unarchive', p, dest, I.where(node))
    return [(NONE, st)]


def t_mkdtemp(I, a, kw, st, node):
    t = T('tmpdir', K(I.where(node).split(' ')[-1]))
    st.event('acquire-dir', t, I.where(node))
    return [(t, st)]


def t_tempfile(I, a, kw, st, node):
    h = I.new(st, M.HInst_('tempfile', dict(closed=FALSE)))
    st.event('acquire', h, I.where(node))
    return [(h, st)]


def j_load(I, a, kw, st, node):
    from .interp import HInst
    f = a[0]
    if isinstance(f, Ref) and isinstance(I.obj(st, f), HInst) and I.obj(st, f).cls == 'file':
        o = I.obj(st, f)
        p = o.attrs['path']
        if not isinstance(p, T):
            p = I.as_term(p)
        return [(M.json_load(I, p, o.attrs['enc'], st, node), st)]
    return [(T('json', I.as_term(f) if not isinstance(f, Ref) else T('ref', f)), st)]


def j_loads(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, T) and v.op == 'jsons':
        return [(I.thaw(I.frozen[v.args[0].v], st), st)]
    return [(T('json', I.as_term(v)), st)]


def j_dump(I, a, kw, st, node):
    from .interp import HInst
    fz = I.freeze(a[0], st, True)
    f = a[1]
    if isinstance(f, Ref) and isinstance(I.obj(st, f), HInst) and I.obj(st, f).cls == 'file':
        o = I.obj(st, f)
        st.fs[o.attrs['path']] = ('json', fz, o.attrs['enc'])
        st.event('write', o.attrs['path'], fz, I.where(node))
    return [(NONE, st)]


def j_dumps(I, a, kw, st, node):
    fz = I.freeze(a[0], st, True)
    n = len(I.frozen)
    I.frozen[n] = fz
    return [(T('jsons', K(n)), st)]


def x_b64enc(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, T) and v.op == 'b64dec':
        pass
    return [(T('b64enc', I.as_term(v)), st)]


def x_b64dec(I, a, kw, st, node):
    v = I.as_term(a[0])
    return [(T('b64dec', v), st)]


def x_uuid4(I, a, kw, st, node):
    return [(T('uuid4'), st)]


def x_uuid(I, a, kw, st, node):
    v = I.as_term(a[0]) if a else NONE
    if I.catchable('ValueError'):
        out = []
        for b, x in I.split(T('isuuid', v), st):
            if b:
                out.append((T('uuidobj', v), x))
            else:
                I.raise_(ExcV(Ext('ValueError'), v), x)
        return out
    return [(T('uuidobj', v), st)]


def x_compile(I, a, kw, st, node):
    return [(T('regex', *[I.as_term(x) for x in a]), st)]


def x_sub(I, a, kw, st, node):
    return [(T('sub', a[0] if isinstance(a[0], K) else I.as_term(a[0]), I.as_term(a[1]), I.as_term(a[2])), st)]


def x_deepcopy(I, a, kw, st, node):
    v = a[0]
    if isinstance(v, Ref):
        return [(I.thaw_copy(I.freeze(v, st), st), st)]
    if isinstance(v, T) and v.op in ('brace', 'idx', 'json', 'elem'):
        fz = I.freeze(v, st)
        if fz is v:
            return [(T('copy', v), st)]
        return [(T('copy', v), st)]
    return [(v, st)]


def x_pool(I, a, kw, st, node):
    h = I.new(st, M.HInst_('pool', dict(closed=FALSE)))
    st.event('acquire-pool', h, tuple(a), tuple(sorted(kw.items())), I.where(node))
    return [(h, st)]


def x_cpu(I, a, kw, st, node):
    return [(T('cpu'), st)]


def x_tqdm(I, a, kw, st, node):
    if a:
        return [(a[0], st)]
    if 'iterable' in kw:
        return [(kw['iterable'], st)]
    return [(I.new(st, M.HInst_('pbar', {})), st)]


def x_partial(I, a, kw, st, node):
    return [(I.new(st, M.HInst_('partial', dict(fn=a[0], args=Tup(*a[1:]), kw=FD(*[tuple(kw.items())])))), st)]


def x_calcsize(I, a, kw, st, node):
    import struct
    if a and isinstance(a[0], K):
        try:
            return [(K(struct.calcsize(a[0].v)), st)]
        except struct.error:
            pass
    return NotImplemented


def b_iter(I, a, kw, st, node):
    """iter(f, sentinel): f is called until it returns the sentinel"""
    if len(a) == 1:
        return [(a[0], st)]
    out = []
    pend = [([], st)]
    for i in range(I.MAX_WHILE + 1):
        nxt = []
        for items, x in pend:
            for v, y in I.call(a[0], [], {}, x, node):
                e = I.equal(v, a[1], y)
                for b, z in ([(e.v, y)] if isinstance(e, K) else I.split(e, y, default=False if not items else True)):
                    if b:
                        out.append((I.new_list(z, items), z))
                    elif i == I.MAX_WHILE:
                        I.stats['cut'] += 1
                    else:
                        nxt.append((items + [v], z))
        pend = nxt
    return out


def s_copyfileobj(I, a, kw, st, node):
    if I.streams is not None:
        r = I.streams(I, a[0], 'read', [], {}, st, node)
        if r is not None:
            out = []
            for v, x in r:
                for _, y in method(I, a[1], 'write', [v], {}, x, node):
                    out.append((NONE, y))
            return out
    st.event('opaque', 'shutil.copyfileobj', tuple(I.as_term(x) for x in a), (), I.where(node))
    return [(NONE, st)]


def x_bytesio(I, a, kw, st, node):
    if I.streams is None or a:
        return [(T('call', K('io.BytesIO'), *[I.as_term(I.freeze(x, st)) if isinstance(x, Ref) else I.as_term(x)
                                              for x in a]), st)]
    return [(I.new(st, M.HInst_('tempfile', dict(closed=FALSE, memory=TRUE))), st)]


def x_pack(I, a, kw, st, node):
    if all(isinstance(x, K) for x in a):
        import struct
        try:
            return [(K(struct.pack(a[0].v, *[x.v for x in a[1:]])), st)]
        except Exception:
            pass
    return [(T('pack', *[I.as_term(x) for x in a]), st)]


def x_unpack(I, a, kw, st, node):
    return [(T('unpack', *[I.as_term(x) for x in a]), st)]


def x_namedtuple(I, a, kw, st, node):
    return [(T('ntclass', *[I.as_term(I.freeze(x, st)) if isinstance(x, Ref) else I.as_term(x) for x in a]), st)]


def x_odict(I, a, kw, st, node):
    return b_dict(I, a, kw, st, node)


def x_exit(I, a, kw, st, node):
    I.raise_(ExcV(Ext('SystemExit'), *(a or [NONE])), st)
    return []


def x_sleep(I, a, kw, st, node):
    return [(NONE, st)]


def x_starmap_none(I, a, kw, st, node):
    return [(NONE, st)]


def x_ceil(I, a, kw, st, node):
    import math
    if isinstance(a[0], K):
        return [(K(math.ceil(a[0].v)), st)]
    return [(T('ceil', I.as_term(a[0])), st)]


TABLE = {
    'len': b_len, 'int': b_int, 'str': b_str, 'range': b_range, 'isinstance': b_isinstance, 'getattr': b_getattr,
    'hasattr': b_hasattr, 'setattr': b_setattr, 'type': b_type, 'list': b_list, 'set': b_set, 'frozenset': b_set,
    'tuple': b_tuple, 'dict': b_dict, 'sorted': b_sorted, 'reversed': b_reversed, 'enumerate': b_enumerate,
    'iter': b_iter, 'zip': b_zip, 'map': b_map, 'filter': b_filter, 'any': b_anyall(True), 'all': b_anyall(False), 'next': b_next,
    'print': b_print, 'bool': b_bool, 'min': b_minmax('min'), 'max': b_minmax('max'), 'open': b_open,
    'io.open': b_open, 'codecs.open': b_open,
    '__import__': b_import, 'importlib.import_module': b_import, 'callable': b_callable, 'bytes': b_bytes,
    'path.join': p_join, 'path.normpath': p_norm, 'path.abspath': p_abs, 'path.realpath': p_abs,
    'path.basename': p_base, 'path.dirname': p_dir, 'path.split': p_split, 'path.splitext': p_splitext,
    'path.exists': p_test('exists'), 'path.isfile': p_test('isfile'), 'path.isdir': p_test('isdir'),
    'path.getsize': p_getsize, 'path.relpath': p_relpath, 'path.commonpath': p_commonpath, 'path.normcase': p_normcase,
    'os.makedirs': o_makedirs, 'os.mkdir': o_makedirs, 'os.remove': o_remove, 'os.unlink': o_remove,
    'os.rename': o_rename, 'os.replace': o_rename, 'shutil.rmtree': o_rmtree, 'shutil.move': o_rename,
    'os.listdir': o_listdir, 'os.walk': o_walk, 'shutil.copy': s_copy, 'shutil.copy2': s_copy,
    'shutil.copyfile': s_copy, 'shutil.copytree': s_copytree, 'shutil.make_archive': s_archive,
    'shutil.unpack_archive': s_unarchive, 'shutil.copyfileobj': s_copyfileobj, 'io.BytesIO': x_bytesio, 'tempfile.mkdtemp': t_mkdtemp, 'tempfile.TemporaryFile': t_tempfile,
    'json.load': j_load, 'json.loads': j_loads, 'json.dump': j_dump, 'json.dumps': j_dumps,
    'base64.b64encode': x_b64enc, 'base64.b64decode': x_b64dec, 'uuid.uuid4': x_uuid4, 'uuid.UUID': x_uuid,
    're.compile': x_compile, 're.sub': x_sub, 'copy.deepcopy': x_deepcopy, 'copy.copy': x_deepcopy,
    'multiprocessing.Pool': x_pool, 'multiprocessing.cpu_count': x_cpu, 'os.cpu_count': x_cpu,
    'tqdm': x_tqdm, 'tqdm.tqdm': x_tqdm, 'auto.tqdm': x_tqdm, 'functools.partial': x_partial,
    'struct.calcsize': x_calcsize, 'struct.pack': x_pack, 'struct.unpack': x_unpack,
    'collections.namedtuple': x_namedtuple, 'collections.OrderedDict': x_odict, 'sys.exit': x_exit, 'exit': x_exit,
    'time.sleep': x_sleep, 'multiprocessing.freeze_support': x_sleep, 'math.ceil': x_ceil,
}


# ------------------------------------------------------------------------------ methods
def method(I, recv, name, args, kwargs, st, node):
    from .interp import HList, HDict, HInst
    args = [M.resolve(a, st) if isinstance(a, T) else a for a in args]
    if isinstance(recv, T):
        recv = M.resolve(recv, st)
        text = const_path(recv)
        if text is not None:
            recv = K(text)
    if isinstance(recv, K):
        args = [K(const_path(a)) if const_path(a) is not None else a for a in args]
    if I.streams is not None:
        r = I.streams(I, recv, name, args, kwargs, st, node)
        if r is not None:
            return r
    if isinstance(recv, SuperV):
        return [(NONE, st)]
    if isinstance(recv, T) and recv.op == 'call' and str(recv.args[0]).strip("'") in (
            'zlib.compressobj', 'zlib.decompressobj') and name in ('compress', 'flush', 'decompress', 'copy'):
        return [(T('cm', K(name), recv, *[I.as_term(a) for a in args]), st)]
    if isinstance(recv, Ref):
        o = I.obj(st, recv)
        if isinstance(o, HList):
            return list_method(I, recv, o, name, args, kwargs, st, node)
        if isinstance(o, HDict):
            return dict_method(I, recv, o, name, args, kwargs, st, node)
        return lib_method(I, recv, o, name, args, kwargs, st, node)
    if isinstance(recv, K):
        return const_method(I, recv, name, args, kwargs, st, node)
    if isinstance(recv, Tup):
        if name == 'index' or name == 'count':
            return [(T(name, I.as_term(recv), I.as_term(args[0])), st)]
    if isinstance(recv, T):
        return term_method(I, recv, name, args, kwargs, st, node)
    return opaque_call(I, T('attr', I.as_term(recv), K(name)), args, kwargs, st, node)


def list_method(I, r, o, name, args, kw, st, node):
    from .interp import HList
    items = list(o.items)
    stars = any(isinstance(x, Star) for x in items)
    if name in ('append', 'add'):
        I.set_obj(st, r, HList(items + [args[0]]), node, name)
        return [(NONE, st)]
    if name in ('extend', 'update'):
        I.list_extend(r, args[0], st, node)
        return [(NONE, st)]
    if name == 'insert':
        if isinstance(args[0], K) and not stars:
            items.insert(args[0].v, args[1])
        else:
            items = items + [Star(args[1])]
        I.set_obj(st, r, HList(items), node, name)
        return [(NONE, st)]
    if name == 'pop':
        if not items:
            I.raise_builtin('IndexError', st)
            return []
        i = args[0] if args else K(-1)
        if isinstance(i, K) and not stars:
            try:
                v = items.pop(i.v)
            except IndexError:
                I.raise_builtin('IndexError', st)
                return []
            I.set_obj(st, r, HList(items), node, name)
            return [(v, st)]
        e = items[-1] if i is K(-1) else items[0]
        if not isinstance(e, Star):
            (items.pop(-1) if i is K(-1) else items.pop(0))
            I.set_obj(st, r, HList(items), node, name)
            return [(e, st)]
        I.set_obj(st, r, HList(items), node, name)
        return [(e.v, st)]
    if name == 'copy':
        return [(I.new_list(st, items), st)]
    if name == 'clear':
        I.set_obj(st, r, HList(()), node, name)
        return [(NONE, st)]
    if name in ('sort', 'reverse'):
        st.event('sort', r, I.where(node))
        if name == 'sort':
            res = ordered(I, list(items), kw, st, node)
            if res:
                items, st = res
        I.set_obj(st, r, HList(items if name == 'sort' else items[::-1]), node, name)
        return [(NONE, st)]
    if name == 'remove':
        if args[0] in items:
            items.remove(args[0])
            I.set_obj(st, r, HList(items), node, name)
        return [(NONE, st)]
    if name == 'index' and not stars and args[0] in items:
        return [(K(items.index(args[0])), st)]
    return [(T('lm', K(name), T('ref', r), *[I.as_term(a) for a in args]), st)]


def dict_method(I, r, o, name, args, kw, st, node):
    from .interp import HDict
    if name == 'get':
        return I.dict_get(r, o, args[0], st, node, missing='default', default=args[1] if len(args) > 1 else NONE)
    if name == 'pop':
        k = args[0]
        out = []
        if k in o.items:
            it = dict(o.items)
            v = it.pop(k)
            I.set_obj(st, r, HDict(it, o.open), node, 'pop')
            return [(v, st)]
        if len(args) > 1:
            res = I.dict_get(r, o, k, st, node, missing='default', default=args[1])
        else:
            res = I.dict_get(r, o, k, st, node)
        for v, x in res:
            x.event('dict-pop', r, k, I.where(node))
            if r.addr <= I.shared_limit:
                x.event('shared-write', r, 'pop', I.where(node))
            out.append((v, x))
        return out
    if name == 'setdefault':
        k = args[0]
        if k in o.items:
            return [(o.items[k], st)]
        v = args[1] if len(args) > 1 else NONE
        it = dict(o.items)
        it[k] = v
        I.set_obj(st, r, HDict(it, o.open), node, 'setdefault')
        return [(v, st)]
    if name == 'update':
        it = dict(o.items)
        op = o.open
        if args and isinstance(args[0], Ref) and isinstance(I.obj(st, args[0]), HDict):
            it.update(I.obj(st, args[0]).items)
            op = op or I.obj(st, args[0]).open
        elif args:
            op = True
        for k, v in kw.items():
            it[K(k)] = v
        I.set_obj(st, r, HDict(it, op), node, 'update')
        return [(NONE, st)]
    if name in ('items', 'keys', 'values'):
        res = []
        for k, v in o.items.items():
            res.append(Tup(k, v) if name == 'items' else k if name == 'keys' else v)
        if o.open:
            ref = T('ref', r)
            e = {'items': Tup(T('key', ref), T('idx', ref, T('key', ref))), 'keys': T('key', ref),
                 'values': T('idx', ref, T('key', ref))}[name]
            res.append(Star(e))
        return [(I.new_list(st, res), st)]
    if name == 'copy':
        return [(I.new(st, HDict(dict(o.items), o.open)), st)]
    if name == 'clear':
        I.set_obj(st, r, HDict({}), node, name)
        return [(NONE, st)]
    return [(T('dm', K(name), T('ref', r), *[I.as_term(a) for a in args]), st)]


def lib_method(I, r, o, name, args, kw, st, node):
    from .interp import HInst
    c = o.cls
    if c == 'file':
        if name == 'read':
            return M.read_file(I, r, args, st, node)
        if name == 'write':
            M.write_file(I, r, args[0], st, node)
            return [(NONE, st)]
        if name == 'writelines':
            M.write_file(I, r, args[0], st, node)
            return [(NONE, st)]
        if name in ('readline', 'readlines') and not args:
            known = M.known_lines(I, r, st, one=name == 'readline')
            if known is not None:
                return [((known[0] if known else K('')) if name == 'readline' else I.new_list(st, known), st)]
        if name == 'readline':
            return [(T('line', M.file_term(I, r, st)), st)]
        if name == 'readlines':
            return [(T('list', T('lines', M.file_term(I, r, st))), st)]
        if name == 'close':
            M.exit_context(I, r, st, node)
            return [(NONE, st)]
        if name in ('seek', 'tell', 'flush', 'truncate', 'fileno'):
            if o.attrs['closed'] is TRUE:
                st.event('use-closed', r, I.where(node))
            st.event('fileop', r, name, tuple(args), I.where(node))
            if name == 'seek':
                at = args[0] if len(args) < 2 or args[1] is K(0) else T('from', I.as_term(args[0]), I.as_term(args[1]))
                st.heap[r.addr] = HInst(c, {**o.attrs, 'pos': at})
            return [(T('fpos', T('ref', r)) if name in ('seek', 'tell') else NONE, st)]
    if c == 'tempfile':
        if o.attrs.get('closed') is TRUE and name != 'close':
            st.event('use-closed', r, I.where(node))
        if name == 'close':
            M.exit_context(I, r, st, node)
        st.event('fileop', r, name, tuple(args), I.where(node))
        return [(T('tempop', K(name), *[I.as_term(a) for a in args]), st)]
    if c == 'pool':
        st.event('pool', r, name, tuple(args), tuple(sorted(kw.items())), I.where(node))
        if o.attrs.get('closed') is TRUE and name.startswith(('imap', 'map', 'apply', 'starmap')):
            st.event('use-closed', r, I.where(node))
        if name in ('close', 'terminate'):
            st.heap[r.addr] = HInst(c, {**o.attrs, 'closed': TRUE})
            st.event('release', r, I.where(node))
            return [(NONE, st)]
        if name.startswith(('imap', 'map', 'starmap')):
            h = getattr(I, 'pool_hook', None)
            if h is not None:
                res = h(I, r, name, args, kw, st, node)
                if res is not None:
                    return res
            elems = None
            return [(T('workers', K(name), I.as_term(args[0]), I.as_term(args[1])), st)]
        if name.startswith('apply'):
            return [(T('worker', K(name), I.as_term(args[0])), st)]
        return [(NONE, st)]
    if c == 'pbar':
        return [(NONE, st)]
    return opaque_call(I, T('attr', T('ref', r), K(name)), args, kw, st, node)


SAFE_CONST = {'split', 'rsplit', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith', 'find',
              'rfind', 'replace', 'partition', 'rpartition', 'isdigit', 'isalnum', 'isnumeric', 'isalpha', 'count',
              'rjust', 'ljust', 'zfill', 'encode', 'decode', 'title', 'capitalize', 'splitlines', 'index', 'isidentifier',
              'hex', 'to_bytes', 'casefold', 'isspace', 'removeprefix', 'removesuffix', 'bit_length'}


def edits(I, st, t):
    """changes made to a list that is only known as a term"""
    out = []
    for loc, v in st.store.items():
        if loc.op == 'idx' and loc.args[0] is t:
            out.append(T('edit', loc.args[1], K('removed') if v is REMOVED else I.as_term(v)))
    return out


def const_method(I, k, name, args, kw, st, node):
    if k.v is None:
        st.event('none-deref', name, I.where(node))
        I.raise_(ExcV(Ext('AttributeError'), K(name)), st)
        return []
    if k.v == b'' and name == 'join' and I.streams is not None and isinstance(args[0], (Ref, Tup)):
        items = list(getattr(I.obj(st, args[0]), 'items', ())) if isinstance(args[0], Ref) else list(args[0].items)
        if not any(isinstance(x, Star) for x in items):
            return [(items[0] if len(items) == 1 else T('cat', *[I.as_term(x) for x in items]) if items else K(b''), st)]
    if isinstance(k.v, str) and name == 'join':
        v = args[0]
        items = None
        if isinstance(v, Ref):
            items = list(getattr(I.obj(st, v), 'items', ()))
        elif isinstance(v, Tup):
            items = list(v.items)
        if items is not None and not any(isinstance(x, Star) for x in items) and not isinstance(items, dict):
            parts = []
            for i, x in enumerate(items):
                if i:
                    parts.append(k)
                parts.append(M.to_str(I, x, st))
            return [(cat(parts), st)]
        if isinstance(v, T) and v.op == 'split' and v.args[1] is k:
            ed = edits(I, st, v)
            return [(T('joinstr', k, T('edited', v, *ed)) if ed else v.args[0], st)]
        if isinstance(v, Ref):
            return [(T('joinstr', k, I.as_term(I.freeze(v, st))), st)]
        return [(T('joinstr', k, I.as_term(v)), st)]
    if isinstance(k.v, str) and name == 'format':
        return format_method(I, k.v, args, kw, st)
    if name in SAFE_CONST and all(isinstance(a, K) for a in args) and all(isinstance(a, K) for a in kw.values()):
        try:
            r = getattr(k.v, name)(*[a.v for a in args], **{n: a.v for n, a in kw.items()})
        except AttributeError:
            I.raise_(ExcV(Ext('AttributeError'), K(name)), st)
            return []
        except Exception as err:
            I.raise_(ExcV(Ext(type(err).__name__), K(str(err))), st)
            return []
        if isinstance(r, list):
            return [(I.new_list(st, [K(x) for x in r]), st)]
        if isinstance(r, tuple):
            return [(Tup(*[K(x) for x in r]), st)]
        return [(K(r), st)]
    if name in ('startswith', 'endswith') and isinstance(args[0], T):
        return [(K(b), x) for b, x in I.split(T(name, k, args[0]), st)]
    if isinstance(k.v, (str, bytes, int)) and not hasattr(k.v, name):
        I.raise_(ExcV(Ext('AttributeError'), K(name)), st)
        return []
    return [(T('cm', K(name), k, *[I.as_term(a) for a in args]), st)]


def format_method(I, s, args, kw, st):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            if lit:
                parts.append(K(lit))
            if field is None:
                continue
            if field == '':
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            else:
                v = kw[field]
            parts.append(M.fmt_spec(v, K(spec)) if spec else M.to_str(I, v, st))
        return [(cat(parts), st)]
    except (IndexError, KeyError, ValueError):
        return [(T('fmt', K(s), *[I.as_term(a) for a in args]), st)]


def term_method(I, t, name, args, kw, st, node):
    from .interp import HDict
    if t.op == 'ref' and False:
        pass
    at = [a if isinstance(a, (T, K)) else I.as_term(a) for a in args]
    if name in ('startswith', 'endswith'):
        a = args[0]
        if isinstance(a, Tup):
            pend = [st]
            out = []
            for p in a.items:
                nxt = []
                for x in pend:
                    for b, y in I.split(T(name, t, I.as_term(p)), x):
                        if b:
                            out.append((TRUE, y))
                        else:
                            nxt.append(y)
                pend = nxt
            return out + [(FALSE, x) for x in pend]
        return [(K(b), x) for b, x in I.split(T(name, t, at[0]), st)]
    if name in ('isalnum', 'isdigit', 'isnumeric', 'isalpha', 'isdecimal', 'isspace'):
        return [(K(b), x) for b, x in I.split(T(name, t), st)]
    if name == 'encode':
        enc = args[0] if args else kw.get('encoding', K('utf-8'))
        return [(T('encode', t, I.as_term(enc)), st)]
    if name == 'decode':
        enc = args[0] if args else kw.get('encoding', K('utf-8'))
        return M.decode_read(I, t, I.as_term(enc), st, t)
    if name == 'split':
        sep = at[0] if at else NONE
        r = T('split', t, sep) if len(at) < 2 else T('split', t, sep, at[1])
        return [(r, st)]
    if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'casefold', 'rjust', 'ljust', 'zfill',
                'title', 'hex'):
        return [(T(name, t, *at), st)]
    if name == 'join':
        return [(T('joinstr', t, at[0]), st)]
    if name in ('find', 'rfind', 'index', 'count'):
        return [(T(name, t, *at), st)]
    if name in ('partition', 'rpartition'):
        return [(Tup(T('part', t, at[0], K(0)), T('part', t, at[0], K(1)), T('part', t, at[0], K(2))), st)]
    if name == 'format':
        return [(T('fmt', t, *at), st)]
    if name == 'sub' and t.op == 'regex':
        return [(T('sub', t.args[0], at[0], at[1]), st)]
    if name in ('fullmatch', 'match', 'search', 'findall', 'finditer') and t.op == 'regex':
        return [(T('rematch', K(name), t.args[0], *at), st)]
    if name == 'get':
        default = args[1] if len(args) > 1 else NONE
        out = []
        if T('idx', t, at[0]) in st.store:
            return [(st.store[T('idx', t, at[0])], st)]
        for b, x in I.split(T('haskey', t, at[0]), st):
            out.append((I.read_loc(t, at[0], x) if b else default, x))
        return out
    if name == 'pop':
        st.event('tree-del', t, at[0] if at else K(-1), I.where(node))
        k = at[0] if at else K(-1)
        if t.op == 'split':
            st.store[T('idx', t, T('del', k))] = REMOVED
            return [(I.read_loc(t, k, st), st)]
        if isinstance(k, K) and isinstance(k.v, str) and len(args) < 2 and I.catchable('KeyError'):
            out = []
            for b, x in I.split(T('hasidx', t, k), st):
                if b:
                    out.append((I.read_loc(t, k, x), x))
                else:
                    I.raise_(ExcV(Ext('KeyError'), k), x)
            return out
        if len(args) > 1:
            out = []
            for b, x in I.split(T('haskey', t, k), st):
                out.append((I.read_loc(t, k, x) if b else args[1], x))
            return out
        return [(I.read_loc(t, k, st), st)]
    if name in ('append', 'extend', 'insert', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse'):
        st.event('tree-mut', t, name, tuple(args), I.where(node))
        if name == 'append':
            st.store[T('idx', t, T('app', K(len([1 for l in st.store if l.op == 'idx' and l.args[0] is t
                                                and isinstance(l.args[1], T) and l.args[1].op == 'app']))))] = args[0]
        elif name == 'insert':
            st.store[T('idx', t, T('ins', at[0]))] = args[1]
        else:
            st.store[T('idx', t, T('mut', K(name)))] = args[0] if args else NONE
        return [(NONE, st)]
    if name == 'items':
        return [(T('items', t), st)]
    if name == 'keys':
        return [(T('keys', t), st)]
    if name == 'values':
        return [(T('values', t), st)]
    if name == 'copy':
        return [(T('copy', t), st)]
    if t.op == 'workers' and name in ('get', 'wait'):
        return [(t, st)]
    if t.op == 'worker':
        return [(t, st)]
    return opaque_call(I, T('attr', t, K(name)), args, kw, st, node)
