"""Models of the language's built-ins, the standard library and the file system used by the engine."""
import ast
import builtins
import codecs
import math

from .terms import (unslash, K, T, Ref, Cls, Fn, Bound, Mod, Ext, Tup, EnumM, ExcV, FD, FL, OV, Star,
                    NONE, TRUE, FALSE, EMPTY, cat, join, comps, under, subterms, const_path)
from .prog import ClassInfo

BOOL_OPS = {'eq', 'in', 'isinst', 'startswith', 'endswith', 'exists', 'isfile', 'isdir', 'lt', 'gt', 'le', 'ge',
            'nonempty', 'haskey', 'hasidx', 'truthy', 'isalnum', 'isdigit', 'isint', 'decodes', 'hasattr', 'okcall',
            'inenum', 'bigb64', 'match'}
TRUTHY_OPS = {'brace', 'enum', 'enumbyname', 'inst', 'uuid4', 'gen', 'pool', 'now', 'regex', 'pid'}
NONNULL_OPS = {'cat', 'join', 'slice', 'decode', 'encode', 'bytes', 'b64dec', 'b64s', 'b64enc', 'len', 'int', 'str',
               'brace', 'json', 'uuid4', 'strip', 'lower', 'sub', 'split', 'enum', 'enumbyname', 'list', 'sorted',
               'pack', 'replace', 'joinstr', 'bracetext', 'add', 'mul', 'concat', 'fmt', 'range', 'cpu', 'tmpdir',
               'elem_str', 'basename', 'dirname', 'listdir', 'splitext', 'misdecode', 'ord', 'chr', 'readbytes'}
STR_OPS = {'cat', 'join', 'decode', 'b64s', 'str', 'strip', 'lower', 'sub', 'replace', 'joinstr', 'bracetext', 'fmt',
           'basename', 'dirname', 'misdecode', 'elem_str', 'uuid4', 'quote', 'tmpdir', 'line', 'upper', 'chr'}
BYTES_OPS = {'bytes', 'encode', 'b64dec', 'b64enc', 'pack', 'readbytes'}
INT_OPS = {'len', 'int', 'find', 'size', 'add', 'mul', 'cpu', 'ord'}
LISTY_OPS = {'split', 'list', 'listdir', 'sorted', 'range', 'rangek'}
PURE = {'len', 'abs', 'min', 'max', 'sum', 'round', 'hex', 'bin', 'oct', 'ord', 'chr', 'repr', 'divmod', 'pow',
        'int', 'float', 'str', 'bool', 'bytes', 'hash'}
SMALL_ENUM = 12
BOMS = (codecs.BOM_UTF8, codecs.BOM_UTF16_LE, codecs.BOM_UTF16_BE, codecs.BOM_UTF32_LE, codecs.BOM_UTF32_BE)
ALIAS = {'codecs.BOM_UTF8': codecs.BOM_UTF8, 'codecs.BOM_UTF16_LE': codecs.BOM_UTF16_LE,
         'codecs.BOM_UTF16_BE': codecs.BOM_UTF16_BE, 'codecs.BOM_UTF32_LE': codecs.BOM_UTF32_LE,
         'codecs.BOM_UTF32_BE': codecs.BOM_UTF32_BE, 'os.sep': '/', 'os.linesep': '\n', 'os.SEEK_END': 2,
         'os.SEEK_SET': 0, 'os.SEEK_CUR': 1, 'sys.maxsize': 2 ** 63 - 1, 'os.extsep': '.', 'os.altsep': None,
         'os.path.sep': '/', 'zlib.MAX_WBITS': 15, 'os.pathsep': ':', 'io.DEFAULT_BUFFER_SIZE': 8192,
         'os.name': 'posix', 'io.SEEK_END': 2, 'io.SEEK_SET': 0}


def ext_value(name):
    if name in ALIAS:
        return K(ALIAS[name])
    return Ext(name)


# ----------------------------------------------------------------------------- helpers
def is_str(t):
    if isinstance(t, K):
        return isinstance(t.v, str)
    return isinstance(t, T) and (t.op in STR_OPS or t.op == 'slice' and is_str(t.args[0]))


def elem_of(t):
    while isinstance(t, T) and t.op in ('sorted', 'list', 'reversed', 'tuple', 'set', 'iter', 'tqdm'):
        t = t.args[0]
    if isinstance(t, T) and t.op == 'split':
        return T('elem_str', t)
    if isinstance(t, T) and t.op == 'enumerate':
        return Tup(T('index', t.args[0]), elem_of(t.args[0]))
    if isinstance(t, T) and t.op == 'zip':
        return Tup(*[elem_of(a) if isinstance(a, T) else T('elem', a) for a in t.args])
    if isinstance(t, T) and t.op == 'items':
        return Tup(T('key', t.args[0]), T('elem', T('values', t.args[0])))
    if isinstance(t, T) and t.op == 'listdir':
        return T('entry', t.args[0])
    return T('elem', t)


def to_str(I, v, st):
    v = resolve(v, st)
    if isinstance(v, K):
        return K(v.v if isinstance(v.v, str) else str(v.v))
    if isinstance(v, T):
        return v          # strings stay themselves; formatting of other values is injective enough here
    if isinstance(v, EnumM):
        return K('%s.%s' % (v.cls.name, v.name))
    if isinstance(v, Ref):
        return T('str', I.freeze(v, st) if not isinstance(I.freeze(v, st), (FD, FL, OV)) else T('ref', v))
    return T('str', I.as_term(v))


def fmt_spec(v, spec):
    if isinstance(v, K) and isinstance(spec, K):
        try:
            return K(format(v.v, spec.v))
        except (TypeError, ValueError):
            pass
    return T('fmt', v if isinstance(v, (T, K)) else T('val', K(repr(v))), spec)


def resolve(v, st):
    if isinstance(v, T):
        e = st.eqs.get(v)
        if e is not None:
            return e
    return v


def truthy_default(t):
    return True


# ----------------------------------------------------------------------------- facts
def default_truth(I, t, default):
    if t.op in ('exists', 'isfile', 'isdir'):
        return I.policy == 'present'
    if t.op in ('gt', 'lt', 'ge', 'le', 'bigb64'):
        return False
    return True


def tail(c):
    """the text of constant path components that do not climb, or None"""
    if all(isinstance(x, K) and isinstance(x.v, str) and x.v != '..' for x in c):
        return '/'.join(x.v for x in c)
    return None


def begins(a, p):
    """does path a begin with the text of path p (with or without a separator at its end)"""
    sep = ''
    if p is not unslash(p):
        p, sep = unslash(p), '/'
    x, y = comps(a), comps(p)
    n = 0
    while n < len(x) and n < len(y) and x[n] == y[n]:
        n += 1
    if not n:
        return None
    x, y = x[n:], y[n:]
    if not y:
        return bool(x) if sep else True
    x, y = tail(x), tail(y)
    if x is None or y is None:
        return None
    return x.startswith(y + sep)


def other_path(a, b):
    """two paths that differ in constant components only"""
    x, y = comps(a), comps(b)
    n = 0
    while n < len(x) and n < len(y) and x[n] == y[n]:
        n += 1
    return n > 0 and len(x) + len(y) > 2 * n and tail(x[n:]) is not None and tail(y[n:]) is not None


def derive(I, t, st):
    """truth of t implied by recorded facts, or None"""
    op = t.op
    if op in ('eq', 'truthy') and any(const_path(x) is not None for x in t.args):
        x = [const_path(x) if const_path(x) is not None else x.v if isinstance(x, K) else None for x in t.args]
        if op == 'truthy':
            return bool(x[0])
        if x[0] is not None and x[1] is not None:
            if op == 'eq':
                return x[0] == x[1]
    if op == 'truthy':
        x = t.args[0]
        if isinstance(x, K):
            return bool(x.v)
        if x in st.eqs:
            return bool(st.eqs[x].v)
        if isinstance(x, T) and x.op in TRUTHY_OPS:
            return True
        if x in I.virtual_roots or x in I.input_roots:
            return True
        if isinstance(x, T) and x.op == 'sub' and isinstance(x.args[1], K) and x.args[1].v:
            y = x.args[2]
            return st.facts.get(T('truthy', y), derive(I, T('truthy', y), st))
        if isinstance(x, T) and x.op == 'bytes' and any(not v and q.op == 'decodes' and q.args[0] is x
                                                        for q, v in st.facts.items()):
            return True
        # a string known to start with / equal something non-empty
        for p, b in st.facts.items():
            if b and p.op == 'startswith' and p.args[0] is x and isinstance(p.args[1], K) and p.args[1].v:
                return True
        if isinstance(x, T) and x.op == 'len':
            return derive(I, T('truthy', x.args[0]), st) if T('truthy', x.args[0]) not in st.facts \
                else st.facts[T('truthy', x.args[0])]
        if st.facts.get(T('nonempty', T('elem', x))) is not None:
            return st.facts[T('nonempty', T('elem', x))]
        return None
    if op == 'eq':
        a, b = t.args
        if isinstance(b, K) and isinstance(a, T):
            if a in st.eqs:
                return st.eqs[a] is b
            k = st.facts.get(T('truthy', a))
            if k is not None and bool(b.v) != k:
                return False
            for p, v in st.facts.items():
                if p.op == 'isinst' and p.args[0] is a and v:
                    if b.v is None or not _k_isinst(b, p.args[1].v):
                        return False
                if p.op == 'startswith' and p.args[0] is a and isinstance(p.args[1], K) and isinstance(b.v, str):
                    if v and not b.v.startswith(p.args[1].v):
                        return False
                    if not v and b.v.startswith(p.args[1].v):
                        return False
                if p.op == 'isint' and p.args[0] is a and v and isinstance(b.v, str):
                    try:
                        int(b.v)
                    except ValueError:
                        return False
            # int(x) == n  with x known
            if a.op == 'int' and a.args[0] in st.eqs:
                try:
                    return int(st.eqs[a.args[0]].v) == b.v
                except (TypeError, ValueError):
                    return False
            if b.v is None and a.op in NONNULL_OPS:
                return False
            if a.op == 'find' and b.v == -1 and isinstance(a.args[0], T) and a.args[0].op == 'cat' \
                    and isinstance(a.args[1], K) and any(isinstance(x, K) and a.args[1].v in x.v for x in a.args[0].args):
                return False
            if a.op == 'cat' and isinstance(b.v, str):
                r = _cat_vs_const(a, b.v)
                if r is not None:
                    return r
            if isinstance(b.v, str) and (a.op in BYTES_OPS or a.op in INT_OPS or a.op in LISTY_OPS
                                         or a.op == 'brace'):
                return False
        return None
    if op == 'isinst':
        a, n = t.args
        n = n.v
        if a in st.eqs:
            return _k_isinst(st.eqs[a], n)
        if isinstance(a, T):
            if is_str(a):
                return n == 'str'
            if a.op in BYTES_OPS:
                return n == 'bytes'
            if a.op in ('int', 'len', 'size'):
                return n in ('int',)
            if a.op in ('split', 'listdir', 'list', 'sorted', 'brace'):
                return n == 'list'
        for p, v in st.facts.items():
            if v and p.op == 'isinst' and p.args[0] is a and p.args[1].v != n:
                return False
            if v and p.op in ('startswith', 'endswith') and p.args[0] is a:
                return n == 'str'
            if v and p.op == 'hasidx' and p.args[0] is a and n in ('int',):
                return False
        # something below it was read as an element -> list
        for loc in st.store:
            if isinstance(loc, T) and loc.op == 'idx' and loc.args[0] is a and isinstance(loc.args[1], K):
                if isinstance(loc.args[1].v, int):
                    return n == 'list'
        return None
    if op == 'startswith':
        a, p = t.args
        if isinstance(p, K) and isinstance(p.v, bytes):
            b = a
            if isinstance(b, T) and b.op == 'slice' and b.args[1] is NONE:
                b = b.args[0]
            if isinstance(b, T) and b.op == 'encode':
                e = norm_enc(b.args[1])
                if e == 'utf-8-sig':
                    return p.v == codecs.BOM_UTF8
                if e in ('utf-16', 'utf-32'):
                    return p.v == (codecs.BOM_UTF16 if e == 'utf-16' else codecs.BOM_UTF32)
            if p.v in BOMS and p.v != codecs.BOM_UTF8:
                if any(v and q.op == 'decodes' and q.args[0] is b and norm_enc(q.args[1]) in ('utf-8', 'utf-8-sig')
                       for q, v in st.facts.items()):
                    return False
            if p.v == codecs.BOM_UTF8 and any(not v and q.op == 'decodes' and q.args[0] is b
                                              and norm_enc(q.args[1]) == 'utf-8-sig' for q, v in st.facts.items()):
                pass
        if isinstance(p, K):
            if p.v in ('', b''):
                return True
            if a in st.eqs and isinstance(st.eqs[a].v, (str, bytes)):
                return st.eqs[a].v.startswith(p.v)
            if isinstance(a, T) and a.op == 'cat' and isinstance(a.args[0], K):
                c = a.args[0].v
                if len(c) >= len(p.v):
                    return c.startswith(p.v)
                if not p.v.startswith(c):
                    return False
            if st.facts.get(T('truthy', a)) is False:
                return False
            for q, v in st.facts.items():
                if q.op == 'startswith' and q.args[0] is a and isinstance(q.args[1], K):
                    if v and q.args[1].v.startswith(p.v):
                        return True
                    if v and not p.v.startswith(q.args[1].v):
                        return False
                    if not v and p.v.startswith(q.args[1].v):
                        return False
        else:
            if isinstance(a, T) and a.op == 'cat' and a.args[0] is p:
                return True
            if st.facts.get(T('truthy', p)) is False:
                return True
            if isinstance(a, T) and isinstance(p, T) and (a.op == 'join' or p.op == 'join' or p is not unslash(p)):
                return begins(a, p)
        return None
    if op == 'endswith':
        a, p = t.args
        if isinstance(p, K) and isinstance(p.v, str):
            if a in st.eqs and isinstance(st.eqs[a].v, str):
                return st.eqs[a].v.endswith(p.v)
            last = a
            while isinstance(last, T) and last.op in ('cat', 'join'):
                last = last.args[-1]
            if isinstance(last, K) and isinstance(last.v, str):
                if len(last.v) >= len(p.v):
                    return last.v.endswith(p.v)
                if not p.v.endswith(last.v):
                    return False
        return None
    if op in ('exists', 'isfile', 'isdir'):
        k = path_kinds(I, t.args[0], st)
        want = {'exists': {'file', 'dir'}, 'isfile': {'file'}, 'isdir': {'dir'}}[op]
        if k <= want:
            return True
        if not (k & want):
            return False
        return None
    if op == 'nonempty':
        x = t.args[0]
        if isinstance(x, T) and x.op == 'elem':
            v = st.facts.get(T('truthy', x.args[0]))
            if v is not None:
                return v
        if isinstance(x, T) and x.op == 'elem_str':
            return True
        if isinstance(x, T) and x.op == 'rangeel':
            n = x.args[0]
            if isinstance(n, T) and n.op == 'int' and n.args[0] in st.eqs:
                try:
                    return int(st.eqs[n.args[0]].v) > 0
                except (ValueError, TypeError):
                    return None
            if n in st.eqs:
                return st.eqs[n].v > 0
            v = st.facts.get(T('truthy', n))
            if v is not None:
                return v
        return None
    if op in ('lt', 'gt', 'le', 'ge'):
        a, b = t.args
        a, b = resolve(a, st), resolve(b, st)
        if isinstance(a, K) and isinstance(b, K):
            try:
                return {'lt': a.v < b.v, 'gt': a.v > b.v, 'le': a.v <= b.v, 'ge': a.v >= b.v}[op]
            except TypeError:
                return None
        # comparisons of a length with a number, against recorded comparisons
        for p, v in st.facts.items():
            if p.op in ('lt', 'gt', 'le', 'ge') and p.args[0] is a and isinstance(p.args[1], K) and isinstance(b, K):
                lo, hi = _interval(p.op, p.args[1].v, v)
                r = _decide(op, b.v, lo, hi)
                if r is not None:
                    return r
        if isinstance(a, T) and a.op == 'len' and isinstance(b, K) and isinstance(b.v, int):
            r = _decide(op, b.v, 0, math.inf)
            if r is not None:
                return r
            n = min_len(a.args[0], st)
            r = _decide(op, b.v, n, math.inf)
            if r is not None:
                return r
        return None
    if op == 'in':
        a, b = t.args
        if isinstance(b, K) and isinstance(b.v, (str, tuple)) and a in st.eqs:
            try:
                return st.eqs[a].v in b.v
            except TypeError:
                return None
    if op == 'decodes':
        b, e = t.args
        if isinstance(b, T) and norm_enc(e) in ('utf-8', 'utf-8-sig'):
            for q, v in st.facts.items():
                if q.op == 'decodes' and q.args[0] is b and norm_enc(q.args[1]) in ('utf-8', 'utf-8-sig'):
                    return v
        if isinstance(b, T) and b.op == 'encode':
            return True
    if op == 'isint':
        a = t.args[0]
        if a in st.eqs:
            try:
                int(st.eqs[a].v)
                return True
            except (TypeError, ValueError):
                return False
    if op == 'hasidx':
        a, k = t.args
        if isinstance(k, K) and isinstance(k.v, int) and k.v >= 0:
            if k.v == 0 and isinstance(a, T) and a.op == 'brace':
                return True
            if min_len(a, st) > k.v:
                return True
            if st.facts.get(T('truthy', a)) is False:
                return False
            for q, v in st.facts.items():
                if q.op == 'hasidx' and q.args[0] is a and isinstance(q.args[1], K) and isinstance(q.args[1].v, int):
                    if v and q.args[1].v >= k.v:
                        return True
                    if not v and 0 <= q.args[1].v <= k.v:
                        return False
        loc = T('idx', a, k)
        if loc in st.store:
            return True
        for q in st.facts:
            if q.op == 'hasidx':
                continue
            x = q.args[0]
            while isinstance(x, T) and x.args:
                if x is loc:
                    return True
                x = x.args[0]
    return None


def _interval(op, n, truth):
    if not isinstance(n, (int, float)) or isinstance(n, bool):
        return -math.inf, math.inf
    if not truth:
        op = {'lt': 'ge', 'gt': 'le', 'le': 'gt', 'ge': 'lt'}[op]
    if op == 'lt':
        return -math.inf, n - 1
    if op == 'le':
        return -math.inf, n
    if op == 'gt':
        return n + 1, math.inf
    return n, math.inf


def _decide(op, n, lo, hi):
    if not isinstance(n, (int, float)):
        return None
    if op == 'lt':
        return True if hi < n else False if lo >= n else None
    if op == 'le':
        return True if hi <= n else False if lo > n else None
    if op == 'gt':
        return True if lo > n else False if hi <= n else None
    return True if lo >= n else False if hi < n else None


def min_len(a, st):
    """lower bound of the length of tree a implied by locations known to exist"""
    m = 0
    for loc, v in st.eqs.items():
        if loc.op == 'idx' and loc.args[0] is a and isinstance(loc.args[1], K) and isinstance(loc.args[1].v, int):
            m = max(m, loc.args[1].v + 1)
    for p, v in st.facts.items():
        x = p.args[0]
        while isinstance(x, T) and x.args:
            if x.op == 'idx' and x.args[0] is a and isinstance(x.args[1], K) and isinstance(x.args[1].v, int) \
                    and (v or p.op not in ('hasidx', 'haskey')):
                m = max(m, x.args[1].v + 1)
            x = x.args[0]
        if p.op == 'hasidx' and v and p.args[0] is a and isinstance(p.args[1], K) and isinstance(p.args[1].v, int):
            m = max(m, p.args[1].v + 1)
        if p.op in ('lt', 'gt', 'le', 'ge') and isinstance(p.args[0], T) and p.args[0].op == 'len' \
                and p.args[0].args[0] is a and isinstance(p.args[1], K):
            lo, _ = _interval(p.op, p.args[1].v, v)
            if lo != -math.inf:
                m = max(m, int(lo))
    for loc in st.store:
        x = loc
        while isinstance(x, T) and x.op == 'idx':
            if x.args[0] is a and isinstance(x.args[1], K) and isinstance(x.args[1].v, int):
                m = max(m, x.args[1].v + 1)
            x = x.args[0]
    return m


def _k_isinst(k, n):
    t = getattr(builtins, n, None)
    return isinstance(t, type) and isinstance(k.v, t) and not (n == 'int' and isinstance(k.v, bool))


def _cat_vs_const(c, s):
    if isinstance(c.args[0], K) and isinstance(c.args[0].v, str) and not s.startswith(c.args[0].v):
        return False
    if isinstance(c.args[-1], K) and isinstance(c.args[-1].v, str) and not s.endswith(c.args[-1].v):
        return False
    for a in c.args:
        if isinstance(a, K) and isinstance(a.v, str) and a.v not in s:
            return False
    return None


def learn(I, t, val, st):
    """record consequences of t == val; False when contradictory"""
    op = t.op
    if op == 'eq' and val:
        a, b = t.args
        if isinstance(b, K) and isinstance(a, T):
            if a in st.eqs and st.eqs[a] is not b:
                return False
            st.eqs[a] = b
            if a in st.store:
                pass
            f = st.facts.get(T('truthy', a))
            if f is not None and f != bool(b.v):
                return False
            for p, v in list(st.facts.items()):
                if p is t or p.args[0] is not a:
                    continue
                if p.op == 'eq' and isinstance(p.args[1], K) and v != (p.args[1] is b):
                    return False
                if p.op == 'isinst' and v != _k_isinst(b, p.args[1].v):
                    return False
                if p.op == 'startswith' and isinstance(p.args[1], K) and isinstance(b.v, (str, bytes)) \
                        and v != b.v.startswith(p.args[1].v):
                    return False
                if p.op == 'isint' and v:
                    try:
                        int(b.v)
                    except (TypeError, ValueError):
                        return False
    elif op in ('exists', 'isfile', 'isdir'):
        p = t.args[0]
        k = set(path_kinds(I, p, st))
        want = {'exists': {'file', 'dir'}, 'isfile': {'file'}, 'isdir': {'dir'}}[op]
        k = k & want if val else k - want
        if not k:
            return False
        st.kinds[p] = frozenset(k)
    elif op == 'isinst' and val:
        for p, v in st.facts.items():
            if p.op == 'isinst' and v and p is not t and p.args[0] is t.args[0]:
                return False
    elif op == 'truthy' and not val:
        x = t.args[0]
        while isinstance(x, T) and x.op == 'sub':
            x = x.args[2]
        if isinstance(x, T) and x.op == 'slice' and x.args[1] is K(1) and x.args[2] is K(-1):
            if x.args[0] in st.eqs and st.eqs[x.args[0]] is not K('""'):
                return False
            st.eqs[x.args[0]] = K('""')
        if isinstance(x, T) and x.op in ('b64dec', 'b64s') and isinstance(x.args[0], T) \
                and x.args[0].op == 'slice' and x.args[0].args[2] is NONE:
            y, n = x.args[0].args[0], x.args[0].args[1]
            for p, v in list(st.facts.items()):
                if v and p.op == 'startswith' and p.args[0] is y and isinstance(p.args[1], K) \
                        and len(p.args[1].v) == n.v:
                    st.eqs[y] = p.args[1]
        for p, v in st.facts.items():
            if v and p.op == 'startswith' and p.args[0] is t.args[0]:
                return False
    return True


# ----------------------------------------------------------------------------- normalisation of values
BOM_ENC = {'utf-8-sig', 'utf-32', 'utf-16'}


def norm_enc(e):
    if isinstance(e, K) and isinstance(e.v, str):
        n = e.v.lower().replace('_', '-')
        return {'utf8': 'utf-8', 'cp1251': 'windows-1251', '1251': 'windows-1251', 'u8': 'utf-8',
                'utf8-sig': 'utf-8-sig'}.get(n, n)
    return None


INVERSE_SUBS = {
    # (outer pattern, outer repl, inner pattern, inner repl): outer undoes inner on the texts inner is applied to
    ('(?P<n>\\n)(?P<d>#Область|#КонецОбласти|&НаСервере|&НаКлиенте)', '\\g<n>// v8unpack \\g<d>',
     '(?P<n>\\n)(?P<c>// v8unpack )(?P<d>[#|&])', '\\g<n>\\g<d>'),
    ('(")', '""', '("")', '"'),
    ('"', '""', '""', '"'),
    ('(")', '""', '""', '"'),
    ('"', '""', '("")', '"'),
}


def canon(I, v, st):
    if not isinstance(v, T):
        return v
    if v.op == 'cat':
        parts = [canon(I, a, st) for a in v.args]
        out = []
        i = 0
        while i < len(parts):
            a = parts[i]
            if isinstance(a, K) and i + 1 < len(parts):
                b = parts[i + 1]
                if isinstance(b, T) and b.op == 'slice' and isinstance(b.args[1], K) and b.args[2] is NONE \
                        and isinstance(b.args[1].v, int) and isinstance(a.v, str) and b.args[1].v > 0:
                    n = b.args[1].v
                    x = b.args[0]
                    if len(a.v) >= n:
                        pre = a.v[len(a.v) - n:]
                        if derive_full(I, T('startswith', x, K(pre)), st):
                            if len(a.v) > n:
                                out.append(K(a.v[:len(a.v) - n]))
                            out.append(x)
                            i += 2
                            continue
            if isinstance(a, T) and i + 1 < len(parts):
                b = parts[i + 1]
                # prefix p + x[len(p):]  with x.startswith(p)
                if isinstance(b, T) and b.op == 'slice' and b.args[2] is NONE and b.args[1] is T('len', a):
                    x = b.args[0]
                    if st.facts.get(T('startswith', x, a)):
                        out.append(x)
                        i += 2
                        continue
            out.append(a)
            i += 1
        return cat(out)
    if v.op == 'b64s':
        a = canon(I, v.args[0], st)
        if isinstance(a, T) and a.op == 'b64dec':
            return canon(I, a.args[0], st)
        return T('b64s', a)
    if v.op == 'sub':
        x = canon(I, v.args[2], st)
        if isinstance(x, T) and x.op == 'sub':
            key = (v.args[0].v if isinstance(v.args[0], K) else None, v.args[1].v if isinstance(v.args[1], K) else None,
                   x.args[0].v if isinstance(x.args[0], K) else None, x.args[1].v if isinstance(x.args[1], K) else None)
            if key in INVERSE_SUBS:
                return canon(I, x.args[2], st)
        if isinstance(x, K) and isinstance(x.v, str) and all(isinstance(a, K) for a in v.args[:2]):
            import re
            try:
                return K(re.sub(v.args[0].v, v.args[1].v, x.v))
            except (re.error, TypeError):
                pass
        return T('sub', v.args[0], v.args[1], x)
    if v.op in ('decode', 'encode', 'lower', 'strip'):
        a = canon(I, v.args[0], st)
        if v.op == 'decode':
            return decode_(a, v.args[1], st)
        return T(v.op, a, *v.args[1:])
    if v.op == 'slice':
        a = canon(I, v.args[0], st)
        if isinstance(a, T) and a.op == 'cat' and v.args[1] is K(1) and v.args[2] is K(-1):
            f, l = a.args[0], a.args[-1]
            if isinstance(f, K) and isinstance(l, K) and f.v and l.v:
                return cat([K(f.v[1:])] + list(a.args[1:-1]) + [K(l.v[:-1])])
        return T('slice', a, *v.args[1:])
    return v


def derive_full(I, t, st):
    f = st.facts.get(t)
    if f is None:
        f = derive(I, t, st)
    return f


def has_bom(b, st, bom=codecs.BOM_UTF8):
    """does byte value b start with the mark? True / False / None"""
    if isinstance(b, T) and b.op == 'encode':
        e = norm_enc(b.args[1])
        if bom == codecs.BOM_UTF8:
            return e == 'utf-8-sig' or (None if e in ('utf-8', None) else False)
        return None
    for s in (T('slice', b, NONE, K(4)), T('slice', b, NONE, K(3)), b):
        v = st.facts.get(T('startswith', s, K(bom)))
        if v is not None:
            return v
    return None


def encode_(v, enc, st):
    """bytes of text v written with codec enc"""
    e2 = norm_enc(enc)
    if isinstance(v, T) and v.op == 'decode' and e2:
        b, e1 = v.args[0], norm_enc(v.args[1])
        if e1 == e2:
            if e1 == 'utf-8-sig':
                if has_bom(b, st):
                    return b
            elif e1 in ('utf-16', 'utf-32'):
                return b
            else:
                return b
        elif e1 == 'utf-8-sig' and e2 == 'utf-8' and has_bom(b, st) is False:
            return b
    return T('encode', v if isinstance(v, (T, K)) else K(repr(v)), enc if isinstance(enc, (K, T)) else K(repr(enc)))


def debom(v):
    if isinstance(v, T):
        if v.op == 'decode' and norm_enc(v.args[1]) == 'utf-8':
            return T('decode', v.args[0], K('utf-8-sig'))
        if v.op == 'sub':
            return T('sub', v.args[0], v.args[1], debom(v.args[2]))
        if v.op == 'cat':
            return cat([debom(v.args[0])] + list(v.args[1:]))
    return v


def decode_(b, enc, st):
    """text of byte value b read with codec enc"""
    if isinstance(b, T) and b.op == 'encode':
        v, e = b.args
        e1, e2 = norm_enc(e), norm_enc(enc)
        if e is enc or (e1 is not None and e1 == e2):
            return v
        if e1 is not None and e2 is not None:
            if e1 == 'utf-8' and e2 == 'utf-8-sig':
                return debom(v)
            return T('misdecode', v, enc, e)
        return T('decode', b, enc)
    if isinstance(b, T) and b.op == 'b64enc':
        return T('b64s', b.args[0])
    if isinstance(b, K) and isinstance(b.v, bytes) and isinstance(enc, K):
        try:
            return K(b.v.decode(enc.v))
        except (UnicodeDecodeError, LookupError):
            pass
    return T('decode', b, enc)


# ----------------------------------------------------------------------------- files
def root_kind(I, p):
    c = comps(p)
    if c and c[0] in I.virtual_roots:
        return 'virtual'
    for r in I.virtual_roots:
        if under(p, r) is not None:
            return 'virtual'
    for r in I.input_roots:
        if under(p, r) is not None:
            return 'input'
    return 'other'


def path_kinds(I, p, st):
    if p in st.fs:
        return frozenset(('file',))
    if p in st.dirs:
        return frozenset(('dir',))
    k = st.kinds.get(p)
    if k is not None:
        return k
    rk = root_kind(I, p)
    if rk == 'virtual':
        if p in I.virtual_roots:
            return frozenset(('dir',))
        for q in st.fs:
            if under(q, p):
                return frozenset(('dir',))
        for q in st.dirs:
            if under(q, p):
                return frozenset(('dir',))
        return frozenset(('absent',))
    # a path below a known directory component
    for q, kk in st.kinds.items():
        r = under(p, q)
        if r and not (kk & {'dir'}):
            return frozenset(('absent',))
    return frozenset(('absent', 'file', 'dir'))


def open_file(I, path, mode, enc, st, node):
    path = join([path])
    m = mode.v if isinstance(mode, K) else 'r'
    I.sites.add(('open', I.where(node)))
    out = []
    if 'r' in m and '+' not in m:
        for ok, x in need_file(I, path, st, node, 'open'):
            x.event('open', path, m, enc, I.where(node))
            h = I.new(x, HInst_('file', dict(path=path, mode=K(m), enc=enc, closed=FALSE)))
            x.event('acquire', h, I.where(node))
            out.append((h, x))
        return out
    st.event('open', path, m, enc, I.where(node))
    if 'w' in m or 'x' in m:
        if st.fs.get(path, ('empty',))[0] != 'empty':
            st.event('overwrite', path, I.where(node))
        st.fs[path] = ('empty',)
        st.event('create', path, m, I.where(node))
    elif '+' in m or 'a' in m:
        st.event('modify', path, m, I.where(node))
    h = I.new(st, HInst_('file', dict(path=path, mode=K(m), enc=enc, closed=FALSE)))
    st.event('acquire', h, I.where(node))
    return [(h, st)]


def HInst_(cls, attrs):
    from .interp import HInst
    return HInst(cls, attrs)


def need_file(I, path, st, node, what):
    """states in which path is an existing file; FileNotFoundError is raised in the others"""
    k = path_kinds(I, path, st)
    if 'absent' not in k:
        if root_kind(I, path) != 'virtual':
            if 'file' in k:
                st.kinds[path] = frozenset(('file',))
            else:
                I.raise_(ExcV(Ext('IsADirectoryError'), path), st)
                return []
        elif path not in st.fs:
            I.raise_(ExcV(Ext('IsADirectoryError'), path), st)
            return []
        st.event('read', path, what, I.where(node))
        return [(True, st)]
    if k == frozenset(('absent',)):
        st.event('miss', path, what, I.where(node))
        I.raise_(ExcV(Ext('FileNotFoundError'), path), st)
        return []
    out = []
    if not I.catchable('FileNotFoundError'):
        st.kinds[path] = frozenset(('file',))
        st.event('read', path, what, I.where(node))
        return [(True, st)]
    for b, x in I.split(T('isfile', path), st):
        if b:
            x.event('read', path, what, I.where(node))
            out.append((True, x))
        else:
            if 'dir' in path_kinds(I, path, x):
                x.kinds[path] = path_kinds(I, path, x) - {'dir'} or frozenset(('dir',))
            x.event('miss', path, what, I.where(node))
            I.raise_(ExcV(Ext('FileNotFoundError'), path), x)
    return out


def content_bytes(I, path, st):
    e = st.fs.get(path)
    if e is None:
        return T('bytes', path)
    if e[0] == 'bin':
        return e[1]
    if e[0] == 'text':
        return encode_(e[1], e[2], st)
    if e[0] == 'json':
        return T('encode', T('jsontext', K(id(e))), e[2])
    return K(b'')


def file_term(I, ref, st):
    o = I.obj(st, ref)
    p = o.attrs.get('path')
    return p if isinstance(p, T) else I.as_term(p)


def known_lines(I, ref, st, one=False):
    '''the lines that are left (the next one) of a text file whose content is known'''
    o = I.obj(st, ref)
    e = st.fs.get(o.attrs.get('path'))
    enc = norm_enc(o.attrs['enc'])
    if e is None or e[0] != 'text' or not isinstance(e[1], K) or 'b' in o.attrs['mode'].v \
            or enc not in ('utf-8', 'utf-8-sig') or norm_enc(e[2]) not in ('utf-8', 'utf-8-sig'):
        return None
    s = e[1].v
    if norm_enc(e[2]) == 'utf-8-sig':
        s = '\ufeff' + s
    if enc == 'utf-8-sig' and s.startswith('\ufeff'):
        s = s[1:]
    if '\r' in s:
        return None
    l = [K(x + '\n') for x in s.split('\n')]     # a file has no other line ends
    l = l[:-1] if s.endswith('\n') or not s else l[:-1] + [K(l[-1].v[:-1])]
    at = o.attrs.get('line_no', K(0)).v
    end = at + 1 if one else len(l)
    st.heap[ref.addr] = type(o)(o.cls, {**o.attrs, 'line_no': K(end)})
    I.known_content = True
    return l[at:end]


def entry_codec_check(I, path, enc, st, node):
    e = st.fs.get(path)
    if e and e[0] in ('text', 'json'):
        e1, e2 = norm_enc(e[2]), norm_enc(enc)
        if e1 and e2 and e1 != e2 and not (e1 == 'utf-8' and e2 == 'utf-8-sig'):
            st.event('codec-mismatch', path, e[2], enc, I.where(node))


def read_text(I, path, enc, st, node, line=False):
    """[(text, state)]; UnicodeDecodeError is considered when somebody handles it"""
    e = st.fs.get(path)
    if e is not None:
        entry_codec_check(I, path, enc, st, node)
        if e[0] == 'text':
            b = encode_(e[1], e[2], st)
            if not (isinstance(b, T) and b.op == 'encode'):
                return decode_read(I, b, enc, st, path)
            v = canon(I, decode_(b, enc, st), st)
            if isinstance(v, T) and v.op == 'misdecode' and I.catchable('UnicodeDecodeError') \
                    and norm_enc(e[2]) == 'windows-1251':
                # cp1251 bytes read as utf-8 may or may not decode
                out = []
                for b, x in I.split(T('decodes', v), st, default=False):
                    if b:
                        out.append((v, x))
                    else:
                        I.raise_(ExcV(Ext('UnicodeDecodeError'), path), x)
                return out
            return [(v, st)]
        b = content_bytes(I, path, st)
        return decode_read(I, b, enc, st, path)
    return decode_read(I, T('bytes', path), enc, st, path)


def decode_read(I, b, enc, st, path):
    if I.catchable('UnicodeDecodeError') and isinstance(b, T):
        out = []
        for ok, x in I.split(T('decodes', b, enc if isinstance(enc, (K, T)) else K(repr(enc))), st):
            if ok:
                out.append((decode_(b, enc, x), x))
            else:
                I.raise_(ExcV(Ext('UnicodeDecodeError'), path), x)
        return out
    if isinstance(b, T) and isinstance(enc, K):
        st.facts.setdefault(T('decodes', b, enc), True)
    return [(decode_(b, enc, st), st)]


def write_file(I, ref, v, st, node):
    o = I.obj(st, ref)
    path, m, enc = o.attrs['path'], o.attrs['mode'].v, o.attrs['enc']
    if o.attrs['closed'] is TRUE:
        st.event('use-closed', ref, I.where(node))
    v = canon(I, v, st) if isinstance(v, T) else v
    if isinstance(v, (Ref, Tup)):
        v = I.as_term(I.freeze(v, st))
    prev = st.fs.get(path)
    st.event('write', path, v, I.where(node))
    if prev is None:
        st.event('modify', path, m, I.where(node))
        return
    if 'b' in m:
        if prev[0] == 'empty':
            st.fs[path] = ('bin', v)
        else:
            st.fs[path] = ('bin', T('concat', prev[1] if isinstance(prev[1], (T, K)) else K(repr(prev[1])),
                                    v if isinstance(v, (T, K)) else K(repr(v))))
    else:
        e = enc if enc is not NONE else K('locale')
        if prev[0] == 'empty' or prev[0] == 'json':
            st.fs[path] = ('text', v, e)
        elif prev[0] == 'text':
            st.fs[path] = ('text', cat([prev[1], v if isinstance(v, (T, K)) else K(repr(v))]), e)
    st.event('created', path, I.where(node))


def read_file(I, ref, args, st, node):
    o = I.obj(st, ref)
    path, m, enc = o.attrs['path'], o.attrs['mode'].v, o.attrs['enc']
    if o.attrs['closed'] is TRUE:
        st.event('use-closed', ref, I.where(node))
    if not isinstance(path, T):
        path = path if isinstance(path, K) else I.as_term(path)
    if 'b' in m:
        b = content_bytes(I, path, st)
        pos = o.attrs.get('pos', K(0))
        if pos is not K(0) and isinstance(b, T):
            b = T('slice', b, I.as_term(pos), NONE)
        if args:
            if isinstance(args[0], K):
                return [(T('slice', b, NONE, args[0]) if isinstance(b, T) else b, st)]
            return [(T('readbytes', b, I.as_term(args[0])), st)]
        return [(b, st)]
    e = enc if isinstance(enc, (K, T)) and enc is not NONE else K('locale')
    res = read_text(I, path, e, st, node)
    if args:
        return [(T('slice', v, NONE, I.as_term(args[0])) if isinstance(v, T) else v, x) for v, x in res]
    return res


def exit_context(I, v, st, node):
    if isinstance(v, Ref):
        o = I.obj(st, v)
        from .interp import HInst
        if isinstance(o, HInst) and not isinstance(o.cls, ClassInfo):
            st.heap[v.addr] = HInst(o.cls, {**o.attrs, 'closed': TRUE})
            st.event('release', v, I.where(node))
            return
    st.event('ctx-exit', v, I.where(node))


def json_load(I, path, enc, st, node):
    e = st.fs.get(path)
    if e is not None:
        entry_codec_check(I, path, enc, st, node)
        if e[0] == 'json':
            return I.thaw(e[1], st)
        if e[0] == 'text' and isinstance(e[1], T) and e[1].op == 'jsons':
            return I.thaw(I.frozen[e[1].args[0].v], st)
    return T('json', path)


# ----------------------------------------------------------------------------- enums
def enum_by_value(I, c, v, st, node):
    ms = I.enum_members(c.info)
    v = resolve(v, st) if isinstance(v, T) else v
    if isinstance(v, EnumM) and v.cls is c.info:
        return [(v, st)]
    if isinstance(v, K):
        for m in ms:
            if m.value is v:
                return [(m, st)]
        I.raise_(ExcV(Ext('ValueError'), v), st)
        return []
    t = I.as_term(v)
    if len(ms) <= SMALL_ENUM:
        out = []
        cur = st
        for m in ms:
            nxt = None
            for b, y in I.truth(I.equal(t, m.value, cur), cur):
                if b:
                    out.append((m, y))
                else:
                    nxt = y
            if nxt is None:
                return out
            cur = nxt
        I.raise_(ExcV(Ext('ValueError'), t), cur)
        return out
    if I.catchable('ValueError'):
        out = []
        for b, y in I.split(T('inenum', t, K(c.info.name)), st):
            if b:
                out.append((T('enum', K(c.info.qual), t), y))
            else:
                I.raise_(ExcV(Ext('ValueError'), t), y)
        return out
    return [(T('enum', K(c.info.qual), t), st)]


def enum_by_name(I, c, k, st, node):
    ms = I.enum_members(c.info)
    if isinstance(k, T):
        k = resolve(k, st)
    if isinstance(k, K):
        for m in ms:
            if m.name == k.v:
                return [(m, st)]
        I.raise_(ExcV(Ext('KeyError'), k), st)
        return []
    t = I.as_term(k)
    if t.op == 'enumname' and t.args[0] is K(c.info.qual):
        return [(T('enum', t.args[0], t.args[1]), st)]
    if I.catchable('KeyError'):
        out = []
        for b, y in I.split(T('inenum', t, K(c.info.name + '#')), st):
            if b:
                out.append((T('enumbyname', K(c.info.qual), t), y))
            else:
                I.raise_(ExcV(Ext('KeyError'), t), y)
        return out
    return [(T('enumbyname', K(c.info.qual), t), st)]


# ----------------------------------------------------------------------------- operators
OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
       ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
       ast.Pow: lambda a, b: a ** b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
       ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b}


def binop(I, op, a, b, st, node):
    from .interp import HList
    if isinstance(a, T):
        a = resolve(a, st)
    if isinstance(b, T):
        b = resolve(b, st)
    if isinstance(a, K) and isinstance(b, K):
        try:
            return [(K(OPS[type(op)](a.v, b.v)), st)]
        except TypeError as err:
            if a is NONE or b is NONE:
                st.event('none-deref', type(op).__name__, I.where(node))
            I.raise_(ExcV(Ext('TypeError'), K(str(err))), st)
            return []
        except (ValueError, ZeroDivisionError, OverflowError) as err:
            I.raise_(ExcV(Ext(type(err).__name__), K(str(err))), st)
            return []
    if isinstance(op, ast.Add):
        if isinstance(a, Ref) or isinstance(b, Ref):
            oa = I.obj(st, a) if isinstance(a, Ref) else None
            if isinstance(oa, HList):
                r = I.new_list(st, oa.items)
                I.list_extend(r, b, st, node)
                return [(r, st)]
            if isinstance(a, T):
                r = I.new_list(st, [Star(elem_of(a))])
                I.list_extend(r, b, st, node)
                return [(r, st)]
        if isinstance(a, Tup) and isinstance(b, Tup):
            return [(Tup(*(a.items + b.items)), st)]
        if is_str(a) or is_str(b):
            return [(cat([I.as_term(a), I.as_term(b)]), st)]
        if isinstance(a, K) and isinstance(a.v, bytes) or isinstance(b, K) and isinstance(b.v, bytes) \
                or isinstance(a, T) and a.op in BYTES_OPS:
            return [(T('concat', I.as_term(a), I.as_term(b)), st)]
        if isinstance(a, K) and isinstance(a.v, (int, float)) or isinstance(b, K) and isinstance(b.v, (int, float)) \
                or isinstance(a, T) and a.op in INT_OPS:
            x, y = I.as_term(a), I.as_term(b)
            # (x + k1) + k2
            if isinstance(y, K) and isinstance(x, T) and x.op == 'add' and isinstance(x.args[1], K):
                return [(mkadd(x.args[0], K(x.args[1].v + y.v)), st)]
            if isinstance(x, K) and not isinstance(y, K):
                x, y = y, x
            return [(mkadd(x, y), st)]
        return [(cat([I.as_term(a), I.as_term(b)]), st)]
    if isinstance(op, ast.Sub) and isinstance(b, K) and isinstance(b.v, (int, float)):
        return binop(I, ast.Add(), a, K(-b.v), st, node)
    if isinstance(op, ast.Mult) and isinstance(a, Ref):
        o = I.obj(st, a)
        if isinstance(o, HList):
            if isinstance(b, K):
                return [(I.new_list(st, list(o.items) * b.v), st)]
            return [(I.new_list(st, [Star(x.v if isinstance(x, Star) else x) for x in o.items]), st)]
    if isinstance(op, ast.Mod) and is_str(a):
        return [(T('fmtmod', I.as_term(a), I.as_term(b)), st)]
    if isinstance(op, ast.Mult):
        return [(T('mul', I.as_term(a), I.as_term(b)), st)]
    return [(T('bin' + type(op).__name__, I.as_term(a), I.as_term(b)), st)]


def mkadd(x, y):
    if isinstance(y, K) and y.v == 0:
        return x
    return T('add', x, y)


def distinct(a, b):
    '''no way for two frozen lists to be equal: another length, or other constants at the same place'''
    if isinstance(a, K) and isinstance(b, K):
        return a.v != b.v
    if isinstance(a, FL) and isinstance(b, FL):
        x, y = a.key[0], b.key[0]
        if any(isinstance(i, Star) for i in x + y):
            return False
        return len(x) != len(y) or any(distinct(i, j) for i, j in zip(x, y))
    return isinstance(a, FL) and isinstance(b, K) or isinstance(a, K) and isinstance(b, FL)


def compare(I, op, a, b, st, node):
    if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        neg = isinstance(op, (ast.NotEq, ast.IsNot))
        if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(a, Ref) and isinstance(b, Ref):
            r = K(a == b)
        elif isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            fa, fb = I.freeze(a, st), I.freeze(b, st)
            r = TRUE if fa == fb else FALSE if distinct(fa, fb) else T('eq', T('ref', a), T('ref', b))
        else:
            if isinstance(b, K) and b.v is None and isinstance(a, T) and isinstance(op, (ast.Is, ast.IsNot)):
                pass
            r = I.equal(a, b, st)
        if isinstance(r, K):
            return [(K(r.v != neg), st)]
        return [(K(bv != neg), x) for bv, x in I.split(r, st)]
    if isinstance(op, (ast.In, ast.NotIn)):
        neg = isinstance(op, ast.NotIn)
        return [(K(v != neg), x) for v, x in contains(I, a, b, st, node)]
    if isinstance(a, T):
        a = resolve(a, st)
    if isinstance(b, T):
        b = resolve(b, st)
    n = {ast.Lt: 'lt', ast.Gt: 'gt', ast.LtE: 'le', ast.GtE: 'ge'}[type(op)]
    if isinstance(a, K) and isinstance(b, K):
        try:
            return [(K({'lt': a.v < b.v, 'gt': a.v > b.v, 'le': a.v <= b.v, 'ge': a.v >= b.v}[n]), st)]
        except TypeError:
            if a is NONE or b is NONE:
                st.event('none-deref', n, I.where(node))
            I.raise_(ExcV(Ext('TypeError'), K('compare')), st)
            return []
        except KeyError:
            pass
    if isinstance(a, K) and not isinstance(b, K):
        a, b = b, a
        n = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}[n]
    return [(K(v), x) for v, x in I.split(T(n, I.as_term(a), I.as_term(b)), st)]


def plain(v):
    '''paths made of constants as text'''
    if isinstance(v, Tup):
        return Tup(*[plain(x) for x in v.items])
    t = const_path(v)
    return v if t is None else K(t)


def contains(I, a, b, st, node):
    from .interp import HList, HDict
    items = None
    open_ = False
    if isinstance(b, Ref):
        o = I.obj(st, b)
        if isinstance(o, HDict):
            items = list(o.items)
            open_ = o.open
        elif isinstance(o, HList):
            items = [x for x in o.items if not isinstance(x, Star)]
            open_ = len(items) != len(o.items)
    elif isinstance(b, Tup):
        items = list(b.items)
    elif isinstance(b, K):
        if isinstance(a, K):
            try:
                return [(a.v in b.v, st)]
            except TypeError:
                if b.v is None:
                    st.event('none-deref', 'in', I.where(node))
                I.raise_(ExcV(Ext('TypeError'), K('in')), st)
                return []
        if isinstance(b.v, tuple):
            items = [K(x) for x in b.v]
    if items is None:
        return I.split(T('in', I.as_term(a), I.as_term(b)), st)
    a, items = plain(a), [plain(x) for x in items]
    if a in items:
        return [(True, st)]
    out = []
    cur = st
    if isinstance(a, T) or any(isinstance(x, T) for x in items) or isinstance(a, Tup) and any(isinstance(x, Tup) for x in items):
        for x in items:
            nxt = None
            for v, y in I.truth(I.equal(a, x, cur), cur):
                if v:
                    out.append((True, y))
                else:
                    nxt = y
            if nxt is None:
                return out
            cur = nxt
    if open_:
        out.extend(I.split(T('in', I.as_term(a), T('ref', b)), cur))
        return out
    out.append((False, cur))
    return out


def slice_(I, b, parts, st, node):
    from .interp import HList
    if isinstance(b, T):
        b = resolve(b, st)
    lo, hi, step = [resolve(p, st) if isinstance(p, T) else p for p in parts]
    allk = all(isinstance(p, K) for p in (lo, hi, step))
    if isinstance(b, K) and allk:
        try:
            return [(K(b.v[lo.v:hi.v:step.v]), st)]
        except TypeError:
            if b.v is None:
                st.event('none-deref', 'slice', I.where(node))
            I.raise_(ExcV(Ext('TypeError'), K('slice')), st)
            return []
    if isinstance(b, Tup) and allk:
        return [(Tup(*b.items[lo.v:hi.v:step.v]), st)]
    if isinstance(b, Ref):
        o = I.obj(st, b)
        if isinstance(o, HList):
            if allk and not any(isinstance(x, Star) for x in o.items):
                return [(I.new_list(st, o.items[lo.v:hi.v:step.v]), st)]
            return [(I.new_list(st, [x if isinstance(x, Star) else Star(x) for x in o.items]), st)]
    if isinstance(b, (T, K)):
        if lo is NONE and hi is NONE and step is NONE:
            return [(b, st)]
        if lo is K(1) and hi is K(-1) and isinstance(b, T) and b.op == 'cat':
            f, l = b.args[0], b.args[-1]
            if isinstance(f, K) and isinstance(l, K) and isinstance(f.v, str) and f.v and l.v:
                return [(cat([K(f.v[1:])] + list(b.args[1:-1]) + [K(l.v[:-1])]), st)]
        if lo is K(0):
            lo = NONE
        t = T('slice', b, I.as_term(lo), I.as_term(hi))
        if step is not NONE:
            t = T('slicestep', b, I.as_term(lo), I.as_term(hi), I.as_term(step))
        return [(t, st)]
    return [(T('slice', I.as_term(b), I.as_term(lo), I.as_term(hi)), st)]


def is_treeish(b):
    return isinstance(b, T) and b.op in ('idx', 'brace', 'elem', 'json', 'param', 'treeof', 'slice', 'rec', 'last')


def tree_item(I, b, k, st, node):
    k = resolve(k, st) if isinstance(k, T) else k
    if b in st.eqs:
        return I.get_item(st.eqs[b], k, st, node)
    if b.op == 'split' and k is K(0) and False:
        pass
    loc = T('idx', b, k)
    if isinstance(k, K) and isinstance(k.v, (int, str)) and loc not in st.store:
        exc = 'KeyError' if isinstance(k.v, str) else 'IndexError'
        if I.catchable(exc) and loc not in st.eqs:
            out = []
            for ok, x in I.split(T('hasidx', b, k), st):
                if ok:
                    out.append((I.read_loc(b, k, x), x))
                else:
                    I.raise_(ExcV(Ext(exc), k), x)
            return out
    v = I.read_loc(b, k, st)
    from .interp import REMOVED
    if v is REMOVED:
        I.raise_(ExcV(Ext('IndexError'), k), st)
        return []
    return [(v, st)]


def unpack_elem(I, v, i, st):
    if isinstance(v, T):
        return I.read_loc(v, K(i), st)
    return T('idx', I.as_term(v), K(i))


def to_path(I, v, st):
    v = resolve(v, st) if isinstance(v, T) else v
    return unslash(v) if isinstance(v, (T, K)) else I.as_term(v)


from .models_lib import call_ext, method, opaque_call  # noqa: E402,F401
