"""Abstract values of the dataflow engine: constants, hash-consed access-path terms, references."""


class K:
    """A known constant."""
    __slots__ = ('v', '_h')
    _tab = {}

    def __new__(cls, v):
        key = (type(v).__name__, v)
        try:
            r = cls._tab.get(key)
        except TypeError:
            raise TypeError('unhashable constant %r' % (v,))
        if r is None:
            r = object.__new__(cls)
            r.v = v
            r._h = hash(key)
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return repr(self.v)


class T:
    """A term: an unknown value named by how it was obtained from the inputs."""
    __slots__ = ('op', 'args', '_h', '_roots')
    _tab = {}

    def __new__(cls, op, *args):
        key = (op, args)
        r = cls._tab.get(key)
        if r is None:
            r = object.__new__(cls)
            r.op = op
            r.args = args
            r._h = hash(key)
            r._roots = None
            cls._tab[key] = r
        return r

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return show(self)


class _Tagged:
    __slots__ = ('key', '_h')

    def __init__(self, *key):
        self.key = key
        self._h = hash((type(self).__name__,) + key)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return type(o) is type(self) and o.key == self.key

    def __repr__(self):
        return '%s%r' % (type(self).__name__, self.key)


class Ref(_Tagged):
    """Reference to a heap object."""
    @property
    def addr(self):
        return self.key[0]

    def __repr__(self):
        return '@%s' % (self.key[0],)


class Cls(_Tagged):
    @property
    def info(self):
        return self.key[0]

    def __repr__(self):
        return '<class %s>' % self.key[0].name


class Fn(_Tagged):
    """function value: FuncInfo + closure frame address"""
    @property
    def info(self):
        return self.key[0]

    @property
    def closure(self):
        return self.key[1]

    def __repr__(self):
        return '<fn %s>' % self.key[0].qual


class Bound(_Tagged):
    """bound callable: receiver + Fn (or builtin method name)"""
    @property
    def self_(self):
        return self.key[0]

    @property
    def fn(self):
        return self.key[1]

    def __repr__(self):
        return '<bound %r.%r>' % self.key


class Mod(_Tagged):
    @property
    def name(self):
        return self.key[0]

    def __repr__(self):
        return '<mod %s>' % self.key[0]


class Ext(_Tagged):
    """External (library / builtin) entity by dotted name."""
    @property
    def name(self):
        return self.key[0]

    def __repr__(self):
        return 'ext:%s' % self.key[0]


class Tup(_Tagged):
    @property
    def items(self):
        return self.key

    def __repr__(self):
        return '(%s)' % ', '.join(map(repr, self.key))


class EnumM(_Tagged):
    """enum member: class info, name, value"""
    @property
    def cls(self):
        return self.key[0]

    @property
    def name(self):
        return self.key[1]

    @property
    def value(self):
        return self.key[2]

    def __repr__(self):
        return '%s.%s' % (self.key[0].name, self.key[1])


class ExcV(_Tagged):
    """exception instance: class value, arg values"""
    @property
    def cls(self):
        return self.key[0]

    def __repr__(self):
        return 'exc(%r)' % (self.key[0],)


class SuperV(_Tagged):
    """super() object: (owner ClassInfo, receiver value, ClassInfo of receiver)"""


class FD(_Tagged):
    """frozen dict: items tuple"""
    def __repr__(self):
        return 'FD%r' % (self.key[0],)


class FL(_Tagged):
    """frozen list"""
    def __repr__(self):
        return 'FL%r' % (self.key[0],)


class OV(_Tagged):
    """frozen tree: term + overlay of changed locations"""
    def __repr__(self):
        return 'OV(%r,%r)' % self.key


NONE = K(None)
TRUE = K(True)
FALSE = K(False)
EMPTY = K('')


class Star(_Tagged):
    """inside a heap list: zero or more further elements represented by one value"""
    @property
    def v(self):
        return self.key[0]

    def __repr__(self):
        return '*%r' % (self.key[0],)


def show(t, depth=0):
    if isinstance(t, T):
        if depth > 14:
            return '…'
        a = [show(x, depth + 1) for x in t.args]
        if t.op == 'param':
            return '$' + str(t.args[0])
        if t.op == 'idx':
            return '%s[%s]' % (a[0], a[1])
        if t.op == 'attr':
            return '%s.%s' % (a[0], t.args[1])
        if t.op == 'cat':
            return '+'.join(a)
        if t.op == 'join':
            return '/'.join(x.strip("'") for x in a)
        return '%s(%s)' % (t.op, ', '.join(a))
    return repr(t)


def cat(parts):
    """string concatenation in normal form"""
    out = []
    for p in parts:
        if isinstance(p, T) and p.op == 'cat':
            sub = p.args
        else:
            sub = (p,)
        for s in sub:
            if isinstance(s, K) and isinstance(s.v, (str, bytes)):
                if s.v == '' or s.v == b'':
                    continue
                if out and isinstance(out[-1], K) and type(out[-1].v) is type(s.v):
                    out[-1] = K(out[-1].v + s.v)
                    continue
            out.append(s)
    if not out:
        return EMPTY
    # quote(slice(x,1,-1)) == x
    i = 0
    changed = False
    while i + 2 < len(out) + 0:
        a, b, c = out[i:i + 3]
        if isinstance(b, T) and b.op == 'slice' and b.args[1] is K(1) and b.args[2] is K(-1) \
                and isinstance(a, K) and isinstance(c, K) and isinstance(a.v, str) and isinstance(c.v, str) \
                and a.v.endswith('"') and c.v.startswith('"'):
            mid = [b.args[0]]
            pre = [K(a.v[:-1])] if a.v[:-1] else []
            post = [K(c.v[1:])] if c.v[1:] else []
            out[i:i + 3] = pre + mid + post
            changed = True
            break
        i += 1
    if changed:
        return cat(out)
    if len(out) == 1:
        return out[0]
    # leading path: join(a, b) + c  ->  join(a, b + c)
    if isinstance(out[0], T) and out[0].op == 'join':
        j = out[0].args
        return T('join', *(j[:-1] + (cat([j[-1]] + out[1:]),)))
    return T('cat', *out)


def unslash(p):
    """a path without the separator os.path.join(p, '') puts at its end"""
    if isinstance(p, T) and p.op in ('cat', 'join') and isinstance(p.args[-1], K) and isinstance(p.args[-1].v, str) \
            and p.args[-1].v.endswith('/') and p.args[-1].v != '/' * len(p.args[-1].v):
        return T(p.op, *p.args[:-1], K(p.args[-1].v.rstrip('/')))
    if isinstance(p, T) and p.op == 'cat' and len(p.args) == 2 and p.args[1] is K('/'):
        return p.args[0]
    return p


ABSOLUTE = set()        # symbols that stand for absolute paths


def join(parts):
    """path concatenation in normal form"""
    flat = []
    for p in parts:
        p = unslash(p)
        if isinstance(p, T) and p.op == 'join':
            if p.args and (p.args[0] is K('/') or p.args[0] in ABSOLUTE):
                flat = []
            flat.extend(p.args)
        elif isinstance(p, K) and isinstance(p.v, str):
            if p.v.startswith('/'):
                flat = [K('/')]
            for s in p.v.split('/'):
                if s and s != '.':
                    flat.append(K(s))
        elif isinstance(p, T) and p.op == 'cat' and any(isinstance(x, K) and isinstance(x.v, str) and '/' in x.v
                                                       for x in p.args):
            cur = []
            for x in p.args:
                if isinstance(x, K) and isinstance(x.v, str) and '/' in x.v:
                    segs = x.v.split('/')
                    for i, s in enumerate(segs):
                        if i:
                            if cur:
                                flat.append(cat(cur))
                            cur = []
                        if s:
                            cur.append(K(s))
                else:
                    cur.append(x)
            if cur:
                flat.append(cat(cur))
        else:
            flat.append(p)
    out = []
    for p in flat:
        if p is K('..') and out and out[-1] is not K('..') and isinstance(out[-1], K) and out[-1] is not K('/'):
            out.pop()
            continue
        out.append(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return T('join', *out)


def comps(p):
    if isinstance(p, T) and p.op == 'join':
        return p.args
    if p is EMPTY:
        return ()
    return (p,)


def const_path(p):
    '''the text of a path made of constants only'''
    if isinstance(p, T) and p.op == 'join' and p.args and all(isinstance(x, K) and isinstance(x.v, str) for x in p.args):
        c = [x.v for x in p.args]
        return '/' + '/'.join(c[1:]) if c[0] == '/' else '/'.join(c)
    return None


def under(p, root):
    """relative components of p below root, or None"""
    c, r = comps(p), comps(root)
    if len(c) >= len(r) and c[:len(r)] == r:
        return c[len(r):]
    return None


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    if isinstance(t, T):
        for a in t.args:
            yield from subterms(a, seen)
    elif isinstance(t, (Tup, OV, FD, FL)):
        for a in t.key:
            yield from subterms(a, seen) if not isinstance(a, tuple) else _tuples(a, seen)


def _tuples(tp, seen):
    for a in tp:
        if isinstance(a, tuple):
            yield from _tuples(a, seen)
        else:
            yield from subterms(a, seen)


def occurs(sub, t):
    return any(x is sub or x == sub for x in subterms(t))
