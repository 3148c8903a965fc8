"""Positions in binary streams: every seek, read and write is recorded with a symbolic position (linear in unknown lengths)."""
from fractions import Fraction
from struct import calcsize

from .terms import K, T, Ref, NONE, subterms


def lenof(d):
    """length of binary data as a term"""
    if isinstance(d, K):
        try:
            return K(len(d.v))
        except TypeError:
            return T('len', d)
    if isinstance(d, T):
        if d.op == 'pack' and isinstance(d.args[0], K):
            try:
                return K(calcsize(d.args[0].v))
            except Exception:
                return T('len', d)
        if d.op == 'mul' and len(d.args) == 2:
            a, b = d.args
            if isinstance(b, K) and isinstance(b.v, bytes):
                a, b = b, a
            if isinstance(a, K) and isinstance(a.v, bytes):
                return T('times', K(len(a.v)), b) if len(a.v) != 1 else b
        if d.op in ('cat', 'add') and all(isinstance(x, (T, K)) for x in d.args):
            out = K(0)
            for x in d.args:
                out = T('add', out, lenof(x))
            return out
        if d.op == 'cm' and d.args and d.args[0] == K('join'):
            return T('len', d)
    return T('len', d) if isinstance(d, (T, K)) else T('len', T('val', K(repr(d))))


def upper(t):
    """a bound the number never exceeds, or None"""
    if isinstance(t, K) and isinstance(t.v, int):
        return t.v
    if isinstance(t, T):
        if t.op == 'len' and isinstance(t.args[0], T) and t.args[0].op == 'rd' and isinstance(t.args[0].args[2], K):
            return t.args[0].args[2].v
        if t.op == 'min':
            u = [x for x in map(upper, t.args) if x is not None]
            return min(u) if u else None
        if t.op == 'max':
            u = [upper(x) for x in t.args]
            return max(u) if all(x is not None for x in u) else None
        if t.op in ('add', 'cat') and len(t.args) == 2:
            u = [upper(x) for x in t.args]
            return sum(u) if all(x is not None for x in u) else None
    return None


FULL = [False]    # reads of a fixed number of bytes get them all
EMPTY = set()     # what is known to be empty on the path that is looked at


def off_path():
    """nothing is known yet: to be called before code is interpreted"""
    EMPTY.clear()
    FULL[0] = False


def on_path(st, full=False):
    """from here on positions are compared with what this path knows about empty reads"""
    EMPTY.clear()
    FULL[0] = full
    for k, v in st.facts.items():
        if k.op in ('truthy', 'nonempty') and v is False:
            EMPTY.add(k.args[0])
        elif k.op == 'eq' and v is True and isinstance(k.args[1], K) and k.args[1].v == b'':
            EMPTY.add(k.args[0])
        elif k.op == 'eq' and v is True and k.args[1] == K(0) and isinstance(k.args[0], T) and k.args[0].op == 'len':
            EMPTY.add(k.args[0].args[0])


def lin(t):
    """(atoms with coefficients, constant) of a number"""
    at, c = {}, 0

    def go(x, k):
        nonlocal c
        if isinstance(x, K) and isinstance(x.v, int):
            c += k * x.v
            return
        if isinstance(x, T):
            if x.op in ('add', 'cat', 'binAdd'):
                for y in x.args:
                    go(y, k)
                return
            if x.op == 'binSub' and len(x.args) == 2:
                go(x.args[0], k)
                go(x.args[1], -k)
                return
            if x.op in ('mul', 'times') and len(x.args) == 2:
                for a, b in (x.args, x.args[::-1]):
                    la = lin(a)
                    if not la[0]:
                        go(b, k * la[1])
                        return
            if x.op == 'len' and isinstance(x.args[0], K) and isinstance(x.args[0].v, (bytes, str)):
                c += k * len(x.args[0].v)
                return
            if x.op == 'max':
                low = [a.v for a in x.args if isinstance(a, K)]
                rest = [a for a in x.args if not isinstance(a, K)]
                if low and all(upper(a) is not None and upper(a) <= max(low) for a in rest):
                    c += k * max(low)
                    return
                if len(rest) == 1 and low and max(low) <= 0 and nonneg(rest[0]):
                    go(rest[0], k)
                    return
        if isinstance(x, T) and x.op == 'len' and x.args[0] in EMPTY:
            return
        if FULL[0] and isinstance(x, T) and x.op == 'len' and isinstance(x.args[0], T) and x.args[0].op == 'rd' and \
                isinstance(x.args[0].args[2], K) and isinstance(x.args[0].args[2].v, int):
            c += k * x.args[0].args[2].v
            return
        at[x] = at.get(x, 0) + k
    go(t, 1)
    return {a: n for a, n in at.items() if n}, c


def nonneg(t):
    if isinstance(t, K):
        return t.v >= 0
    return isinstance(t, T) and (t.op in ('len', 'size') or t.op in ('add', 'cat') and all(nonneg(x) for x in t.args))


def same(a, b):
    return lin(T('binSub', a, b)) == ({}, 0)


def diff(a, b):
    """a - b if it is a constant, else None"""
    at, c = lin(T('binSub', a, b))
    return c if not at else None


class Streams:
    """stream methods on known files, temporary files and in-memory files"""

    def __init__(self, known=(), open_temp=False):
        self.known = dict(known)      # term -> (position, end)
        self.open_temp = open_temp    # a temporary file has an unknown size after it was written to

    def key(self, I, recv, st):
        if isinstance(recv, Ref):
            o = I.obj(st, recv)
            if getattr(o, 'cls', None) in ('tempfile', 'file'):
                return T('ref', recv), (K(0), K(0) if o.cls == 'tempfile' else T('size', T('ref', recv)))
            return None
        if isinstance(recv, T):
            if recv in self.known:
                return recv, self.known[recv]
            if recv.op == 'call' and 'BytesIO' in str(recv.args[0]):
                return recv, (K(0), lenof(recv.args[1]) if len(recv.args) > 1 else K(0))
        return None

    def __call__(self, I, recv, name, args, kw, st, node):
        if name not in ('seek', 'tell', 'read', 'write', 'fileno', 'flush', 'getvalue', 'truncate'):
            return None
        k = self.key(I, recv, st)
        if k is None:
            return None
        k, (p0, e0) = k
        kp, ke = T('spos', k), T('send', k)
        pos, end = st.store.get(kp, p0), st.store.get(ke, e0)
        if name == 'tell':
            return [(pos, st)]
        if name == 'seek':
            wh = args[1] if len(args) > 1 else kw.get('whence', K(0))
            x = I.as_term(args[0])
            if not isinstance(wh, K) or wh.v not in (0, 1, 2):
                return None
            pos = x if wh.v == 0 else T('add', pos if wh.v == 1 else end, x)
            at, c = lin(pos)
            if not at:
                pos = K(c)
            st.store[kp] = pos
            st.event('sseek', k, pos, I.where(node))
            return [(pos, st)]
        if name == 'read':
            n = I.as_term(args[0]) if args else NONE
            t = T('rd', k, pos, n)
            st.event('sread', k, pos, n, I.where(node))
            st.store[kp] = T('add', pos, T('len', t))
            return [(t, st)]
        if name == 'write':
            d = args[0]
            n = lenof(d if isinstance(d, (T, K)) else I.as_term(d))
            st.event('swrite', k, pos, d, n, end, I.where(node))
            new = T('add', pos, n)
            if self.open_temp and k not in self.known:
                st.store[kp] = st.store[ke] = T('size', k)
                return [(n, st)]
            st.store[kp] = new
            if same(pos, end) or (diff(new, end) or 0) > 0:
                st.store[ke] = new
            return [(n, st)]
        if name == 'fileno':
            return [(T('fileno', k), st)]
        return [(NONE, st)]


def stream_end(t):
    """loops over a stream end"""
    return t.op in ('truthy', 'nonempty', 'eq') and any(isinstance(x, T) and x.op == 'rd' for x in subterms(t))


class NoValue(Exception):
    pass


class World:
    """sizes given to the unknown streams of a path; every number of the path gets a value"""

    def __init__(self, sizes, base, base_value, split=()):
        self.sizes, self.base, self.base_value, self.split = sizes, base, base_value, split
        self.memo = {}

    def size(self, key):
        if isinstance(key, T) and key.op == 'call':
            return self.len(key.args[1]) if len(key.args) > 1 else 0
        if key in self.sizes:
            return self.sizes[key]
        raise NoValue(key)

    def len(self, d):
        if isinstance(d, K):
            try:
                return len(d.v)
            except TypeError:
                raise NoValue(d)
        if isinstance(d, T):
            if d.op == 'rd':
                left = max(0, self.size(d.args[0]) - self(d.args[1]))
                n = d.args[2]
                if n == NONE or d.args[0] not in self.split:
                    return left     # a loop over the chunks of a stream gives all of it
                return min(left, max(0, self(n)))
            if d.op in ('cat', 'add', 'concat'):
                return sum(self.len(x) for x in d.args)
            if d.op == 'pack' and isinstance(d.args[0], K):
                return calcsize(d.args[0].v)
            if d.op == 'mul':
                a, b = d.args
                if isinstance(b, K) and isinstance(b.v, bytes):
                    a, b = b, a
                if isinstance(a, K) and isinstance(a.v, bytes):
                    return len(a.v) * max(0, self(b))
            if d.op == 'cm' and d.args[0].v in ('compress', 'flush'):
                if ('z', d) in self.sizes:
                    return self.sizes['z', d]
                return 7 if d.args[0].v == 'compress' else 4
            if d.op == 'cm' and d.args[0].v == 'join' and len(d.args) > 2:
                return sum(self.len(x) for x in d.args[2:])
        raise NoValue(d)

    def __call__(self, t):
        if t not in self.memo:
            self.memo[t] = self.value(t)
        return self.memo[t]

    def value(self, t):
        if isinstance(t, K):
            if isinstance(t.v, (int, float)):
                return t.v
            raise NoValue(t)
        if t == self.base:
            return self.base_value
        if not isinstance(t, T):
            raise NoValue(t)
        if t.op == 'size':
            return self.size(t.args[0])
        if t.op == 'len':
            return self.len(t.args[0])
        if t.op in ('add', 'cat', 'binAdd'):
            return sum(self(x) for x in t.args)
        if t.op in ('max', 'min'):
            return (max if t.op == 'max' else min)([self(x) for x in t.args])
        if t.op in ('ceil', 'floor', 'int', 'abs', 'unUSub', 'binUSub', 'neg', 'usub') and t.args:
            x = self(t.args[0])
            return {'ceil': lambda: -int(-x // 1), 'floor': lambda: int(x // 1), 'int': lambda: int(x),
                    'abs': lambda: abs(x)}.get(t.op, lambda: -x)()
        if len(t.args) == 2 and isinstance(t.args[0], (T, K)) and isinstance(t.args[1], (T, K)):
            f = {'binSub': lambda x, y: x - y, 'mul': lambda x, y: x * y, 'times': lambda x, y: x * y,
                 'binFloorDiv': lambda x, y: x // y, 'binMod': lambda x, y: x % y, 'mod': lambda x, y: x % y,
                 'binDiv': lambda x, y: Fraction(x) / y, 'div': lambda x, y: Fraction(x) / y,
                 'binBitAnd': lambda x, y: x & y, 'binRShift': lambda x, y: x >> y, 'binLShift': lambda x, y: x << y}.get(t.op)
            if f:
                try:
                    return f(self(t.args[0]), self(t.args[1]))
                except (ZeroDivisionError, TypeError):
                    raise NoValue(t)
        raise NoValue(t)

    def holds(self, t):
        """truth of a decision, None if it is not about numbers"""
        try:
            if t.op in ('truthy', 'nonempty'):
                x = t.args[0]
                if isinstance(x, T) and x.op in ('rd', 'cm', 'pack', 'concat'):
                    return self.len(x) > 0
                return self(x) != 0
            if t.op == 'eq' and isinstance(t.args[1], K) and isinstance(t.args[1].v, bytes):
                return (self.len(t.args[0]) == 0) if t.args[1].v == b'' else None
            f = {'eq': lambda x, y: x == y, 'lt': lambda x, y: x < y, 'le': lambda x, y: x <= y, 'gt': lambda x, y: x > y,
                 'ge': lambda x, y: x >= y}.get(t.op)
            if f:
                return f(self(t.args[0]), self(t.args[1]))
        except NoValue:
            return None
        return None
