"""Interprocedural, path-sensitive dataflow (abstract interpretation) over the package's syntax trees.

No code of the package is executed: every function is interpreted over abstract values (terms.py).
Branches on unknown conditions are followed both ways under recorded, mutually consistent facts;
loops over unknown collections are summarised by zero or one representative element; calls are
resolved through the class hierarchy and analysed in context.
"""
import ast
import builtins

from .streams import off_path
from .terms import (K, T, Ref, Cls, Fn, Bound, Mod, Ext, Tup, EnumM, ExcV, SuperV, FD, FL, OV, Star,
                    NONE, TRUE, FALSE, EMPTY, cat, join, comps, under, subterms)
from .prog import load_modules, ClassInfo, FuncInfo, AnalysisBroken
from .prog import walk_own

REMOVED = K('\0removed')
FS_KINDS = frozenset(('absent', 'file', 'dir'))


class HInst:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class HDict:
    __slots__ = ('items', 'open')

    def __init__(self, items, open_=False):
        self.items = items
        self.open = open_      # may hold further unknown keys


class HList:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class HFrame:
    __slots__ = ('vars', 'parent', 'fn', 'globals_')

    def __init__(self, vars_, parent, fn, globals_=()):
        self.vars = vars_
        self.parent = parent
        self.fn = fn
        self.globals_ = globals_


class State:
    __slots__ = ('heap', 'store', 'facts', 'eqs', 'kinds', 'fs', 'dirs', 'ev', 'dev', 'tags', 'exc')

    def __init__(self):
        self.heap = {}
        self.store = {}
        self.facts = {}
        self.eqs = {}
        self.kinds = {}
        self.fs = {}
        self.dirs = frozenset()
        self.ev = None
        self.dev = frozenset()
        self.tags = frozenset()
        self.exc = None

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.store = dict(self.store)
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.kinds = dict(self.kinds)
        s.fs = dict(self.fs)
        s.dirs = self.dirs
        s.ev = self.ev
        s.dev = self.dev
        s.tags = self.tags
        s.exc = self.exc
        return s

    def event(self, *e):
        self.ev = (e, self.ev)

    def events(self):
        out = []
        e = self.ev
        while e is not None:
            out.append(e[0])
            e = e[1]
        out.reverse()
        return out


class Cut(Exception):
    pass


_counter = [0]


def fresh_addr():
    _counter[0] += 1
    return _counter[0]


class Interp:
    MAX_DEPTH = 40
    MAX_WHILE = 3
    MAX_RANGE = 70
    eager_gen = False         # run the body of a generator at the call (its values become a list)
    streams = None            # model of stream positions (streams.Streams)
    unroll_range = 0          # a range of unknown length is taken with every length up to this one
    CONCRETE_MODS = ('uuid', 'datetime')

    def __init__(self, pkg_dir=None):
        from . import models, models_lib
        self.unordered = models_lib.unordered
        self.models = models
        self.mods = load_modules(pkg_dir)
        self.base = State()
        self.sink = []
        self.stack = []           # (FuncInfo, call node)
        self.catch = []           # active silently-catching handler sets
        self.input_roots = set()
        self.virtual_roots = set()
        self.max_dev = None       # None: unlimited
        self.policy = 'present'
        self.cuts = 0
        self.stats = dict(calls=0, forks=0, stmts=0, opaque=0, cut=0)
        self.hooks = {}           # qualname -> callable(interp, args, kwargs, st, node) -> [(v, st)] | NotImplemented
        self.opaque_names = {}
        self.sites = set()
        self.funcs_seen = set()
        self.node_mod = None
        self.shared_limit = 0
        self.in_init = True
        self.max_results = 60000
        self.free_subjects = frozenset()
        self.listings = {}        # folder term -> names it is known to hold
        self.order = None        # the order a listing comes in
        self.known_content = False    # files with known lines are read
        self.free_pred = None     # conditions that may go either way without counting as a deviation
        self.fork_filter = None
        self.trace_calls = set()
        self.frozen = {}
        self.classes = {}
        self.loading = []
        for name in sorted(self.mods):
            self.load(name)
        self.in_init = False
        self.shared_limit = _counter[0]
        self.shared_heap = dict(self.base.heap)

    # ------------------------------------------------------------------ modules
    def load(self, name):
        m = self.mods.get(name)
        if m is None:
            return None
        if m.state:
            return m
        m.state = 1
        if '.' in name:
            self.load(name.rsplit('.', 1)[0])
        fi = FuncInfo(ast.parse('def _module(): pass').body[0], m, None, name + '.<module>', 'plain')
        fi.is_module = True
        m.ns['__name__'] = K(name)
        m.ns['__file__'] = K(m.rel)
        addr = fresh_addr()
        self.base.heap[addr] = HFrame({}, None, fi)
        m.frame = addr
        self.loading.append(m)
        old = self.sink
        self.sink = []
        try:
            body = [s for s in m.tree.body if not self.is_main_guard(s)]
            states = [self.base]
            outs = self.exec_block(body, self.base, addr)
            done = [o for o in outs if o[0] == 'next']
            if done:
                self.base = done[0][2]
        finally:
            self.sink = old
            self.loading.pop()
        m.state = 2
        return m

    @staticmethod
    def is_main_guard(s):
        return isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and isinstance(s.test.left, ast.Name) \
            and s.test.left.id == '__name__'

    def mod_attr(self, name, attr):
        m = self.load(name)
        if m is None:
            return None
        if attr in m.ns:
            return m.ns[attr]
        sub = name + '.' + attr
        if sub in self.mods:
            self.load(sub)
            return Mod(sub)
        return None

    def get_class(self, qual):
        """qual like 'v8unpack.decoder.Decoder'"""
        mod, _, n = qual.rpartition('.')
        v = self.mod_attr(mod, n)
        if not isinstance(v, Cls):
            raise AnalysisBroken('class %s not found' % qual)
        return v

    def get_func(self, qual):
        mod, _, n = qual.rpartition('.')
        v = self.mod_attr(mod, n) if mod in self.mods else None
        if v is None:
            c = self.get_class(mod)
            _, v = c.info.lookup(n)
        if v is None:
            raise AnalysisBroken('function %s not found' % qual)
        return v

    # ------------------------------------------------------------------ heap helpers
    def new(self, st, obj):
        a = fresh_addr()
        st.heap[a] = obj
        return Ref(a)

    def obj(self, st, ref):
        o = st.heap.get(ref.addr)
        if o is None:       # a module loaded while this path was running
            o = st.heap[ref.addr] = self.base.heap[ref.addr]
        return o

    def new_dict(self, st, items=None):
        return self.new(st, HDict(dict(items or {})))

    def new_list(self, st, items=()):
        return self.new(st, HList(items))

    def set_obj(self, st, ref, obj, node=None, what=''):
        if ref.addr <= self.shared_limit and not self.in_init:
            st.event('shared-write', ref, what, self.where(node))
        st.heap[ref.addr] = obj

    def where(self, node=None):
        for fi, _ in reversed(self.stack):
            if fi is not None:
                ln = getattr(node, 'lineno', None)
                return '%s:%s %s' % (fi.mod.rel, ln if ln else fi.node.lineno, fi.qual.replace('v8unpack.', '', 1))
        return '?'

    def cur_func(self):
        return self.stack[-1][0] if self.stack else None

    # ------------------------------------------------------------------ names
    def lookup(self, name, frame, st):
        a = frame
        while a is not None:
            f = st.heap[a]
            if name in f.vars:
                return f.vars[name]
            a = f.parent
        mod = st.heap[frame].fn.mod
        if name in mod.ns:
            return mod.ns[name]
        if name == '__class__':
            fn = st.heap[frame].fn
            if fn.owner:
                return Cls(fn.owner)
        if hasattr(builtins, name):
            b = getattr(builtins, name)
            if name in ('True', 'False', 'None'):
                return K(b)
            return Ext(name)
        return None

    def assign_name(self, name, v, frame, st):
        f = st.heap[frame]
        if getattr(f.fn, 'is_module', False):
            f.fn.mod.ns[name] = v
            return
        if name in f.globals_:
            kind, target = f.globals_[name] if isinstance(f.globals_, dict) else ('global', None)
            if kind == 'global':
                st.event('global-write', f.fn.mod.name + '.' + name, self.where())
                st.heap[frame] = HFrame({**f.vars, name: v}, f.parent, f.fn, f.globals_)
                return
            # nonlocal
            a = f.parent
            while a is not None:
                p = st.heap[a]
                if name in p.vars:
                    st.heap[a] = HFrame({**p.vars, name: v}, p.parent, p.fn, p.globals_)
                    return
                a = p.parent
        st.heap[frame] = HFrame({**f.vars, name: v}, f.parent, f.fn, f.globals_)

    # ------------------------------------------------------------------ raising
    def raise_(self, exc, st):
        self.sink.append((exc, st))

    def raise_builtin(self, name, st, *args):
        self.raise_(ExcV(Ext(name), args), st)

    def catchable(self, name):
        """is an implicit exception of this builtin class silently absorbed somewhere up the stack?"""
        e = getattr(builtins, name, None)
        for names in reversed(self.catch):
            for n in names:
                if n == name:
                    return True
                h = getattr(builtins, n, None)
                if isinstance(e, type) and isinstance(h, type) and h not in (Exception, BaseException, OSError) \
                        and issubclass(e, h):
                    return True
        return False

    def exc_matches(self, exc, handler_val):
        """does exception value match the handler type value?"""
        hs = handler_val.items if isinstance(handler_val, Tup) else (handler_val,)
        cls = exc.cls
        for h in hs:
            if isinstance(h, Ext):
                hn = h.name.split('.')[-1]
                he = getattr(builtins, hn, None)
                if isinstance(cls, Ext):
                    ce = getattr(builtins, cls.name.split('.')[-1], None)
                    if cls.name.split('.')[-1] == hn:
                        return True
                    if isinstance(he, type) and isinstance(ce, type) and issubclass(ce, he):
                        return True
                    if ce is None and he in (Exception, BaseException):
                        return True
                elif isinstance(cls, Cls):
                    for b in cls.info.ext_bases():
                        ce = getattr(builtins, b.split('.')[-1], None)
                        if isinstance(ce, type) and isinstance(he, type) and issubclass(ce, he):
                            return True
                elif he in (Exception, BaseException):
                    return True
            elif isinstance(h, Cls):
                if isinstance(cls, Cls) and cls.info.is_sub(h.info):
                    return True
        return False

    # ------------------------------------------------------------------ conditions
    def subject(self, t):
        """the input artefact a condition talks about (for combination bounding)"""
        if t is None:
            return None
        best = None
        if t.op == 'nonempty':
            return t
        for s in subterms(t):
            if isinstance(s, T) and s.op in ('bytes', 'brace', 'json', 'size', 'exists', 'isfile', 'isdir',
                                             'bigb64', 'treeof'):
                return s.args[0]
            if isinstance(s, T) and best is None and s.op == 'param':
                best = s
        return best if best is not None else t

    def deviate(self, st, subj):
        if self.max_dev is None:
            return True
        if subj is None or subj in st.dev or subj in self.free_subjects:
            return True
        if len(st.dev) >= self.max_dev:
            self.stats['cut'] += 1
            return False
        st.dev = st.dev | {subj}
        return True

    def split(self, t, st, default=True):
        """fork on the truth of boolean term t; returns [(bool, state)]"""
        neg = False
        while isinstance(t, T) and t.op == 'not':
            t = t.args[0]
            neg = not neg
        f = st.facts.get(t)
        if f is None:
            f = self.models.derive(self, t, st)
        if f is not None:
            return [(f != neg, st)]
        if self.fork_filter is not None:
            forced = self.fork_filter(t, st)
            if forced is not None:
                st.facts[t] = forced
                self.models.learn(self, t, forced, st)
                return [(forced != neg, st)]
        self.stats['forks'] += 1
        default = self.models.default_truth(self, t, default)
        out = []
        s1 = st.fork()
        s1.facts[t] = default
        if self.models.learn(self, t, default, s1):
            out.append((default != neg, s1))
        s2 = st.fork() if out else st
        if (self.free_pred is not None and self.free_pred(t)) or self.deviate(s2, self.subject(t)):
            s2.facts[t] = not default
            if self.models.learn(self, t, not default, s2):
                out.append(((not default) != neg, s2))
        return out

    def truth(self, v, st):
        """[(bool, state)] for the truth of a value"""
        if isinstance(v, K):
            return [(bool(v.v), st)]
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, HDict):
                if o.items:
                    return [(True, st)]
                if o.open:
                    return self.split(T('nonempty', T('ref', v)), st)
                return [(False, st)]
            if isinstance(o, HList):
                if any(not isinstance(i, Star) for i in o.items):
                    return [(True, st)]
                if o.items:
                    return self.split(T('nonempty', self.star_key(o.items[0])), st)
                return [(False, st)]
            if isinstance(o, HInst):
                fn = o.cls.lookup('__bool__')[1] or o.cls.lookup('__len__')[1] if isinstance(o.cls, ClassInfo) else None
                if isinstance(fn, Fn):
                    res = []
                    for r, s in self.call(Bound(v, fn), [], {}, st, None):
                        res.extend(self.truth(r, s))
                    return res
                return [(True, st)]
        if isinstance(v, Tup):
            return [(bool(v.items), st)]
        if isinstance(v, T):
            if v.op in self.models.BOOL_OPS:
                return self.split(v, st)
            if v.op in self.models.TRUTHY_OPS:
                return [(True, st)]
            if v in st.eqs:
                return [(bool(st.eqs[v].v), st)]
            if v.op == 'cat' and any(isinstance(a, K) and a.v for a in v.args):
                return [(True, st)]
            return self.split(T('truthy', v), st)
        return [(True, st)]

    @staticmethod
    def star_key(star):
        if isinstance(star.v, Tup) and not any(isinstance(x, Ref) for x in subterms(star.v)):
            return T('starv', star.v)
        return star.v if isinstance(star.v, T) else T('starv', K(repr(star.v)))

    def equal(self, a, b, st):
        """value term / constant for a == b"""
        if a is b or a == b:
            return TRUE
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v == b.v)
        if isinstance(a, T) and a in st.eqs:
            a = st.eqs[a]
        if isinstance(b, T) and b in st.eqs:
            b = st.eqs[b]
        if isinstance(a, K) and isinstance(b, K):
            return K(a.v == b.v)
        if isinstance(a, EnumM) and isinstance(b, EnumM):
            return K(a == b)
        if isinstance(a, EnumM) and isinstance(b, (K,)) or isinstance(b, EnumM) and isinstance(a, K):
            return FALSE
        if isinstance(a, K) and not isinstance(b, K):
            a, b = b, a
        if isinstance(b, K):
            if isinstance(a, (Ref, Cls, Fn, Bound, Mod, Tup)):
                if isinstance(a, Ref) and b.v is not None:
                    return T('eq', T('ref', a), b)
                return FALSE
            if isinstance(a, Ext):
                return FALSE if b.v is None else T('eq', T('ext', K(a.name)), b)
            if b.v is None and isinstance(a, (T,)) and a.op in self.models.NONNULL_OPS:
                return FALSE
            if isinstance(a, T) and a.op == 'len' and isinstance(b.v, int):
                tr = st.facts.get(T('truthy', a.args[0]))
                if tr is False:
                    return K(b.v == 0)
                if tr is True and b.v == 0:
                    return FALSE
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            parts = [self.equal(x, y, st) for x, y in zip(a.items, b.items)]
            if FALSE in parts:
                return FALSE
            parts = [x for x in parts if x is not TRUE]
            if not parts:
                return TRUE
            if len(parts) == 1:
                return parts[0]
        if isinstance(a, T) and isinstance(b, T) and (a.op == 'join' or b.op == 'join') and self.models.other_path(a, b):
            return FALSE
        if isinstance(a, (T, K, EnumM)) and isinstance(b, (T, K, EnumM)):
            if not isinstance(b, K) and not isinstance(a, K):
                if repr(a) > repr(b):
                    a, b = b, a
            return T('eq', a, b)
        return T('eq', self.as_term(a), self.as_term(b))

    @staticmethod
    def as_term(v):
        return v if isinstance(v, (T, K)) else T('val', K(repr(v)))

    # ------------------------------------------------------------------ trees (symbolic nested lists)
    def read_loc(self, base, key, st):
        """value at tree location base[key]"""
        loc = T('idx', base, key)
        v = st.store.get(loc)
        if v is not None:
            return v
        if loc in st.eqs:
            return st.eqs[loc]
        return loc

    def write_loc(self, base, key, v, st):
        loc = T('idx', base, key)
        v = self.models.canon(self, v, st)
        if v is loc or (isinstance(v, K) and st.eqs.get(loc) is v):
            st.store.pop(loc, None)
        else:
            st.store[loc] = v
        st.event('tree-write', loc, v, self.where())

    # ------------------------------------------------------------------ freeze / thaw
    def freeze(self, v, st, jsonkeys=False, seen=()):
        if isinstance(v, Ref):
            if v in seen:
                return T('cycle')
            o = self.obj(st, v)
            if isinstance(o, HDict):
                items = []
                for k, x in o.items.items():
                    if jsonkeys and isinstance(k, K) and not isinstance(k.v, str):
                        k = K(str(k.v).lower() if isinstance(k.v, bool) else str(k.v))
                    items.append((k, self.freeze(x, st, jsonkeys, seen + (v,))))
                return FD(tuple(items), o.open)
            if isinstance(o, HList):
                return FL(tuple(Star(self.freeze(x.v, st, jsonkeys, seen + (v,))) if isinstance(x, Star)
                                else self.freeze(x, st, jsonkeys, seen + (v,)) for x in o.items))
            if isinstance(o, HInst):
                return T('inst', K(o.cls.name if isinstance(o.cls, ClassInfo) else str(o.cls)))
        if isinstance(v, Tup):
            return FL(tuple(self.freeze(x, st, jsonkeys, seen) for x in v.items))
        if isinstance(v, T):
            ov = self.overlay(v, st, jsonkeys, seen)
            return OV(v, ov) if ov else v
        return v

    def overlay(self, root, st, jsonkeys=False, seen=()):
        if root.op not in ('brace', 'idx', 'json', 'elem', 'param'):
            return ()
        if not st.store:
            return ()
        out = []
        for loc, v in st.store.items():
            # is loc below root, with no overwritten ancestor in between?
            a = loc
            ok = False
            while isinstance(a, T) and a.op == 'idx':
                a = a.args[0]
                if a is root:
                    ok = True
                    break
                if a in st.store:
                    break
            if ok:
                fv = self.freeze(v, st, jsonkeys, seen) if v is not loc else v
                if fv is loc:
                    continue
                out.append((loc, fv))
        out.sort(key=lambda x: repr(x[0]))
        return tuple(out)

    def thaw(self, f, st):
        if isinstance(f, FD):
            return self.new(st, HDict({k: self.thaw(x, st) for k, x in f.key[0]}, f.key[1]))
        if isinstance(f, FL):
            return self.new_list(st, [Star(self.thaw(x.v, st)) if isinstance(x, Star) else self.thaw(x, st)
                                      for x in f.key[0]])
        if isinstance(f, OV):
            root, ov = f.key
            self.clear_overlay(root, st)
            for loc, x in ov:
                st.store[loc] = self.thaw(x, st)
            return root
        if isinstance(f, T) and f.op in ('brace', 'idx', 'json', 'elem'):
            self.clear_overlay(f, st)
        return f

    def thaw_copy(self, f, st):
        if isinstance(f, FD):
            return self.new(st, HDict({k: self.thaw_copy(x, st) for k, x in f.key[0]}, f.key[1]))
        if isinstance(f, FL):
            return self.new_list(st, [Star(self.thaw_copy(x.v, st)) if isinstance(x, Star)
                                      else self.thaw_copy(x, st) for x in f.key[0]])
        if isinstance(f, OV):
            return T('copy', f.key[0])
        return f

    @staticmethod
    def clear_overlay(root, st):
        for loc in list(st.store):
            a = loc
            while isinstance(a, T) and a.op == 'idx':
                a = a.args[0]
                if a is root:
                    del st.store[loc]
                    break

    # ------------------------------------------------------------------ statements
    def exec_block(self, stmts, st, frame):
        """-> [(kind, value, state)] kind in next/ret/raise/brk/cont"""
        states = [st]
        outs = []
        for s in stmts:
            nxt = []
            for x in states:
                for o in self.exec_stmt(s, x, frame):
                    if o[0] == 'next':
                        nxt.append(o[2])
                    else:
                        outs.append(o)
            states = nxt
            if not states:
                break
            if len(states) + len(outs) > self.max_results:
                raise Cut('too many states in %s' % self.where(s))
        outs.extend(('next', None, x) for x in states)
        return outs

    def exec_stmt(self, s, st, frame):
        self.stats['stmts'] += 1
        old = self.sink
        self.sink = []
        try:
            m = getattr(self, 'st_' + type(s).__name__, None)
            if m is None:
                outs = [('next', None, st)]
            else:
                outs = m(s, st, frame)
            outs = list(outs)
            outs.extend(('raise', e, x) for e, x in self.sink)
            return outs
        finally:
            self.sink = old

    def st_Expr(self, s, st, frame):
        if isinstance(s.value, ast.Constant):
            return [('next', None, st)]
        return [('next', None, x) for _, x in self.ev(s.value, st, frame)]

    def st_Pass(self, s, st, frame):
        return [('next', None, st)]

    def st_Return(self, s, st, frame):
        if s.value is None:
            return [('ret', NONE, st)]
        return [('ret', v, x) for v, x in self.ev(s.value, st, frame)]

    def st_Assign(self, s, st, frame):
        out = []
        for v, x in self.ev(s.value, st, frame):
            xs = [x]
            for t in s.targets:
                xs = [z for y in xs for z in self.assign(t, v, y, frame)]
            out.extend(('next', None, y) for y in xs)
        return out

    def st_AnnAssign(self, s, st, frame):
        if s.value is None:
            return [('next', None, st)]
        return [('next', None, y) for v, x in self.ev(s.value, st, frame) for y in self.assign(s.target, v, x, frame)]

    def st_AugAssign(self, s, st, frame):
        load = ast.copy_location(_as_load(s.target), s.target)
        out = []
        for a, x in self.ev(load, st, frame):
            for b, y in self.ev(s.value, x, frame):
                if isinstance(a, Ref) and isinstance(self.obj(y, a), HList) and isinstance(s.op, ast.Add):
                    self.list_extend(a, b, y, s)
                    out.extend(('next', None, z) for z in self.assign(s.target, a, y, frame))
                    continue
                for v, z in self.binop(s.op, a, b, y, s):
                    out.extend(('next', None, w) for w in self.assign(s.target, v, z, frame))
        return out

    def st_Delete(self, s, st, frame):
        states = [st]
        for t in s.targets:
            nxt = []
            for x in states:
                if isinstance(t, ast.Name):
                    f = x.heap[frame]
                    vs = dict(f.vars)
                    vs.pop(t.id, None)
                    x.heap[frame] = HFrame(vs, f.parent, f.fn, f.globals_)
                    nxt.append(x)
                elif isinstance(t, ast.Subscript):
                    for b, y in self.ev(t.value, x, frame):
                        for k, z in self.ev_slice(t.slice, y, frame):
                            self.del_item(b, k, z, t)
                            nxt.append(z)
                else:
                    nxt.append(x)
            states = nxt
        return [('next', None, x) for x in states]

    def del_item(self, b, k, st, node):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, HDict) and k in o.items:
                it = dict(o.items)
                del it[k]
                self.set_obj(st, b, HDict(it, o.open), node, 'del')
            elif isinstance(o, HList) and isinstance(k, K) and isinstance(k.v, int):
                it = list(o.items)
                try:
                    del it[k.v]
                except IndexError:
                    pass
                self.set_obj(st, b, HList(it), node, 'del')
            elif isinstance(o, HList) and self.part(k, o) is not None:
                it = list(o.items)
                del it[self.part(k, o)]
                self.set_obj(st, b, HList(it), node, 'del')
        elif isinstance(b, T):
            kk = k if isinstance(k, (K, T)) else T('slice_', K(repr(k)))
            st.store[T('idx', b, T('del', kk))] = REMOVED
            st.event('tree-del', b, k, self.where(node))

    @staticmethod
    def part(k, o):
        '''the slice a subscript denotes, if it and the list are known'''
        if not (isinstance(k, Tup) and len(k.items) == 4 and k.items[0] is K('\0slice')) or any(isinstance(x, Star) for x in o.items):
            return None
        if not all(isinstance(x, K) and (x.v is None or isinstance(x.v, int)) for x in k.items[1:]):
            return None
        return slice(*[x.v for x in k.items[1:]])

    def st_If(self, s, st, frame):
        out = []
        for b, x in self.cond(s.test, st, frame):
            out.extend(self.exec_block(s.body if b else s.orelse, x, frame))
        return out

    def cond(self, e, st, frame):
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            res = []
            pend = [st]
            for i, sub in enumerate(e.values):
                nxt = []
                for x in pend:
                    for b, y in self.cond(sub, x, frame):
                        if b == isand and i < len(e.values) - 1:
                            nxt.append(y)
                        else:
                            res.append((b, y))
                pend = nxt
            return res
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not b, x) for b, x in self.cond(e.operand, st, frame)]
        res = []
        for v, x in self.ev(e, st, frame):
            res.extend(self.truth(v, x))
        return res

    def iterate(self, v, st, node):
        """-> list of (list of element values | None for opaque, state). Elements may be Star."""
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, HList):
                return [(list(o.items), st)]
            if isinstance(o, HDict):
                it = list(o.items)
                if o.open:
                    it.append(Star(T('elem', T('ref', v))))
                return [(it, st)]
            if isinstance(o, HInst):
                if not isinstance(o.cls, str) or o.cls != 'file':
                    return [([Star(T('elem', T('ref', v)))], st)]
                known = self.models.known_lines(self, v, st)
                if known is not None:
                    return [(known, st)]
                return [([Star(T('line', self.models.file_term(self, v, st)))], st)]
        if isinstance(v, Tup):
            return [(list(v.items), st)]
        if isinstance(v, K):
            if isinstance(v.v, str):
                return [([K(c) for c in v.v], st)]
            if isinstance(v.v, bytes):
                return [([K(c) for c in v.v], st)]
            if isinstance(v.v, tuple):
                return [([K(c) for c in v.v], st)]
            self.raise_builtin('TypeError', st, K('not iterable'))
            return []
        if isinstance(v, Cls) and v.info.is_enum:
            return [(self.enum_members(v.info), st)]
        if isinstance(v, T):
            if v.op == 'rangek':
                return [([K(i) for i in range(*[a.v for a in v.args])], st)]
            return [([Star(self.models.elem_of(v))], st)]
        return [([Star(T('elem', self.as_term(v)))], st)]

    def enum_members(self, info):
        out = []
        for c in reversed([c for c in info.mro if isinstance(c, ClassInfo)]):
            for n, v in c.ns.items():
                if not n.startswith('_') and isinstance(v, K):
                    out.append(EnumM(info, n, v))
        return out

    def st_For(self, s, st, frame):
        outs = []
        for it, x in self.ev(s.iter, st, frame):
            for items, y in self.iterate(it, x, s):
                outs.extend(self.loop(s, items, y, frame))
        return outs

    def loop(self, s, items, st, frame):
        outs = []
        pend = [st]
        for item in items:
            nxt = []
            for x in pend:
                if isinstance(item, Star):
                    alts = self.split(T('nonempty', self.star_key(item)), x)
                    elem = item.v
                else:
                    alts = [(True, x)]
                    elem = item
                for b, y in alts:
                    if not b:
                        nxt.append(y)
                        continue
                    for z in self.assign(s.target, elem, y, frame):
                        for o in self.exec_block(s.body, z, frame):
                            if o[0] in ('next', 'cont'):
                                nxt.append(o[2])
                            elif o[0] == 'brk':
                                outs.append(('next', None, o[2]))
                            else:
                                outs.append(o)
            pend = nxt
        for x in pend:
            if s.orelse:
                outs.extend(self.exec_block(s.orelse, x, frame))
            else:
                outs.append(('next', None, x))
        return outs

    def st_While(self, s, st, frame):
        outs = []
        pend = [st]
        for i in range(200):
            limit = 80 if self.known_content else self.MAX_WHILE
            nxt = []
            for x in pend:
                for b, y in self.cond(s.test, x, frame):
                    if not b:
                        if s.orelse:
                            outs.extend(self.exec_block(s.orelse, y, frame))
                        else:
                            outs.append(('next', None, y))
                        continue
                    if i >= limit:
                        self.stats['cut'] += 1
                        continue
                    for o in self.exec_block(s.body, y, frame):
                        if o[0] in ('next', 'cont'):
                            nxt.append(o[2])
                        elif o[0] == 'brk':
                            outs.append(('next', None, o[2]))
                        else:
                            outs.append(o)
            pend = nxt
            if not pend:
                break
        return outs

    def st_Break(self, s, st, frame):
        return [('brk', None, st)]

    def st_Continue(self, s, st, frame):
        return [('cont', None, st)]

    def st_Raise(self, s, st, frame):
        if s.exc is None:
            return [('raise', st.exc or ExcV(Ext('Exception')), st)]
        out = []
        for v, x in self.ev(s.exc, st, frame):
            if isinstance(v, (Cls, Ext)):
                for w, y in self.call(v, [], {}, x, s):
                    out.append(('raise', w if isinstance(w, ExcV) else ExcV(v), y))
                continue
            if not isinstance(v, ExcV):
                v = ExcV(Ext('Exception'), self.as_term(v))
            x.event('raise', v, self.where(s))
            out.append(('raise', v, x))
        return out

    def st_Assert(self, s, st, frame):
        out = []
        for b, x in self.cond(s.test, st, frame):
            if b:
                out.append(('next', None, x))
            else:
                out.append(('raise', ExcV(Ext('AssertionError')), x))
        return out

    def st_Global(self, s, st, frame):
        f = st.heap[frame]
        g = dict(f.globals_) if isinstance(f.globals_, dict) else {}
        for n in s.names:
            g[n] = ('global', None)
        st.heap[frame] = HFrame(f.vars, f.parent, f.fn, g)
        return [('next', None, st)]

    def st_Nonlocal(self, s, st, frame):
        f = st.heap[frame]
        g = dict(f.globals_) if isinstance(f.globals_, dict) else {}
        for n in s.names:
            g[n] = ('nonlocal', None)
        st.heap[frame] = HFrame(f.vars, f.parent, f.fn, g)
        return [('next', None, st)]

    def handler_names(self, h):
        if h.type is None:
            return ['BaseException']
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        return [t.id if isinstance(t, ast.Name) else t.attr if isinstance(t, ast.Attribute) else '?' for t in ts]

    def st_Try(self, s, st, frame):
        silent = set()
        for h in s.handlers:
            if not always_raises(h.body):
                silent.update(self.handler_names(h))
        self.catch.append(silent)
        try:
            outs = self.exec_block(s.body, st, frame)
        finally:
            self.catch.pop()
        res = []
        for o in outs:
            if o[0] == 'raise':
                res.extend(self.handle(s, o, frame))
            elif o[0] == 'next' and s.orelse:
                res.extend(self.exec_block(s.orelse, o[2], frame))
            else:
                res.append(o)
        if not s.finalbody:
            return res
        fin = []
        for kind, v, x in res:
            for o in self.exec_block(s.finalbody, x, frame):
                if o[0] == 'next':
                    fin.append((kind, v, o[2]))
                else:
                    fin.append(o)
        return fin

    def handle(self, s, o, frame):
        _, exc, st = o
        for h in s.handlers:
            if h.type is None:
                ok = True
                x = st
            else:
                r = self.ev(h.type, st, frame)
                if not r:
                    continue
                hv, x = r[0]
                ok = self.exc_matches(exc, hv)
            if ok:
                prev = x.exc
                x.exc = exc
                x.event('caught', exc, self.where(h), always_raises(h.body))
                if h.name:
                    self.assign_name(h.name, exc, frame, x)
                outs = self.exec_block(h.body, x, frame)
                for oo in outs:
                    oo[2].exc = prev
                return outs
        return [o]

    def st_With(self, s, st, frame):
        return self.with_items(s, 0, st, frame)

    def with_items(self, s, i, st, frame):
        if i == len(s.items):
            return self.exec_block(s.body, st, frame)
        item = s.items[i]
        outs = []
        for v, x in self.ev(item.context_expr, st, frame):
            entered = [(v, x)]
            exit_fn = None
            if isinstance(v, Ref):
                o = self.obj(x, v)
                if isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
                    en = o.cls.lookup('__enter__')[1]
                    exit_fn = o.cls.lookup('__exit__')[1]
                    if isinstance(en, Fn):
                        entered = self.call(Bound(v, en), [], {}, x, s)
            for w, y in entered:
                ys = self.assign(item.optional_vars, w, y, frame) if item.optional_vars is not None else [y]
                for z in ys:
                    for o in self.with_items(s, i + 1, z, frame):
                        if isinstance(exit_fn, Fn):
                            for _, q in self.call(Bound(v, exit_fn), [NONE, NONE, NONE], {}, o[2], s):
                                outs.append((o[0], o[1], q))
                        else:
                            self.models.exit_context(self, v, o[2], s)
                            outs.append(o)
        return outs

    def st_FunctionDef(self, s, st, frame):
        fs = st.heap[frame].fn
        cls = getattr(self, '_class_under_def', None)
        outs = []
        for f, x in self.make_function(s, st, frame, None, fs.qual.replace('.<module>', '') + '.' + s.name):
            v = f
            for d in reversed(s.decorator_list):
                r = self.ev(d, x, frame)
                if not r:
                    continue
                dv, x = r[0]
                v = self.decorate(dv, v, x)
            self.assign_name(s.name, v, frame, x)
            outs.append(('next', None, x))
        return outs

    def decorate(self, dv, v, st):
        if isinstance(dv, Ext):
            n = dv.name.split('.')[-1]
            if isinstance(v, Fn):
                if n == 'staticmethod':
                    v.info.kind = 'static'
                elif n == 'classmethod':
                    v.info.kind = 'class'
                elif n in ('property', 'cached_property'):
                    v.info.kind = 'property'
                elif n in ('lru_cache', 'cache'):
                    v.info.decorators.append('cache')
                return v
        if isinstance(dv, T) and dv.op == 'attr' and isinstance(v, Fn):
            return v
        if isinstance(v, Fn):
            v.info.decorators.append(repr(dv))
        return v

    def make_function(self, s, st, frame, owner, qual):
        fi = FuncInfo(s, st.heap[frame].fn.mod, owner, qual, 'plain')
        if owner is None:
            fi.owner = st.heap[frame].fn.owner if not getattr(st.heap[frame].fn, 'is_module', False) else None
            fi.nested = True
        x = st
        ds = []
        for d in s.args.defaults:
            r = self.ev(d, x, frame)
            if r:
                v, x = r[0]
                ds.append(v)
            else:
                ds.append(T('default'))
        kd = []
        for d in s.args.kw_defaults:
            if d is None:
                kd.append(None)
                continue
            r = self.ev(d, x, frame)
            if r:
                v, x = r[0]
                kd.append(v)
            else:
                kd.append(T('default'))
        fi.defaults = ds
        fi.kw_defaults = kd
        closure = None if getattr(x.heap[frame].fn, 'is_module', False) else frame
        return [(Fn(fi, closure), x)]

    st_AsyncFunctionDef = st_FunctionDef

    def st_ClassDef(self, s, st, frame):
        fs = st.heap[frame].fn
        ci = ClassInfo(s.name, fs.qual.replace('.<module>', '') + '.' + s.name, fs.mod, s)
        x = st
        for b in s.bases:
            r = self.ev(b, x, frame)
            if r:
                bv, x = r[0]
                if isinstance(bv, (Cls, Ext)):
                    ci.bases.append(bv)
        if not ci.bases:
            ci.bases = [Ext('object')]
        # class body
        bfi = FuncInfo(ast.parse('def _b(): pass').body[0], fs.mod, ci, ci.qual, 'plain')
        a = fresh_addr()
        x.heap[a] = HFrame({}, None, bfi)
        for b in s.body:
            if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f, x = self.make_function(b, x, a, ci, ci.qual + '.' + b.name)[0]
                f = Fn(f.info, None)
                v = f
                is_setter = False
                for d in reversed(b.decorator_list):
                    if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
                        is_setter = d.attr
                        continue
                    r = self.ev(d, x, a)
                    if r:
                        dv, x = r[0]
                        v = self.decorate(dv, v, x)
                if is_setter == 'setter':
                    prop = x.heap[a].vars.get(b.name)
                    if isinstance(prop, Fn):
                        prop.info.setter = f
                    continue
                if is_setter:
                    continue
                self.assign_name(b.name, v, a, x)
                continue
            outs = self.exec_stmt(b, x, a)
            nx = [o for o in outs if o[0] == 'next']
            if nx:
                x = nx[0][2]
        ci.ns = dict(x.heap[a].vars)
        ci.ns.setdefault('__name__', K(s.name))
        ci.ns.setdefault('__qualname__', K(s.name))
        ci.ns.setdefault('__module__', K(fs.mod.name))
        self.classes[ci.qual] = ci
        self.assign_name(s.name, Cls(ci), frame, x)
        return [('next', None, x)]

    def st_Import(self, s, st, frame):
        for a in s.names:
            if a.name.split('.')[0] == 'v8unpack':
                self.load(a.name)
                v = Mod(a.name if a.asname else 'v8unpack')
            else:
                v = Ext(a.name if a.asname else a.name.split('.')[0])
            self.assign_name(a.asname or a.name.split('.')[0], v, frame, st)
        return [('next', None, st)]

    def st_ImportFrom(self, s, st, frame):
        mod = st.heap[frame].fn.mod
        base = s.module or ''
        if s.level:
            p = mod.name.split('.')
            if not mod.is_pkg:
                p = p[:-1]
            p = p[:len(p) - (s.level - 1)]
            base = '.'.join(p + ([base] if base else []))
        for a in s.names:
            if base.split('.')[0] == 'v8unpack':
                if a.name == '*':
                    m = self.load(base)
                    if m:
                        for n, v in m.ns.items():
                            if not n.startswith('_'):
                                self.assign_name(n, v, frame, st)
                    continue
                v = self.mod_attr(base, a.name)
                if v is None:
                    v = T('unresolved', K(base + '.' + a.name))
            else:
                v = self.models.ext_value(base + '.' + a.name)
            self.assign_name(a.asname or a.name, v, frame, st)
        return [('next', None, st)]

    def st_Match(self, s, st, frame):
        return [('next', None, st)]

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st, frame):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v, frame, st)
            return [st]
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            vals = None
            if isinstance(v, Tup):
                vals = list(v.items)
            elif isinstance(v, Ref) and isinstance(self.obj(st, v), HList) \
                    and not any(isinstance(i, Star) for i in self.obj(st, v).items):
                vals = list(self.obj(st, v).items)
            if vals is not None and not star and len(vals) != n:
                self.raise_builtin('ValueError', st, K('unpack'))
                return []
            states = [st]
            for i, e in enumerate(t.elts):
                nxt = []
                for x in states:
                    if isinstance(e, ast.Starred):
                        if vals is not None:
                            w = self.new_list(x, vals[i:len(vals) - (n - i - 1)])
                        else:
                            w = T('rest', self.as_term(v), K(i))
                        nxt.extend(self.assign(e.value, w, x, frame))
                        continue
                    if vals is not None:
                        w = vals[i if not star or i < star[0] else i - n]
                    else:
                        w = self.models.unpack_elem(self, v, i, x)
                    nxt.extend(self.assign(e, w, x, frame))
                states = nxt
            return states
        if isinstance(t, ast.Attribute):
            out = []
            for b, x in self.ev(t.value, st, frame):
                out.extend(self.set_attr(b, t.attr, v, x, t))
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for b, x in self.ev(t.value, st, frame):
                for k, y in self.ev_slice(t.slice, x, frame):
                    out.extend(self.set_item(b, k, v, y, t))
            return out
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, frame)
        return [st]

    def set_attr(self, b, name, v, st, node):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, HInst):
                if isinstance(o.cls, ClassInfo):
                    _, p = o.cls.lookup(name)
                    if isinstance(p, Fn) and p.info.kind == 'property':
                        if p.info.setter is not None:
                            return [x for _, x in self.call(Bound(b, p.info.setter), [v], {}, st, node)]
                        self.raise_builtin('AttributeError', st)
                        return []
                self.set_obj(st, b, HInst(o.cls, {**o.attrs, name: v}), node, name)
                return [st]
        if isinstance(b, (Cls, Mod)):
            st.event('shared-write', b, name, self.where(node))
            return [st]
        st.event('attr-write', b, name, v, self.where(node))
        if isinstance(b, T):
            st.store[T('attr', b, K(name))] = v
        return [st]

    def set_item(self, b, k, v, st, node):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, HDict):
                it = dict(o.items)
                it[k] = v
                self.set_obj(st, b, HDict(it, o.open), node, repr(k))
                return [st]
            if isinstance(o, HList):
                it = list(o.items)
                if isinstance(k, K) and isinstance(k.v, int):
                    try:
                        it[k.v] = v
                    except IndexError:
                        self.raise_builtin('IndexError', st)
                        return []
                    self.set_obj(st, b, HList(it), node, repr(k))
                elif self.part(k, o) is not None and isinstance(v, Ref) and isinstance(self.obj(st, v), HList) \
                        and not any(isinstance(x, Star) for x in self.obj(st, v).items):
                    try:
                        it[self.part(k, o)] = self.obj(st, v).items
                    except ValueError:
                        self.raise_builtin('ValueError', st)
                        return []
                    self.set_obj(st, b, HList(it), node, '?')
                else:
                    self.set_obj(st, b, HList(it + [Star(v)]), node, '?')
                return [st]
            return [st]
        if isinstance(b, T):
            if isinstance(k, Tup):
                k = T('tup', *[self.as_term(x) for x in k.items])
            elif not isinstance(k, (K, T)):
                k = self.as_term(k)
            self.write_loc(b, k, v, st)
            return [st]
        if isinstance(b, Cls):
            st.event('shared-write', b, repr(k), self.where(node))
        return [st]

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st, frame):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            return [(T('expr', K(type(e).__name__)), st)]
        return m(e, st, frame)

    def ev_list(self, es, st, frame):
        """evaluate expressions left to right -> [(values, state)]"""
        res = [([], st)]
        for e in es:
            nxt = []
            for vs, x in res:
                for v, y in self.ev(e, x, frame):
                    nxt.append((vs + [v], y))
            res = nxt
        return res

    def ev_Constant(self, e, st, frame):
        v = e.value
        if v is Ellipsis:
            return [(T('ellipsis'), st)]
        return [(K(v), st)]

    def ev_Name(self, e, st, frame):
        v = self.lookup(e.id, frame, st)
        if v is None:
            fn = st.heap[frame].fn
            if getattr(fn, 'is_module', False):
                return [(T('undef', K(e.id)), st)]
            self.raise_(ExcV(Ext('UnboundLocalError'), K(e.id)), st)
            return []
        return [(v, st)]

    def ev_Tuple(self, e, st, frame):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return [(Tup(*it), st2) if not any(isinstance(i, Star) for i in it)
                    else (self.new_list(st2, it), st2) for it, st2 in self.ev_elts(e.elts, st, frame)]
        return [(Tup(*vs), x) for vs, x in self.ev_list(e.elts, st, frame)]

    def ev_elts(self, elts, st, frame):
        res = [([], st)]
        for e in elts:
            nxt = []
            for vs, x in res:
                if isinstance(e, ast.Starred):
                    for v, y in self.ev(e.value, x, frame):
                        for items, z in self.iterate(v, y, e):
                            nxt.append((vs + items, z))
                else:
                    for v, y in self.ev(e, x, frame):
                        nxt.append((vs + [v], y))
            res = nxt
        return res

    def ev_List(self, e, st, frame):
        return [(self.new_list(x, it), x) for it, x in self.ev_elts(e.elts, st, frame)]

    def ev_Set(self, e, st, frame):
        return [(self.unordered(self, v, x), x) for v, x in self.ev_List(e, st, frame)]

    def ev_Dict(self, e, st, frame):
        res = [({}, st)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for d, x in res:
                if k is None:
                    for w, y in self.ev(v, x, frame):
                        d2 = dict(d)
                        if isinstance(w, Ref) and isinstance(self.obj(y, w), HDict):
                            d2.update(self.obj(y, w).items)
                        nxt.append((d2, y))
                    continue
                for kv, y in self.ev(k, x, frame):
                    for w, z in self.ev(v, y, frame):
                        nxt.append(({**d, kv: w}, z))
            res = nxt
        return [(self.new(x, HDict(d)), x) for d, x in res]

    def ev_JoinedStr(self, e, st, frame):
        res = [([], st)]
        for part in e.values:
            nxt = []
            for ps, x in res:
                if isinstance(part, ast.Constant):
                    nxt.append((ps + [K(part.value)], x))
                else:
                    for v, y in self.ev(part.value, x, frame):
                        if part.format_spec is not None:
                            for spec, z in self.ev(part.format_spec, y, frame):
                                nxt.append((ps + [self.models.fmt_spec(v, spec)], z))
                        else:
                            nxt.append((ps + [self.models.to_str(self, v, y)], y))
            res = nxt
        return [(cat(ps), x) for ps, x in res]

    def ev_FormattedValue(self, e, st, frame):
        return [(self.models.to_str(self, v, x), x) for v, x in self.ev(e.value, st, frame)]

    def ev_Attribute(self, e, st, frame):
        out = []
        for b, x in self.ev(e.value, st, frame):
            out.extend(self.get_attr(b, e.attr, x, e))
        return out

    def ev_Subscript(self, e, st, frame):
        out = []
        for b, x in self.ev(e.value, st, frame):
            for k, y in self.ev_slice(e.slice, x, frame):
                out.extend(self.get_item(b, k, y, e))
        return out

    def ev_slice(self, s, st, frame):
        if isinstance(s, ast.Slice):
            parts = [s.lower, s.upper, s.step]
            res = [([], st)]
            for p in parts:
                nxt = []
                for vs, x in res:
                    if p is None:
                        nxt.append((vs + [NONE], x))
                    else:
                        nxt.extend((vs + [v], y) for v, y in self.ev(p, x, frame))
                res = nxt
            return [(Tup(K('\0slice'), *vs), x) for vs, x in res]
        return self.ev(s, st, frame)

    def ev_BoolOp(self, e, st, frame):
        isand = isinstance(e.op, ast.And)
        res = []
        pend = [st]
        for i, sub in enumerate(e.values):
            nxt = []
            for x in pend:
                for v, y in self.ev(sub, x, frame):
                    if i == len(e.values) - 1:
                        res.append((v, y))
                        continue
                    for b, z in self.truth(v, y):
                        if b == isand:
                            nxt.append(z)
                        else:
                            res.append((v, z))
            pend = nxt
        return res

    def ev_UnaryOp(self, e, st, frame):
        if isinstance(e.op, ast.Not):
            return [(K(not b), x) for b, x in self.cond(e.operand, st, frame)]
        out = []
        for v, x in self.ev(e.operand, st, frame):
            if isinstance(v, K):
                try:
                    r = {ast.USub: lambda a: -a, ast.UAdd: lambda a: +a, ast.Invert: lambda a: ~a}[type(e.op)](v.v)
                    out.append((K(r), x))
                    continue
                except TypeError:
                    pass
            out.append((T('un' + type(e.op).__name__, self.as_term(v)), x))
        return out

    def ev_BinOp(self, e, st, frame):
        out = []
        for a, x in self.ev(e.left, st, frame):
            for b, y in self.ev(e.right, x, frame):
                out.extend(self.binop(e.op, a, b, y, e))
        return out

    def binop(self, op, a, b, st, node):
        return self.models.binop(self, op, a, b, st, node)

    def ev_Compare(self, e, st, frame):
        res = [(None, None, st)]
        out = []
        pend = [(v, x) for v, x in self.ev(e.left, st, frame)]
        for i, (op, right) in enumerate(zip(e.ops, e.comparators)):
            nxt = []
            for a, x in pend:
                for b, y in self.ev(right, x, frame):
                    for r, z in self.models.compare(self, op, a, b, y, e):
                        if i == len(e.ops) - 1:
                            out.append((r, z))
                        else:
                            for t, w in self.truth(r, z):
                                if t:
                                    nxt.append((b, w))
                                else:
                                    out.append((FALSE, w))
            pend = nxt
        return out

    def ev_IfExp(self, e, st, frame):
        out = []
        for b, x in self.cond(e.test, st, frame):
            out.extend(self.ev(e.body if b else e.orelse, x, frame))
        return out

    def ev_NamedExpr(self, e, st, frame):
        out = []
        for v, x in self.ev(e.value, st, frame):
            for y in self.assign(e.target, v, x, frame):
                out.append((v, y))
        return out

    def ev_Lambda(self, e, st, frame):
        fs = st.heap[frame].fn
        return self.make_function(e, st, frame, None, fs.qual + '.<lambda>')

    def ev_Starred(self, e, st, frame):
        return self.ev(e.value, st, frame)

    def ev_Await(self, e, st, frame):
        return self.ev(e.value, st, frame)

    def ev_Yield(self, e, st, frame):
        if e.value is None:
            return [(NONE, st)]
        out = []
        for v, x in self.ev(e.value, st, frame):
            x.event('yield', v, self.where(e), frame)
            out.append((T('sent'), x))
        return out

    def ev_comp(self, e, st, frame, kind):
        fs = st.heap[frame].fn
        a = fresh_addr()
        st.heap[a] = HFrame({}, frame, fs)
        acc = [([], st)]

        def gens(i, states):
            """states: [(items, st)] -> after running generators i.."""
            if i == len(e.generators):
                out = []
                for items, x in states:
                    if kind == 'dict':
                        for k, y in self.ev(e.key, x, a):
                            for v, z in self.ev(e.value, y, a):
                                out.append((items + [Tup(k, v)], z))
                    else:
                        for v, y in self.ev(e.elt, x, a):
                            out.append((items + [v], y))
                return out
            g = e.generators[i]
            out = []
            for items, x in states:
                for it, y in self.ev(g.iter, x, a):
                    for elems, z in self.iterate(it, y, e):
                        pend = [(items, z)]
                        for el in elems:
                            nxt = []
                            for its, w in pend:
                                star = isinstance(el, Star)
                                alts = [(True, w)]
                                if star:
                                    alts = self.split(T('nonempty', self.star_key(el)), w)
                                for b, w2 in alts:
                                    if not b:
                                        nxt.append((its, w2))
                                        continue
                                    for q in self.assign(g.target, el.v if star else el, w2, a):
                                        conds = [(True, q)]
                                        for c in g.ifs:
                                            conds = [(b1 and b2, r2) for b1, r1 in conds
                                                     for b2, r2 in (self.cond(c, r1, a) if b1 else [(False, r1)])]
                                        for ok, r in conds:
                                            if not ok:
                                                nxt.append((its, r))
                                            else:
                                                got = gens(i + 1, [([], r)])
                                                for new, r2 in got:
                                                    nxt.append((its + ([Star(n) if not isinstance(n, Star) else n
                                                                        for n in new] if star else new), r2))
                            pend = nxt
                        out.extend(pend)
            return out

        res = gens(0, acc)
        out = []
        for items, x in res:
            if kind == 'dict':
                d = {}
                for it in items:
                    t = it.v if isinstance(it, Star) else it
                    if isinstance(t, Tup):
                        d[t.items[0]] = t.items[1]
                out.append((self.new(x, HDict(d)), x))
            else:
                out.append((self.new_list(x, items), x))
        return out

    def ev_ListComp(self, e, st, frame):
        return self.ev_comp(e, st, frame, 'list')

    def ev_SetComp(self, e, st, frame):
        return [(self.unordered(self, v, x), x) for v, x in self.ev_comp(e, st, frame, 'list')]

    ev_GeneratorExp = ev_ListComp

    def ev_DictComp(self, e, st, frame):
        return self.ev_comp(e, st, frame, 'dict')

    # ------------------------------------------------------------------ attribute / item
    def get_attr(self, b, name, st, node):
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, HInst):
                if not isinstance(o.cls, ClassInfo):
                    if name in o.attrs:
                        return [(o.attrs[name], st)]
                    return [(Bound(b, K(name)), st)]
                c, p = o.cls.lookup(name)
                if isinstance(p, Fn) and p.info.kind == 'property':
                    return self.call(Bound(b, p), [], {}, st, node)
                if name in o.attrs:
                    return [(o.attrs[name], st)]
                if name == '__class__':
                    return [(Cls(o.cls), st)]
                if name == '__dict__':
                    return [(self.new(st, HDict({K(k): v for k, v in o.attrs.items()})), st)]
                if p is not None:
                    return [(self.bind(p, b, o.cls), st)]
                self.raise_(ExcV(Ext('AttributeError'), K(name)), st)
                return []
            if name in ('__class__',):
                return [(Ext('dict' if isinstance(o, HDict) else 'list'), st)]
            return [(Bound(b, K(name)), st)]
        if isinstance(b, Cls):
            c, p = b.info.lookup(name)
            if p is not None:
                if b.info.is_enum and isinstance(p, K) and not name.startswith('_'):
                    return [(EnumM(b.info, name, p), st)]
                if isinstance(p, Fn):
                    if p.info.kind == 'class':
                        return [(Bound(b, p), st)]
                    return [(p, st)]
                if name in ('__name__', '__qualname__', '__module__'):
                    return [(b.info.ns[name], st)]
                return [(p, st)]
            if name == '__members__' and b.info.is_enum:
                return [(self.new(st, HDict({K(m.name): m for m in self.enum_members(b.info)})), st)]
            if name == '__mro__':
                return [(Tup(*[Cls(c) if isinstance(c, ClassInfo) else c for c in b.info.mro]), st)]
            if name == '__dict__':
                return [(self.new(st, HDict({K(k): v for k, v in b.info.ns.items()})), st)]
            self.raise_(ExcV(Ext('AttributeError'), K(name)), st)
            return []
        if isinstance(b, EnumM):
            if name == 'name' or name == '_name_':
                return [(K(b.name), st)]
            if name == 'value' or name == '_value_':
                return [(b.value, st)]
            return self.get_attr(Cls(b.cls), name, st, node)
        if isinstance(b, Mod):
            v = self.mod_attr(b.name, name)
            if v is None:
                if name == '__name__':
                    return [(K(b.name), st)]
                self.raise_(ExcV(Ext('AttributeError'), K(name)), st)
                return []
            return [(v, st)]
        if isinstance(b, Ext):
            return [(self.models.ext_value(b.name + '.' + name), st)]
        if isinstance(b, SuperV):
            owner, recv, start = b.key
            c, p = start.lookup(name, after=owner)
            if p is None:
                return [(Bound(b, K(name)), st)]
            if isinstance(p, Fn):
                if p.info.kind == 'static':
                    return [(p, st)]
                if p.info.kind == 'class':
                    return [(Bound(Cls(start), p), st)]
                if p.info.kind == 'property':
                    return self.call(Bound(recv, p), [], {}, st, node)
                return [(Bound(recv, p), st)]
            return [(p, st)]
        if isinstance(b, (Fn, Bound)):
            f = b
            while isinstance(f, Bound):
                f = f.fn
            if name in ('__name__', '__qualname__') and isinstance(f, Fn):
                q = f.info.name
                return [(K(q if name == '__name__' else '.'.join(f.info.qual.split('.')[-2:])), st)]
            return [(T('attr', self.as_term(b), K(name)), st)]
        if isinstance(b, T):
            v = st.store.get(T('attr', b, K(name)))
            if v is not None:
                return [(v, st)]
            if b.op == 'enum' and name == 'value':
                return [(b.args[1], st)]
            if b.op == 'enum' and name == 'name':
                return [(T('enumname', b.args[0], b.args[1]), st)]
            if b.op == 'enumbyname' and name == 'name':
                return [(b.args[1], st)]
            if b.op == 'enumbyname' and name == 'value':
                return [(T('enumvalue', b.args[0], b.args[1]), st)]
            return [(T('attr', b, K(name)), st)]
        if isinstance(b, K):
            if b.v is None:
                st.event('none-deref', name, self.where(node))
                self.raise_(ExcV(Ext('AttributeError'), K(name)), st)
                return []
            return [(Bound(b, K(name)), st)]
        if isinstance(b, ExcV):
            return [(T('attr', T('exc', K(repr(b.cls))), K(name)), st)]
        if isinstance(b, Tup):
            return [(Bound(b, K(name)), st)]
        return [(T('attr', self.as_term(b), K(name)), st)]

    def bind(self, p, recv, cls):
        if isinstance(p, Fn):
            if p.info.kind == 'static':
                return p
            if p.info.kind == 'class':
                return Bound(Cls(cls), p)
            if p.info.owner is None or getattr(p.info, 'nested', False) and p.info.node.__class__ is ast.Lambda:
                return Bound(recv, p)
            return Bound(recv, p)
        return p

    def get_item(self, b, k, st, node):
        if isinstance(k, Tup) and k.items and k.items[0] is K('\0slice'):
            return self.models.slice_(self, b, k.items[1:], st, node)
        if isinstance(b, Ref):
            o = self.obj(st, b)
            if isinstance(o, HDict):
                return self.dict_get(b, o, k, st, node)
            if isinstance(o, HList):
                if isinstance(k, K) and isinstance(k.v, int):
                    stars = [i for i, x in enumerate(o.items) if isinstance(x, Star)]
                    if not stars:
                        try:
                            return [(o.items[k.v], st)]
                        except IndexError:
                            self.raise_builtin('IndexError', st)
                            return []
                    if k.v >= 0 and k.v < stars[0]:
                        return [(o.items[k.v], st)]
                    if k.v < 0 and -k.v <= len(o.items) - 1 - stars[-1]:
                        return [(o.items[k.v], st)]
                    if k.v < 0 or k.v >= len(o.items):
                        last = o.items[-1] if k.v < 0 else o.items[stars[-1]]
                        return [(last.v if isinstance(last, Star) else last, st)]
                    it = o.items[min(k.v, len(o.items) - 1)]
                    return [(it.v if isinstance(it, Star) else it, st)]
                if o.items:
                    out = []
                    seen = []
                    for x in o.items:
                        v = x.v if isinstance(x, Star) else x
                        if v not in seen:
                            seen.append(v)
                    if len(seen) == 1:
                        return [(seen[0], st)]
                    return [(T('pick', T('ref', b), self.as_term(k)), st)]
                self.raise_builtin('IndexError', st)
                return []
            if isinstance(o, HInst) and o.cls == 'record' and isinstance(k, K) and isinstance(k.v, int):
                try:
                    return [(list(o.attrs.values())[k.v], st)]
                except IndexError:
                    self.raise_builtin('IndexError', st)
                    return []
            if isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
                g = o.cls.lookup('__getitem__')[1]
                if isinstance(g, Fn):
                    return self.call(Bound(b, g), [k], {}, st, node)
            return [(T('idx', T('ref', b), self.as_term(k)), st)]
        if isinstance(b, Tup):
            if isinstance(k, K) and isinstance(k.v, int):
                try:
                    return [(b.items[k.v], st)]
                except IndexError:
                    self.raise_builtin('IndexError', st)
                    return []
            return [(T('pick', self.as_term(b), self.as_term(k)), st)]
        if isinstance(b, K):
            if isinstance(k, K):
                try:
                    r = b.v[k.v]
                    return [(K(r), st)]
                except Exception as err:
                    if b.v is None:
                        st.event('none-deref', 'item', self.where(node))
                    self.raise_builtin(type(err).__name__, st)
                    return []
            return [(T('idx', b, self.as_term(k)), st)]
        if isinstance(b, Cls):
            if b.info.is_enum:
                return self.models.enum_by_name(self, b, k, st, node)
            return [(T('idx', self.as_term(b), self.as_term(k)), st)]
        if isinstance(b, T):
            if not isinstance(k, (K, T)):
                k = k.value if isinstance(k, EnumM) else self.as_term(k)
            return self.models.tree_item(self, b, k, st, node)
        return [(T('idx', self.as_term(b), self.as_term(k)), st)]

    def dict_get(self, ref, o, k, st, node, missing='raise', default=None):
        if k in o.items:
            return [(o.items[k], st)]
        out = []
        if isinstance(k, (K, EnumM)):
            tkeys = [x for x in o.items if isinstance(x, T)]
            cur = st
            for x in tkeys:
                nxt = None
                for b, y in self.truth(self.equal(x, k, cur), cur):
                    if b:
                        out.append((o.items[x], y))
                    else:
                        nxt = y
                if nxt is None:
                    return out
                cur = nxt
            if o.open:
                t = T('idx', T('ref', ref), self.as_term(k))
                if missing == 'raise' and not self.catchable('KeyError'):
                    return out + [(t, cur)]
                for b, y in self.split(T('haskey', T('ref', ref), self.as_term(k)), cur):
                    if b:
                        out.append((t, y))
                    elif missing == 'raise':
                        self.raise_(ExcV(Ext('KeyError'), self.as_term(k)), y)
                    else:
                        out.append((default, y))
                return out
            if missing == 'raise':
                self.raise_(ExcV(Ext('KeyError'), self.as_term(k)), cur)
            else:
                out.append((default, cur))
            return out
        # unknown key: consider each distinct value once
        if isinstance(k, T) and len(o.items) <= 40:
            cur = st
            done = []
            for x, v in o.items.items():
                if any(v is d or v == d for d in done) and isinstance(v, (Cls, Fn)):
                    continue
                nxt = None
                for b, y in self.truth(self.equal(k, x, cur), cur):
                    if b:
                        out.append((v, y))
                    else:
                        nxt = y
                done.append(v)
                if nxt is None:
                    return out
                cur = nxt
            if o.open:
                out.append((T('idx', T('ref', ref), k), cur))
            elif missing == 'raise':
                self.raise_(ExcV(Ext('KeyError'), k), cur)
            else:
                out.append((default, cur))
            return out
        return [(T('pick', T('ref', ref), self.as_term(k)), st)]

    def list_extend(self, ref, b, st, node):
        o = self.obj(st, ref)
        if isinstance(b, Ref):
            ob = self.obj(st, b)
            items = list(ob.items) if isinstance(ob, (HList, HDict)) else [Star(T('elem', T('ref', b)))]
        elif isinstance(b, Tup):
            items = list(b.items)
        elif isinstance(b, K) and isinstance(b.v, str):
            items = [K(c) for c in b.v]
        elif isinstance(b, T) and b.op == 'rangek':
            items = [K(i) for i in range(*[a.v for a in b.args])]
        else:
            items = [Star(self.models.elem_of(b) if isinstance(b, T) else T('elem', self.as_term(b)))]
        self.set_obj(st, ref, HList(list(o.items) + items), node, 'extend')

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, st, frame):
        # zero-argument super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return self.ev_super(e, st, frame)
        out = []
        for f, x in self.ev(e.func, st, frame):
            for args, kwargs, y in self.ev_args(e, x, frame):
                out.extend(self.call(f, args, kwargs, y, e))
        return out

    def ev_super(self, e, st, frame):
        if e.args:
            res = []
            for vs, x in self.ev_list(e.args, st, frame):
                owner, recv = vs[0], vs[1]
                start = recv.info if isinstance(recv, Cls) else self.obj(x, recv).cls
                res.append((SuperV(owner.info, recv, start), x))
            return res
        f = st.heap[frame]
        while f.fn.owner is None or (not f.fn.node.args.args if hasattr(f.fn.node, 'args') else True):
            if f.parent is None:
                break
            f = st.heap[f.parent]
        fn = f.fn
        first = fn.node.args.args[0].arg
        recv = f.vars[first]
        start = recv.info if isinstance(recv, Cls) else self.obj(st, recv).cls
        return [(SuperV(fn.owner, recv, start), st)]

    def ev_args(self, e, st, frame):
        res = [([], {}, st)]
        for a in e.args:
            nxt = []
            for args, kw, x in res:
                if isinstance(a, ast.Starred):
                    for v, y in self.ev(a.value, x, frame):
                        for items, z in self.iterate(v, y, a):
                            nxt.append((args + items, kw, z))
                else:
                    for v, y in self.ev(a, x, frame):
                        nxt.append((args + [v], kw, y))
            res = nxt
        for k in e.keywords:
            nxt = []
            for args, kw, x in res:
                for v, y in self.ev(k.value, x, frame):
                    if k.arg is None:
                        kw2 = dict(kw)
                        if isinstance(v, Ref) and isinstance(self.obj(y, v), HDict):
                            o = self.obj(y, v)
                            for kk, vv in o.items.items():
                                if isinstance(kk, K):
                                    kw2[kk.v] = vv
                            if o.open:
                                kw2['**'] = T('ref', v)
                        else:
                            kw2['**'] = v
                        nxt.append((args, kw2, y))
                    else:
                        nxt.append((args, {**kw, k.arg: v}, y))
            res = nxt
        return res

    def call(self, f, args, kwargs, st, node):
        self.stats['calls'] += 1
        if isinstance(f, Bound):
            if isinstance(f.fn, Fn):
                return self.call_fn(f.fn, [f.self_] + args, kwargs, st, node)
            return self.models.method(self, f.self_, f.fn.v, args, kwargs, st, node)
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, st, node)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs, st, node)
        if isinstance(f, Ext):
            return self.models.call_ext(self, f.name, args, kwargs, st, node)
        if isinstance(f, T) and f.op == 'attr':
            return self.models.method(self, f.args[0], f.args[1].v, args, kwargs, st, node)
        if isinstance(f, T) and f.op == 'ntclass' and len(f.args) == 2:
            r = self.record(f, args, kwargs, st)
            if r is not None:
                return [(r, st)]
        if isinstance(f, Ref):
            o = self.obj(st, f)
            if isinstance(o, HInst) and isinstance(o.cls, ClassInfo):
                c = o.cls.lookup('__call__')[1]
                if isinstance(c, Fn):
                    return self.call_fn(c, [f] + args, kwargs, st, node)
            if isinstance(o, HInst) and o.cls == 'partial':
                return self.call(o.attrs['fn'], list(o.attrs['args'].items) + args,
                                 {**dict(o.attrs['kw'].key), **kwargs}, st, node)
        if isinstance(f, K) and f.v is None:
            self.raise_builtin('TypeError', st)
            return []
        return self.models.opaque_call(self, f, args, kwargs, st, node)

    def record(self, f, args, kwargs, st):
        """value of a namedtuple class"""
        n = f.args[1]
        if isinstance(n, K) and isinstance(n.v, str):
            names = n.v.replace(',', ' ').split()
        elif isinstance(n, T) and all(isinstance(x, K) for x in n.args):
            names = [x.v for x in n.args]
        elif isinstance(n, (FL, Tup)) and all(isinstance(x, K) for x in n.items):
            names = [x.v for x in n.items]
        else:
            return None
        if any(isinstance(a, Star) for a in args) or len(args) > len(names) or '**' in kwargs:
            return None
        d = dict(zip(names, args))
        d.update(kwargs)
        if set(d) != set(names):
            return None
        return self.new(st, HInst('record', {k: d[k] for k in names}))

    def instantiate(self, c, args, kwargs, st, node):
        info = c.info
        hook = self.hooks.get(info.qual)
        if hook:
            r = hook(self, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if info.is_enum:
            return self.models.enum_by_value(self, c, args[0], st, node)
        if info.is_exc:
            return [(ExcV(c, tuple(sorted((k, self.freeze_arg(v)) for k, v in kwargs.items())),
                          *[self.freeze_arg(a) for a in args]), st)]
        r = self.new(st, HInst(info, {}))
        owner, init = info.lookup('__init__')
        if isinstance(init, Fn):
            out = []
            for _, x in self.call_fn(init, [r] + args, kwargs, st, node):
                out.append((r, x))
            return out
        return [(r, st)]

    @staticmethod
    def freeze_arg(v):
        return v

    def bind_args(self, fi, args, kwargs, st, node):
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vars_ = {}
        star_rest = None
        pos = list(args)
        for i, n in enumerate(names):
            if i < len(pos):
                if isinstance(pos[i], Star):
                    star_rest = pos[i].v
                    for m in names[i:]:
                        vars_[m] = T('starred', self.as_term(star_rest), K(m)) if m not in kwargs else kwargs[m]
                    pos = pos[:len(names)]
                    break
                vars_[n] = pos[i]
        kw = dict(kwargs)
        extra_kw = kw.pop('**', None)
        for n in list(kw):
            if n in names or n in [x.arg for x in a.kwonlyargs]:
                if n in vars_ and n in names and names.index(n) < len(pos) and star_rest is None:
                    return None
                vars_[n] = kw.pop(n)
        nd = len(fi.defaults or [])
        for i, n in enumerate(names):
            if n not in vars_:
                j = i - (len(names) - nd)
                if j >= 0:
                    vars_[n] = fi.defaults[j]
                elif extra_kw is not None:
                    vars_[n] = T('idx', self.as_term(extra_kw), K(n))
                else:
                    return None
            elif extra_kw is not None:
                pass
        for x, d in zip(a.kwonlyargs, fi.kw_defaults or []):
            if x.arg not in vars_:
                if d is not None:
                    vars_[x.arg] = d if extra_kw is None else d
                elif extra_kw is not None:
                    vars_[x.arg] = T('idx', self.as_term(extra_kw), K(x.arg))
                else:
                    return None
        if extra_kw is not None:
            for x in a.kwonlyargs:
                if x.arg not in kwargs:
                    vars_[x.arg] = T('idx', self.as_term(extra_kw), K(x.arg))
        if a.vararg:
            rest = pos[len(names):]
            if any(isinstance(r, Star) for r in rest):
                vars_[a.vararg.arg] = self.new_list(st, rest)
            else:
                vars_[a.vararg.arg] = Tup(*rest)
        elif len(pos) > len(names):
            return None
        if a.kwarg:
            vars_[a.kwarg.arg] = self.new(st, HDict({K(k): v for k, v in kw.items()}, extra_kw is not None))
        elif kw:
            return None
        return vars_

    def call_fn(self, f, args, kwargs, st, node):
        fi = f.info
        hook = self.hooks.get(fi.qual)
        if hook is not None:
            r = hook(self, args, kwargs, st, node)
            if r is not NotImplemented:
                return r
        if fi.qual in self.trace_calls or fi.name in self.trace_calls:
            st.event('call', fi.qual, tuple(args), tuple(sorted(kwargs.items())), self.where(node))
        depth = sum(1 for s, _ in self.stack if s is fi)
        if len(self.stack) > self.MAX_DEPTH or depth >= getattr(self, 'max_rec', 2):
            self.stats['cut'] += 1
            return [(T('rec', K(fi.qual), *[self.as_term(a) for a in args]), st)]
        if fi.is_gen and not self.eager_gen:
            return [(T('gen', K(fi.qual), *[self.as_term(a) if not isinstance(a, Star) else a for a in args]), st)]
        vars_ = self.bind_args(fi, args, kwargs, st, node)
        if vars_ is None:
            st.event('bad-call', fi.qual, self.where(node))
            self.raise_(ExcV(Ext('TypeError'), K('arguments of ' + fi.qual)), st)
            return []
        self.funcs_seen.add(fi.qual)
        if isinstance(fi.node, ast.Lambda):
            a = fresh_addr()
            st.heap[a] = HFrame(vars_, f.closure, fi)
            self.stack.append((fi, node))
            try:
                return self.ev(fi.node.body, st, a)
            finally:
                self.stack.pop()
        a = fresh_addr()
        st.heap[a] = HFrame(vars_, f.closure, fi)
        self.stack.append((fi, node))
        try:
            outs = self.exec_block(fi.node.body, st, a)
        finally:
            self.stack.pop()
        res = []
        for kind, v, x in outs:
            if not self.has_inner(fi):
                x.heap.pop(a, None)
            if kind == 'raise':
                self.sink.append((v, x))
            elif fi.is_gen:
                res.append((self.new_list(x, [e[1] for e in x.events() if e[0] == 'yield' and e[3] == a]), x))
            elif kind == 'ret':
                res.append((v, x))
            else:
                res.append((NONE, x))
        return res

    def has_inner(self, fi):
        r = getattr(fi, '_inner', None)
        if r is None:
            r = any(isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                                   ast.SetComp)) for n in ast.walk(fi.node) if n is not fi.node)
            fi._inner = r
        return r

    # ------------------------------------------------------------------ entry
    def run(self, f, args, kwargs=None, st=None):
        """analyse a call; -> [(kind, value, state)] with kind 'ret' or 'raise'"""
        off_path()
        st = st if st is not None else self.start()
        old, dev = self.sink, self.max_dev
        try:
            while True:
                self.sink = []
                x = st.fork() if dev else st
                try:
                    res = [('ret', v, y) for v, y in self.call(f, list(args), dict(kwargs or {}), x, None)]
                    res.extend(('raise', e, y) for e, y in self.sink)
                    return res
                except Cut:     # too many paths: explore fewer simultaneous departures from the normal course
                    if not self.max_dev:
                        raise
                    self.max_dev -= 1
                    self.cuts = getattr(self, 'cuts', 0) + 1
        finally:
            self.sink, self.max_dev = old, dev

    def start(self):
        s = self.base.fork()
        s.ev = None
        return s


def _as_load(t):
    import copy
    t = copy.copy(t)
    t.ctx = ast.Load()
    return t


_AR = {}


def always_raises(body):
    """every path through the block ends in a raise"""
    if not body:
        return False
    r = _AR.get(id(body))
    if r is None or r[0] is not body:
        r = (body, _always_raises(body))
        _AR[id(body)] = r
    return r[1]


def _always_raises(body):
    last = body[-1]
    if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for s in body for n in [s] + list(walk_own(s))):
        return False
    return _ends_raise(last)


def _ends_raise(s):
    if isinstance(s, ast.Raise):
        return True
    if isinstance(s, ast.If):
        return bool(s.orelse) and _ends_raise(s.body[-1]) and _ends_raise(s.orelse[-1])
    if isinstance(s, (ast.With,)):
        return _ends_raise(s.body[-1])
    if isinstance(s, ast.Try):
        return bool(s.body) and _ends_raise(s.body[-1]) and all(_ends_raise(h.body[-1]) for h in s.handlers)
    return False
