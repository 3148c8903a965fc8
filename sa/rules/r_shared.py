"""C15: nothing outlives the processing of an object.

(a) A whole-program origin analysis of the syntax trees: for every function, which expressions may denote something that is
    shared - a mutable value of a module or of a class, a class itself, a default value of a parameter - through locals,
    attributes, loops, calls (summaries: what a function changes of its parameters, what of them it returns); every change of
    such a value, every `global` that is assigned and every change of process-wide settings is a violation.
(b) Extraction and building of a family of objects and of every organizer step are interpreted; a path on which an object of
    module or class level (or a default value) is changed is a violation - whatever way it is reached.
(c) The options and the index given by a caller are the same objects with the same contents after every operation."""
import ast

from ..interp import Interp, State
from ..prog import walk_own, AnalysisBroken, ClassInfo
from ..terms import Ref, K, T, Cls, Fn, Mod, Ext, Bound, NONE
from ..runner import parallel, OUT_OF_TIME
from ..interp import HDict, HList, HInst
from . import r_order, r_children, r_mapping

PROPS = ('C15',)
CHANGING = {'append', 'extend', 'insert', 'remove', 'clear', 'update', 'setdefault', 'pop', 'popitem', 'sort', 'reverse', 'add', 'discard',
            '__setitem__', '__delitem__', 'difference_update', 'intersection_update', 'symmetric_difference_update', 'appendleft', 'popleft'}
PARTS = {'get', 'setdefault', 'pop', 'values', 'items', '__getitem__', 'popitem', 'keys'}      # give out parts of the receiver
PROCESS = {'os.chdir', 'os.umask', 'os.putenv', 'os.unsetenv', 'locale.setlocale', 'signal.signal', 'sys.setrecursionlimit', 'random.seed',
           'os.environ.update', 'os.environ.setdefault', 'os.environ.pop', 'sys.path.append', 'sys.path.insert', 'socket.setdefaulttimeout',
           'tempfile.tempdir', 'csv.field_size_limit', 'warnings.simplefilter', 'warnings.filterwarnings'}
COLLECTION = {'list', 'dict', 'set', 'tuple', 'sorted', 'frozenset', 'str', 'int', 'len', 'bytes', 'bytearray', 'reversed'}


def unwrap(v):
    return v.fn if isinstance(v, Bound) else v


class Program:
    def __init__(self):
        self.I = Interp()
        self.funcs = {}         # FuncInfo -> _
        self.methods = {}       # name -> [FuncInfo]
        self.classes = []
        for m in self.I.mods.values():
            for v in list(m.ns.values()):
                v = unwrap(v)
                if isinstance(v, Fn) and v.info.mod is m:
                    self.add(v.info)
                elif isinstance(v, Cls) and isinstance(v.info, ClassInfo) and v.info.mod is m and v.info not in self.classes:
                    self.classes.append(v.info)
                    for x in v.info.ns.values():
                        x = unwrap(x)
                        if isinstance(x, Fn) and x.info.mod is m and x.info not in self.funcs:
                            self.add(x.info)
                            self.methods.setdefault(x.info.name, []).append(x.info)
                            if x.info.setter is not None:
                                s = unwrap(x.info.setter)
                                self.add(s.info if hasattr(s, 'info') else s)
        # attributes assigned on instances, per class
        self.inst = {}
        for f in self.funcs:
            if f.owner is None or f.kind in ('static', 'class'):
                continue
            me = self.params(f)[:1]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and [n.value.id] == me:
                    self.inst.setdefault(f.owner, set()).add(n.attr)
        self.attrs = {}         # (attribute name) -> origins assigned to it somewhere (shared ones only)
        self.changes = {f: set() for f in self.funcs}       # parameters (by index) whose contents it changes
        self.gives = {f: set() for f in self.funcs}         # origins its result may have
        self.found = {}

    def add(self, f):
        self.funcs[f] = None

    @staticmethod
    def params(f):
        a = f.node.args
        return [x.arg for x in a.posonlyargs + a.args] + ([a.vararg.arg] if a.vararg else []) + [x.arg for x in a.kwonlyargs] + \
            ([a.kwarg.arg] if a.kwarg else [])

    def mutable(self, v):
        return isinstance(v, T) or isinstance(v, Ref) and isinstance(self.I.base.heap.get(v.addr), (HDict, HList, HInst))

    # ------------------------------------------------------------------------------------------ one function
    def defaults(self, f):
        """parameters with a mutable default value"""
        a = f.node.args
        out = {}
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d]:
            if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
                    isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'bytearray', 'defaultdict')):
                out[p.arg] = ('shared', 'default value of %s' % p.arg)
            elif isinstance(d, (ast.Name, ast.Attribute)):
                o = self.static(f, d)
                if o:
                    out[p.arg] = o
        return out

    def static(self, f, e):
        """a value of module or class level named by an expression (without locals)"""
        v = self.value(f, e)
        return self.shared(v, ast.unparse(e))

    def shared(self, v, name):
        if isinstance(v, Cls) and isinstance(v.info, ClassInfo):
            return ('class', v.info.name)
        if self.mutable(v):
            return ('shared', name)
        return None

    def value(self, f, e):
        if isinstance(e, ast.Name):
            return f.mod.ns.get(e.id)
        if isinstance(e, ast.Attribute):
            b = self.value(f, e.value)
            if isinstance(b, Mod):
                m = self.I.mods.get(b.name)
                return m.ns.get(e.attr) if m else None
            if isinstance(b, Cls) and isinstance(b.info, ClassInfo):
                return b.info.lookup(e.attr)[1]
            if isinstance(b, Ext):
                return Ext(b.name + '.' + e.attr)
        return None

    def family(self, owner):
        return [c for c in self.classes if owner in c.mro or c in owner.mro]

    def self_attr(self, f, attr):
        """origins of self.attr / cls.attr"""
        fam = self.family(f.owner)
        out = set(self.attrs.get(attr, ()))
        out.add(('param', 0))
        for c in fam:
            v = unwrap(c.ns.get(attr))
            if self.mutable(v) and not any(attr in self.inst.get(k, ()) for k in c.mro if isinstance(k, ClassInfo)) and \
                    not all(attr in self.inst.get(k, ()) for k in fam if c in k.mro):
                out.add(('shared', '%s.%s' % (c.name, attr)))
        return out

    def run(self, f):
        ps = self.params(f)
        env = {p: {('param', i)} for i, p in enumerate(ps)}
        if f.owner is not None and f.kind == 'class' and ps:
            env[ps[0]] = {('class', 'cls')}
        for p, o in self.defaults(f).items():
            env[p] = env[p] | {o}
        own = list(walk_nested(f.node))
        local = set(env)
        for n in own:
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                local.add(n.id)
        globs = {x for n in own if isinstance(n, ast.Global) for x in n.names}
        local -= globs
        me = ps[0] if f.owner is not None and f.kind not in ('static',) and ps else None

        def origin(e):
            if isinstance(e, ast.Name):
                if e.id in local:
                    return env.get(e.id, set())
                o = self.shared(f.mod.ns.get(e.id), e.id)
                return {o} if o else set()
            if isinstance(e, ast.Attribute):
                if isinstance(e.value, ast.Name) and e.value.id == me:
                    if e.attr == '__class__':
                        return {('class', 'self.__class__')}
                    out = self.self_attr(f, e.attr)
                    if f.kind == 'class':
                        v = f.owner.lookup(e.attr)[1]
                        return {x for x in out if x[0] == 'shared'} | ({('shared', '%s.%s' % (f.owner.name, e.attr))} if self.mutable(v) else set())
                    return out
                if not (isinstance(e.value, ast.Name) and e.value.id in local):
                    o = self.static(f, e)
                    if o:
                        return {o}
                if e.attr == '__class__':
                    return {('class', 'class of ' + ast.unparse(e.value))}
                b = origin(e.value)
                out = {x for x in b if x[0] != 'class'}
                return out | set(self.attrs.get(e.attr, ()))
            if isinstance(e, ast.Subscript):
                return set() if isinstance(e.slice, ast.Slice) else {x for x in origin(e.value) if x[0] != 'class'}
            if isinstance(e, ast.IfExp):
                return origin(e.body) | origin(e.orelse)
            if isinstance(e, ast.BoolOp):
                return set().union(*[origin(v) for v in e.values])
            if isinstance(e, ast.NamedExpr):
                return origin(e.value)
            if isinstance(e, ast.Starred):
                return origin(e.value)
            if isinstance(e, ast.Call):
                return called(e)
            return set()

        def targets(c):
            """functions that may be called: [(FuncInfo, receiver expression or None)]"""
            if isinstance(c.func, ast.Name):
                if c.func.id in local:
                    return []
                v = unwrap(f.mod.ns.get(c.func.id))
                if isinstance(v, Fn):
                    return [(v.info, None)]
                return []
            if isinstance(c.func, ast.Attribute):
                b = c.func.value
                if not (isinstance(b, ast.Name) and b.id in local):
                    bv = self.value(f, b)
                    v = unwrap(self.value(f, c.func))
                    if isinstance(v, Fn):
                        inst = isinstance(bv, Cls) and v.info.kind == 'plain'       # Class.method(obj, ...)
                        return [(v.info, None if isinstance(bv, Mod) or inst else b)]
                    if isinstance(bv, (Ext, Mod)):
                        return []
                if c.func.attr in CHANGING | PARTS:
                    return []
                ms = self.methods.get(c.func.attr, [])
                if isinstance(b, ast.Name) and b.id == me or isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'super':
                    fam = self.family(f.owner)
                    ms = [m for m in ms if m.owner in fam]
                    if not isinstance(b, ast.Name):
                        return [(m, ast.Name(me, ast.Load())) for m in ms if me]
                return [(m, b) for m in ms]
            return []

        def arguments(c, g, recv):
            """[(index of the parameter of g, expression)]"""
            ps = self.params(g)
            shift = 1 if g.owner is not None and g.kind != 'static' and recv is not None else 0
            out = [(0, recv)] if shift else []
            for i, a in enumerate(c.args):
                if isinstance(a, ast.Starred):
                    out += [(j, a.value) for j in range(shift, len(ps))]
                else:
                    out.append((min(i + shift, len(ps) - 1), a))
            for k in c.keywords:
                if k.arg in ps:
                    out.append((ps.index(k.arg), k.value))
            return [x for x in out if x[0] >= 0]

        def called(c):
            if isinstance(c.func, ast.Name) and c.func.id == 'type' and len(c.args) == 1:
                return {('class', 'type(%s)' % ast.unparse(c.args[0]))}
            if isinstance(c.func, ast.Name) and c.func.id == 'getattr' and c.args:
                return origin(c.args[0])
            if isinstance(c.func, ast.Name) and c.func.id in ('iter', 'next', 'enumerate', 'zip', 'reversed', 'sorted', 'filter'):
                return set().union(*[origin(a) for a in c.args]) if c.func.id != 'sorted' else set()
            if isinstance(c.func, ast.Attribute) and c.func.attr in PARTS:
                r = {x for x in origin(c.func.value) if x[0] != 'class'}
                if c.func.attr in ('get', 'setdefault', 'pop') and len(c.args) > 1:
                    r = r | origin(c.args[1])
                return r
            out = set()
            for g, recv in targets(c):
                args = arguments(c, g, recv)
                for o in self.gives.get(g, ()):
                    if o[0] == 'param':
                        for i, a in args:
                            if i == o[1]:
                                out |= origin(a)
                    else:
                        out.add(o)
            return out

        def change(e, node, how):
            for o in origin(e):
                changed(o, node, how)

        def changed(o, node, how):
            if o[0] == 'param':
                self.changes[f].add(o[1])
            else:
                what = 'a class' if o[0] == 'class' else o[1]
                self.found.setdefault((f.qual.replace('v8unpack.', '', 1), '%s, which is shared by everything that is processed, is changed' % what),
                                      '%s: %s' % (f.where(node), how))

        def store(t, node):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    store(x, node)
            elif isinstance(t, ast.Starred):
                store(t.value, node)
            elif isinstance(t, ast.Subscript):
                change(t.value, node, ast.unparse(t))
                if self.process(f, t.value, local):
                    self.setting(f, node, ast.unparse(t))
            elif isinstance(t, ast.Attribute):
                b = t.value
                if isinstance(b, ast.Name) and b.id == me and f.kind != 'class':
                    self.changes[f].add(0)
                    return
                if not (isinstance(b, ast.Name) and b.id in local):
                    v = self.value(f, b)
                    if isinstance(v, Mod):
                        changed(('shared', '%s.%s' % (v.name.replace('v8unpack.', '', 1), t.attr)), node, ast.unparse(t))
                        return
                    if isinstance(v, Ext) and self.value(f, b) is not None:
                        self.setting(f, node, ast.unparse(t))
                        return
                change(b, node, ast.unparse(t))
            elif isinstance(t, ast.Name) and t.id in globs:
                changed(('shared', t.id), node, 'global ' + t.id)

        # locals, to a fixed point
        for _ in range(8):
            before = {k: set(v) for k, v in env.items()}
            for n in own:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        bind(env, t, n.value, origin)
                elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                    bind(env, n.target, n.value, origin)
                elif isinstance(n, (ast.For, ast.comprehension)):
                    bind(env, n.target, n.iter, origin)
            if env == before:
                break
        for n in own:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    store(t, n)
                    if isinstance(t, ast.Attribute):
                        sh = {o for o in origin(n.value) if o[0] == 'shared' and o[1].startswith('default value')}
                        if sh:
                            self.attrs.setdefault(t.attr, set()).update((k, '%s of %s' % (d, f.name) if ' of %s' % f.name not in d else d) for k, d in sh)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    if n.target.id in globs:
                        changed(('shared', n.target.id), n, 'global ' + n.target.id)
                    elif isinstance(n.op, (ast.Add, ast.BitOr)) and isinstance(n.value, (ast.List, ast.ListComp, ast.Dict, ast.Set)):
                        change(n.target, n, ast.unparse(n))     # += with a list extends in place
                else:
                    store(n.target, n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                store(n.target, n)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    store(t, n)
            elif isinstance(n, (ast.Return, ast.Yield, ast.YieldFrom)) and n.value is not None:
                self.gives[f] |= {o for o in origin(n.value) if o[0] != 'class'}
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in CHANGING and not isinstance(self.value(f, n.func.value) if not (
                        isinstance(n.func.value, ast.Name) and n.func.value.id in local) else None, Ext):
                    change(n.func.value, n, ast.unparse(n)[:80])
                if isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                    change(n.args[0], n, ast.unparse(n)[:80])
                v = None if isinstance(n.func, ast.Name) and n.func.id in local else self.value(f, n.func)
                if isinstance(v, Ext) and v.name in PROCESS:
                    self.setting(f, n, v.name)
                for g, recv in targets(n):
                    ch = self.changes.get(g, ())
                    for i, a in arguments(n, g, recv):
                        if i in ch:
                            for o in origin(a):
                                if o[0] == 'class' and g.kind == 'class' and i == 0:
                                    continue        # reported where it is done
                                if o[0] != 'class':
                                    changed(o, n, 'by ' + g.name)

    def process(self, f, e, local):
        return isinstance(self.value(f, e), Ext) and self.value(f, e).name in ('os.environ', 'sys.modules', 'sys.path') if not (
            isinstance(e, ast.Name) and e.id in local) else False

    def setting(self, f, node, what):
        self.found.setdefault((f.qual.replace('v8unpack.', '', 1), 'a setting of the whole process is changed (%s)' % what), f.where(node))

    def solve(self):
        for _ in range(12):
            before = (sum(map(len, self.changes.values())), sum(map(len, self.gives.values())), sum(map(len, self.attrs.values())), len(self.found))
            for f in self.funcs:
                self.run(f)
            if before == (sum(map(len, self.changes.values())), sum(map(len, self.gives.values())), sum(map(len, self.attrs.values())), len(self.found)):
                return
        raise AnalysisBroken('the origin analysis does not come to an end')


def walk_nested(node):
    """nodes of a function with those of functions inside it"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        todo.extend(ast.iter_child_nodes(n))


def bind(env, t, value, origin):
    if isinstance(t, ast.Name):
        env.setdefault(t.id, set())
        env[t.id] = env[t.id] | origin(value)
    elif isinstance(t, (ast.Tuple, ast.List)):
        if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts):
            for x, v in zip(t.elts, value.elts):
                bind(env, x, v, origin)
        else:
            for x in t.elts:
                bind(env, x, value, origin)
    elif isinstance(t, ast.Starred):
        bind(env, t.value, value, origin)


# ---------------------------------------------------------------------------------------------- interpretation
LOG, GIVEN, OPEN = set(), set(), []


def recording():
    """record every change of a shared object, and of what was given by the caller, on any path"""
    if OPEN:
        return
    OPEN.append(1)
    event, set_obj = State.event, Interp.set_obj

    def rec(self, *e):
        if e[0] in ('shared-write', 'global-write'):
            w = [str(x) for x in e[1:]]
            LOG.add(('shared', place(w[-1]), 'an object of module or class level, or a default value, is changed', ' '.join(w)[:150]))
        return event(self, *e)

    def put(self, st, ref, obj, node=None, what=''):
        if ref.addr in GIVEN and not self.in_init:
            w = self.where(node)
            LOG.add(('given', place(w), 'the options or the index given are changed', w))
        return set_obj(self, st, ref, obj, node, what)
    State.event, Interp.set_obj = rec, put
    opts, args = r_children.Family.opts, r_mapping.args

    def opts2(self, st):
        r = opts(self, st)
        GIVEN.add(r.addr)
        return r

    def args2(w, case, *a):
        r = args(w, case, *a)
        deep(w.I, w.st, r['kw']['index'])
        return r
    r_children.Family.opts, r_mapping.args = opts2, args2


def deep(I, st, v):
    if isinstance(v, Ref):
        GIVEN.add(v.addr)
        o = I.obj(st, v)
        for x in (o.items.values() if isinstance(o, HDict) else o.items if isinstance(o, HList) else ()):
            deep(I, st, x)


def place(where):
    return where.split(' ')[-1]


def job(x):
    recording()
    LOG.clear()
    GIVEN.clear()
    kind, case = x
    try:
        if kind == 'step':
            n = r_order.job(case)[2]
            ok = n is not None
        elif kind == 'family':
            ok = r_children.one(case)[2] is None
        else:
            return sorted(operation(*case)), True
    except (r_children.Unsure, AnalysisBroken):
        ok = False
    return sorted(LOG), ok


def operation(op, descent, given):
    """the dictionaries given to extract / build, after the operation with its stages replaced by records of their calls"""
    from .r_ops import OPS, fresh, Q, IN, OUT, TEMP, PROC
    from .. import ops
    I = fresh([s[0] for s in OPS[op]] + ([] if given else [Q + 'helper.check_index']), False)
    fn = I.get_func(Q + 'v8unpack.' + op)
    st = I.start()
    o = I.new(st, HDict({K('prefix'): K('P'), **({K('descent'): K(10)} if descent else {})}))
    before = I.obj(st, o)
    out = set()
    for kind, v, z in I.run(fn, [IN, OUT], dict(temp_dir=TEMP, index=NONE, processes=PROC, options=o), st):
        if I.obj(z, o).items != before.items:
            out.add(('given', fn.info.qual[len(Q):], 'the options given by the caller are changed', ''))
        for q, d, w in ops.stages(z):
            if any(x is o or x == o for x in d.values()):
                out.add(('passed', q[len(Q):], [k for k, x in d.items() if x == o][0], fn.info.qual[len(Q):]))
    return out


def jobs(I, tier):
    js = [('op', (op, d, True)) for op in ('extract', 'build') for d in (False, True)]
    js += [('step', c) for c in r_order.CASES]
    cs, _ = r_children.cases(I, 'quick')
    seen = set()
    for c in cs:
        k = (c[0], c[1][0] if c[0] == 'class' else c[1])
        if c[3] is None and (tier == 'thorough' or k not in seen):
            seen.add(k)
            js.append(('family', c))
    return js


def check(rep):
    P = Program()
    P.solve()
    for (fn, what), how in P.found.items():
        rep.add('shared', fn, what, how)
    rep.cover(functions=len(P.funcs), classes=len(P.classes), parameters_changed=sum(map(len, P.changes.values())))
    js = jobs(P.I, rep.tier)
    by = {f.qual: f for f in P.funcs}
    for x, r in zip(js, parallel(job, js, each=60)):
        if r == OUT_OF_TIME:
            continue        # the whole-program analysis covers it
        finds, ok = r
        rep.cover(interpreted=1)
        for rule, where, what, how in finds:
            if rule == 'passed':
                f = by.get('v8unpack.' + where)
                if f is None or P.params(f).index(what) in P.changes[f]:
                    rep.add('given', how, 'the options given by the caller are passed on to %s, which changes them' % where)
            else:
                rep.add(rule, where, what, how)
    rep.floor('functions', len(P.funcs), 300)
    rep.floor('interpreted', rep.coverage.get('interpreted', 0), 60)
    rep.explanation = __doc__.strip()
    rep.assumptions = ['library functions other than the listed ones keep no state', 'a shared value is reached by the expressions the origin '
                       'analysis follows: names, attributes, parts, calls, returned values, default values stored in attributes']
