"""A closed world of files with known names and symbolic contents, for operations that only move files around.

Used by the rules on the code organiser: the tree of folders is the representative of the classes of places and names the
rule distinguishes; contents are symbols (binary), or line sequences / element trees of the classes the rule distinguishes."""
import json

from . import ops
from .interp import Interp, HList
from .terms import K, T, Ref, Cls, Fn, Bound, Tup, FD, FL, NONE, ABSOLUTE, join, comps, under
from .prog import AnalysisBroken

Q = 'v8unpack.'
UTF8 = K('utf-8')


def frozen(v):
    if isinstance(v, dict):
        return FD(tuple((K(k), frozen(x)) for k, x in v.items()), False)
    if isinstance(v, (list, tuple)):
        return FL(tuple(frozen(x) for x in v))
    return v if isinstance(v, T) else K(v)


def thawed(v):
    """python value of a frozen constant; terms stay"""
    if isinstance(v, FD):
        return {thawed(k): thawed(x) for k, x in v.key[0]}
    if isinstance(v, FL):
        return [thawed(x) for x in v.key[0]]
    return v.v if isinstance(v, K) else v


def path(root, rel):
    return join([root] + [K(x) for x in rel.split('/') if x])


class World:
    def __init__(self, roots, dev=0):
        self.I = I = Interp()
        I.max_dev = dev
        I.max_rec = 6
        I.virtual_roots = set(roots)
        ABSOLUTE.update(roots)
        self.st = I.start()

    def fresh(self):
        '''the same program and folders, to be filled anew'''
        w = object.__new__(World)
        w.I, w.st = self.I, self.st.fork()
        return w

    def put(self, root, rel, content):
        p = path(root, rel)
        parts = rel.split('/')
        for i in range(len(parts)):
            self.st.dirs = self.st.dirs | {path(root, '/'.join(parts[:i]))}
        if isinstance(content, str):
            e = ('text', K(content), UTF8)
        elif isinstance(content, (dict, list)):
            e = ('json', frozen(content), UTF8)
        else:
            e = ('bin', content)
        self.st.fs[p] = e
        return p

    def folder(self, root, rel=''):
        self.st.dirs = self.st.dirs | {path(root, rel)}

    def value(self, v):
        return self.I.thaw(frozen(v), self.st)

    def func(self, q):
        f = self.I.get_func(Q + q)
        return f.fn if isinstance(f, Bound) else f

    def pool(self, name='helper.run_in_pool'):
        """tasks of a pool are carried out one after the other"""
        ops.install(self.I, [Q + name], results={Q + name: do_tasks})

    def run(self, q, args, kw=None, cls=None, st=None):
        f = self.func(q)
        if cls:
            args = [Cls(self.I.get_class(Q + cls).info)] + list(args)
        return self.I.run(f, list(args), kw or {}, st or self.st)


def do_tasks(I, d, st, node):
    fn = [v for v in d.values() if isinstance(v, (Fn, Bound))]
    lst = [v for v in d.values() if isinstance(v, Ref) and isinstance(I.obj(st, v), HList)]
    if len(fn) != 1 or len(lst) != 1:
        raise AnalysisBroken('tasks of a worker pool not recognised')
    states = [st]
    for task in I.obj(st, lst[0]).items:
        nxt = []
        for s in states:
            s.event('task', I.where(node))
            nxt += [x for _, x in I.call(fn[0], [task], {}, s, node)]
        states = nxt
    return [(NONE, s) for s in states]


def files(st, root):
    """relative name -> content of the files below root"""
    out = {}
    for p, e in st.fs.items():
        r = under(p, root)
        if r:
            name = '/'.join(str(x.v) if isinstance(x, K) else '<%s>' % (x,) for x in r)
            out[name] = e
    return out


def content(e):
    if e[0] == 'json':
        return thawed(e[1])
    if e[0] == 'text' and isinstance(e[1], K):
        return e[1].v
    return e[1] if len(e) > 1 else None


def raced(st, root):
    """files below root written by more than one task of the worker pools"""
    n, by = 0, {}
    for e in st.events():
        if e[0] == 'task':
            n += 1
        elif e[0] == 'create' and n and under(e[1], root) is not None:
            by.setdefault(e[1], set()).add(n)
    return sorted(str(p) for p, k in by.items() if len(k) > 1)
