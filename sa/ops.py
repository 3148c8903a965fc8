"""Traces of the top-level operations: stages are recorded with the arguments bound to their parameters."""
from .interp import HDict, HList
from .terms import (K, T, Ref, Cls, Fn, Bound, Ext, Tup, ExcV, FD, FL, Star, NONE, TRUE, FALSE)
from .prog import AnalysisBroken


def bind(I, fn, args, kwargs, st, node):
    d = I.bind_args(fn.info, list(args), dict(kwargs), st, node)
    return d


class StageHook:
    """records a stage and returns `result`; with fault=True also fails"""

    def __init__(self, I, qual, result=None, fault=False, pairs=None):
        self.I, self.qual, self.fault, self.pairs = I, qual, fault, pairs
        fn = I.get_func(qual)
        if isinstance(fn, Bound):
            fn = fn.fn
        if not isinstance(fn, Fn):
            raise AnalysisBroken('%s is not a function' % qual)
        self.fn = fn
        self.result = result

    def __call__(self, I, args, kwargs, st, node):
        d = bind(I, self.fn, args, kwargs, st, node)
        if d is None:
            st.event('bad-call', self.qual, I.where(node))
            I.raise_(ExcV(Ext('TypeError'), K('arguments of ' + self.qual)), st)
            return []
        st.event('stage', self.qual, tuple(sorted(d.items())), I.where(node))
        if self.fault:
            s2 = st.fork()
            s2.event('fault', self.qual, I.where(node))
            I.raise_(ExcV(Ext(self.fault if isinstance(self.fault, str) else 'RuntimeError'), K('fault in ' + self.qual)), s2)
        r = self.result
        if callable(r):
            return r(I, d, st, node)
        return [(NONE if r is None else r, st)]


def install(I, quals, fault=False, results=None):
    for q in quals:
        I.hooks[q] = StageHook(I, q, (results or {}).get(q), fault)


def stages(st):
    return [(e[1], dict(e[2]), e[3]) for e in st.events() if e[0] == 'stage']


def short(q):
    return q.replace('v8unpack.', '', 1)
