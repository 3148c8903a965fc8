"""Composition of extraction and building for one metadata class, in the dataflow engine."""
from .interp import Interp, HDict, HInst, HList, State
from .terms import (K, T, Ref, Cls, Fn, Bound, Ext, Tup, EnumM, ExcV, FD, FL, OV, Star, NONE, TRUE, FALSE, EMPTY, cat, join,
                    comps, under, subterms)
from . import models as M

SRC, DEST, OUT = T('param', 'src'), T('param', 'dest'), T('param', 'out')
FILE, PATH = T('param', 'file'), T('param', 'path')
NESTED = T('cat', T('param', 'parent'), K('/Owner/Name'))
PARENT, CONT = T('param', 'parent'), T('param', 'container')


def install_brace_hooks(I):
    """property trees: reading a stage-1 file yields the tree named by its path; writing stores the tree"""
    q = 'v8unpack.json_container_decoder.JsonContainerDecoder.'

    def decode_file(I, args, kwargs, st, node):
        f = args[1] if len(args) > 1 else kwargs.get('file')
        o = I.obj(st, f)
        path = o.attrs['path']
        M.entry_codec_check(I, path, o.attrs['enc'], st, node)
        e = st.fs.get(path)
        if e is not None and e[0] == 'text' and isinstance(e[1], T) and e[1].op == 'bracetext':
            return [(I.thaw(I.frozen[e[1].args[0].v], st), st)]
        if e is not None and e[0] == 'bin' and isinstance(e[1], T) and e[1].op == 'bytes':
            return [(T('brace', e[1].args[0]), st)]
        t = T('brace', path)
        if I.catchable('BigBase64'):
            out = []
            for b, x in I.split(T('bigb64', path), st, default=False):
                if b:
                    x.event('raise', 'BigBase64', I.where(node))
                    I.raise_(ExcV(I.get_class('v8unpack.json_container_decoder.BigBase64')), x)
                else:
                    out.append((t, x))
            return out
        return [(t, st)]

    def encode_root(I, args, kwargs, st, node):
        data = args[1]
        fz = I.freeze(data, st)
        n = len(I.frozen)
        I.frozen[n] = fz
        return [(T('bracetext', K(n)), st)]
    I.hooks[q + 'decode_file'] = decode_file
    I.hooks[q + 'encode_root_object'] = encode_root


ELEMS = T('form-elements')


def install_form_hooks(I):
    """taking form elements apart and putting them together is the subject of another analysis: here it either
    succeeds (the elements leave the body; the counterpart puts them back) or fails after a partial change"""
    core = I.get_class('v8unpack.MetaDataObject.Form.FormCore.FormCore')
    table = core.info.lookup('supported_form_versions')[1]
    classes = []
    if isinstance(table, Ref):
        for v in I.base.heap[table.addr].items.values():
            if isinstance(v, Cls) and v not in classes:
                classes.append(v)

    def dec(I, args, kwargs, st, node):
        tree = args[-1] if isinstance(args[-1], T) else kwargs.get('raw_data', args[-1])
        st.event('form-decode', I.where(node))
        s2 = st.fork()
        if isinstance(tree, T):
            st.store[T('idx', tree, ELEMS)] = K('taken')
            s2.store[T('idx', tree, ELEMS)] = K('partial')
        s2.tags = s2.tags | {'form-failed'}
        I.raise_(ExcV(Ext('Exception'), K('form elements')), s2)
        return [(NONE, st)]

    def enc(I, args, kwargs, st, node):
        tree = args[-1] if isinstance(args[-1], T) else kwargs.get('raw_data', args[-1])
        loc = T('idx', tree, ELEMS) if isinstance(tree, T) else None
        st.event('form-encode', I.where(node), st.store.get(loc))
        if st.store.get(loc) is K('taken'):
            del st.store[loc]
        elif loc is not None and 'form-failed' in st.tags:
            # the elements table is empty for a form that could not be parsed: nothing is put back
            pass
        return [(NONE, st)]
    n = 0
    for c in classes:
        for name, h in (('decode', dec), ('encode', enc)):
            owner, f = c.info.lookup(name)
            if isinstance(f, Fn):
                I.hooks[f.info.qual] = h
                n += 1
    return n


class RoundTrip:
    def __init__(self, I, options=None, max_dev=2, policy='present', parent=None):
        self.I = I
        self.options = options or {}
        self.max_dev = max_dev
        self.policy = policy
        self.parent = parent if parent is not None else NESTED
        I.input_roots = {SRC}
        I.virtual_roots = {DEST, OUT}
        I.max_dev = max_dev
        I.free_subjects = frozenset([join([SRC, FILE])])      # the object's own header is varied in full
        I.policy = policy
        install_brace_hooks(I)
        install_form_hooks(I)

        def ff(t, st):
            # children of the object are the subject of another analysis: no child lists here
            if t.op == 'nonempty':
                return self.child_filter(t, st)
            if t.op == 'eq' and isinstance(t.args[0], T) and isinstance(t.args[1], K):
                return self.token_filter(t.args[0], t.args[1].v, st)
            return None
        I.fork_filter = ff

    @staticmethod
    def token_filter(t, v, st):
        # a token of a property tree never looks like '<n>-<m>': such keys only match composed values
        if isinstance(v, str) and '-' in v and v.replace('-', '').isdigit():
            if t.op == 'idx':
                return False
            if t.op == 'cat':
                head, rest = t.args[0], t.args[1:]
                parts = v.split('-')
                toks = [a for a in t.args if isinstance(a, T)]
                consts = [a.v for a in t.args if isinstance(a, K)]
                if sum(c.count('-') for c in consts) != len(parts) - 1:
                    return False
                if isinstance(head, T) and st.facts.get(T('eq', head, K(parts[0]))) is False:
                    return False
        return None

    def child_filter(self, t, st):
        x = t.args[0]
        if isinstance(x, T) and x.op == 'rangeel':
            n = x.args[0]
            # number of child types: int(include[2])
            fi = self.I.cur_func()
            return False if isinstance(n, T) and n.op == 'int' and n.args[0].op == 'idx' \
                and n.args[0].args[1] is K(2) else None
        return None

    def opts(self, st):
        d = {K('obj_version'): T('param', 'obj_version')}
        for k, v in self.options.items():
            d[K(k)] = v if isinstance(v, (K, T)) else K(v)
        return self.I.new(st, HDict(d))

    def decode(self, cls):
        I = self.I
        st = I.start()
        st.kinds[join([SRC, FILE])] = frozenset(('file',))
        f = cls.info.lookup('decode')[1]
        from .terms import Bound
        o = self.opts(st)
        self.stage = 'decode'
        return I.run(Bound(cls, f), [SRC, FILE, DEST, PATH, o], {'parent_container_uuid': CONT}, st)

    def encode(self, cls, st, src_dir, file_name):
        I = self.I
        s = st.fork()
        base = I.base
        s.heap = dict(base.heap)
        s.store = {}
        s.ev = None
        s.exc = None
        f = cls.info.lookup('encode')[1]
        o = self.opts(s)
        idx = I.new(s, HDict({}))
        self.stage = 'encode'
        return I.run(Bound(cls, f), [src_dir, file_name, OUT, self.parent, CONT, idx, o], {}, s)

    def compose(self, cls):
        """yields (decode outcome, encode outcome)"""
        for kind, v, st in self.decode(cls):
            if kind != 'ret':
                yield (kind, v, st), None
                continue
            # directory of the object: where its id file went
            sdir = None
            for p in st.fs:
                c = comps(p)
                if isinstance(c[-1], K) and isinstance(c[-1].v, str) and c[-1].v.endswith('.id.json'):
                    sdir = join(c[:-1])
            if sdir is None:
                yield (kind, v, st), 'no id file'
                continue
            name = comps(sdir)[-1]
            for r in self.encode(cls, st, sdir, name):
                yield (kind, v, st), r
