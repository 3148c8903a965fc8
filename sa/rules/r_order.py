"""C14: what is produced depends neither on the order of directory listings nor on the order workers finish in.

Every step that lists a directory, builds a set or collects the results of workers is interpreted several times over its
syntax tree in one and the same closed world - with the listings, the sets and the completion of the tasks in different
orders - and what it produces is compared: files with their contents, the order of what is written to streams and
containers, the stages with their arguments."""
import ast
import re

from ..interp import HDict, HList
from ..terms import K, T, Ref, Cls, Fn, Bound, Tup, FD, FL, NONE, TRUE, FALSE, join
from ..prog import AnalysisBroken
from ..runner import parallel
from ..streams import Streams
from ..world import World, files, do_tasks, path
from .. import ops
from ..ops import stages
from . import r_mapping, r_layout
from .r_ops import opaque_but_worker

PROPS = ('C14',)
Q = 'v8unpack.'
P = lambda x: T('param', x)
SRC, DEST, WR = r_mapping.SRC, r_mapping.DEST, r_mapping.WR
IDX = P('index file')


def rotated(x):
    x = list(x)
    h = len(x) // 2
    return x[h:] + x[:h]


ORDERS = {'sorted': sorted, 'reversed': lambda x: sorted(x, reverse=True), 'rotated': lambda x: rotated(sorted(x)),
          'swapped': lambda x: [y for i in range(0, len(x), 2) for y in sorted(x)[i:i + 2][::-1]]}


def ordering(f):
    def order(x):
        x = list(x)
        try:
            return f(x)
        except TypeError:
            return [x[i] for i in f(range(len(x)))]
    return order


def finishing(I, f):
    """tasks of a pool end in this order; ordered collections of results are in the order of the tasks all the same"""
    def hook(I, r, name, args, kw, st, node):
        fn, lst = args[0], args[1]
        if not isinstance(lst, Ref) or not isinstance(I.obj(st, lst), HList):
            return None
        tasks = list(I.obj(st, lst).items)
        idx = list(f(range(len(tasks))))
        states = [({}, st)]
        for i in idx:
            nxt = []
            for d, s in states:
                s.event('task', I.where(node))
                a = [tasks[i]]
                if name.startswith('starmap'):
                    a = list(getattr(tasks[i], 'items', None) or I.obj(s, tasks[i]).items)
                nxt += [({**d, i: v}, x) for v, x in I.call(fn, a, {}, s, node)]
            states = nxt
        out = []
        for d, s in states:
            out.append((I.new_list(s, [d[i] for i in (idx if 'unordered' in name else sorted(idx))]), s))
        return out
    I.pool_hook = hook


def canon(v):
    """value with mappings compared as mappings"""
    if isinstance(v, FD):
        return ('map', tuple(sorted((str(k), str(canon(x))) for k, x in v.key[0])))
    if isinstance(v, FL):
        return ('list', tuple(canon(x) for x in v.key[0]))
    if isinstance(v, Tup):
        return ('tuple', tuple(canon(x) for x in v.items))
    if isinstance(v, T):
        return (v.op,) + tuple(canon(x) for x in v.args)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    return v if not isinstance(v, (list, dict)) else str(v)


class Unknown(Exception):
    pass


def whole(I, st, v):
    x = I.freeze(v, st)
    return canon(x)


def produced(I, rs, roots, sequence=(), bags=(), value=False, streams=()):
    """what the paths of one run produce"""
    out = set()
    for k, v, st in rs:
        if opaque_but_worker(st):
            raise Unknown
        o = [('ends', k if k == 'ret' else 'fails')]
        if k == 'ret':
            for r in roots:
                for name, e in sorted(files(st, r).items()):
                    o.append(('file', str(r), name, canon(tuple(e))))
            seq, bag = [], []
            for q, d, w in stages(st):
                a = (ops.short(q),) + tuple(sorted((n, str(whole(I, st, x))) for n, x in d.items()))
                if q in sequence:
                    seq.append(a)
                elif q in bags:
                    bag.append(a)
            o.append(('in order', tuple(seq)))
            o.append(('carried out', tuple(sorted(bag, key=str))))
            if streams:
                o.append(('written', tuple(str(e[1:-1]) for e in st.events() if e[0] == 'swrite')))
            if value:
                o.append(('result', str(whole(I, st, v))))
            mk = sorted({str(e[1:-1]) for e in st.events() if e[0] in ('copy', 'archive', 'unarchive', 'delete', 'mkdir', 'create')})
            o.append(('files touched', tuple(mk)))
            out.add(tuple(same_names(o)))
            continue
        FAILS.append(str(v)[:300])
        out.add(tuple(o))
    return frozenset(out)


FAILS = []


def same_names(o):
    '''objects numbered by their first mention'''
    seen = {}

    def sub(x):
        if isinstance(x, tuple):
            return tuple(sub(y) for y in x)
        return re.sub(r'@\d+', lambda m: '@' + str(seen.setdefault(m.group(0), len(seen))), str(x))
    return [sub(x) for x in o]


def difference(a, b):
    """first difference of what two runs produce"""
    x, y = sorted(a - b, key=str), sorted(b - a, key=str)
    if not x or not y:
        return 'a path more', ''
    for p, q in zip(x[0], y[0]):
        if p != q:
            for i, j in zip(p, q):
                if i != j:
                    return str(p[:3] if p[0] == 'file' else p[0]), '%s  <>  %s' % (str(i)[:200], str(j)[:200])
            return str(p[0]), ''
    return 'number of files', ''


# ------------------------------------------------------------------------------------------------ the steps
def bare(order, roots, dev=0):
    w = World(roots, dev)
    w.I.order = ordering(ORDERS[order])
    finishing(w.I, ORDERS[order])
    return w


def quiet(I, quals, results=None):
    ops.install(I, [Q + x for x in quals], results={Q + k: v for k, v in (results or {}).items()})


ROOT_TEXT = 'json_container_decoder.JsonContainerDecoder.encode_root_object'


def brace_text(I):
    '''the text of a tree is a function of the tree'''
    def text(I, d, st, node):
        return [(T('text of', *[I.freeze(x, st) for n, x in sorted(d.items()) if n not in ('self', 'cls')]), st)]
    quiet(I, [ROOT_TEXT], {ROOT_TEXT: text})


def main_container(order, names):
    w = bare(order, [SRC, DEST])
    for n in names:
        w.put(SRC, n + '/root', T('content', K(n)))
    w.folder(DEST)
    quiet(w.I, ['decoder.Decoder.decode'])
    rs = w.run('decoder.decode', [SRC, DEST], {'pool': NONE, 'options': w.value({})})
    return w.I, produced(w.I, rs, [DEST], sequence=[Q + 'decoder.Decoder.decode'])


def container_file(order, names):
    w = bare(order, [SRC])
    for n in names:
        w.put(SRC, n + '/root', T('content', K(n)))
    quiet(w.I, ['container.Container.build'])
    w.I.streams = Streams({}, open_temp=True)
    rs = w.run('container_writer.build', [SRC, P('file'), TRUE])
    return w.I, produced(w.I, rs, [], sequence=[Q + 'container.Container.build'])


def entries(order, cls):
    I = r_layout.bare()
    I.order = ordering(ORDERS[order])
    F, BASE = P('container'), P('base')
    I.streams = Streams({F: (BASE, BASE)}, open_temp=True)
    I.listings = {SRC: ['b.1', 'b', 'a', 'C', 'B', 'b.0']}
    st = I.start()
    c = [x for x in r_layout.containers(I) if x.info.name == cls][0]
    obj, st = r_layout.new(I, c, st)
    for n in I.listings[SRC]:
        st.facts[T('isdir', join([SRC, K(n)]))] = False
    I.free_pred = None
    I.fork_filter = r_layout.always_one
    rs = I.run(r_layout.fn(I, 'container.Container.build'), [obj, F, SRC, FALSE], dict(offset=BASE), st)
    return I, produced(I, rs, [], streams=[F])


def compressing(order, names):
    w = bare(order, [SRC, DEST])
    for n in names:
        for f in ('root', 'b.1', 'b', 'a', 'X.1', 'B', 'b.0', 'configinfo')[:8 if n == '1' else 7]:
            w.put(SRC, '%s/%s' % (n, f), T('content', K(n + f)))
        w.folder(SRC, n + '/dir')
        w.put(SRC, n + '/dir/text', T('content', K('t')))
        w.put(SRC, n + '/dir/info', T('content', K('i')))
    w.folder(DEST)
    quiet(w.I, ['container_doc.Document.compress', 'container.Container.build', 'json_container_decoder.JsonContainerDecoder.encode_root_object'],
          {'json_container_decoder.JsonContainerDecoder.encode_root_object': lambda I, d, st, node: [
              (T('brace text', I.freeze(d.get('data', list(d.values())[-1]), st)), st)]})
    rs = w.run('container_writer.compress_and_build', [SRC, DEST], {'pool': NONE})
    return w.I, produced(w.I, rs, [SRC, DEST], bags=[Q + 'container_doc.Document.compress', Q + 'container.Container.build', Q + ROOT_TEXT])


def inflating(order, names):
    w = bare(order, [SRC, DEST])
    for n in names:
        for f in ('root', 'b', 'a'):
            w.put(SRC, '%s/%s' % (n, f), T('content', K(n + f)))
    w.folder(DEST)
    quiet(w.I, ['container_reader.decompress_file_and_extract'])
    rs = w.run('container_reader.decompress_and_extract', [SRC, DEST], {'pool': NONE})
    return w.I, produced(w.I, rs, [DEST], bags=[Q + 'container_reader.decompress_file_and_extract'])


def organizer(order, what, idx, ce):
    case = r_mapping.Case(r_mapping.INDEX if idx else None, ce)
    w = bare(order, [WR, SRC, DEST])
    w.folder(WR, 'proj')
    w.folder(DEST)
    names = list(r_mapping.ITEMS)
    a = r_mapping.args(w, case, SRC, case.W)
    if what == 'unpack':
        for x in names:
            w.put(SRC, x, r_mapping.source(x))
        if ce:      # variants of earlier versions already there
            for d in (3, 5, 12):
                w.put(WR, case.own('own.bin').replace('.10.', '.%d.' % d), T('content', K('variant %d' % d)))
        rs = w.run('organizer_file.OrganizerFile.unpack', **a)
        return w.I, produced(w.I, rs, [WR])
    for p, v in r_mapping.shared_tree(case).items():
        w.put(WR, p, v)
    if ce:
        for x in names:
            k = r_mapping.kind_of(x)
            if case.place(x) == case.own(x) and not r_mapping.ITEMS[x]:
                for d in (3, 9, 12):
                    w.put(WR, case.own(x).replace('.10.', '.%d.' % d), T('content', K(d)) if k == 'bin' else 'tag %d\n' % d if k == 'bsl' else {
                        'tree': [{'name': 'first'}], 'data': {'first': 'tag'}})
    rs = w.run('organizer_file.OrganizerFile.pack', **{**a, 'args': [case.W, DEST]})
    return w.I, produced(w.I, rs, [DEST])


def indexing(order):
    w = bare(order, [SRC, IDX])
    for x in ('b.bsl', 'a.bsl', 'a.10.bsl', 'D/x.bin', 'D/c.bin', 'E/x.bin'):
        w.put(SRC, x, T('content', K(x)))
    w.put(IDX, 'i.json', {'b.bsl': 'lib/b.bsl', 'D': {'c.bin': None}})
    rs = w.run('index.update_index', [SRC, path(IDX, 'i.json'), K('core')])
    return w.I, produced(w.I, rs, [IDX])


def tasks(order):
    """the tasks of all child objects are run; nothing else of the order may matter"""
    w = bare(order, [SRC, DEST])
    for t in ('Catalog', 'Document', 'CommonModule'):
        for n in ('b', 'a', 'c'):
            w.put(SRC, '%s/%s/%s.json' % (t, n, t), {})
    c = w.I.get_class(Q + 'MetaObject.MetaObject')
    o, st = w.I.instantiate(c, [], {'options': w.value({})}, w.st, None)[0]
    m = w.I.get_attr(o, 'encode_includes', st, None)[0][0]
    rs = w.I.run(m.fn if isinstance(m, Bound) else m, [o, SRC, K('f'), DEST, K('id')], {}, st)
    out = set()
    for k, v, s in rs:
        if opaque_but_worker(s):
            raise Unknown
        x = w.I.freeze(v, s)
        out.add((('ends', k), ('tasks', tuple(sorted(map(str, x.key[0])) if isinstance(x, FL) else (str(x),)))))
    return w.I, frozenset(out)


ROOTS = {'Configuration': 26, 'ConfigurationExtension': 43, 'ExternalDataProcessor': None}


def assembling(order, cls, auto):
    """child objects come back to the root object, in whatever order they were finished"""
    w = bare(order, [SRC, DEST])
    I = w.I
    kinds = {'CatalogForm': 2, 'Catalog': 3, 'CatalogCommand': 2, 'CommonModule': 3}
    job = []
    for k, n in kinds.items():
        for i in range(n):
            job.append([k, [SRC, 'n%d' % i, DEST, {}, cls, None, {}]])
    # alternate the kinds
    job = job[::2] + job[1::2]
    lst = w.value(job)
    opts = w.value({'auto_include': auto})
    header = {'header': root_header(I, cls, kinds, auto), 'file_uuid': 'f-uuid', 'root': ['r'], 'version': ['v'], 'versions': ['vs'], 'copyinfo': ['1', 'f-uuid'],
              'uuid': 'u', 'name': 'N', 'compatibility_version': 'cv', 'obj_version': '803', 'v8unpack': version(I)}
    w.put(SRC, cls + '.json', header)
    c = I.get_class(Q + 'MetaObject.%s.%s' % (cls, cls))
    enc, st = I.instantiate(c, [], {'options': opts, 'obj_version': K('803')}, w.st, None)[0]

    def one(I, d, st, node):
        v = list(d.values())[-1]
        p = I.freeze(v, st)
        k, a = [x for x in p.key[0]]
        n = a.key[0][1]
        res = {'parent_id': cls, 'file_list': ['%s.%s.%s' % (k.v, n.v, x) for x in '01'], 'obj_type': k.v, 'obj_name': 'x' + n.v,
               'obj_uuid': 'id-%s-%s' % (k.v, n.v), 'obj_data': [k.v, n.v]}
        r = w.value(res) if False else I.thaw(frz(res), st)
        return [(Tup(r, NONE), st)]

    def kids(I, d, st, node):
        return [(I.new_list(st, list(I.obj(st, lst).items)), st)]

    quiet(I, ['decoder.Decoder.encode_include', 'decoder.Decoder.get_handler_by_version_file', 'MetaObject.MetaObject.encode_includes'],
          {'decoder.Decoder.encode_include': one, 'decoder.Decoder.get_handler_by_version_file': enc, 'MetaObject.MetaObject.encode_includes': kids})
    brace_text(I)
    w.folder(DEST)
    rs = w.run('decoder.Decoder.encode', [SRC, DEST], {'pool': NONE, 'file_name': NONE, 'options': opts}, cls='decoder.Decoder', st=st)
    return I, produced(I, rs, [DEST])


def nested(order, cls, auto):
    '''child objects come back to an object that is no root'''
    w = bare(order, [DEST])
    I = w.I
    kinds = {'CatalogForm': 3, 'CatalogCommand': 4}
    index = {}
    for k in ordering(ORDERS[order])(kinds):
        for i in ordering(ORDERS[order])(range(kinds[k])):
            index.setdefault(k, []).append(('id-%s-n%d' % (k, i), 'name %d' % i, [k, 'data %d' % i]))
    c = I.get_class(Q + 'MetaObject.%s.%s' % (cls, cls))
    obj, st = I.instantiate(c, [], {'options': w.value({'auto_include': auto}), 'obj_version': K('803')}, w.st, None)[0]
    st = I.set_attr(obj, 'header', I.thaw(frz({'header': root_header(I, cls, kinds, auto), 'uuid': 'u', 'name': 'N'}), st), st, None)[0]
    idx = I.new(st, HDict({K(k): I.new_list(st, [Tup(*[I.thaw(frz(y), st) for y in x]) for x in v]) for k, v in index.items()}))
    m = I.get_attr(obj, 'fill_header_includes', st, None)[0][0]
    out = set()
    for k, v, s in I.run(m.fn if isinstance(m, Bound) else m, [obj, idx], {}, st):
        if opaque_but_worker(s):
            raise Unknown
        h = I.get_attr(obj, 'header', s, None)[0][0]
        out.add((('ends', k), ('header', str(canon(I.freeze(h, s))))))
    return I, frozenset(out)


def frz(v):
    from ..world import frozen
    return frozen(v)


def version(I):
    v = I.mods[Q + 'version'].ns.get('__version__')
    return v.v if isinstance(v, K) else '1.2.3'


def enum(I, cls, name):
    c = I.get_class(Q + 'metadata_types.' + cls)
    for n in c.info.node.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and (name is None or n.targets[0].id == name):
            return n.value.value
    raise AnalysisBroken('%s.%s not found' % (cls, name))


def root_header(I, cls, kinds, auto):
    place = ROOTS[cls]
    if auto:
        types = list(kinds)
    else:
        types = [[enum(I, 'MetaDataTypes', k), str(n)] + ['id-%s-n%d' % (k, i) for i in range(n)] for k, n in kinds.items()]
    if place:
        obj = ['x0', ['1', ['3', ['1', '0', 'uuid'], '"N"', ['0'], '""']]] + ['x%d' % i for i in range(2, 50)]
        return [['2', 'id', '1', [enum(I, 'MetaDataGroup', None), ['1', obj, str(len(types))] + types]]]
    own = ['0', 'cont', '0', ['1', ['3', ['1', '0', 'uuid'], '"N"', ['0'], '""']]]
    return [['1', '1', 'x', ['t', ['0', own, str(len(types))] + types]]]


CASES = []
for _n in (['0'], ['1'], ['0', '1']):
    CASES += [('main container %s' % '+'.join(_n), main_container, (_n,)), ('container file %s' % '+'.join(_n), container_file, (_n,)),
              ('compressed entries %s' % '+'.join(_n), compressing, (_n,)), ('inflated entries %s' % '+'.join(_n), inflating, (_n,))]
CASES += [('entries of %s' % c, entries, (c,)) for c in ('Container', 'Container64')]
CASES += [('%s%s%s' % (w_, ' with index' if i_ else '', ', inheritance' if c_ else ''), organizer, (w_, i_, c_))
          for w_ in ('unpack', 'pack') for i_ in (False, True) for c_ in (False, True)]
CASES += [('index file', indexing, ()), ('tasks of child objects', tasks, ())]
CASES += [('returned children of %s%s' % (c, ', dynamic' if a else ''), nested, (c, a)) for c in ROOTS for a in (False, True)]
CASES += [('child objects of %s%s' % (c, ', dynamic' if a else ''), assembling, (c, a)) for c in ROOTS for a in (False, True)]


def job(x):
    name, f, a = x
    res, lists = {}, set()
    for o in ORDERS:
        try:
            I, res[o] = f(o, *a)
        except Unknown:
            return name, None, None
    return name, f.__name__, res


def check(rep):
    for name, f, res in parallel(job, CASES):
        if res is None:
            rep.undecide('%s: part of a path is not modelled' % name)
            continue
        rep.cover(steps=1, runs=len(res), paths=sum(map(len, res.values())))
        base = res['sorted']
        if not any(('ends', 'ret') in p for p in base):
            rep.undecide('%s: no path is carried out' % name)
        for o, r in res.items():
            if r != base:
                what, d = difference(base, r)
                rep.add('order', name, 'what is produced depends on the order of a listing or of the workers (%s)' % what, d)
                break
    rep.floor('steps', rep.coverage.get('steps', 0), 20)
    rep.explanation = __doc__
