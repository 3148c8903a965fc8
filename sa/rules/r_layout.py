"""C06: the layout of the containers, written and read."""
import ast
import struct

from ..interp import Interp, HInst, HList, HDict
from ..terms import K, T, Ref, Cls, Fn, Bound, Ext, Tup, Star, NONE, TRUE, FALSE, subterms
from ..prog import AnalysisBroken
from ..streams import Streams, lin, same, stream_end, on_path, World, NoValue
from .. import models as M

PROPS = ('C06',)
Q = 'v8unpack.'
F, BASE, SRC = T('param', 'file'), T('param', 'base'), T('param', 'src')
MARK = {'Container': 0x7fffffff, 'Container64': 0xffffffffffffffff}
HDR = struct.calcsize


def check(rep):
    I = Interp()
    classes = containers(I)
    rep.floor('container_formats', len(classes), 2)
    for c in classes:
        consts = constants(rep, c)
        digits(rep, c, consts)
        fields = {}
        for kind in ('files', 'folder', 'plain', 'plain folder'):
            writer(rep, c, consts, kind, fields)
        reader(rep, c, consts, fields)
    sequence(rep)
    compression(rep)
    rep.explanation = (
        'The syntax trees of the container writer and reader are interpreted with symbolic stream positions (linear in the '
        'unknown lengths): every block written is located, and its declared size, the offset stored for it in the table and '
        'the offset of the next block of a chain are compared with the place the block was really written to; the table and '
        'the blocks read are checked to use the same structures, fields and terminators, relative to the same start.')
    rep.assumptions = ['sizes are those of struct.calcsize on a 64-bit little-endian platform',
                       'chains of table blocks are followed for 1 to 4 blocks; a container with two entries']


def containers(I):
    base = I.get_class(Q + 'container.Container')
    out = []
    for name, v in I.mods[Q + 'container'].ns.items():
        if isinstance(v, Cls) and base.info in v.info.mro and v.info not in [x.info for x in out]:
            out.append(v)
    return out


def new(I, c, st, init=None):
    r = I.instantiate(c, [], init or {}, st, None)
    return r[0]


def const(I, c, name):
    st = I.start()
    obj, st = new(I, c, st)
    r = I.get_attr(obj, name, st, None)
    v = r[0][0] if r else NONE
    return v.v if isinstance(v, K) else None


def constants(rep, c):
    I = Interp()
    q = c.info.qual
    d = {n: const(I, c, n) for n in ('end_marker', 'header_fmt', 'header_size', 'block_header_fmt', 'block_header_size',
                                    'index_fmt', 'default_block_size', 'index_block_size')}
    for fmt, size in (('header_fmt', 'header_size'), ('block_header_fmt', 'block_header_size')):
        rep.cover(constants_compared=1)
        if isinstance(d[fmt], str) and isinstance(d[size], int):
            if struct.calcsize(d[fmt]) != d[size]:
                rep.add('size', q, '%s is %d bytes long, %s says %d' % (fmt, struct.calcsize(d[fmt]), size, d[size]))
    if isinstance(d['index_fmt'], str) and isinstance(d['end_marker'], int):
        rep.cover(constants_compared=1)
        try:
            struct.pack(d['index_fmt'], d['end_marker'])
        except struct.error:
            rep.add('marker', q, 'the terminator does not fit a field of the table')
    if d['end_marker'] is not None and c.info.name in MARK and d['end_marker'] != MARK[c.info.name]:
        rep.add('marker', q, 'the terminator is not the one of the format')
    return d


def digits(rep, c, consts):
    """numbers of a block header: as many digits as the field, and the number itself"""
    I = Interp()
    st = I.start()
    obj, st = new(I, c, st)
    widths = [int(x[:-1]) for x in ''.join(ch + ' ' if ch == 's' else ch for ch in consts['block_header_fmt'] or '').split()]
    big = [w for w in widths if w > 2]
    if not big:
        return
    for v in (0, 9, 31, 255, 512, 65536, 1 << 20, (1 << 31) - 1, consts['end_marker'] or 0):
        b = I.get_attr(obj, 'int2hex', st, None)
        if not b:
            return
        for kind, r, s2 in I.run(b[0][0], [K(v)], {}, st.fork()):
            rep.cover(numbers_written=1)
            if kind == 'ret' and isinstance(r, K):
                try:
                    back = int(r.v, 16)
                except (ValueError, TypeError):
                    back = None
                if len(r.v) != big[0]:
                    rep.add('digits', c.info.qual, 'a number is written with %d digits into a field of %d' % (len(r.v), big[0]))
                elif back != v:
                    rep.add('digits', c.info.qual, 'the number %d is written as %s' % (v, r.v))
            else:
                rep.undecide('int2hex of %s' % c.info.qual)


# ------------------------------------------------------------------------------------------- writing
def one_chunk(t, st):
    """a stream that is copied holds one chunk; what is cut from another stream may be empty"""
    if stream_end(t):
        x = [y for y in subterms(t) if isinstance(y, T) and y.op == 'rd']
        key = x[0].args[0]
        if any(e[0] == 'swrite' and e[1] == key and isinstance(e[3], T) and e[3].op == 'pack' and len(e[3].args) == 4
               for e in st.events()):
            return None
        if lin(x[0].args[1]) != ({}, 0):
            return t.op == 'eq'
        if isinstance(key, T) and key.op == 'call' and any(isinstance(y, T) and y.op == 'rd' for y in subterms(key)):
            return None
        return t.op != 'eq'
    return None


def always_one(t, st):
    if stream_end(t):
        x = [y for y in subterms(t) if isinstance(y, T) and y.op == 'rd']
        return (lin(x[0].args[1]) == ({}, 0)) != (t.op == 'eq')
    return None


def unknown_count(t):
    return stream_end(t) or any(isinstance(x, T) and x.op in ('ceil', 'binDiv', 'floordiv', 'size', 'binFloorDiv') for x in subterms(t))


def bare():
    I = Interp()
    I.max_dev = 1
    I.MAX_WHILE = 4
    I.unroll_range = 3
    I.eager_gen = True
    I.fork_filter = one_chunk
    I.free_pred = unknown_count
    return I


def fn(I, q):
    f = I.get_func(Q + q)
    return f.fn if isinstance(f, Bound) else f


NUMBER_OPS = {'add', 'cat', 'binAdd', 'binSub', 'size', 'len', 'max', 'min', 'mul', 'times', 'binFloorDiv', 'binDiv', 'ceil',
              'param', 'floor', 'rd', 'elem', 'idx', 'int'}


def num(d):
    """the number written as text into a header field, as a term; None if it cannot be told"""
    while isinstance(d, T) and d.op not in NUMBER_OPS:
        args = [a for a in d.args if isinstance(a, T)]
        if d.op == 'call':
            args = args[-1:]
        d = args[0] if len(args) == 1 else None
    if isinstance(d, K) and isinstance(d.v, (bytes, str)):
        try:
            return K(int(d.v, 16))
        except ValueError:
            return None
    return d if isinstance(d, (T, K)) else None


def header_fields(d, fmt):
    """numbers of a block header by position, or None when this is not a block header"""
    if isinstance(d, K) and isinstance(d.v, bytes):
        try:
            vals = [K(x) for x in struct.unpack(fmt, d.v)]
        except struct.error:
            return None
    elif isinstance(d, T) and d.op == 'pack' and d.args[0] == K(fmt):
        vals = list(d.args[1:])
    else:
        return None
    out = {}
    for i, w in enumerate([int(x) for x in fmt.replace('s', ' ').split()]):
        if w > 2 and i < len(vals):
            out[i] = num(vals[i])
    return out


class Block:
    def __init__(self, pos, fields, where):
        self.pos, self.fields, self.where, self.body, self.length = pos, fields, where, [], 0


def filling(d):
    """bytes that only fill a block up"""
    if isinstance(d, K):
        return isinstance(d.v, bytes) and not d.v.strip(b'\0')
    return isinstance(d, T) and d.op == 'mul' and any(filling(x) for x in d.args)


SIZES = (24, 1, 100, 512, 513, 1000, 5000)


def counts(t):
    """a decision about a number, not about what was read"""
    return t.op not in ('truthy', 'nonempty') and not any(isinstance(x, K) and isinstance(x.v, bytes) for x in t.args)


def worlds(st, recs, block, most=5):
    """sizes of the streams that agree with every decision about numbers on this path"""
    own = {}
    keys = set()
    cache = {}

    def of(t):
        """streams a term depends on"""
        if t not in cache:
            got = set()
            if isinstance(t, T):
                if t.op in ('rd', 'size') and isinstance(t.args[0], T) and t.args[0].op != 'call':
                    got.add(t.args[0])
                for x in t.args:
                    if isinstance(x, T) and x.op != 'ref':
                        got |= of(x)
            cache[t] = frozenset(got - {F})
        return cache[t]
    for e in st.events():
        if e[0] == 'swrite':
            if e[1] != F:
                own.setdefault(e[1], []).append(e)
            for x in e:
                if isinstance(x, T):
                    keys |= of(x)
    facts = [(t, v, of(t)) for t, v in st.facts.items() if of(t)]
    for t, v, ks in facts:
        keys |= ks
    order = [k for k in sorted(keys, key=str) if k not in own] + [k for k in sorted(keys, key=str) if k in own]
    small = [f for f in facts if len(f[2]) <= 3]
    large = [f for f in facts if len(f[2]) > 3]
    groups = []
    for k in order:
        new = [k]
        for g in [g for g in groups if any(k in f[2] and f[2] & set(g) for f in small)]:
            groups.remove(g)
            new = g + new
        groups.append(new)
    out = []
    for n in range(most):
        sizes = {}
        base = (0, 1000, 77)[n % 3]

        def options(k):
            opts = []
            if k in own and k in recs:
                w = World(sizes, BASE, base, split=recs)
                try:
                    opts.append(sum(w.len(e[3]) for e in own[k]))
                except NoValue:
                    pass
                more = [block, block + 1, 2 * block, 2 * block + 100, 3 * block + 5]
                if any(k in f[2] and counts(f[0]) for f in small):
                    opts = more[n - 1:] + opts + more[:n - 1] if n else opts + more
            else:
                opts += [SIZES[(i * 3 + n) % len(SIZES)] for i in range(len(SIZES))] + [0]
            return opts

        def go(g, i):
            if i == len(g):
                return True
            k = g[i]
            mine = [f for f in small if k in f[2] and f[2] <= set(g[:i + 1])]
            for v in options(k):
                sizes[k] = v
                w = World(sizes, BASE, base, split=recs)
                if all(w.holds(t) in ((v,) if k in recs else (None, v)) for t, v, _ in mine) and go(g, i + 1):
                    return True
                del sizes[k]
            return False
        if not all(go(g, 0) for g in groups):
            break
        w = World(dict(sizes), BASE, base, split=recs)
        if all(w.holds(t) in (None, v) for t, v, _ in large):
            out.append(w)
    return out


def writer(rep, c, consts, kind, fields, room=None):
    I = bare()
    I.streams = Streams({F: (BASE, BASE)}, open_temp=True)
    A, B = [M.join([SRC, K(x)]) for x in 'ab']
    I.listings = {SRC: ['a', 'b']}
    st = I.start()
    obj, st = new(I, c, st)
    if room:
        consts = dict(consts, index_block_size=room)
        st = I.set_attr(obj, 'index_block_size', K(room), st, None)[0]
    st.facts[T('isdir', A)] = False
    st.facts[T('isdir', B)] = 'folder' in kind
    if 'folder' in kind:
        C = M.join([B, K('c')])
        I.listings[B] = ['c']
        st.facts[T('isdir', C)] = False
    if 'folder' in kind:
        I.free_pred = None
        I.fork_filter = always_one
    f = fn(I, 'container.Container.build')
    nested = 'plain' not in kind
    rs = I.run(f, [obj, F, SRC, TRUE if nested else FALSE], dict(offset=BASE), st)
    n = 0
    q = c.info.qual
    longest = 0
    for k, v, st in rs:
        if k != 'ret':
            continue
        if any(e[0] == 'opaque' for e in st.events()):
            rep.undecide('%s.build (%s): part of the path is not modelled' % (q, kind))
            continue
        n += 1
        on_path(st)
        rep.cover(writer_paths=1)
        longest = max(longest, one_container(rep, I, c, consts, st, kind, fields))
    rep.floor('writer_paths:%s:%s' % (c.info.name, kind), n, 1)
    if longest < 3 and 'folder' not in kind:
        # the number of records decides the number of blocks: a smaller first block makes more of them
        if room is None and isinstance(consts['index_block_size'], int) and 'record' in fields:
            return writer(rep, c, consts, kind, fields, struct.calcsize(fields['record']) * 2 // 3)
        rep.undecide('%s.build (%s): a table of several blocks' % (q, kind))
    rep.cover(**{'longest_table_chain:%s:%s' % (c.info.name, kind): longest})


def one_container(rep, I, c, consts, st, kind, fields):
    q = c.info.qual
    fmt = consts['block_header_fmt']
    writes = [e for e in st.events() if e[0] == 'swrite' and e[1] == F]
    if not writes:
        rep.add('header', q, 'nothing is written')
        return 0
    # the records of the table
    recs = [e for e in st.events() if e[0] == 'swrite' and e[1] != F and isinstance(e[3], T) and e[3].op == 'pack' and
            isinstance(e[3].args[0], K) and str(e[3].args[0].v).endswith(consts['index_fmt']) and len(e[3].args) == 4]
    tables = [e[1] for e in recs]
    recs = [e for e in recs if e[1] == recs[-1][1]] if recs else []
    if len(recs) != 2:
        rep.add('table', q, 'the table has %d entries instead of 2' % len(recs), writes[-1][6])
        return 0
    ws = worlds(st, tables, consts['index_block_size'])
    if not ws:
        rep.cover(paths_without_sizes=1)
        return 0
    n = 0
    for w in ws:
        try:
            n = max(n, in_world(rep, I, c, consts, st, kind, fields, w, writes, recs))
        except NoValue as err:
            rep.undecide('%s: a size or position cannot be computed: %s' % (q, str(err)[:80]))
    return n


def in_world(rep, I, c, consts, st, kind, fields, w, writes, recs):
    q = c.info.qual
    fmt, hsize, mark = consts['block_header_fmt'], consts['block_header_size'], consts['end_marker']
    base = w.base_value
    first = base + consts['header_size']
    rep.cover(layouts_computed=1)
    # the header of the container and the room for the table
    w0 = writes[0]
    if w(w0[2]) != base:
        rep.add('header', q, 'the header is not written at the start of the container', w0[6])
    want = struct.pack(consts['header_fmt'], mark, consts['default_block_size'], 2, 0)
    if isinstance(w0[3], K) and w0[3].v[:len(want)] != want:
        rep.add('header', q, 'the header is written as %r instead of %r' % (w0[3].v, want), w0[6])
    at = w(w0[2]) + w(w0[4])
    blocks = []
    end = None
    for e in writes[1:]:
        pos, n = w(e[2]), max(0, w(e[4]))
        fl = header_fields(e[3], fmt)
        if fl is not None:
            if len(fl) != 3 or None in fl.values():
                rep.undecide('%s: a block header cannot be read' % q)
                return 0
            b = Block(pos, [w(fl[i]) for i in sorted(fl)], e[6])
            b.length = n
            blocks.append(b)
        elif blocks:
            if pos != blocks[-1].pos + blocks[-1].length:
                rep.add('place', q, 'the contents of a block do not follow its header', e[6])
            blocks[-1].body.append((e[3], n))
            blocks[-1].length += n
        elif pos == at and filling(e[3]):
            at += n
        else:
            rep.add('place', q, 'contents are written before the first block', e[6])
    reserved = at - first
    if reserved <= hsize:
        rep.add('header', q, 'no room is left for the table of contents', w0[6])
        return 0
    # every block after the room is appended at the end; the table starts right after the header
    end = at
    table = None
    rest = []
    for b in blocks:
        rep.cover(blocks_located=1)
        b.doc, b.size, b.next = b.fields
        if b.length != hsize + b.size:
            rep.add('block-size', q, 'a block does not fill the size its header declares', b.where)
        if b.pos == first:
            table = b
            if b.size > reserved - hsize:
                rep.add('table', q, 'the first block of the table may be longer than the room left for it', b.where)
            continue
        if b.pos != end:
            rep.add('place', q, 'a block is written %s' % ('over another one' if b.pos < end else 'past the end of the container'),
                    b.where)
        end = max(end, b.pos + b.length)
        rest.append(b)
    if table is None:
        rep.add('table', q, 'the table of contents is not written after the header')
        return 0
    # the chain of the table
    chain = [table]
    while chain[-1].next != mark:
        hit = [b for b in rest if base + chain[-1].next == b.pos]
        if not hit:
            rep.add('chain', q, 'the next block of the table is not written where its offset says', chain[-1].where)
            return len(chain)
        rest.remove(hit[0])
        chain.append(hit[0])
    for b in rest:
        if b.next != mark:
            rep.add('chain', q, 'a block that ends its chain names another one', b.where)
    if len(rest) != 4:
        rep.add('chain', q, '%d blocks are written that no chain and no table entry leads to' % (len(rest) - 4)
                if len(rest) > 4 else 'an entry of the container is not written', table.where)
        return len(chain)
    if table.doc != w.size(recs[0][1]) and table.doc != sum(w(e[4]) for e in recs):
        rep.add('doc-size', q, 'the length declared for the table is not the length of its records', table.where)
    if table.doc > sum(n for b in chain for d, n in b.body if not filling(d)):
        rep.add('table', q, 'the blocks of the table do not hold all its records', table.where)
    for b in chain + rest:
        reads = [d for d, n in b.body if isinstance(d, T) and d.op == 'rd']
        if reads and w(reads[0].args[1]) != 0:
            rep.add('contents', q, 'the contents of a block are not taken from their beginning', b.where)
    for i, e in enumerate(recs):
        a, d, m = e[3].args[1:]
        rep.cover(table_entries=1)
        pair = rest[2 * i:2 * i + 2]
        if base + w(a) != pair[0].pos:
            rep.add('offset', q, 'the offset stored for the description of an entry is not where it was written', e[6])
        if base + w(d) != pair[1].pos:
            rep.add('offset', q, 'the offset stored for the data of an entry is not where it was written', e[6])
        if m != K(mark):
            rep.add('marker', q, 'an entry of the table does not end with the terminator', e[6])
        if not any(enc_name(y, 'ab'[i]) for y, _ in pair[0].body):
            rep.add('name', q, 'the description of an entry does not hold its name', pair[0].where)
        contents(rep, I, q, st, pair[1], i, kind)
        for b in pair:
            if b.doc != sum(n for x, n in b.body if not filling(x)):
                rep.add('doc-size', q, 'the length declared for a document is not the length of its contents', b.where)
    pos = [i for i, x in enumerate([int(x) for x in fmt.replace('s', ' ').split()]) if x > 2]
    fields.setdefault('positions', pos)
    fields.setdefault('record', recs[0][3].args[0].v)
    return len(chain)


def expand(st, data, seen=()):
    """what ends up in a stream, traced through temporary files"""
    out = []
    for d in data:
        if isinstance(d, T) and d.op == 'rd':
            key = d.args[0]
            own = [e[3] for e in st.events() if e[0] == 'swrite' and e[1] == key]
            if key in seen:
                continue
            out += expand(st, own, seen + (key,)) if own else [('file', key, d.args[1])]
        elif isinstance(d, T) and d.op == 'cm' and d.args[0].v in ('compress', 'flush'):
            out.append((d.args[0].v, expand(st, d.args[2:], seen)))
        else:
            out.append(('value', d))
    return out


def packs(x):
    return x[0] in ('compress', 'flush') or isinstance(x[1], list) and any(packs(y) for y in x[1])


def contents(rep, I, q, st, block, i, kind):
    """the data of an entry: the file (or the container built from the folder), compressed once when that is asked for"""
    x = expand(st, [d for d, _ in block.body if isinstance(d, T) and d.op in ('rd', 'cm')])
    where = block.where
    rep.cover(entries_traced=1)
    flat = x
    if 'plain' in kind:
        if not x or x[-1][0] != 'flush' or any(y[0] != 'compress' for y in x[:-1]):
            rep.add('contents', q, 'the data of an entry of a file are not its complete compressed contents', where)
            return
        flat = [z for y in x[:-1] for z in y[1]]
    if any(packs(y) for y in flat):
        rep.add('contents', q, 'an entry is compressed that the reader does not decompress', where)
        return
    if 'folder' in kind and i == 1:
        if not any(y[0] == 'file' for y in flat):
            rep.add('contents', q, 'the entry for a folder does not hold the container built from it', where)
        return
    path = M.join([SRC, K('ab'[i])])
    if len(flat) != 1 or flat[0][0] != 'file' or path_of(I, st, flat[0][1]) != path:
        rep.add('contents', q, 'the data of an entry are not the contents of the file of its name', where)
    elif not same(flat[0][2], K(0)):
        rep.add('contents', q, 'the data of an entry are not taken from the beginning of its file', where)


def path_of(I, st, key):
    if isinstance(key, T) and key.op == 'ref':
        o = I.obj(st, key.args[0])
        return o.attrs.get('path') if isinstance(o, HInst) else None
    return None


def enc_name(y, name):
    """the description holds the name in the encoding the reader expects"""
    for x in subterms(y):
        if isinstance(x, K) and isinstance(x.v, bytes) and name.encode('utf-16-le') in x.v:
            return True
        if isinstance(x, T) and x.op == 'rd':
            for z in subterms(x.args[0]):
                if isinstance(z, K) and isinstance(z.v, bytes) and name.encode('utf-16-le') in z.v:
                    return True
    return False


# ------------------------------------------------------------------------------------------- reading
SHAPES = [(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (3, 2, 3), (4, 1, 4), (1, 1, 0)]


def depth(x, fmt, consts):
    """(chain, number of blocks before) of the block an offset read from the container leads to"""
    o = origin(x, fmt, consts)
    if o is None:
        return None
    if o[0] == 'table':
        return ('table', o[1]), 0
    d = place(o[2], fmt, consts)
    return (d[0], d[1] + 1) if d else None


def place(h, fmt, consts):
    """(chain, number of blocks before) of a block header that was read"""
    at, cc = lin(h.args[1])
    rest = [a for a in at if a != BASE]
    if not rest:
        return ('first',), 0
    return depth(rest[0], fmt, consts) if len(rest) == 1 and cc == 0 else None


class Unknown(Exception):
    pass


def number(t, env, fmt, consts):
    """value of a size for given contents of the block headers"""
    if isinstance(t, K) and isinstance(t.v, int):
        return t.v
    if isinstance(t, T):
        o = origin(t, fmt, consts)
        if o and o[0] == 'block':
            d = place(o[2], fmt, consts)
            if d and (d, o[1]) in env:
                return env[d, o[1]]
            raise Unknown(t)
        if t.op == 'len' and isinstance(t.args[0], T) and t.args[0].op == 'rd':
            return max(0, number(t.args[0].args[2], env, fmt, consts))
        if t.op == 'len' and isinstance(t.args[0], T) and t.args[0].op in ('cat', 'add'):
            return sum(number(T('len', x), env, fmt, consts) for x in t.args[0].args)
        v = {'add': sum, 'cat': sum, 'binAdd': sum, 'min': min, 'max': max}.get(t.op)
        if v:
            return v([number(x, env, fmt, consts) for x in t.args])
        if t.op == 'binSub':
            x, y = [number(x, env, fmt, consts) for x in t.args]
            return x - y
    raise Unknown(t)


def amounts(rep, c, consts, st, reads, heads, pos, shape):
    """the data of a document: as many bytes of each block as it has, no more than the length of the document in all"""
    fmt, hsize, q = consts['block_header_fmt'], consts['block_header_size'], c.info.qual
    size = {('first',): shape[0], ('table', 0): shape[1], ('table', 1): shape[2]}
    got = {}
    for e in reads[1:]:
        if e[3] == K(hsize):
            continue
        for h in heads:
            if same(e[2], T('add', h.args[1], K(hsize))):
                d = place(h, fmt, consts)
                if d:
                    got.setdefault(d, []).append(e)
    for fill in ('even', 'uneven', 'full'):
        env = {}
        want = {}
        for root, n in size.items():
            cur = [512 if fill != 'uneven' else 300 + 170 * i for i in range(n)]
            doc = sum(cur) - (0 if fill == 'full' else 50)
            left = doc
            for i in range(n):
                env[(root, i), pos[0]] = doc if i == 0 else 0
                env[(root, i), pos[1]] = cur[i]
                env[(root, i), pos[2]] = 100000
                want[root, i] = min(left, cur[i])
                left -= cur[i]
        for d, es in got.items():
            if d not in want:
                continue
            try:
                ns = [number(e[3], env, fmt, consts) for e in es]
            except Unknown:
                rep.undecide('%s: how much of a block is read' % q)
                continue
            rep.cover(amounts_evaluated=1)
            most = max(ns)
            if most > env[d, pos[1]]:
                rep.add('amount', q, 'more bytes are read from a block than it has', es[-1][4])
            elif d[0] != ('first',) and most != want[d] or most < want[d]:
                rep.add('amount', q, 'block %d of a document gives %s bytes than the document has left' % (
                    d[1] + 1, 'more' if most > want[d] else 'less'), es[-1][4])


def shaped(consts, shape):
    """a container whose table, descriptions and data are kept in chains of the given numbers of blocks; none is truncated"""
    fmt, mark = consts['block_header_fmt'], K(consts['end_marker'])

    def decide(t, st):
        if t.op == 'truthy' and isinstance(t.args[0], T) and t.args[0].op == 'rd':
            return True
        if t.op in ('in', 'contains'):
            return False
        if t.op in ('eq', 'is') and len(t.args) == 2:
            x, y = t.args
            if isinstance(x, K):
                x, y = y, x
            if y == mark:
                o = origin(x, fmt, consts) if isinstance(x, T) else None
                if o and o[0] == 'table' and o[1] == 2:
                    return True
                d = depth(x, fmt, consts) if isinstance(x, T) else None
                if d is None:
                    return None
                if d[0] == ('table', 1) and shape[2] == 0:
                    return True
                size = {('first',): shape[0], ('table', 0): shape[1], ('table', 1): shape[2]}.get(d[0])
                return None if size is None else d[1] >= size
            return False
        if t.op in ('gt', 'ge') and t.args[1] == K(0):
            return True
        if t.op in ('lt', 'le') and t.args[1] == K(0):
            return False
        return None
    return decide


def reader(rep, c, consts, fields):
    n = two = 0
    for shape in SHAPES:
        a, b = read_one(rep, c, consts, fields, shape)
        n, two = n + a, two + b
    rep.floor('reader_paths:%s' % c.info.name, n, 7)
    rep.floor('reader_paths_with_entries:%s' % c.info.name, two, 6)


def read_one(rep, c, consts, fields, shape):
    q = c.info.qual
    I = bare()
    I.MAX_WHILE = 6
    I.max_dev = 1
    I.free_pred = None
    I.fork_filter = shaped(consts, shape)
    I.streams = Streams({F: (K(0), T('size', F))})
    st = I.start()
    obj, st = new(I, c, st)
    f = fn(I, 'container.Container.read')
    rs = I.run(f, [obj, F, BASE], {}, st)
    n = 0
    pos = fields.get('positions')
    fmt, hsize = consts['block_header_fmt'], consts['block_header_size']
    two = 0
    for k, v, st in rs:
        if k != 'ret':
            continue
        n += 1
        on_path(st, full=True)
        rep.cover(reader_paths=1)
        heads = {}
        reads = [e for e in st.events() if e[0] == 'sread' and e[1] == F]
        if not reads:
            rep.add('read', q, 'nothing is read')
            continue
        e = reads[0]
        if not same(e[2], BASE):
            rep.add('base', q, 'the header is not read at the start of the container', e[4])
        if e[3] != K(struct.calcsize(consts['header_fmt'])):
            rep.add('size', q, 'the header is read as %s bytes' % e[3], e[4])
        for e in reads[1:]:
            at, cc = lin(e[2])
            if at.get(BASE) != 1:
                rep.add('base', q, 'reads at a position that is not relative to the start of the container', e[4])
            if e[3] == K(hsize):
                heads[T('rd', F, e[2], e[3])] = e
        first = [h for h in heads if same(h.args[1], T('add', BASE, K(consts['header_size'])))]
        if not first:
            rep.add('table', q, 'the table of contents is not looked for right after the header')
            continue
        # where blocks are looked for
        for h, e in heads.items():
            rep.cover(blocks_read=1)
            if h in first:
                continue
            off = T('binSub', h.args[1], BASE)
            at, cc = lin(off)
            src = list(at)[0] if len(at) == 1 and cc == 0 and list(at.values()) == [1] else None
            if src is None:
                rep.add('offset', q, 'a block is looked for at an offset that is not stored in the container', e[4])
                continue
            kind = origin(src, fmt, consts)
            if kind is None:
                rep.undecide('%s: origin of the offset %s' % (q, str(src)[:80]))
            elif kind[0] == 'block' and pos and kind[1] != pos[2]:
                rep.add('field', q, 'the offset of the next block is taken from another field than it is written to', e[4])
            elif kind[0] == 'table' and kind[1] not in (0, 1):
                rep.add('field', q, 'the offset of an entry is taken from field %s of the table' % kind[1], e[4])
        if pos:
            amounts(rep, c, consts, st, reads, heads, pos, shape)
        # what is read as data of a block
        for e in reads[1:]:
            if e[3] == K(hsize) or pos is None:
                continue
            h = [x for x in heads if same(e[2], T('add', x.args[1], K(hsize)))]
            if not h:
                rep.add('place', q, 'the contents of a block are not read right after its header', e[4])
                continue
            got = {i for x in subterms(e[3]) if isinstance(x, T) for i in [origin(x, fmt, consts)] if i}
            own = {i[1] for i in got if i[0] == 'block'}
            if e[3] != K(0) and pos[1] not in own:
                rep.add('field', q, 'more than the size of the block may be read as its contents', e[4])
        # where the container ends
        obj_ = I.obj(st, obj)
        size = obj_.attrs.get('size')
        tops = tops_of(size)
        chk = [h for h in heads if truth_of(st, h)]
        if len(chk) > 3:
            two += 1
        for h in chk:
            own = None
            for t in tops:
                for x in subterms(t):
                    o = origin(x, fmt, consts) if isinstance(x, T) else None
                    if o and o[0] == 'block' and o[2] == h and pos and o[1] == pos[1]:
                        if same(t, T('add', T('binSub', h.args[1], BASE), T('add', K(hsize), x))):
                            own = t
            if own is None:
                rep.add('end', q, 'the end of the container does not take every block of it into account', heads[h][4])
        # the records of the table
        rec = [x for t in st.facts for x in subterms(t) if isinstance(x, T) and x.op == 'call' and 'unpack' in str(x.args[0])]
        for x in rec:
            if fields.get('record') and isinstance(x.args[1], K) and x.args[1].v != fields['record'] and \
                    set(x.args[1].v) <= set('123' + consts['index_fmt']):
                rep.add('record', q, 'a record of the table is read as %s and written as %s' % (x.args[1].v, fields['record']))
    return n, two


def truth_of(st, h):
    return st.facts.get(T('truthy', h)) is not False


def tops_of(t):
    out = []
    if isinstance(t, T) and t.op in ('max',):
        for a in t.args:
            out += tops_of(a)
    elif isinstance(t, (T, K)):
        out.append(t)
    return out


def origin(t, fmt, consts):
    """('block', field, header read) or ('table', field) a number comes from"""
    x = t
    if isinstance(x, T) and x.op == 'int' and x.args:
        x = x.args[0]
        while isinstance(x, T) and x.op in ('decode', 'str', 'strip'):
            x = x.args[0]
        if isinstance(x, T) and x.op == 'idx' and isinstance(x.args[1], K) and isinstance(x.args[0], T) and \
                x.args[0].op == 'unpack' and x.args[0].args[0] == K(fmt):
            return 'block', x.args[1].v, x.args[0].args[1]
        return None
    if isinstance(x, T) and x.op == 'idx' and isinstance(x.args[1], K) and any(
            isinstance(y, T) and (y.op == 'unpack' or y.op == 'call' and 'unpack' in str(y.args[0])) for y in subterms(x.args[0])):
        if not any(isinstance(y, T) and y.op == 'unpack' and y.args[0] == K(fmt) for y in [x.args[0]]):
            return 'table', x.args[1].v
    return None


# ------------------------------------------------------------------------------------------- several containers in a file
def sequence(rep):
    from .c10_inner import run
    from ..ops import stages

    # reading: the next container starts where the last one ended
    SIZE = []

    def read(I, d, st, node):
        t = T('param', 'size%d' % len(SIZE))
        SIZE.append(t)
        I.set_attr(d['self'], 'size', t, st, None)
        st.event('ends', d['self'], t)
        return [(NONE, st)]
    I, f, rs = run('container_reader.extract', ['filename', 'folder'], hooks=['container.Container.read',
                   'container.Container.extract', 'helper.clear_dir'], results={'container.Container.read': read},
                   dev=6, while_=4, streams=Streams())
    n = 0
    for kind, v, st in rs:
        at = K(0)
        k = 0
        last = None
        for e in st.events():
            if e[0] == 'stage' and e[1].endswith('.read'):
                d = dict(e[2])
                k += 1
                if not same(d['offset'], at):
                    rep.add('next', f.info.qual, 'container %d of a file is looked for elsewhere than where the one before it ends'
                            % k, e[3])
                own = I.obj(st, d['self'])
                last = own.cls
                mark = [(x, b) for t, b in st.facts.items() if t.op == 'eq' and any(
                    isinstance(y, T) and y.op == 'rd' and same(y.args[1], d['offset']) for y in subterms(t))
                    for x in subterms(t) if isinstance(x, K) and isinstance(x.v, bytes) and len(x.v) >= 4]
                for x, b in mark:
                    rep.cover(format_decisions=1)
                    want = struct.pack('<i', MARK['Container'])
                    if x.v == want and b is True and last.name != 'Container':
                        rep.add('format', f.info.qual, 'a container of the 32-bit format is read as %s' % last.name, e[3])
                    if x.v == want and b is False and last.name == 'Container':
                        rep.add('format', f.info.qual, 'a container of the 64-bit format is read as Container', e[3])
                    if x.v != want and len(x.v) == 4:
                        rep.add('format', f.info.qual, 'the format is recognised by %r' % x.v, e[3])
            if e[0] == 'ends':
                at = T('add', at, e[2])
        n = max(n, k)
    rep.floor('containers_in_one_file', n, 2)
    # writing
    I, f, rs = run('container_writer.build', ['src', 'filename'], dict(nested=TRUE), hooks=['container.Container.build',
                   'helper.makedirs'], dev=6)
    two = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        sg = [(q, d, w) for q, d, w in stages(st) if q.endswith('Container.build')]
        if not sg:
            rep.add('sequence', f.info.qual, 'no container is written')
            continue
        for i, (q, d, w) in enumerate(sg):
            rep.cover(containers_written=1)
            cls = I.obj(st, d['self']).cls.name
            if cls != ('Container', 'Container64')[min(i, 1)]:
                rep.add('sequence', f.info.qual, 'container %d is written in the format %s' % (i, cls), w)
            if i == 0 and not (isinstance(d['offset'], K) and d['offset'].v == 0):
                rep.add('sequence', f.info.qual, 'the first container is not written at the start of the file', w)
            if i:
                two += 1
                if not at_end(d['offset']):
                    rep.add('sequence', f.info.qual, 'the second container does not start at the end of the first', w)
            p = d['src_dir']
            if not any(x == K(str(i)) for x in subterms(p)) and not str(p).endswith('/%d' % i):
                rep.add('sequence', f.info.qual, 'container %d is built from %s' % (i, p), w)
    rep.floor('second_containers_written', two, 1)


def at_end(t):
    """the end of the file, as returned by a seek to the end"""
    s = str(t)
    return isinstance(t, T) and (t.op in ('fsize', 'size', 'send') or 'seek' in s or 'fpos' in s or 'tell' in s or 'getsize' in s)


# ------------------------------------------------------------------------------------------- compression
def compression(rep):
    I = Interp()
    n = 0
    vals = {}
    for name, mod in sorted(I.mods.items()):
        if not name.startswith('v8unpack.container'):
            continue
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in (
                    'compressobj', 'decompressobj'):
                arg = node.args[0] if node.func.attr == 'decompressobj' and node.args else None
                for k in node.keywords:
                    if k.arg == 'wbits':
                        arg = k.value
                if node.func.attr == 'compressobj' and arg is None and len(node.args) > 2:
                    arg = node.args[2]
                v = value(arg, mod, I)
                n += 1
                if v is None and arg is not None:
                    rep.undecide('%s: window size of %s' % (name, node.func.attr))
                    continue
                vals['%s:%s' % (name, node.lineno)] = v
                if v != -15:
                    rep.add('deflate', '%s %s' % (name, node.func.attr), 'window size %s: stored data are raw deflate streams (-15)' % v)
    rep.floor('deflate_sites', n, 3)
    # both directions compress exactly once
    from .r_ops import run_op, OPS
    from ..ops import stages
    for op in OPS:
        I, f, rs = run_op(op)
        for kind, v, st in rs:
            if kind != 'ret':
                continue
            k = 0
            for q, d, w in stages(st):
                if q.endswith('container_reader.extract'):
                    k += d.get('deflate') is TRUE or d.get('deflate') == K(True)
                if q.endswith('decompress_and_extract') or q.endswith('compress_and_build'):
                    k += 1
                if q.endswith('container_writer.build'):
                    k += not (d.get('nested') == K(True))
            rep.cover(operations_checked=1)
            if k != 1:
                rep.add('deflate', f.info.qual, 'the entries are %s %d times' % (
                    'inflated' if op == 'extract' else 'deflated', k))


def value(e, mod, I):
    if e is None:
        return None
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        v = value(e.operand, mod, I)
        return -v if isinstance(v, int) else None
    if isinstance(e, ast.Name):
        v = mod.ns.get(e.id)
        return v.v if isinstance(v, K) else None
    if isinstance(e, ast.Attribute) and e.attr == 'MAX_WBITS':
        return 15
    return None
