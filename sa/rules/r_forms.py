"""C24, C17: forms are put together as they were taken apart; a form that cannot be taken apart is kept whole.

The bodies of forms are laid out from the tables below (places of counters, names, links and lists of children of every kind
of element, for forms of both families); everything the code has no business with is a symbol.  Extraction and build of a form
object are interpreted over the syntax trees for every shape.
C24: a supported form is taken apart and the body in the binary after the build is the one before, element by element.
C17: with an element that cannot be taken apart at any place, or with a failure at any step of taking apart, either the
extraction fails visibly or the whole body goes unchanged into the sources and comes back from them."""
from ..interp import HDict
from ..roundtrip import install_brace_hooks
from ..terms import K, T, Ref, Cls, Fn, Bound, Ext, ExcV, FD, FL, NONE, join
from ..prog import AnalysisBroken
from ..runner import parallel, OUT_OF_TIME
from ..world import World, frozen, thawed, files, content, Q, UTF8, path
from .r_ops import opaque_but_worker

PROPS = ('C24', 'C17')
SRC, DEST, OUT = T('param', 'src'), T('param', 'dest'), T('param', 'out')
UID = '11111111-0000-4000-8000-000000000001'
CLS = 'CatalogForm'

# ------------------------------------------------------------------------------------------------ layouts of managed forms
# every place is given by counters: (distance, size) - a counter that far on, followed by so many values for each unit
UF_KINDS = {
    'Field': ('77ffcc29-7f2d-4223-b22f-19666e7250ba', [(3, 1), (1, 1)], dict(name=2, prop=7), 30),
    'Button': ('a9f3b1ac-f51b-431e-b102-55a69acdecad', [(3, 1)], dict(name=2, command=5), 30),
    'Decoration': ('3d3cb80c-508b-41fa-8a18-680cdf5f1712', [(3, 1), (1, 1)], dict(name=2), 20),
    'Group': ('cd5394d0-7dda-4b56-8927-93ccbe967a01', [(3, 1), (1, 1)], dict(name=2, children=17), 28),
    'Table': ('143c00f7-a42d-4cd7-9189-88e4467dc768', [(4, 1)], dict(name=1, prop=7, inner=50, children=57), 95),
    'ItemAddition': ('c5259a1d-518a-4afd-b98d-0176027e4feb', [(3, 1)], dict(name=3), 12),
}
CMD_GROUP = '409b9a53-7f7e-4178-86c1-33176c7c7a7a'
UNKNOWN = 'ffffffff-0000-4000-8000-000000000001'


class Symbols:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return T('param', 'token%d' % self.n)

    def many(self, n):
        return [self() for _ in range(n)]


class El:
    """an element of a form"""

    def __init__(self, kind, name, children=(), counts=(0, 0), prop=None, command=None, inner=0, page=0, pages=(), trick=None, extra=0, anchors=(0, 0, 0, 0), to=()):
        self.kind, self.name, self.children, self.counts = kind, name, list(children), counts
        self.prop, self.command, self.inner, self.page, self.pages, self.trick = prop, command, inner, page, pages, trick
        self.extra, self.anchors = extra, anchors
        self.to = to        # [(border 0 to 5, end 1 or 2, name of the element it is anchored to)]

    def show(self):
        s = '%s %s' % (self.kind, self.name)
        if self.trick:
            s += ' (%s)' % self.trick
        if self.children:
            s += ' {%s}' % ', '.join(c.show() for c in self.children)
        return s


def uf_element(S, e):
    """-> [type, body]"""
    uid, counters, places, size = UF_KINDS[e.kind]
    v, at = [{'Group': '22', 'Table': '55'}.get(e.kind) or S()], 0
    for (dist, unit), n in zip(counters, e.counts):
        v += S.many(at + dist - len(v))
        v.append(str(n))
        v += S.many(n * unit)
        at = len(v) - 1
    spots = {places['name']: '"%s"' % e.name}
    if 'prop' in places:
        spots[places['prop']] = e.prop if e.prop is not None else ['0']
    if 'command' in places:
        spots[places['command']] = e.command if e.command is not None else ['0', S()]
    shift = 0
    for d in range(1, size):
        if d == places.get('inner'):
            v.append(str(e.inner))
            v += S.many(2 * e.inner)
        elif d == places.get('children'):
            v += uf_list(S, e.children)
        else:
            v.append(spots[d] if d in spots else S())
    if e.trick == 'name is a list':
        v[v.index('"%s"' % e.name)] = ['"%s"' % e.name]
    if e.trick == 'name is empty':
        v[v.index('"%s"' % e.name)] = '""'
    if e.trick == 'counter is no number':
        v[counters[0][0]] = 'x'
    if e.trick == 'body is cut off':
        v = v[:counters[0][0] + 1]
    if e.trick == 'body is a string':
        v = '"%s"' % e.name
    return [UNKNOWN if e.trick == 'unknown kind' else uid, v]


def uf_list(S, els):
    out = [str(len(els))]
    for e in els:
        out += uf_element(S, e)
    return out


def uf_prop(S, i, name, children=(), pattern=None, trick=None):
    v = [S(), [str(i)], S(), '"%s"' % name, S(), pattern if pattern is not None else ['"Pattern"', ['"S"']]] + S.many(7)
    v += [str(len(children))] + [[S(), str(j + 1), S(), '"%s"' % c, S()] for j, c in enumerate(children)] + S.many(2)
    if trick == 'counter is no number':
        v[13] = 'x'
    if trick == 'body is cut off':
        v = v[:6]
    return v


def uf_command(S, i, name, trick=None):
    v = [S(), [str(i), CMD_GROUP], '"%s"' % name] + S.many(4)
    return v[:2] if trick else v


def uf_param(S, name, trick=None):
    v = [S(), '"%s"' % name] + S.many(3)
    return v[:1] if trick else v


def uf_body(elements=(), props=(), params=(), commands=(), pairs=0, panel=0, trick=None):
    """props: [(name, children, pattern, trick)], params, commands: [(name, trick)]"""
    S = Symbols()
    root = ['49'] + S.many(17) + [str(pairs)] + S.many(2 * pairs + 2) + [str(panel)] + S.many(panel)
    root += uf_list(S, elements) + S.many(3)
    if trick == 'counter is no number':
        root[18] = 'x'
    counted = lambda xs: [S(), str(len(xs))] + xs + S.many(3)
    return [['4', root, '"code"', counted([uf_prop(S, i + 1, *p) for i, p in enumerate(props)]),
             counted([uf_param(S, *p) for p in params]), counted([uf_command(S, i + 1, *c) for i, c in enumerate(commands)])] + S.many(3)]


# ------------------------------------------------------------------------------------------------ layouts of ordinary forms
OF_KINDS = {
    'Field': '381ed624-9217-4e63-85db-c4c3cb87daae', 'CheckBox': '35af3d93-d7c7-4a2e-a8eb-bac87a1a3f26',
    'RadioBtn': '782e569a-79a7-4a4f-a936-b48d013936ec', 'SelectField': '64483e7f-3833-48e2-8c75-2c31aac49f6e',
    'CommandPanel': 'e69bf21d-97b2-4f37-86db-675aea9ec2cb', 'Button': '6ff79819-710e-4145-97cd-1618da79e3e2',
    'Image': '151ef23e-6bb2-4681-83d0-35bc2217230c', 'Group': '90db814a-c75f-4b54-bc96-df62e554d67d',
    'Table': 'ea83fe3a-ac3c-4cce-8045-3dddf35b28b1', 'TableField': '236a17b3-7f44-46d9-a907-75f9cdc61ab5',
    'Panel': '09ccdc77-ea1a-4a6d-ab1c-3435eada2433', 'Label': '0fc7e20d-f241-460c-bdf4-5ad88e5474a5',
    'ListField': '19f8b798-314e-4b4e-8121-905b2a7a03f5', 'Separator': '36e52348-5d60-4770-8e89-a16ed50a2006',
    'FieldHtml': 'd92a805c-98ae-4750-9158-d9ce7cec2f20', 'Indicator': 'b1db1f86-abbb-4cf0-8852-fe6ae21650c2',
    'CalendarBox': 'e3c063d8-ef92-41be-9c89-b70290b5368b', 'TrackBar': '6c06cd5d-8481-4b6f-a90a-7a97a8bb8bef',
    'TextDocumentField': '14c4a229-bfc3-42fe-9ce1-2da049fd0109', 'GraphicalSchemaField': '42248403-7748-49da-b782-e4438fd7bff3',
    'GeographicalSchemaField': 'ad37194e-555e-4305-b718-5dca84baf145', 'Chart': 'a8b97779-1a4b-4059-b09c-807f86d2a461',
    'GanttChart': 'e5fdc112-5c84-4a16-9728-72b85692b6e2', 'PivotChart': 'a26da99e-184a-4823-b0d6-62816d38dc4e',
    'Dendrogram': '984981b1-622d-4ebc-94f7-885f0cdfb59a',
}


def of_pages(S, pages, counts=(0, 0, 0, 0), extra=0, more=(0, 0)):
    """the description of a panel: lists of what is anchored to it, its pages, the places of the pages"""
    v = [S(), S()]
    for n in counts + more:
        v += [str(n)] + [[S(), S(), S()] for _ in range(n)]
    v += S.many(3)
    v.append(['1', str(len(pages))] + [['3', S(), S(), '-1', S(), S(), '"%s"' % p, S()] for p in pages])
    v += S.many(3)
    v += [str(4 * len(pages) + extra)] + [['2', S(), S()] for _ in range(4 * len(pages) + extra)]
    return v + S.many(8)


def of_elements(S, els, ids):
    return [str(len(els))] + [of_element(S, e, ids) for e in els]


def of_element(S, e, ids):
    ids[0] += 1
    i = str(ids[0])
    e.id = i
    placing = S.many(6) + [[S(), [S(), '-1', S()], [S(), '-1', S()]] for _ in range(6)] + ['0'] * 4
    placing += [S(), S(), S(), str(e.page), S(), S(), S(), S()]
    last = ['0']
    mid = S()
    if e.kind == 'Panel':
        mid = [S(), of_pages(S, e.pages or ('Page',), e.anchors, e.extra), [S()]]
        last = of_elements(S, e.children, ids)
    name = [S(), '"%s"' % e.name, S(), S(), S(), S()]
    if e.trick == 'name is a list':
        name[1] = ['"%s"' % e.name]
    if e.trick == 'name is empty':
        name[1] = '""'
    if e.trick == 'no such page':
        placing[-5] = '9'
    if e.trick == 'page is no number':
        placing[-5] = 'x'
    v = [UNKNOWN if e.trick == 'unknown kind' else OF_KINDS[e.kind], i, mid, placing, name, last]
    e.raw = v
    if e.trick == 'body is cut off':
        v = v[:2]
    if e.trick == 'no pages':
        v[2] = [S(), ['0', '0'], [S()]]
    return v


def of_walk(els):
    for e in els:
        yield e
        yield from of_walk(e.children)


def of_anchors(S, els):
    '''elements of one panel anchored to each other: by the number of the other one, noted with both'''
    for e in els:
        for border, end, name in e.to:
            o = [x for x in els if x.name == name][0]
            e.raw[-3][6 + border][end] = [S(), o.id, S()]
            at = 12
            for b in range(border % 4):
                at += int(o.raw[-3][at]) + 1
            n = int(o.raw[-3][at])
            o.raw[-3][at] = str(n + 1)
            o.raw[-3].insert(at + n + 1, [S(), e.id, S()])
        of_anchors(S, e.children)


def of_body(elements=(), props=(), pages=('Page1',), counts=(0, 0, 0, 0), extra=0, version='27', more=(0, 0), trick=None):
    """props: names; elements name their property"""
    S = Symbols()
    ids = [3]
    els = of_elements(S, elements, ids)
    of_anchors(S, elements)
    at = 4 if version == '27' else 3
    ps = [[[str(i + 1)]] + S.many(at - 1) + ['"%s"' % n, ['"Pattern"', ['"S"']]] for i, n in enumerate(props)]
    if trick == 'a property is cut off':
        ps[-1] = ps[-1][:2]
    linked = [[e.id, ['1', [str(list(props).index(e.prop) + 1)]]] for e in of_walk(elements) if e.prop in props and e.prop]
    linked += [[e.id, ['1', ['77']]] for e in of_walk(elements) if e.prop and e.prop not in props]
    if trick == 'a link is empty':
        linked[-1][1] = ['0']
    panel = [OF_KINDS['Panel'] if trick != 'unknown panel' else UNKNOWN, ['1', of_pages(S, pages, counts, extra, more), [S()]], els]
    return [[version, ['16', [S()], panel] + S.many(3),
             [[S()], S(), [str(len(ps))] + ps, [str(len(linked))] + linked]] + S.many(6) + ['0']]


# ------------------------------------------------------------------------------------------------ one form
def header(kind):
    return [['1', [S0, ['13', ['3', ['1', '0', UID], '"Form"', ['0'], '"c"', '0'], S0, kind, S0], S0]], S0]


S0 = T('param', 'token of the header')
CALLS = ('helper.str_decode', 'helper.calc_offset', 'helper.get_class')
_W = []


def world():
    if not _W:
        w = World({SRC, DEST, OUT}, 0)
        install_brace_hooks(w.I)
        w.I.max_rec = 12
        _W.append(w)
    return _W[0]


class Form:
    def __init__(self, family, body, options=None, second=True, where='dir', names=()):
        self.names = sorted(names)
        self.family, self.body, self.options, self.second, self.where = family, body, options or {}, second, where


def put_tree(w, rel, value):
    n = len(w.I.frozen)
    w.I.frozen[n] = frozen(value)
    p = path(SRC, rel)
    w.st.fs[p] = ('text', T('bracetext', K(n)), UTF8)
    w.st.dirs = w.st.dirs | {SRC}
    return frozen(value)


def tree_of(w, st, rel):
    e = st.fs.get(path(OUT, rel))
    if e is None or e[0] != 'text' or not isinstance(e[1], T) or e[1].op != 'bracetext':
        return None
    return w.I.frozen[e[1].args[0].v]


def opts(w, st, options):
    return w.I.new(st, HDict({K('obj_version'): K('803'), **{K(k): K(v) for k, v in options.items()}}))


def extract(f, fail=None):
    """-> (world, body, outcomes, number of calls that could fail); fail: number of the call that does"""
    w = world().fresh()
    I = w.I
    put_tree(w, UID, header('1' if f.family == 'managed' else '0'))
    if f.family == 'managed' or f.where == 'file':
        rel = UID + '.0'
    else:
        rel = UID + '.0/form'
        w.put(SRC, UID + '.0/module', T('param', 'module'))
    body = put_tree(w, rel, f.body)
    if f.second:
        put_tree(w, UID + '.1', [T('param', 'second')])
    w.folder(DEST)
    cls = I.get_class(Q + 'MetaDataObject.%s.%s' % (CLS, CLS))
    d = cls.info.lookup('decode')[1]
    st = w.st
    count = [0, False]
    saved = dict(I.hooks)
    if fail is not None:
        failing(I, count, fail)
    try:
        rs = I.run(Bound(cls, d), [SRC, K(UID), DEST, K('Form'), opts(w, st, f.options)], {'parent_container_uuid': K('container')}, st)
    finally:
        I.hooks.clear()
        I.hooks.update(saved)
    return w, rel, body, rs, count[0]


def failing(I, count, at):
    """the call number `at` of the helpers that look into a form raises, once taking apart has begun"""
    core = I.get_class(Q + 'MetaDataObject.Form.FormCore.FormCore')

    def hook(fn):
        busy = []

        def h(I, args, kwargs, st, node):
            if not busy:
                count[0] += 1
                if count[0] == at:
                    I.raise_(ExcV(Ext('ValueError'), K('injected')), st)
                    return []
            busy.append(1)
            saved = I.hooks.pop(fn.info.qual)
            try:
                return I.call(fn, list(args), dict(kwargs), st, node)
            finally:
                I.hooks[fn.info.qual] = saved
                busy.pop()
        return h
    for q in CALLS:
        try:
            f = I.get_func(Q + q)
        except AnalysisBroken:
            continue
        f = f.fn if isinstance(f, Bound) else f
        if isinstance(f, Fn):
            I.hooks[f.info.qual] = hook(f)


def build(w, f, st):
    I = w.I
    s = st.fork()
    s.heap = dict(I.base.heap)
    s.store = {}
    s.ev = None
    s.exc = None
    s.dirs = s.dirs | {OUT}
    cls = I.get_class(Q + 'MetaDataObject.%s.%s' % (CLS, CLS))
    e = cls.info.lookup('encode')[1]
    d = join([DEST, K('Form'), K('Form')])
    ps = [p for p in s.fs if str(p).endswith('.id.json')]
    from ..terms import comps
    if len(ps) == 1:
        d = join(comps(ps[0])[:-1])
    return I.run(Bound(cls, e), [d, K('Form'), OUT, K('Catalog/Owner/CatalogForm'), K('container'), I.new(s, HDict({})), opts(w, s, f.options)], {}, s)


def stored(st):
    """the header of the form in the sources"""
    for p, e in st.fs.items():
        if e[0] == 'json' and str(p).endswith('Form.json'):
            return e[1]
    return None


def stored_names(st):
    '''names of the elements, attributes, parameters and commands in the sources'''
    def walk(v):
        if isinstance(v, FD):
            for k, x in v.key[0]:
                if k == K('name') and isinstance(x, K):
                    yield x.v
                elif k in (K('tree'), K('child'), K('props'), K('params'), K('commands')):
                    yield from walk(x)
        elif isinstance(v, FL):
            for x in v.key[0]:
                yield from walk(x)
    for p, e in st.fs.items():
        if e[0] == 'json' and str(p).endswith('.elem.json'):
            yield from walk(e[1])


def get(d, key):
    if isinstance(d, FD):
        for k, v in d.key[0]:
            if k is K(key) or k == key:
                return v
    return None


NOT_PARSED = 'Элементы формы не разобраны'


def difference(a, b, at=''):
    """the first place where two frozen trees differ"""
    if isinstance(a, FL) and isinstance(b, FL):
        x, y = a.key[0], b.key[0]
        for i, (p, q) in enumerate(zip(x, y)):
            if p != q:
                return difference(p, q, at + '[%d]' % i)
        return '%s: %d values instead of %d' % (at or 'body', len(y), len(x))
    return '%s: %s instead of %s' % (at or 'body', short(b), short(a))


def short(v):
    s = repr(thawed(v)) if v is not None else 'nothing'
    return s if len(s) < 60 else s[:57] + '...'


def judge(f, parsed, fail=None):
    """-> ('ok' | 'bad' | 'unsure' | 'visible', what, calls)"""
    w, rel, body, rs, calls = extract(f, fail)
    if not rs:
        return 'unsure', 'no path', calls
    for kind, v, st in rs:
        if opaque_but_worker(st):
            return 'unsure', 'extraction runs through code that is not modelled', calls
        if kind != 'ret':
            if parsed:
                return 'bad', 'extraction fails: %s' % (v,), calls
            continue
        h = stored(st)
        whole = get(h, NOT_PARSED)
        if parsed and whole is not None and thawed(whole):
            return 'bad', 'the elements are not taken apart', calls
        if whole is not None and thawed(whole):
            kept = get(h, 'form')
            b = kept.key[0][0] if isinstance(kept, FL) and kept.key[0] else None
            want = masked(f, body)
            if b is not None and masked(f, b) != want:
                return 'bad', 'the body in the sources is not the one of the form, %s' % difference(want, masked(f, b)), calls
        if parsed:
            found = sorted(stored_names(st))
            lost = [n for n in f.names if n not in found]
            if lost:
                return 'bad', 'the sources have no element of the name %s' % lost[0], calls
        bs = build(w, f, st)
        if not bs:
            return 'unsure', 'no path of the build', calls
        for kind2, v2, st2 in bs:
            if opaque_but_worker(st2):
                return 'unsure', 'build runs through code that is not modelled', calls
            if kind2 != 'ret':
                return 'bad', 'build fails: %s' % (v2,), calls
            t = masked(f, tree_of(w, st2, rel))
            want = masked(f, body)
            if f.options.get('auto_include') and t is not None and parsed:
                want, t = renumbered(want, True), renumbered(t, False)
            if t != want:
                return 'bad', 'the body after the build differs, %s' % (difference(want, t) if t is not None else 'none is written'), calls
    return 'ok', '', calls


def renumbered(body, group):
    '''with the dynamic table of contents the elements are numbered anew, page by page: numbers by order of appearance'''
    b = thawed(body)
    ids = {}

    def elements(v):
        if not isinstance(v, list) or not v or not all(isinstance(e, list) and len(e) == 6 for e in v[1:]):
            return
        if group:
            v[1:] = sorted(v[1:], key=lambda e: int(e[-3][-5]))
        for e in v[1:]:
            ids.setdefault(e[1], str(len(ids) + 1))
            e[1] = ids[e[1]]
            if e[0] == OF_KINDS['Panel']:
                elements(e[-1])
        for e in v[1:]:
            at = 12
            for i in range(6, 12):
                for j in (1, 2):
                    e[-3][i][j][1] = ids.get(e[-3][i][j][1], e[-3][i][j][1])
            for i in range(4):
                for j in range(int(e[-3][at])):
                    at += 1
                    e[-3][at][1] = ids.get(e[-3][at][1], e[-3][at][1])
                at += 1
    try:
        elements(b[0][1][2][2])
        src = b[0][2][3]
        src[1:] = sorted(([ids.get(x[0], x[0])] + x[1:] for x in src[1:]), key=lambda x: int(x[0]))
    except (IndexError, TypeError, ValueError, KeyError):
        return body
    return frozen(b)


def masked(f, body):
    '''the body with the module left out: how it is quoted is not the subject here'''
    if f.family != 'managed' or not isinstance(body, FL) or not body.key[0] or not isinstance(body.key[0][0], FL) or len(body.key[0][0].key[0]) < 3:
        return body
    return without_code(f, body)


def without_code(f, body):
    """the body with the mark for the code in a file of its own"""
    if f.family != 'managed':
        return body
    items = list(body.key[0][0].key[0])
    items[2] = K('Код в отдельном файле')
    return FL((FL(tuple(items)),) + body.key[0][1:])


# ------------------------------------------------------------------------------------------------ shapes
def in_group(e, name='G', counts=(0, 0)):
    return El('Group', name, [e], counts)


def uf_shapes(tier):
    """[(title, keyword arguments of uf_body)] of forms that are supported"""
    deep = tier == 'thorough'
    ns = (0, 1, 2)
    out = [('an empty form', {})]
    for kind in UF_KINDS:
        two = len(UF_KINDS[kind][1]) == 2
        for a in ns:
            for b in ns if two else (0,):
                for inner in ns if kind == 'Table' else (0,):
                    e = lambda n='E', ch=(): El(kind, n, ch, (a, b), inner=inner)
                    t = '%s, counters %d and %d%s' % (kind, a, b, ', %d inner' % inner if inner else '')
                    out.append((t, dict(elements=[e()])))
                    out.append((t + ', in a group', dict(elements=[in_group(e(), counts=(b, a))])))
                    if kind in ('Group', 'Table'):
                        for ch in UF_KINDS:
                            out.append((t + ', with a %s' % ch, dict(elements=[e('E', [El(ch, 'C')])])))
                        out.append((t + ', with three', dict(elements=[e('E', [El('Field', 'Z'), El('Button', 'A'), El('Decoration', 'M')]), El('Field', 'After')])))
                        out.append((t + ', nested', dict(elements=[El('Field', 'Before'), e('E', [e('F', [e('G', [El('Field', 'C')]), El('Field', 'D')])])])))
    for n in ns:
        for m in ns:
            els = [El('Field', 'B'), El('Group', 'A', [El('Button', 'X')])][:n]
            out.append(('%d pairs, %d panels, %d elements' % (m, m % 2, n), dict(elements=els, pairs=m, panel=m % 2)))
            out.append(('%d elements, %d panels' % (n, m), dict(elements=els, panel=m)))
    for a in ns:
        for b in ns:
            for c in ns:
                out.append(('%d attributes, %d parameters, %d commands' % (a, b, c), dict(
                    props=[('P2', ('c', 'b')), ('P1', ())][:a], params=[('R2',), ('R1',)][:b], commands=[('C2',), ('C1',)][:c],
                    elements=[El('Field', 'F')] if (a + b + c) % 2 else [])))
    for pat in (['"Pattern"', ['"#"', 'container']], ['"Pattern"', ['"#"', 'other']], ['"Pattern"', ['"#"', 'container'], ['"S"']], ['"Pattern"'], [], ['"Pattern"', ['"S"', '10']]):
        out.append(('an attribute of type %s' % (pat,), dict(props=[('P', (), pat), ('Q', ('x',), pat)])))
    props, cmds = [('P', ('c', 'd')), ('Q', ()), ('R', ('c',))], [('K',), ('L',)]
    names = ('include_A', 'includr_A', 'Ainclude_B', 'Aincludr_B', 'A')
    links = (['1', ['1']], ['1', ['2']], ['2', ['1'], ['2']], ['2', ['3'], ['1']], ['1', ['9']], ['2', ['1'], ['9']], ['0'], ['3', ['1'], ['2'], ['1']])
    for n in names:
        for l in links:
            out.append(('a field linked to %s in a group %s' % (l, n), dict(elements=[El('Group', n, [El('Field', 'F', prop=l)])], props=props, commands=cmds)))
        out.append(('a field %s' % n, dict(elements=[El('Field', n, prop=links[2])], props=props)))
        out.append(('a table %s' % n, dict(elements=[El('Table', n, [El('Field', 'F', prop=links[2])], prop=links[0])], props=props)))
        out.append(('a group with a group in a table %s' % n, dict(elements=[El('Table', n, [El('Group', 'G', [El('Field', 'F', prop=links[2]), El('Group', n + '2', [El('Field', 'E')])])])], props=props)))
        for l in (['1', CMD_GROUP], ['2', CMD_GROUP], ['1', UNKNOWN], ['9', CMD_GROUP], ['0', UNKNOWN]):
            out.append(('a button with the command %s in a group %s' % (l, n), dict(elements=[El('Group', n, [El('Button', 'B', command=l)])], props=props, commands=cmds)))
        for m in names if deep else names[:4]:
            out.append(('a group %s in a group %s' % (m + '2', n), dict(elements=[El('Group', n, [El('Group', m + '2', [El('Field', 'F', prop=links[2])]), El('Field', 'H')])], props=props)))
            out.append(('a table %s in a group %s' % (m + '2', n), dict(elements=[El('Group', n, [El('Table', m + '2', [El('Field', 'F', prop=links[2])])])], props=props)))
    out.append(('the same name in two groups', dict(elements=[El('Group', 'A', [El('Field', 'F', counts=(1, 0))]), El('Group', 'B', [El('Field', 'F', counts=(0, 1))]), El('Field', 'F')])))
    if deep:
        for k1 in UF_KINDS:
            for k2 in UF_KINDS:
                for k3 in UF_KINDS:
                    out.append(('%s, %s, %s' % (k1, k2, k3), dict(elements=[El(k1, 'A', counts=(1, 1)), El('Group', 'G', [El(k2, 'B'), El('Group', 'H', [El(k3, 'C', counts=(2, 1))])])], props=props)))
    return out


def uf_broken(tier):
    """forms that cannot be taken apart"""
    out = []
    good = lambda n: El('Field', n, counts=(1, 0))
    full = dict(props=[('P', ('c',)), ('Q',)], params=[('R',)], commands=[('K',)])
    for kind in UF_KINDS:
        for trick in ('unknown kind', 'name is a list', 'counter is no number', 'body is cut off', 'body is a string'):
            bad = lambda: El(kind, 'Bad', trick=trick)
            for t, els in (('alone', [bad()]), ('the first', [bad(), good('A')]), ('the last', [good('A'), bad()]),
                           ('in a group', [good('A'), in_group(bad()), good('B')]),
                           ('the last of a group', [El('Group', 'G', [good('A'), bad()])]),
                           ('after a whole group', [El('Group', 'G', [good('A')]), bad()]),
                           ('in a table', [good('A'), El('Table', 'T', [good('C'), bad()])]),
                           ('deep', [El('Group', 'G', [good('A'), El('Group', 'H', [good('B'), El('Table', 'T', [bad()])])]), good('C')])):
                out.append(('%s: %s, %s' % (kind, trick, t), dict(elements=els, **full)))
    els = [good('A'), in_group(good('B'))]
    for i in range(3):
        for trick in ('counter is no number', 'body is cut off'):
            ps = [('P%d' % j, ('c',), None, trick if i == j else None) for j in range(3)]
            out.append(('attribute %d: %s' % (i, trick), dict(props=ps, elements=els, params=[('R',)], commands=[('K',)])))
        out.append(('command %d cut off' % i, dict(commands=[('K%d' % j, i == j) for j in range(3)], elements=els, params=[('R',)], props=[('P', ('c',))])))
        out.append(('parameter %d cut off' % i, dict(params=[('K%d' % j, i == j) for j in range(3)], elements=els, commands=[('R',)], props=[('P', ('c',))])))
    out.append(('the counter before the elements is no number', dict(elements=els, trick='counter is no number', **full)))
    return out


def of_shapes(tier):
    deep = tier == 'thorough'
    ns = (0, 1, 2)
    out = []
    for v in ('27', '26'):
        out.append(('an empty form of version %s' % v, dict(version=v)))
        for a in ns:
            for b in ns:
                pages = ('B', 'A', 'C')[:a + 1]
                out.append(('%d pages, %d extra, version %s' % (a + 1, b, v), dict(pages=pages, extra=b, version=v, elements=[El('Field', 'F', page=a)])))
                out.append(('%d attributes, %d elements, version %s' % (a, b, v), dict(
                    version=v, props=('P2', 'P1')[:a], elements=[El('Field', 'F', prop='P2'), El('Label', 'L', prop='P1')][:b])))
    for kind in OF_KINDS:
        e = lambda n='E', p=0: El(kind, n, page=p, prop='P')
        out.append((kind, dict(elements=[e()], props=('P',))))
        out.append((kind + ' and others', dict(elements=[El('Label', 'Z'), e(), El('Label', 'A')], props=('P', 'Q'))))
        out.append((kind + ' in a panel', dict(elements=[El('Panel', 'Pn', [e('E', 1), El('Field', 'G')], pages=('X', 'Y'), page=1)], pages=('B', 'A'), props=('P',))))
        out.append((kind + ' deep', dict(elements=[El('Field', 'Z'), El('Panel', 'Pn', [El('Panel', 'Pm', [e('E', 1), El('Field', 'G')], pages=('X', 'Y')), El('Field', 'H')], page=1), El('Field', 'I', page=1)],
                                          pages=('B', 'A'), props=('P',))))
    import itertools
    for c in itertools.product((0, 1, 2) if deep else (0, 1), repeat=4):
        out.append(('%s anchored to the form' % (c,), dict(counts=c, elements=[El('Field', 'F')])))
        out.append(('%s anchored to a panel' % (c,), dict(elements=[El('Panel', 'Pn', [El('Field', 'F')], anchors=c, extra=c[0])])))
    for m in ((1, 0), (0, 1), (2, 1)):
        out.append(('more counters %s' % (m,), dict(more=m, elements=[El('Field', 'F')])))
    names = ('include_A', 'includr_A', 'Ainclude_B', 'Aincludr_B')
    for n in names:
        out.append(('an element %s' % n, dict(elements=[El('Field', n, prop='P')], props=('P',))))
        out.append(('a page %s' % n, dict(elements=[El('Field', 'F', prop='P'), El('Panel', 'Pn', [El('Field', 'G')])], props=('P',), pages=(n,))))
        for m in names:
            out.append(('a panel %s with a panel and a page %s' % (n, m), dict(props=('P',), elements=[
                El('Panel', n, [El('Panel', m + '2', [El('Field', 'F', prop='P')], pages=('S', m + '3')), El('Field', 'H')])])))
    for border in range(6):
        for end in (1, 2):
            for second in (None, 3) if border == 0 else (None,):
                to = [(border, end, 'A')] + ([(second, 1, 'C')] if second else [])
                mk = lambda: [El('Label', 'C'), El('Field', 'B', to=to, prop='P'), El('Label', 'A', to=[(1, 1, 'C')])]
                t = 'an element anchored by border %d, end %d' % (border, end) + (', and another' if second else '')
                out.append((t, dict(elements=mk(), props=('P',))))
                out.append((t + ', in a panel', dict(elements=[El('Field', 'F'), El('Panel', 'Pn', mk(), page=1)], pages=('X', 'Y'), props=('P',))))
                out.append((t + ', in a panel called includr_', dict(elements=[El('Panel', 'includr_Pn', [El('Panel', 'Pm', mk())])], props=('P',))))
    out.append(('the same name on two pages', dict(pages=('A', 'B'), elements=[El('Field', 'F'), El('Label', 'F', page=1)])))
    out.append(('a link to an attribute the form does not have', dict(elements=[El('Field', 'F', prop='no'), El('Field', 'G', prop='P')], props=('P',))))
    for page in (-1, 0, 1, 2):
        out.append(('an element on page %d' % page, dict(pages=('A', 'B', 'C'), elements=[El('Field', 'F', page=page), El('Field', 'G', page=1)])))
    if deep:
        ks = list(OF_KINDS)
        for i, k1 in enumerate(ks):
            for k2 in ks:
                out.append(('%s, %s' % (k1, k2), dict(elements=[El(k1, 'A', page=i % 2), El('Panel', 'Pn', [El(k2, 'B', page=1)], pages=('X', 'Y', 'Z'), page=1)], pages=('B', 'A'))))
    return out


def of_broken(tier):
    out = []
    good = lambda n: El('Field', n, prop='P')
    for kind in ('Field', 'Panel', 'Table'):
        for trick in ('unknown kind', 'name is a list', 'name is empty', 'no such page', 'page is no number', 'body is cut off', 'no pages'):
            if trick == 'no pages' and kind != 'Panel':
                continue
            bad = lambda: El(kind, 'Bad', trick=trick)
            for t, els in (('alone', [bad()]), ('the first', [bad(), good('A')]), ('the last', [good('A'), bad()]),
                           ('in a panel', [good('A'), El('Panel', 'Pn', [good('C'), bad()]), good('B')]),
                           ('after a panel', [El('Panel', 'Pn', [good('C')]), bad()]),
                           ('deep', [El('Panel', 'Pn', [good('A'), El('Panel', 'Pm', [good('B'), bad()])]), good('C')])):
                out.append(('%s: %s, %s' % (kind, trick, t), dict(elements=els, props=('P', 'Q'))))
    els = [good('A'), El('Panel', 'Pn', [good('B')])]
    for trick in ('a property is cut off', 'a link is empty', 'unknown panel'):
        out.append((trick, dict(elements=els, props=('P', 'Q'), trick=trick)))
    return out


def form(family, kw, options=None, second=True, where='dir'):
    names = [e.name for e in of_walk(kw.get('elements', ()))]
    names += [p if isinstance(p, str) else p[0] for k in ('props', 'params', 'commands') for p in kw.get(k, ())]
    return Form(family, (uf_body if family == 'managed' else of_body)(**kw), options, second, where, names)


def job(case):
    """-> (verdict, what, forms, number of injected failures)"""
    prop, family, title, kw, where, second, inject = case[:7]
    f = form(family, kw, case[7] if len(case) > 7 else None, second, where)
    if inject:
        n, bad = 1, None
        while True:
            v, what, calls = judge(f, False, n)
            if calls < n:
                return 'ok', '', n - 1
            if v == 'bad' and what.startswith('extraction'):
                v = 'ok'
            if v != 'ok':
                return v, 'with a failure at call %d: %s' % (n, what), n
            n += 1
            if n > 400:
                return 'unsure', 'too many calls', n
    v, what, calls = judge(f, prop == 'C24')
    return v, what, 0


def cases(prop, tier):
    out = []
    for family, shapes, broken in (('managed', uf_shapes, uf_broken), ('ordinary', of_shapes, of_broken)):
        if prop == 'C24':
            for i, (t, kw) in enumerate(shapes(tier)):
                out.append((prop, family, t, kw, 'dir', i % 2 == 0, False))
                if family == 'ordinary' and (tier == 'thorough' or i % 5 == 0):
                    out.append((prop, family, t + ', module inside', kw, 'file', True, False))
                if family == 'ordinary' and not any(kw.get('counts', ())) and not any(any(e.anchors) or e.page < 0 or e.prop and e.prop not in kw.get('props', ()) for e in of_walk(kw.get('elements', ()))):
                    out.append((prop, family, t + ', dynamic table of contents', kw, 'dir', True, False, {'auto_include': True}))
        else:
            for i, (t, kw) in enumerate(broken(tier)):
                out.append((prop, family, t, kw, 'dir', True, False))
                if family == 'ordinary':
                    out.append((prop, family, t + ', module inside', kw, 'file', True, False))
            n = 0
            for t, kw in shapes(tier):
                n += 1
                if n % (3 if tier == 'thorough' else 12) == 0:
                    out.append((prop, family, t, kw, 'dir', True, True))
    return out


PLACES = {'managed': 'MetaDataObject.Form.FormElements4', 'ordinary': 'MetaDataObject.Form.FormElements27'}


def check(rep):
    cs = cases(rep.prop, rep.tier)
    rep.floor('forms', len(cs), 400 if rep.prop == 'C24' else 200)
    for c, r in zip(cs, parallel(job, cs, each=120)):
        if r == OUT_OF_TIME:
            rep.undecide('%s form, %s: too many paths' % (c[1], c[2]))
            continue
        v, what, n = r
        rep.cover(**{'%s_forms' % c[1]: 1, 'failures_injected': n})
        if v == 'unsure':
            rep.undecide('%s form, %s: %s' % (c[1], c[2], what))
        elif v == 'bad':
            rep.add('form', PLACES[c[1]], what, c[2])
