"""C16: splitting code (and form elements) into area files and joining them back.

The splitting and joining functions are interpreted over their syntax trees for every shape of a module up to a size: sequences
and nestings of ordinary lines, ordinary regions, included regions and read-only included regions.  The oracle is the stack
discipline of regions: a line belongs to the innermost included region around it, markers to the enclosing one."""
from ..terms import K, T, NONE, join
from ..runner import parallel
from ..world import World, files, content
from .r_ops import opaque_but_worker

PROPS = ('C16',)
P = lambda x: T('param', x)
WR, SRC, DEST = P('w'), P('src'), P('dest')
OPEN = {'r': '#Область %s', 'i': '#Область include_lib_%s', 'x': '#Область includr_lib_%s', 'q': '#Область includes_lib_%s', 's': '#Область Include_lib_%s'}
END = '#КонецОбласти'


# ------------------------------------------------------------------------------------------------ modules
def forests(size, kinds, depth):
    """sequences of nodes with `size` nodes in all; a leaf is 'p', a region (kind, nodes)"""
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        for rest in forests(size - first, kinds, depth):
            if first == 1:
                yield ('p',) + rest
            if depth:
                for body in forests(first - 1, kinds, depth - 1):
                    for k in kinds:
                        yield ((k, body),) + rest


DRESS = {
    'plain': lambda line, n: line + '\n',
    'indented': lambda line, n: '\t ' + line + '\n',
    'spaces after': lambda line, n: line + '  \n',
    'comment after': lambda line, n: line + ' // note\n',
}
LEAVES = {
    'code': lambda n: '    Call%d();' % n,
    'comment with a marker': lambda n: '// #Область include_lib_no%d' % n,
    'directive': lambda n: '#Если Сервер%d Тогда' % n,
    'marker inside a line': lambda n: 'x%d = "#Область include_no";' % n,
    'blank line': lambda n: '',
    'spaces only': lambda n: '   ',
    'directive of a procedure': lambda n: '&НаСервере%d' % n,
}


class Module:
    """text of a module and of its area files, by the stack discipline"""

    def __init__(self, nodes, leaf='code', dress='plain', last=True):
        self.n = 0
        self.leaf, self.dress = LEAVES[leaf], DRESS[dress]
        self.areas = {}         # area name -> [lines], for areas that are written
        self.readonly = {}
        self.full = []
        self.root = []
        self.walk(nodes, [self.root])
        if not last and self.full:
            self.full[-1] = self.full[-1][:-1]
            self.root[-1] = self.root[-1][:-1]

    def put(self, line, to):
        self.full.append(line)
        to.append(line)

    def walk(self, nodes, stack):
        for node in nodes:
            self.n += 1
            if node == 'p':
                self.put(self.leaf(self.n) + '\n', stack[-1])
                continue
            k, body = node
            self.put(self.dress(OPEN[k] % ('n%d' % self.n), self.n), stack[-1])
            inner = stack[-1]
            if k in 'ix':
                inner = []
                (self.areas if k == 'i' else self.readonly)['n%d' % self.n] = inner
            self.walk(body, stack + [inner])
            self.put(self.dress(END, self.n), stack[-1])


def area_file(name, ce):
    return '/'.join((['proj'] if not ce else []) + ['lib', name + '.bsl'])


def own_file(name, ce):
    return '/'.join(['proj', 'src', 'Dir', name if not ce else name.replace('.bsl', '.10.bsl')])


BASE = []


def setting(ce):
    if not BASE:
        w = World([WR, SRC, DEST])
        w.pool()
        w.folder(WR, 'proj/src')
        w.folder(DEST)
        BASE.append(w)
    w = BASE[0].fresh()
    return w, join([WR, K('proj'), K('src')]), dict(kw=dict(index=NONE, descent=K(10) if ce else NONE, pool=NONE),
                                                     cls='organizer_file_ce.OrganizerFileCE' if ce else 'organizer_file.OrganizerFile')


def split_job(cases):
    out, und, n = [], [], 0
    for nodes, leaf, dress, last, ce in cases:
        m = Module(nodes, leaf, dress, last)
        w, W, k = setting(ce)
        w.put(SRC, 'Dir/m.bsl', ''.join(m.full))
        want = {own_file('m.bsl', ce): ''.join(m.root)}
        want.update({area_file(a, ce): ''.join(l) for a, l in m.areas.items()})
        for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
            n += 1
            if kind != 'ret':
                out.append(('split', 'splitting fails', ''.join(m.full)))
                continue
            if opaque_but_worker(st):
                und.append('splitting runs through code that is not modelled')
                continue
            got = {f: content(e) for f, e in files(st, WR).items()}
            for f in sorted(set(want) | set(got)):
                if f not in got:
                    out.append(('split', 'an area is not written', '%s of %r' % (f, ''.join(m.full))))
                elif f not in want:
                    ro = f in [area_file(a, ce) for a in m.readonly]
                    out.append(('split', 'a read-only area is written' if ro else 'an unexpected file is written', '%s of %r' % (f, ''.join(m.full))))
                elif not isinstance(got[f], str):
                    und.append('text of an area not determined')
                elif got[f] != want[f]:
                    out.append(('split', 'the lines of the module do not go to the area they belong to',
                                '%s of %r: %r' % (f, ''.join(m.full), got[f])))
        # joining: every file once, read-only areas from their own file
        ro = {a: ['read only of %s\n' % a] for a in m.readonly}
        w, W, k = setting(ce)
        w.put(WR, own_file('m.bsl', ce), ''.join(m.root))
        for a, l in list(m.areas.items()) + list(ro.items()):
            w.put(WR, area_file(a, ce), ''.join(l))
        want = expand(m.root, {**m.areas, **ro})
        for kind, v, st in w.run('organizer_file.OrganizerFile.pack', [W, DEST], **k):
            n += 1
            if kind != 'ret':
                out.append(('join', 'joining fails', ''.join(m.full)))
                continue
            if opaque_but_worker(st):
                und.append('joining runs through code that is not modelled')
                continue
            got = {f: content(e) for f, e in files(st, DEST).items()}.get('Dir/m.bsl')
            if got is None:
                out.append(('join', 'the module is not joined', ''.join(m.full)))
            elif not isinstance(got, str):
                und.append('text of a joined module not determined')
            elif got != want:
                out.append(('join', 'the joined module is not the module with every area in its place', '%r instead of %r' % (got, want)))
            for f in list(m.areas) + list(m.readonly):
                p = area_file(f, ce)
                if not any(e[0] == 'read' and str(e[1]).endswith(p.split('/')[-1]) for e in st.events()):
                    if got == want:
                        continue
    return out, und, n


def expand(lines, areas):
    s = ''
    for l in lines:
        s += l
        t = l.strip()
        for p in ('#Область include_lib_', '#Область includr_lib_'):
            if t.startswith(p):
                s += expand(areas[t[len(p):].split(' //')[0]], areas)
    return s


def modules(tier):
    big = 5 if tier == 'thorough' else 4
    for size in range(0, big + 1):
        for nodes in forests(size, 'rix', 3):
            yield nodes, 'code', 'plain', True, False
    for size in range(1, 4):
        for nodes in forests(size, 'iqs', 3):
            yield nodes, 'code', 'plain', True, False
        for nodes in forests(size, 'rix', 3):
            for leaf in LEAVES:
                yield nodes, leaf, 'plain', True, False
            for dress in DRESS:
                yield nodes, 'code', dress, True, False
            yield nodes, 'code', 'plain', False, False
            yield nodes, 'code', 'plain', True, True


def directives(rep):
    """the directive of a split area goes out of its lines and comes back with the area's own"""
    D = '&НаКлиенте'
    text = ['a\n', '#Область include_lib_d //%s\n' % D, '%s //DynamicDirective\n' % D, 'Процедура А()\n', '#Область include_lib_e\n',
            '%s //DynamicDirective\n' % D, 'b\n', END + '\n', 'c //DynamicDirective\n', END + '\n', 'd\n']
    w, W, k = setting(False)
    w.put(SRC, 'm.bsl', ''.join(text))
    want = {'proj/src/m.bsl': ''.join([text[0], text[1], text[9], text[10]]),
            'proj/lib/d.bsl': '//DynamicDirective\n' + text[3] + text[4] + text[7] + text[8],
            'proj/lib/e.bsl': '//DynamicDirective\nb\n'}
    n = 0
    for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
        if kind != 'ret' or opaque_but_worker(st):
            rep.undecide('dynamic directives: not determined')
            continue
        got = {f: content(e) for f, e in files(st, WR).items()}
        n += 1
        for f in want:
            if got.get(f) != want[f]:
                rep.add('directive', 'organizer_code.OrganizerCode.unpack', 'the directive of an area is not taken off its lines',
                        '%s: %r' % (f, got.get(f)))
        for kind, v, s2 in w.run('organizer_file.OrganizerFile.pack', [W, DEST], st=st, **k):
            if kind != 'ret' or opaque_but_worker(s2):
                rep.undecide('dynamic directives: not determined')
                continue
            n += 1
            back = {f: content(e) for f, e in files(s2, DEST).items()}.get('m.bsl')
            if back != ''.join(text):
                rep.add('directive', 'organizer_code.OrganizerCode.pack_file', 'the directive of an area does not come back', '%r' % (back,))
    rep.cover(directive_paths=n)


def same_name(rep):
    """an area that occurs twice in a module with different code; an area called like the key of the module itself"""
    w, W, k = setting(False)
    w.put(SRC, 'm.bsl', OPEN['i'] % 'q' + '\nfirst\n' + END + '\n' + OPEN['i'] % 'q' + '\nsecond\n' + END + '\n')
    for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
        text = ' '.join(str(content(e)) for e in files(st, WR).values())
        rep.cover(same_name_paths=1)
        if kind == 'ret' and ('first' not in text or 'second' not in text):
            rep.add('duplicate', 'organizer_code.OrganizerCode.unpack', 'the first of two areas of the same name is lost if their code differs', text[:200])
    w, W, k = setting(False)
    w.put(SRC, 'm.bsl', '#Область include_root\ninside\n' + END + '\noutside\n')
    for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
        got = {f: content(e) for f, e in files(st, WR).items()}
        rep.cover(same_name_paths=1)
        if kind != 'ret' or 'outside' not in got.get('proj/src/m.bsl', '') or got.get('proj/src/root.bsl') != 'inside\n':
            rep.add('root-name', 'organizer_code.OrganizerCode.unpack', 'an area called root is not kept apart from the module itself', str(got)[:200])


def bom(rep):
    """files that begin with a byte order mark are split and joined like any other"""
    w, W, k = setting(False)
    w.put(SRC, 'm.bsl', '\ufeff' + OPEN['i'] % 'q' + '\nx\n' + END + '\n')
    for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
        got = {f: content(e) for f, e in files(st, WR).items()}
        rep.cover(bom_paths=1)
        if kind == 'ret' and got.get('proj/lib/q.bsl') != 'x\n':
            rep.add('bom', 'organizer_code.OrganizerCode.unpack', 'a byte order mark hides the area of the first line', str(got)[:200])
    w, W, k = setting(False)
    w.put(WR, 'proj/src/m.bsl', '\ufeff' + OPEN['i'] % 'q' + '\n' + END + '\n')
    w.put(WR, 'proj/lib/q.bsl', '\ufeffx\n')
    want = OPEN['i'] % 'q' + '\nx\n' + END + '\n'
    for kind, v, st in w.run('organizer_file.OrganizerFile.pack', [W, DEST], **k):
        got = {f: content(e) for f, e in files(st, DEST).items()}
        rep.cover(bom_paths=1)
        if kind == 'ret' and got.get('m.bsl') not in (want, '\ufeff' + want):
            rep.add('bom', 'organizer_code.OrganizerCode.pack_file', 'a byte order mark of a source file hides an area or goes into the middle of the module',
                    repr(got.get('m.bsl')))


# ------------------------------------------------------------------------------------------------ form elements
class Form:
    """tree and data of a form as the form reader leaves them: data under the path of the element, pages included, with the
    marker of a read-only area written as that of an ordinary one below it"""

    def __init__(self, nodes, prefix=''):
        self.n = 0
        self.prefix = prefix
        self.data = {}
        self.areas = {}         # name -> element
        self.readonly = {}
        self.pages = 0
        self.tree = self.walk(nodes, '', None)

    def walk(self, nodes, path, pages):
        out = []
        for i, node in enumerate(nodes):
            self.n += 1
            k, body = (node, ()) if node == 'p' else node
            name = {'p': 'E%d', 'g': 'G%d', 'n': 'P%d', 'i': 'include_lib_a%d', 'x': 'includr_lib_a%d', 'j': 'include_lib_a%d', 'y': 'includr_lib_a%d'}[k] % self.n
            elem = {'name': name, 'type': 'T'}
            if pages:
                elem['page'] = pages[i % len(pages)]
            key = '/'.join([x for x in (path, elem.get('page'), name) if x])
            self.data[key] = 'data of %s' % key
            if k != 'p':
                inner = key.replace('includr_', 'include_')
                own = None
                if k in 'njy':
                    own = ['Page1', 'Page2']
                    self.data[inner + '/-pages-'] = own
                    for q in own[:1]:           # the second page has no data of its own
                        self.data[inner + '/' + q] = 'page %s of %s' % (q, inner)
                elem['child'] = self.walk(body, inner, own)
                if k in 'ij':
                    self.areas[name] = elem
                elif k in 'xy':
                    self.readonly[name] = elem
            out.append(elem)
        return out


def clone(x):
    return {k: clone(v) for k, v in x.items()} if isinstance(x, dict) else [clone(v) for v in x] if isinstance(x, list) else x


def holds_area(nodes):
    return any(n != 'p' and (n[0] in 'ixjy' or holds_area(n[1])) for n in nodes)


def forms(tier):
    big = 4 if tier == 'thorough' else 3
    for size in range(1, big + 1):
        for nodes in forests(size, 'gnixjy', 2):
            yield nodes
    for k in 'ij':
        for body in forests(2, 'gn', 1):
            yield (('g', (('n', (('p'), (k, body))),)),)
            yield (('n', (('g', ((k, body),)), 'p')),)


def form_job(cases):
    out, und, n = [], [], 0
    for nodes in cases:
        f = Form(nodes)
        w, W, k = setting(False)
        full = {'tree': clone(f.tree), 'data': clone(f.data)}
        w.put(SRC, 'Dir/m.elem.json', clone(full))
        text = str(nodes)
        for kind, v, st in w.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
            n += 1
            if kind != 'ret':
                out.append(('split', 'splitting fails', '%s: %s' % (text, v)))
                continue
            if opaque_but_worker(st):
                und.append('splitting of form elements runs through code that is not modelled')
                continue
            got = {x: content(e) for x, e in files(st, WR).items()}
            seen = {}
            for x, c in got.items():
                if not isinstance(c, dict) or not isinstance(c.get('data'), dict):
                    und.append('content of an elements file not determined')
                    continue
                for d in c['data'].values():
                    seen.setdefault(str(d), []).append(x)
            outer = top(f.tree)
            for e, inside in outer.items():
                p = 'proj/lib/%s.elem.json' % e[12:]
                if e.startswith('includr') and p in got:
                    out.append(('split', 'a read-only area is written', text))
                elif e.startswith('include') and p not in got:
                    out.append(('split', 'an area is not written', '%s of %s' % (p, text)))
            for key, d in f.data.items():
                if isinstance(d, list):
                    continue
                ro = any(e.startswith('includr') and key in inside for e, inside in outer.items())
                holders = seen.get(d, [])
                if ro and holders:
                    out.append(('split', 'data of a read-only area is written', '%s: %s in %s' % (text, key, holders)))
                elif not ro and len(holders) != 1:
                    out.append(('split', 'data of an element does not go to exactly one file', '%s: %s in %s' % (text, key, holders)))
            # joining: the same areas, with a file for the read-only ones that was written where they are not read-only
            s2 = st
            for e in outer:
                if e.startswith('includr'):
                    s2 = provide(w, W, k, f, e, s2)
            if s2 is None:
                continue
            for kind, v, s3 in w.run('organizer_file.OrganizerFile.pack', [W, DEST], st=s2.fork(), **k):
                n += 1
                if kind != 'ret':
                    out.append(('join', 'joining fails', '%s: %s' % (text, v)))
                    continue
                if opaque_but_worker(s3):
                    und.append('joining of form elements runs through code that is not modelled')
                    continue
                c = {x: content(e) for x, e in files(s3, DEST).items()}.get('Dir/m.elem.json')
                if c is None:
                    out.append(('join', 'the form elements are not joined', text))
                elif c != full:
                    miss = sorted(str(x) for x in set(full['data']) - set(c['data']))
                    more = sorted(str(x) for x in set(c['data']) - set(full['data']))
                    out.append(('join', 'the joined form is not the form with every area in its place',
                                '%s: missing %s, unexpected %s%s' % (text, miss[:4], more[:4], '' if c['tree'] == full['tree'] else ', tree differs')))
    return out, und, n


def top(tree, out=None, path=''):
    """outermost areas -> keys of the data below them"""
    out = {} if out is None else out
    for e in tree:
        key = '/'.join([x for x in (path, e.get('page'), e['name']) if x])
        inner = key.replace('includr_', 'include_')
        if e['name'].startswith(('include_', 'includr_')):
            out[e['name']] = Below(inner)
        else:
            top(e.get('child', []), out, inner)
    return out


class Below:
    def __init__(self, path):
        self.path = path

    def __contains__(self, key):
        return key.startswith(self.path + '/')


def provide(w, W, k, f, area, st):
    """the file of a read-only area, written by another form where the area stands at another place and may be written"""
    elem = clone(find(f.tree, area))
    elem['name'] = 'include_' + area[8:]
    elem.pop('page', None)
    path = key_of(f.tree, area).replace('includr_', 'include_')
    data = {'Other': 'x'}
    there = 'Other/' + elem['name']
    data[there] = 'own data'
    for key, d in f.data.items():
        if key.startswith(path + '/'):
            data[there + key[len(path):]] = clone(d)
    w2, W, k = setting(False)
    w2.st = st.fork()
    for x in list(w2.st.fs):
        if str(x).startswith(str(SRC)):
            del w2.st.fs[x]
    w2.put(SRC, 'Other/other.elem.json', {'tree': [{'name': 'Other', 'child': [elem]}], 'data': data})
    keep = dict(st.fs)
    for kind, v, s in w2.run('organizer_file.OrganizerFile.unpack', [SRC, W], **k):
        if kind != 'ret':
            return None
        new = {p: e for p, e in s.fs.items() if str(p).endswith('/lib/%s.elem.json' % area[12:])}
        r = st.fork()
        for p, e in new.items():
            w3 = w.fresh()
            w3.st = r
            w3.put(WR, 'proj/lib/%s.elem.json' % area[12:], content(e))
            r = w3.st
        return r
    return None


def find(tree, name):
    for e in tree:
        if e['name'] == name:
            return e
        x = find(e.get('child', []), name)
        if x:
            return x
    return None


def key_of(tree, name, path=''):
    for e in tree:
        key = '/'.join([x for x in (path, e.get('page'), e['name']) if x])
        if e['name'] == name:
            return key
        x = key_of(e.get('child', []), name, key.replace('includr_', 'include_'))
        if x:
            return x
    return None


def check(rep):
    cases = list(modules(rep.tier))
    total = 0
    for out, und, n in parallel(split_job, [cases[i::32] for i in range(32)]):
        total += n
        for d, what, detail in out:
            rep.add(d, 'organizer_code.OrganizerCode.' + ('unpack' if d == 'split' else 'pack_file'), what, detail[:300])
        for u in und:
            rep.undecide(u)
    rep.cover(module_shapes=len(cases), splits_and_joins=total)
    rep.floor('module_shapes', len(cases), 300)
    directives(rep)
    bom(rep)
    same_name(rep)
    cases = list(forms(rep.tier))
    total = 0
    for out, und, n in parallel(form_job, [cases[i::32] for i in range(32)]):
        total += n
        for d, what, detail in out:
            rep.add('elements-' + d, 'organizer_form_elem.OrganizerFormElem.' + ('unpack' if d == 'split' else 'pack'), what, detail[:300])
        for u in und:
            rep.undecide(u)
    rep.cover(form_shapes=len(cases), form_splits_and_joins=total)
    rep.floor('form_shapes', len(cases), 300)
    rep.explanation = (
        'Splitting and joining interpreted over the syntax tree for every shape of a module (sequence and nesting of lines, regions, '
        'included and read-only regions, up to %d nodes, line kinds and decorations varied up to 3) and of a form (elements, groups, '
        'panels with pages, areas, read-only areas). Rule: stack discipline of regions - every line or element goes to exactly one file '
        'and comes back once, in order; read-only areas are never written.' % (5 if rep.tier == 'thorough' else 4))
