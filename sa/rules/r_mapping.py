"""C20: the index maps a file to the same shared place in both directions.

Extraction and build of the code organiser are interpreted over their syntax trees in a closed world of files whose contents
are symbols.  The index is the representative of the shapes an index can have (file at the top, renamed, nested, below a
folder that is not mapped, '*', '*' with exceptions, empty and null entries, code areas); the items are the representatives
of the kinds of files (binary, module, module with areas, form elements with areas)."""
from ..terms import K, T, NONE, join
from ..runner import parallel
from ..world import World, files, content, raced
from .r_ops import opaque_but_worker

PROPS = ('C20',)
P = lambda x: T('param', x)
WR, SRC, DEST = P('w'), P('src'), P('dest')
AREA = 'Области include'

INDEX = {
    'm1.bsl': 'shared/m1.bsl',
    'm2.bsl': 'shared/sub/other.bsl',
    'x1.bin': 'shared/x1.bin',
    'x2.bin': 'shared/sub/y.bin',
    'f1.elem.json': 'shared/f1.elem.json',
    'f2.elem.json': 'shared/sub/g.elem.json',
    'e1.bin': '',
    'e2.bsl': None,
    'Dir': {
        'm3.bsl': 'lib/m3.bsl',
        'x3.bin': 'lib/x3.bin',
        'f3.elem.json': 'lib/f3.elem.json',
        'e3.bin': '',
        'Deep': {'x4.bin': 'lib/deep/x4.bin', 'm4.bsl': 'lib/deep/m4.bsl'},
    },
    'Star': {'*': 'all', 'x5.bin': 'lib/x5.bin', 'e5.bin': ''},
    'StarEx': {'*-skip.bin-skip.bsl': 'most', 'm6.bsl': 'lib/m6.bsl'},
    'Empty': {},
    AREA: {'mapped': 'alib_areas_mapped', 'other': 'lib_other'},
}
BARE = 'Module'


def module(tag, areas=()):
    s = 'tag %s\n' % tag
    for a in areas:
        s += '#Область include_%s\narea %s of %s\n#КонецОбласти\n' % (a, a, tag)
    return s + 'end\n'


def form(tag, areas=()):
    tree, data = [{'name': 'first'}], {'first': 'tag ' + tag}
    for a in areas:
        n = 'include_' + a
        tree.append({'name': n, 'child': [{'name': 'in'}]})
        data[n] = 'own data of ' + a
        data[n + '/in'] = 'area %s of %s' % (a, tag)
    return {'tree': tree, 'data': data}


# items of the extracted tree: name -> areas
ITEMS = {
    'm1.bsl': (), 'm2.bsl': ('near2', 'lib_a2'), 'x1.bin': (), 'x2.bin': (), 'f1.elem.json': (), 'f2.elem.json': ('fnear2', 'lib_fa2'),
    'e1.bin': (), 'e2.bsl': (), 'own.bin': (), 'own.bsl': ('mapped', 'lib_deep_a3', '_up_a4', 'beside'), 'own.elem.json': ('fbeside', 'lib_fa4', 'other'),
    'Dir/m3.bsl': (), 'Dir/x3.bin': (), 'Dir/f3.elem.json': (), 'Dir/e3.bin': (), 'Dir/own.bin': (), 'Dir/own.bsl': ('beside2',), 'Dir/x1.bin': (),
    'Dir/Deep/x4.bin': (), 'Dir/Deep/m4.bsl': (), 'Dir/Deep/own.bin': (), 'Dir/Deep/own.elem.json': (),
    'Star/x5.bin': (), 'Star/e5.bin': (), 'Star/s1.bin': (), 'Star/s2.bsl': (), 'Star/s3.elem.json': (), 'Star/In/x.bin': (),
    'StarEx/skip.bin': (), 'StarEx/skip.bsl': (), 'StarEx/m6.bsl': (), 'StarEx/t1.bin': (), 'StarEx/t2.bsl': (),
    'Free/x1.bin': (), 'Free/m1.bsl': (), 'Free/Deep/f1.elem.json': (),
}


def mapped(index, name):
    """place below the root of the shared folders a file is mapped to, or None"""
    if not index:
        return None
    d = index
    parts = name.split('/')
    for x in parts[:-1]:
        if not isinstance(d, dict) or not isinstance(d.get(x), dict):
            return None
        d = d[x]
    last = parts[-1]
    if last in d:
        return d[last] or None
    for k, v in d.items():
        if k.startswith('*') and v and last not in k.split('-')[1:]:
            return v + '/' + last
    return None


class Case:
    """places of all files for one index and mode"""

    def __init__(self, index, ce):
        self.index, self.ce = index, ce
        self.base = ['proj', 'src'] if not ce else ['proj', 'up', 'src']
        self.W = join([WR] + [K(x) for x in self.base])

    def own(self, name, near=''):
        if not self.ce:
            return '/'.join(self.base + [name])
        b, e = name.rsplit('.', 1)
        return '/'.join(self.base + ['%s.10.%s' % (b, e)])

    def shared(self, rel):
        p = ['proj']
        for x in rel.split('/'):
            if x == '..':
                p.pop() if p else p.append('<above>')
            elif x:
                p.append(x)
        return '/'.join(p)

    def place(self, name):
        m = mapped(self.index, name)
        return self.shared(m) if m else self.own(name)

    def area_place(self, name, area):
        ext = 'elem.json' if name.endswith('.elem.json') else 'bsl'
        to = (self.index or {}).get(AREA, {}).get(area, area).split('_')
        if len(to) == 1 and self.ce:
            return None         # a name shared by all modules
        if len(to) == 1:
            m = mapped(self.index, name)
            if m:
                return self.shared('/'.join(m.split('/')[:-1] + [to[0] + '.' + ext]))
            return self.own('/'.join(name.split('/')[:-1] + [to[0] + '.' + ext]))
        return self.shared('/'.join(['..' if x == '' else x for x in to[:-1]] + [to[-1] + '.' + ext]))


def source(name):
    """content of an item of the extracted tree"""
    areas = ITEMS[name]
    tag = name
    if name.endswith('.bsl'):
        return module(tag, areas)
    if name.endswith('.elem.json'):
        return form(tag, areas)
    return T('content', K(tag))


def marks(v):
    """what a file holds: tags of items and areas"""
    if isinstance(v, T):
        return {'tag ' + v.args[0].v} if v.op == 'content' else {str(v)[:60]}
    if isinstance(v, str):
        return {l for l in v.split('\n') if l.startswith(('tag ', 'area '))}
    if isinstance(v, dict):
        return {x for x in v.get('data', {}).values() if isinstance(x, str) and x.startswith(('tag ', 'area '))}
    return {str(v)[:60]}


def holder(case, only=None):
    """mark -> place of the file that has to hold it"""
    out = {}
    for n in ITEMS:
        if only and n not in only:
            continue
        out['tag ' + n] = case.place(n)
        for a in ITEMS[n]:
            out['area %s of %s' % (a, n)] = case.area_place(n, a)
    return out


def kind_of(name):
    return 'elem' if name.endswith('.elem.json') else name.rsplit('.', 1)[1]


def world(case):
    w = World([WR, SRC, DEST])
    w.pool()
    w.folder(WR, 'proj')
    w.folder(DEST)
    return w


def args(w, case, *a):
    kw = {'index': w.value(case.index) if case.index is not None else NONE, 'descent': K(10) if case.ce else NONE, 'pool': NONE}
    cls = 'organizer_file_ce.OrganizerFileCE' if case.ce else 'organizer_file.OrganizerFile'
    return dict(args=list(a), kw=kw, cls=cls)


def extraction(case):
    """-> [(construct, what, detail)], undecided, n"""
    out, und, n = [], [], 0
    w = world(case)
    names = list(ITEMS)
    for x in names:
        w.put(SRC, x, source(x))
    want = holder(case, names)
    for k, v, st in w.run('organizer_file.OrganizerFile.unpack', **args(w, case, SRC, case.W)):
        if k != 'ret':
            out.append(('unpack', '', 'extraction fails', str(v)[:150]))
            continue
        if opaque_but_worker(st):
            und.append('path runs through code that is not modelled')
            continue
        found = {}
        for f, e in files(st, WR).items():
            for m in marks(content(e)):
                found.setdefault(m, []).append(f)
        for m, p in want.items():
            n += 1
            if m not in found:
                out.append(('unpack', m, 'content is not written', '%s: not at %s' % (m, p)))
            elif found[m] != [p] and (p or len(found[m]) != 1):
                out.append(('unpack', m, 'content is not written to the place the index gives (its own place if it gives none)',
                            '%s: at %s, to be at %s' % (m, found[m], p)))
        for m in found:
            if m not in want:
                und.append('a file with unknown content %s' % m)
    return out, und, n


def decoy(w, root, rel, kind, tag, taken):
    if rel in taken or rel.startswith('<'):
        return
    taken.add(rel)
    w.put(root, rel, {'bin': T('content', K(tag)), 'bsl': 'tag %s\n' % tag, 'elem': {'tree': [{'name': 'first'}], 'data': {'first': 'tag ' + tag}}}[kind])


def shared_tree(case):
    """sources and shared folders a build starts from"""
    put = {}
    for x in ITEMS:
        kind = kind_of(x)
        p = case.place(x)
        areas = [a for a in ITEMS[x] if case.area_place(x, a)]
        if kind == 'bsl':
            s = 'tag %s\n' % x + ''.join('#Область include_%s\n#КонецОбласти\n' % a for a in areas)
            put[p] = s
            for a in areas:
                put[case.area_place(x, a)] = 'area %s of %s\n' % (a, x)
        elif kind == 'elem':
            tree, data = [{'name': 'first'}], {'first': 'tag ' + x}
            for a in areas:
                tree.append({'name': 'include_' + a, 'child': 'В отдельном файле'})
                data['include_' + a] = 'own data'
                put[case.area_place(x, a)] = {'tree': [{'name': 'in'}], 'data': {'include_%s/in' % a: 'area %s of %s' % (a, x)}}
            put[p] = {'tree': tree, 'data': data}
        else:
            put[p] = T('content', K(x))
    return put


def build(case, order=1):
    out, und, n = [], [], 0
    w = world(case)
    names = list(ITEMS)
    taken = set()
    put = shared_tree(case)
    order = list(put)[::order]
    for p in order:
        w.put(WR, p, put[p])
        taken.add(p)
    # files a wrong reading of the index would take
    for x in names:
        kind = kind_of(x)
        if case.place(x) != case.own(x):
            decoy(w, WR, case.own(x), kind, 'decoy: own place of ' + x, taken)
            m = mapped(case.index, x)
            for up, base in (('the level of the sources', case.base), ('one level too low', case.base[:-1]), ('one level too high', []),
                             ('the folder of the other mode', ['proj', 'up'])):
                decoy(w, WR, '/'.join(base + [m]), kind, 'decoy: %s of %s' % (up, x), taken)
            decoy(w, WR, case.shared('/'.join(m.split('/')[:-1] + [x.split('/')[-1]])), kind, 'decoy: own name of %s in its shared folder' % x, taken)
    for x in names:         # files of a shared folder that are left out of it
        d = x.split('/')[0]
        if case.index and d in ('Star', 'StarEx') and not (mapped(case.index, x) or '').startswith(('all/', 'most/')):
            decoy(w, WR, case.shared({'Star': 'all', 'StarEx': 'most'}[d] + '/' + x.split('/')[-1]), kind_of(x), 'decoy: left out of the shared folder, ' + x, taken)
    w.folder(WR, case.shared('all/Folder.bin'))
    want = {}
    for x in names:
        want[x] = {'tag ' + x} | {'area %s of %s' % (a, x) for a in ITEMS[x] if case.area_place(x, a)}
    for k, v, st in w.run('organizer_file.OrganizerFile.pack', **args(w, case, case.W, DEST)):
        if k != 'ret':
            out.append(('pack', '', 'the build fails', str(v)[:150]))
            continue
        if opaque_but_worker(st):
            und.append('path runs through code that is not modelled')
            continue
        for p in raced(st, DEST):
            out.append(('pack', p, 'a file of the build is written by two workers', p))
        got = files(st, DEST)
        for x in names:
            n += 1
            if x not in got:
                out.append(('pack', x, 'a file is not taken into the build', '%s, to be taken from %s' % (x, case.place(x))))
                continue
            m = marks(content(got[x]))
            if m != want[x]:
                bad = sorted(m - want[x])
                if bad:
                    out.append(('pack', x, 'a file is not taken from the place the index gives (its own place if it gives none)',
                                '%s: takes %s, to be taken from %s' % (x, bad[:2], case.place(x))))
                else:
                    out.append(('pack', x, 'an area is not taken', '%s: %s is missing' % (x, sorted(want[x] - m))))
    return out, und, n


def inverse(case):
    """build of what was extracted gives back every file"""
    out, und, n = [], [], 0
    w = world(case)
    names = list(ITEMS)
    for x in names:
        w.put(SRC, x, source(x))
    a = args(w, case, SRC, case.W)
    for k, v, st in w.run('organizer_file.OrganizerFile.unpack', **a):
        if k != 'ret' or opaque_but_worker(st):
            continue
        for k2, v2, s2 in w.run('organizer_file.OrganizerFile.pack', st=st, **{**a, 'args': [case.W, DEST]}):
            if k2 != 'ret':
                out.append(('pack', '', 'the build of extracted files fails', str(v2)[:150]))
                continue
            if opaque_but_worker(s2):
                und.append('path runs through code that is not modelled')
                continue
            got = files(s2, DEST)
            for x in names:
                n += 1
                if x not in got:
                    out.append(('pack', x, 'an extracted file does not come back', x))
                else:
                    c = content(got[x])
                    s = source(x)
                    if kind_of(x) == 'elem':
                        c, s = c.get('data'), s['data']
                    if c != s:
                        out.append(('pack', x, 'an extracted file comes back changed', '%s: %s, was %s' % (x, str(c)[:150], str(s)[:150])))
    return out, und, n


def job(j):
    what, idx, ce = j
    case = Case(INDEX if idx else None, ce)
    f = {'extract': extraction, 'build': build, 'build-': lambda c: build(c, -1), 'inverse': inverse}[what]
    return j, f(case)


KINDS = {'bin': 'binary files', 'bsl': 'modules', 'elem': 'form elements', '': 'all files'}


def check(rep):
    jobs = [(w, i, c) for w in ('extract', 'build', 'build-', 'inverse') for i in (True, False) for c in (False, True)]
    total = 0
    for (what, idx, ce), (out, und, n) in parallel(job, jobs):
        total += n
        for c, x, w, d in out:
            x = KINDS[kind_of(x)] if x else KINDS['']
            rep.add(what.rstrip('-'), 'organizer_file.OrganizerFile.%s: %s%s' % (c, x, ' (version inheritance)' if ce else ''), w,
                    d + ('' if idx else '; without an index'))
        for u in und:
            rep.undecide('%s: %s' % (what, u))
        rep.cover(**{what.rstrip('-') + '_items': n})
    rep.floor('items_followed', total, 150)
    rep.explanation = (
        'Both directions of the code organiser interpreted over the syntax tree in a closed world of files with symbolic contents: '
        'every kind of file against every shape of index entry; rule: a mapped file is written to and taken from exactly the place '
        'the index gives, any other its own place, with decoys at every place a wrong reading would lead to; '
        'and building what was extracted gives back every file.')
