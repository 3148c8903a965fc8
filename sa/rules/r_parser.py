"""C22: reading and writing of property texts.

The parser of property texts tells characters apart only by comparing them with the marks of the format (braces, comma, quote,
line end); a letter stands for every other character.  Reading is interpreted over the syntax trees for every shape of a text
up to a size - nesting, places of strings, marks inside strings, several roots - and for everything that remains of such a text
when it is cut off at any place.  The oracle is the grammar of the format: a whole text gives its tree, a text that ends inside
a list or a string is an error.  Every tree that was read is written again, and what is written is read as the same tree."""
from ..terms import K, T, NONE, FL
from ..runner import parallel, OUT_OF_TIME
from ..world import World
from .r_ops import opaque_but_worker

PROPS = ('C22',)
SRC = T('param', 'src')
DEST = T('param', 'dest')
STRINGS = ('""', '"a"', '"a""b"', '"a,b"', '"\n"', '",\n"', '"a\nb"', '"{"', '"}"', '"a\n{b"', '"a\n}b"', '"\n""\n"', '"a"",\nb"', '"\na,"",\nb"', '"a\n\nb"', '"""a"""',
           '"\n,"', '" a "', '"\n a \n"', '"a\u2028a\x85\x0c"', '"\ta\n\t"')
PLAIN = ('a', '', '0', '-1')
B = 'QUJD'
CODED = {   # values in base64 as the platform breaks them: (value, text)
    'one line': ('##base64:' + B * 4, '#base64:' + B * 4),
    'two lines': ('#base64:' + B * 20, '#base64:' + B * 16 + '\n' + B * 4),
    'two lines, no mark': (B * 20, B * 16 + '\n' + B * 4),
    'three lines, no mark': (B * 40, B * 16 + '\n' + B * 16 + '\n' + B * 8),
    'a full line': ('#base64:' + B * 16, '#base64:' + B * 16 + '\n'),
    'two full lines': ('#base64:' + B * 32, '#base64:' + B * 16 + '\n' + B * 16 + '\n'),
    'three lines': ('#base64:' + B * 40, '#base64:' + B * 16 + '\n' + B * 16 + '\n' + B * 8),
}


def trees(leaves, depth):
    """lists with that many leaves, 'a' for each"""
    def lists(n, d):
        """non-empty sequences of items with n leaves"""
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for item in items(k, d):
                for rest in lists(n - k, d):
                    yield (item,) + rest

    def items(k, d):
        if k == 1:
            yield 'a'
        if d:
            for body in lists(k, d - 1):
                yield body
    yield from lists(leaves, depth)


def subst(tree, at, value):
    """the tree with the leaf number `at` replaced"""
    n = [0]

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        n[0] += 1
        return value if n[0] - 1 == at else x
    return go(tree)


def count(t):
    return sum(map(count, t)) if isinstance(t, tuple) else 1


def text(t, first=True):
    """the text of a list as the platform writes it"""
    s = '{' if first else '\n{'
    for i, x in enumerate(t):
        last = i == len(t) - 1
        s += text(x, False) + ('\n' if last else '') if isinstance(x, tuple) else CODED_TEXT.get(x, x)
        s += '' if last else ','
    return s + '}'


CODED_TEXT = {v: t for v, t in CODED.values()}


def whole(s):
    """the oracle: the text is complete (every list and every string is closed)"""
    depth, inside = 0, False
    for c in s:
        if c == '"':
            inside = not inside
        elif not inside and c == '{':
            depth += 1
        elif not inside and c == '}':
            depth -= 1
    return not inside and depth <= 0


def shapes(tier):
    """[(roots, with cut-off texts)]"""
    deep = 4 if tier == 'thorough' else 3
    out = []
    for n in range(1, deep + 1):
        for t in trees(n, 3 if n < 4 else 2):
            out.append(((t,), n <= deep - 1))
            for i in range(n):
                for v in STRINGS + PLAIN[1:]:
                    if n < 3 or tier == 'thorough' or v in STRINGS[:1] + STRINGS[4:6] + PLAIN[1:2]:
                        out.append(((subst(t, i, v),), n <= 2 if tier == 'quick' else n <= 3))
    for a in STRINGS + PLAIN:
        for b in STRINGS + PLAIN:
            out.append(((('1', a, b),), False))
            out.append(((('1', (a, b)),), False))
    for v, _ in CODED.values():
        out += [(((v,),), True), ((('2', (v,), 'b'),), True)]
        if v[0] != '#':
            out += [((('2', v),), True), (((('2', v), 'b'),), False)]
    out += [((('a',), ('b', ('c',))), False), ((('a', ('b',)), ('"x\ny"',), ('c',)), False)]
    return list(dict.fromkeys(out))


def topy(v):
    if isinstance(v, FL):
        return tuple(topy(x) for x in v.key[0])
    if isinstance(v, K):
        return '' if v.v is None else v.v
    return v


BASE = []


def world():
    if not BASE:
        BASE.append(World([SRC, DEST]))
    return BASE[0].fresh()


def read(s):
    """-> ('tree', value, state) | ('error',) | ('unsure',); an empty file has no lines"""
    w = world()
    w.put(SRC, 'f', s)
    w.folder(DEST)
    rs = w.run('helper.brace_file_read', [SRC, K('f')])
    out = []
    for k, v, st in rs:
        if opaque_but_worker(st):
            return ('unsure',)
        out.append(('tree', topy(w.I.freeze(v, st)), w.I.freeze(v, st)) if k == 'ret' else ('error',))
    return out[0] if len(out) == 1 else ('unsure',)


def write(tree):
    w = world()
    w.folder(DEST)
    v = w.I.thaw(tree, w.st)
    rs = w.run('helper.brace_file_write', [v, DEST, K('g')])
    for k, v, st in rs:
        if opaque_but_worker(st):
            return ('unsure',)
        if k != 'ret':
            return ('error',)
        for p, e in st.fs.items():
            if e[0] == 'text':
                t = e[1]
                s = t if isinstance(t, str) else t.v if isinstance(t, K) else None
                return ('text', s.replace('\r\n', '\n')) if isinstance(s, str) else ('unsure',)
    return ('unsure',)


def job(cases):
    out, und, n = [], 0, 0
    for roots, cuts in cases:
        s = ',\n'.join(text(t) for t in roots)
        r = read(s)
        n += 1
        if r[0] == 'unsure':
            und += 1
            continue
        if r[0] == 'error':
            out.append(('read', 'a whole text is refused', repr(s)))
        elif r[1] != roots:
            out.append(('read', 'a whole text is read as another tree', '%r is read as %r' % (s, r[1])))
        else:
            x = write(r[2])
            n += 1
            if x[0] == 'unsure':
                und += 1
            elif x[0] == 'error':
                out.append(('write', 'the writer refuses a tree that was read', repr(s)))
            else:
                y = read(x[1])
                n += 1
                if y[0] == 'unsure':
                    und += 1
                elif y[:2] != ('tree', roots):
                    out.append(('write', 'what is written for a tree is not read as this tree', '%r is written as %r' % (s, x[1])))
        if cuts:
            for i in range(1, len(s)):
                cut = s[:i]
                if whole(cut):
                    continue
                r = read(cut)
                n += 1
                if r[0] == 'unsure':
                    und += 1
                elif r[0] == 'tree':
                    out.append(('cut', 'a text that ends inside a %s is read as if it were whole' % (
                        'string' if cut.count('"') % 2 else 'list'), '%r is read as %r' % (cut, r[1])))
    return out, und, n


def check(rep):
    cs = shapes(rep.tier)
    parts = 64
    n = 0
    for r in parallel(job, [cs[i::parts] for i in range(parts)], each=200 if rep.tier == 'quick' else 800):
        if r == OUT_OF_TIME:
            rep.undecide('reading takes too many paths')
            continue
        out, und, k = r
        n += k
        for rule, what, how in out:
            rep.add(rule, 'helper.brace_file_read' if rule != 'write' else 'helper.brace_file_write', what, how)
        if und:
            rep.undecide('the result of reading or writing is not determined')
    rep.cover(text_shapes=len(cs), readings_and_writings=n)
    rep.floor('text_shapes', len(cs), 500)
    if not rep.undecided:
        rep.floor('readings_and_writings', n, 1500)
    rep.explanation = __doc__.strip()
    rep.assumptions = ['a list begins on a line of its own, a value in base64 that takes several lines is the last of its list (the platform writes them so)', 'texts are in one of the two supported encodings']
