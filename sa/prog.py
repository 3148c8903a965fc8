"""Source model: modules, classes (with MRO) and functions of the package under analysis."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG_DIR = os.path.join(REPO, 'src', 'v8unpack')
SKIP = {'unittest_helper'}


class AnalysisBroken(Exception):
    """An anchor of the analysis has vanished or the source cannot be modelled."""


class FuncInfo:
    def __init__(self, node, mod, owner, qual, kind):
        self.node = node
        self.mod = mod
        self.owner = owner          # ClassInfo or None
        self.qual = qual
        self.kind = kind            # 'plain' | 'static' | 'class' | 'property'
        self.setter = None
        if not hasattr(node, 'is_gen'):
            node.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))
        self.is_gen = node.is_gen
        self.defaults = None        # evaluated default values (list aligned to args), set by the interpreter
        self.kw_defaults = None
        self.decorators = []

    @property
    def name(self):
        return getattr(self.node, 'name', '<lambda>')

    def where(self, node=None):
        n = node if node is not None else self.node
        return '%s:%s' % (self.mod.rel, getattr(n, 'lineno', 0))

    def __repr__(self):
        return 'FuncInfo(%s)' % self.qual

    def __hash__(self):
        return id(self)


class ClassInfo:
    def __init__(self, name, qual, mod, node):
        self.name = name
        self.qual = qual
        self.mod = mod
        self.node = node
        self.bases = []      # values: Cls / Ext
        self.ns = {}         # name -> value
        self._mro = None

    @property
    def mro(self):
        """linearised bases: ClassInfo or external names"""
        if self._mro is None:
            seqs = []
            for b in self.bases:
                i = b.info if hasattr(b, 'info') else None
                seqs.append(list(i.mro) if i is not None else [b])
            seqs.append([b.info if hasattr(b, 'info') else b for b in self.bases])
            out = [self]
            while True:
                seqs = [s for s in seqs if s]
                if not seqs:
                    break
                for s in seqs:
                    c = s[0]
                    if not any(c in o[1:] for o in seqs):
                        break
                else:
                    raise AnalysisBroken('no MRO for %s' % self.qual)
                out.append(c)
                for s in seqs:
                    if s[0] == c:
                        s.pop(0)
            self._mro = out
        return self._mro

    def lookup(self, name, after=None):
        seen = after is None
        for c in self.mro:
            if not seen:
                if c is after:
                    seen = True
                continue
            if isinstance(c, ClassInfo) and name in c.ns:
                return c, c.ns[name]
        return None, None

    def is_sub(self, other):
        return other in self.mro

    def ext_bases(self):
        return [c.name for c in self.mro if not isinstance(c, ClassInfo)]

    @property
    def is_enum(self):
        return any(n.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum') for n in self.ext_bases())

    @property
    def is_exc(self):
        import builtins
        for n in self.ext_bases():
            e = getattr(builtins, n.split('.')[-1], None)
            if isinstance(e, type) and issubclass(e, BaseException):
                return True
        return False

    def __repr__(self):
        return 'ClassInfo(%s)' % self.qual

    def __hash__(self):
        return id(self)


class ModInfo:
    def __init__(self, name, path, rel, tree, is_pkg):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.is_pkg = is_pkg
        self.ns = {}
        self.state = 0   # 0 new, 1 loading, 2 done


def walk_own(node):
    """nodes of a function body, not entering nested functions/classes"""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


TREES = {}      # (path, source) -> syntax tree


def load_modules(pkg_dir=None, pkg='v8unpack'):
    pkg_dir = pkg_dir or PKG_DIR
    if not os.path.isdir(pkg_dir):
        raise AnalysisBroken('package directory not found: %s' % pkg_dir)
    mods = {}
    for root, dirs, files in os.walk(pkg_dir):
        dirs[:] = sorted(d for d in dirs if not d.startswith(('.', '__')))
        for f in sorted(files):
            if not f.endswith('.py'):
                continue
            path = os.path.join(root, f)
            rel = os.path.relpath(path, pkg_dir)
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == '__init__'
            if is_pkg:
                parts = parts[:-1]
            if parts and parts[-1] in SKIP:
                continue
            name = '.'.join([pkg] + parts)
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            tree = TREES.get((path, src))
            if tree is None:
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = TREES[path, src] = ast.parse(src, path)
            mods[name] = ModInfo(name, path, os.path.join('src/v8unpack', rel), tree, is_pkg)
    # directories without __init__ act as namespace packages
    for name in list(mods):
        p = name
        while '.' in p:
            p = p.rsplit('.', 1)[0]
            if p not in mods:
                m = ModInfo(p, '', p.replace('.', '/'), ast.parse(''), True)
                mods[p] = m
    return mods
