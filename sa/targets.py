"""Enumeration of the metadata classes and grouping of those that cannot behave differently."""
import ast

from .prog import AnalysisBroken


def metadata_classes(I):
    """[(enum member name, Cls or None)] of every metadata type the tool knows"""
    mt = I.get_class('v8unpack.metadata_types.MetaDataTypes')
    out = []
    for m in I.enum_members(mt.info):
        try:
            c = I.get_class('v8unpack.MetaDataObject.%s.%s' % (m.name, m.name))
        except AnalysisBroken:
            c = None
        out.append((m.name, c))
    return out


def is_kind(c, *names):
    return any(getattr(k, 'name', '') in names for k in c.info.mro)


def body_key(info):
    """the class body without names, doc strings and pass; None when it holds code of its own"""
    parts = []
    for s in info.node.body:
        if isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Assign) and all(isinstance(n, (ast.Constant, ast.Dict, ast.List, ast.Tuple, ast.Load))
                                             for n in ast.walk(s.value)):
            parts.append(ast.dump(s))
            continue
        return None
    return tuple(sorted(parts))


def groups(classes):
    """classes whose own body is empty or the same constants over the same bases are one case"""
    out = {}
    for name, c in classes:
        k = body_key(c.info)
        if k is None:
            key = ('own', name)
        else:
            key = (k, tuple(b.info.qual if hasattr(b, 'info') else b.name for b in c.info.bases))
        out.setdefault(key, []).append((name, c))
    return list(out.values())
