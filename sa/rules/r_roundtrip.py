"""C01-C05: extraction composed with building, for every metadata class, path by path."""
from collections import Counter

from ..interp import Interp
from ..roundtrip import RoundTrip
from .. import judge as J
from .. import targets
from ..runner import parallel

PROPS = ('C01', 'C02', 'C03', 'C04', 'C05')

_I = None


def interp():
    global _I
    if _I is None:
        _I = Interp()
    return _I


def opaque_in(st):
    return any(e[0] in ('opaque', 'getattr-dyn') for e in st.events())


def one(case):
    name, cls, cfg = case
    I = interp()
    stats = Counter()
    rt = RoundTrip(I, max_dev=cfg['dev'], policy=cfg['policy'], options=cfg.get('options'))
    finds, und = {}, Counter()
    for d, e in rt.compose(cls):
        fs = J.judge(I, cls, d, e, stats)
        if not fs:
            continue
        op = None
        for f in fs:
            if op is None:
                op = opaque_in(d[2]) or isinstance(e, tuple) and opaque_in(e[2])
            if op:
                und['%s: path runs through code that is not modelled' % name] += 1
                continue
            k = (f.prop, f.rule, f.construct, f.what)
            if k not in finds or len(f.path) < len(finds[k]):
                finds[k] = f.path
    return finds, dict(stats), dict(und)


def cases(I, tier):
    classes = [(n, c) for n, c in targets.metadata_classes(I) if c is not None
               and not targets.is_kind(c, 'IncludeSimple', 'IncludeEmpty')]
    gs = targets.groups(classes)
    cfgs = [dict(policy='present', dev=1 if tier == 'quick' else 2)]
    cfgs.append(dict(policy='absent', dev=1))
    out = []
    for cfg in cfgs:
        for g in gs:
            out.append((g[0][0], g[0][1], cfg))
    return classes, gs, out


def check(rep):
    I = interp()
    classes, gs, cs = cases(I, rep.tier)
    total = Counter()
    for finds, stats, und in parallel(one, cs):
        total.update(stats)
        for (prop, rule, construct, what), path in finds.items():
            rep.add(rule, construct, what, path, prop)
        for k, n in und.items():
            rep.undecided[k] = rep.undecided.get(k, 0) + n
    rep.cover(metadata_classes=len(classes), distinct_implementations=len(gs), extraction_paths=total['paths'],
              extraction_paths_failing_visibly=total['decode-raises'])
    rep.floor('metadata_classes', len(classes), 60)
    rep.floor('path_pairs', total['pairs'], 200)
    rep.floor({'C01': 'entries_checked', 'C02': 'trees_compared', 'C03': 'listed_entries', 'C04': 'contents_compared',
               'C05': 'files_compared'}[rep.prop],
              total[{'C01': 'entries', 'C02': 'trees', 'C03': 'listed', 'C04': 'contents', 'C05': 'files'}[rep.prop]], 200)
    rep.explanation = EXPL[rep.prop]
    rep.assumptions = ASSUME


ASSUME = [
    'stage-1 property trees are non-empty lists in the platform format',
    'at most the stated number of optional conditions depart from the base case on one path (dev)',
    'a binary record of a template is {"1",{"#base64:..."}} or {"1",{"##base64:"}} as the platform writes it',
]
BASE = ('Interprocedural path-sensitive dataflow over the syntax trees: for every metadata class the extraction entry point is '
        'interpreted over abstract values (access paths into the property tree, file paths as terms), giving one abstract '
        'file system per path; the build entry point is then interpreted on that file system. ')
EXPL = {
    'C01': BASE + 'Rule: every stage-1 entry read or copied on an extraction path is written under the same name on every '
                  'build path composed with it, and no build path of extracted sources raises.',
    'C02': BASE + 'Rule: the tree stored by build equals the tree read, location by location.',
    'C03': BASE + 'Rule: the list of names returned by build equals the set of entries written, each once.',
    'C04': BASE + 'Rule: the bytes of every non-tree entry written equal the bytes read (decode/encode cancel only for the '
                  'same code page), and no intermediate file is read in another code page than it was written.',
    'C05': BASE + 'Rule: no path writes two different contents to one file, no path is both file and folder, and no '
                  'name with an unknown part can coincide with another for a value the recorded conditions admit.',
}
