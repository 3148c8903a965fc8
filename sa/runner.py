"""Shared driver of the checks: parallel analysis, evidence, known findings, verdict."""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from multiprocessing import get_context

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, 'known_findings.json')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))

_FN = None
_ARG = None
_EACH = None
_END = 0


class OutOfTime(BaseException):
    pass


def _stop(*_):
    raise OutOfTime()


def _call(i):
    try:
        if not _EACH:
            return i, _FN(_ARG[i]), None
        left = _END - time.time()
        if left <= 0:
            return i, OUT_OF_TIME, None
        signal.signal(signal.SIGALRM, _stop)
        signal.setitimer(signal.ITIMER_REAL, min(_EACH, left))
        try:
            r = _FN(_ARG[i])
        except OutOfTime:
            r = OUT_OF_TIME
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return i, r, None
    except Exception:
        return i, None, traceback.format_exc()


OUT_OF_TIME = 'out of time'


def _with_parent():
    """a worker ends with the process that started it"""
    try:
        import ctypes
        import signal
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass


def parallel(fn, items, each=None, total=600):
    """fn over items in forked workers; results in the order of items. With `each` an item that takes longer (in seconds), or
    that is reached after `total` seconds, gives OUT_OF_TIME"""
    global _FN, _ARG, _EACH, _END
    items = list(items)
    if JOBS <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    _FN, _ARG, _EACH, _END = fn, items, each, time.time() + total
    out = [None] * len(items)
    with get_context('fork').Pool(min(JOBS, len(items)), initializer=_with_parent) as pool:
        for i, r, err in pool.imap_unordered(_call, range(len(items))):
            if err:
                pool.terminate()
                raise RuntimeError(err)
            out[i] = r
    return out


class Report:
    """what one check found and what it covered"""

    def __init__(self, prop, tier):
        self.prop = prop
        self.tier = tier
        self.findings = {}        # key -> dict
        self.coverage = {}
        self.assumptions = []
        self.floors = []          # (name, measured, minimum)
        self.undecided = {}
        self.level = 'other'
        self.explanation = ''

    def add(self, rule, construct, what, path='', prop=None):
        if prop is not None and prop != self.prop:
            return
        k = '%s|%s|%s' % (rule, construct, what)
        f = self.findings.get(k)
        if f is None:
            self.findings[k] = dict(rule=rule, construct=construct, what=what, path=path, count=1)
        else:
            f['count'] += 1
            if len(path) < len(f['path']):
                f['path'] = path

    def cover(self, **kw):
        for k, v in kw.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                self.coverage[k] = self.coverage.get(k, 0) + v
            else:
                self.coverage[k] = v

    def floor(self, name, measured, minimum):
        self.floors.append((name, measured, minimum))
        self.coverage[name] = measured

    def undecide(self, what):
        self.undecided[what] = self.undecided.get(what, 0) + 1


def known_for(prop):
    if not os.path.exists(KNOWN):
        return []
    with open(KNOWN, encoding='utf-8') as f:
        d = json.load(f)
    return [x for x in d.get('known', []) if x['property'] == prop]


def finish(rep, t0):
    prop = rep.prop
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    known = known_for(prop)
    new, quiet = [], []
    for k, f in sorted(rep.findings.items()):
        hit = [x for x in known if x['rule'] == f['rule'] and x['construct'] == f['construct']
               and x['what'] == f['what']]
        (quiet if hit else new).append(f)
    broken = ['%s: found %s, expected at least %s' % x for x in rep.floors if x[1] < x[2]]
    cov = dict(rep.coverage)
    cov['explanation'] = rep.explanation
    cov['required_minimum'] = {n: k for n, m, k in rep.floors}
    cov['known_findings_seen'] = len(quiet)
    if rep.undecided:
        cov['undecided'] = dict(sorted(rep.undecided.items())[:40])
        cov['undecided_count'] = sum(rep.undecided.values())
    ev = dict(property=prop, tier=rep.tier, seed=seed, level=rep.level, coverage=cov,
              wall_s=round(time.time() - t0, 2), assumptions=rep.assumptions, violations=len(new))
    if new:
        cov['violations_found'] = []
    os.makedirs(os.path.join(VERIF, 'evidence', 'replay'), exist_ok=True)
    lines = []
    for f in new:
        h = hashlib.sha1(('%s|%s|%s' % (f['rule'], f['construct'], f['what'])).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, 'evidence', 'replay', '%s-%s.txt' % (prop, h))
        with open(path, 'w', encoding='utf-8') as fh:
            fh.write('property: %s\nrule: %s\nconstruct: %s\nfinding: %s\npath: %s\noccurrences: %d\nre-run: %s\n' % (
                prop, f['rule'], f['construct'], f['what'], f['path'], f['count'],
                'python3 %s %s %s' % (os.path.join(VERIF, 'check.py'), prop, rep.tier)))
        cov['violations_found'].append({'rule': f['rule'], 'construct': f['construct'], 'what': f['what'],
                                 'path': f['path'][:1000], 'replay': path})
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('%s: %s: %s%s' % (f['construct'], f['rule'], f['what'],
                                ' [when %s]' % f['path'][:400] if f['path'] else ''))
    for f in quiet:
        print('KNOWN-FINDING: property=%s %s: %s: %s' % (prop, f['construct'], f['rule'], f['what']))
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w', encoding='utf-8') as fh:
        json.dump(ev, fh, ensure_ascii=False, indent=1)
    for ln in lines:
        print(ln)
    if lines:
        return 1
    if broken:
        print('ANALYSIS-BROKEN %s: %s' % (prop, '; '.join(broken)))
        return 2
    print('OK %s %s: %s (%.1f s)' % (prop, rep.tier, ', '.join(
        '%s=%s' % (k, v) for k, v in rep.coverage.items() if isinstance(v, (int, float)))[:300], time.time() - t0))
    return 0


def main(argv):
    import importlib
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    t0 = time.time()
    rep = Report(prop, tier)
    mod = None
    for name in sorted(os.listdir(os.path.join(VERIF, 'sa', 'rules'))):
        if not name.startswith('r_') or not name.endswith('.py'):
            continue
        m = importlib.import_module('sa.rules.' + name[:-3])
        if prop in m.PROPS:
            mod = m
            break
    if mod is None:
        print('no rule for', prop)
        return 2
    from .prog import AnalysisBroken
    try:
        mod.check(rep)
    except AnalysisBroken as e:
        print('ANALYSIS-BROKEN %s: %s' % (prop, e))
        return 2
    return finish(rep, t0)
