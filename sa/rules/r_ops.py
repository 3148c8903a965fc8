"""C10, C18, C19: the top-level operations as sequences of stages, on every path, faults included."""
import ast

from ..interp import Interp, HDict
from ..terms import (K, T, Ref, Cls, Fn, Bound, Ext, Tup, ExcV, FD, Star, NONE, TRUE, subterms)
from ..prog import AnalysisBroken
from ..runner import parallel
from .. import ops
from ..ops import stages

PROPS = ('C10', 'C18', 'C19')
Q = 'v8unpack.'
IN, OUT, TEMP, INDEX, PROC, OPTS = [T('param', x) for x in ('in', 'out', 'temp', 'index', 'processes', 'options')]
RINDEX = T('result', K('check_index'))

# stage, position of its input and of its output among its parameters (self/cls not counted)
EXTRACT = [(Q + 'container_reader.extract', 0, 1),
           (Q + 'container_reader.decompress_and_extract', 0, 1),
           (Q + 'decoder.decode', 0, 1),
           (Q + 'organizer_file.OrganizerFile.unpack', 0, 1)]
BUILD = [(Q + 'organizer_file.OrganizerFile.pack', 0, 1),
         (Q + 'decoder.encode', 0, 1),
         (Q + 'container_writer.compress_and_build', 0, 1),
         (Q + 'container_writer.build', 0, 1)]
OPS = {'extract': EXTRACT, 'build': BUILD}


def params(fn):
    a = fn.info.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if fn.info.owner is not None and fn.info.kind != 'static' and names:
        return names[1:]
    return names


def strip(t):
    while isinstance(t, T) and t.op in ('norm', 'abs', 'normcase', 'abspath', 'normpath'):
        t = t.args[0]
    return t


def cond(st, n=8):
    out = []
    for k, v in st.facts.items():
        if k.op in ('nonempty',):
            continue
        out.append('%s%s' % ('' if v else 'not ', str(k)[:80]))
    return '; '.join(out[:n])


def opaque(st):
    return any(e[0] in ('opaque', 'getattr-dyn') for e in st.events())


def fresh(quals, fault=False, results=None):
    I = Interp()
    ops.install(I, quals, fault, results)
    I.virtual_roots = {OUT, TEMP}
    I.input_roots = {IN}
    return I


def run_op(op, fault=False, extra=()):
    quals = [s[0] for s in OPS[op]] + [Q + 'helper.check_index'] + list(extra)
    I = fresh(quals, fault, {Q + 'helper.check_index': RINDEX})
    fn = I.get_func(Q + 'v8unpack.' + op)
    rs = I.run(fn, [IN, OUT], dict(temp_dir=TEMP, index=INDEX, processes=PROC, options=OPTS))
    return I, fn, rs


def is_none(st, t):
    f = st.facts.get(T('eq', t, NONE))
    if f is None:
        f = st.facts.get(T('isnone', t))
    if f is None and t in st.eqs:
        return st.eqs[t] is NONE
    if f is None and st.facts.get(T('truthy', t)) is True:
        return False
    return f


# ---------------------------------------------------------------------------------------------- C10
def chain(rep, op):
    I, fn, rs = run_op(op)
    spec = OPS[op]
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            rep.cover(**{op + '_failing_paths': 1})
            continue
        n += 1
        where = '%s: every stage' % fn.info.qual
        if opaque(st):
            rep.undecide('%s: path runs through code that is not modelled' % fn.info.qual)
            continue
        seq = [(q, d, w) for q, d, w in stages(st) if q in [s[0] for s in spec]]
        names = [q for q, d, w in seq]
        want = [s[0] for s in spec]
        if names != want:
            miss = [ops.short(x) for x in want if x not in names]
            rep.add('stage-order', fn.info.qual,
                    'returns normally %s' % ('without running %s' % ', '.join(miss) if miss else
                                             'after running the stages as %s' % ', '.join(map(ops.short, names))), cond(st))
            continue
        prev = IN
        for (q, d, w), (_, pi, po) in zip(seq, spec):
            ps = params(I.hooks[q].fn)
            src, dst = strip(d[ps[pi]]), strip(d[ps[po]])
            rep.cover(stage_links=1)
            if src != prev:
                rep.add('stage-input', w.split(' ')[0].split(':')[0] + ' ' + fn.info.qual,
                        '%s works on %s, not on %s' % (ops.short(q), src, 'the input' if prev is IN else
                                                       'what the stage before it produced'), cond(st))
            prev = dst
        if prev != OUT:
            rep.add('stage-output', fn.info.qual, 'the last stage writes %s, not the requested place' % (prev,), cond(st))
        pools = {d.get('pool') for q, d, w in seq if 'pool' in d}
        idx = [d['index'] for q, d, w in seq if 'index' in d]
        chk = [d for q, d, w in stages(st) if q.endswith('check_index')]
        if any(d[params(I.hooks[Q + 'helper.check_index'].fn)[0]] != INDEX for d in chk) or not chk:
            if is_none(st, INDEX) is not True and st.facts.get(T('truthy', INDEX)) is not False:
                rep.add('index', fn.info.qual, 'the index file is not loaded', cond(st))
        elif any(x != RINDEX for x in idx):
            rep.add('index', fn.info.qual, 'the organizer does not get the loaded index', cond(st))
        if op == 'build':
            d = [d for q, d, w in seq if q.endswith('decoder.encode')][0]
            fname = d.get('file_name')
            if fname is not None and OUT not in list(subterms(fname)) and fname is not OUT:
                rep.add('file-name', fn.info.qual, 'encode is told the file name %s instead of that of the output' % fname,
                        cond(st))
            # the requested file is opened only by the last stage
            for e in st.events():
                if e[0] == 'stage' and e[1] == want[-1]:
                    break
                if e[0] in ('create', 'delete', 'modify', 'overwrite', 'copy') and strip(e[1]) == OUT:
                    rep.add('output-early', fn.info.qual, 'the output is touched (%s) before the earlier stages have '
                                                          'succeeded' % e[0], cond(st))
        # nothing of the result is removed afterwards
        after = False
        for e in st.events():
            if e[0] == 'stage' and e[1] == want[-1]:
                after = True
            elif after and e[0] == 'delete' and (strip(e[1]) == OUT or OUT in list(subterms(e[1]))):
                rep.add('result-removed', fn.info.qual, 'the result is deleted after it was produced', cond(st))
    rep.floor(op + '_paths', n, 3)


def check(rep):
    {'C10': c10, 'C18': c18, 'C19': c19}[rep.prop](rep)


def c10(rep):
    from . import c10_inner
    for op in OPS:
        chain(rep, op)
    c10_inner.check(rep)
    rep.explanation = (
        'Interprocedural path enumeration over the syntax trees of extract and build with the stage functions as recorded '
        'events: on every normally returning path all stages occur in order, each reading what the one before wrote, the '
        'first reading the input and the last writing the requested place. Then every stage is analysed the same way: no '
        'path returns without handing every listed entry to its worker, and in every root encoder the version check '
        'precedes the first write.')
    rep.assumptions = ['stage functions are identified by their public names in container_reader, container_writer, decoder '
                       'and organizer_file', 'a loop over a listing is analysed with one arbitrary element']


# ---------------------------------------------------------------------------------------------- C19
def c19(rep):
    n = 0
    for op in OPS:
        I, fn, rs = run_op(op, fault=True, extra=(Q + 'helper.clear_dir',))
        for kind, v, st in rs:
            n += 1
            if opaque(st):
                rep.undecide('%s: path runs through code that is not modelled' % fn.info.qual)
                continue
            how = 'returns' if kind == 'ret' else 'fails'
            fl = [ops.short(e[1]) for e in st.events() if e[0] == 'fault']
            if fl:
                how = 'fails in %s' % fl[-1]
            released(rep, fn.info.qual, st, how)
            last = None
            for e in st.events():
                if e[0] in ('delete', 'mkdir') and strip(e[1]) == TEMP:
                    last = e[0]
                if e[0] == 'stage' and e[1].endswith('helper.clear_dir') and strip(next(iter(dict(e[2]).values()))) == TEMP:
                    last = 'mkdir'
            if last == 'delete':
                rep.add('user-temp-kept', fn.info.qual, 'the temporary folder given by the user is removed when the '
                                                        'operation %s' % how, cond(st))
    rep.floor('operation_exits', n, 20)
    pools(rep)
    files(rep)
    rep.explanation = (
        'Typestate analysis on every path, with a failure injected at every stage and at every call of package code made '
        'while a resource is held: a temporary folder obtained with mkdtemp is removed, a pool created is closed, a file '
        'opened is closed before the function ends, and no operation is applied to a closed file or pool; a temporary folder '
        'passed in is never removed.')
    rep.assumptions = ['failures are raised by calls to package functions (stages, readers, writers), not by single built-in '
                       'operations between acquisition and the protected block']


def released(rep, where, st, how):
    evs = list(st.events())
    rep.cover(resources_followed=sum(1 for e in evs if e[0] in ('acquire', 'acquire-dir', 'acquire-pool')))
    dirs, pools_, files_ = {}, {}, {}
    for e in evs:
        if e[0] == 'acquire-dir':
            dirs[e[1]] = e[-1]
        elif e[0] == 'delete' and strip(e[1]) in dirs:
            dirs[strip(e[1])] = None
        elif e[0] == 'mkdir' and strip(e[1]) in dirs and dirs[strip(e[1])] is None:
            dirs[strip(e[1])] = e[-1]
        elif e[0] == 'stage' and e[1].endswith('helper.clear_dir'):
            pass
        elif e[0] == 'acquire-pool':
            pools_[e[1]] = e[-1]
        elif e[0] == 'acquire':
            files_[e[1]] = e[-1]
        elif e[0] == 'release':
            pools_.pop(e[1], None)
            files_.pop(e[1], None)
        elif e[0] == 'use-closed':
            rep.add('use-after-close', e[-1].split(' ')[-1], 'a file or pool is used after it was closed', cond(st))
    for d, w in dirs.items():
        if w is not None:
            rep.add('temp-removed', where, 'the temporary folder it created stays behind when it %s' % how, cond(st))
    for p, w in pools_.items():
        rep.add('pool-closed', where, 'the worker pool it started is not shut down when it %s' % how, cond(st))
    for f, w in files_.items():
        rep.add('file-closed', w.split(' ')[-1], 'a file is left open when %s %s' % (where, how), cond(st))


def pools(rep):
    """helpers that may start a pool of their own"""
    n = 0
    for name in pool_users():
        I = Interp()
        I.pool_hook = pool_fault
        f = I.get_func(name)
        ps = params(f)
        kwonly = [a.arg for a in f.info.node.args.kwonlyargs]
        if 'pool' not in ps + kwonly:
            continue
        for own in (True, False):
            h = None
            st = I.start()
            if not own:
                h = I.new(st, I.models.HInst_('pool', dict(closed=K(False))))
            args = [T('param', p) if p != 'pool' else (h if h is not None else NONE) for p in ps]
            kw = {p: (T('param', p) if p != 'pool' else (h if h is not None else NONE)) for p in kwonly}
            for kind, v, st2 in I.run(f, args, kw, st):
                n += 1
                if opaque_but_worker(st2):
                    rep.undecide('%s: path runs through code that is not modelled' % name)
                    continue
                how = 'returns' if kind == 'ret' else 'fails'
                released(rep, name, st2, how)
                if h is not None and any(e[0] == 'release' and e[1] == h for e in st2.events()):
                    rep.add('callers-pool', name, 'a pool that belongs to the caller is shut down', cond(st2))
    rep.cover(pool_helper_exits=n)


def opaque_but_worker(st):
    """calls of an unknown function; methods of a caller's or a library's object are known not to touch what we follow"""
    return any(e[0] == 'getattr-dyn' or e[0] == 'opaque' and not (isinstance(e[1], T) and e[1].op in (
        'attr', 'param', 'ntclass') or isinstance(e[1], Ext))
               for e in st.events())


def pool_users():
    I = Interp()
    out = []
    for m in I.mods.values():
        if m.name.count('.') != 1:
            continue
        for node in ast.walk(m.tree):
            if isinstance(node, ast.FunctionDef) and any(
                    isinstance(x, ast.Name) and x.id in ('get_pool', 'Pool') or isinstance(x, ast.Attribute) and
                    x.attr in ('get_pool', 'Pool') for b in node.body for x in ast.walk(b)):
                q = m.name + '.' + node.name
                if isinstance(m.ns.get(node.name), Fn) and node.name != 'get_pool' and node.name not in OPS:
                    out.append(q)
    if not out:
        raise AnalysisBroken('no function that starts a worker pool was found')
    return out


def pool_fault(I, r, name, args, kw, st, node):
    s2 = st.fork()
    s2.event('fault', 'worker', I.where(node))
    I.raise_(ExcV(I.get_class(Q + 'ext_exception.ExtException'), K('worker')), s2)
    s3 = st.fork()
    s3.event('fault', 'worker', I.where(node))
    I.raise_(ExcV(Ext('RuntimeError'), K('worker')), s3)
    return None


ACQ = ('open', 'TemporaryFile', 'NamedTemporaryFile', 'ZipFile', 'BytesIO', 'SpooledTemporaryFile')


def acquirers(I):
    """functions of the package whose body opens something"""
    out = []
    for fi in all_functions(I):
        for x in ast.walk(fi.node):
            if isinstance(x, ast.Call):
                n = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else ''
                if n in ACQ and not (isinstance(x.func, ast.Attribute) and n == 'open' and
                                     isinstance(x.func.value, ast.Name) and x.func.value.id == 'os'):
                    out.append(fi)
                    break
    return out


def all_functions(I):
    seen = set()
    for m in I.mods.values():
        for v in list(m.ns.values()):
            if isinstance(v, Fn) and v.info.mod is m and v.info.qual not in seen:
                seen.add(v.info.qual)
                yield v.info
            elif isinstance(v, Cls) and v.info.mod is m:
                for w in v.info.ns.values():
                    f = w.fn if isinstance(w, Bound) else w
                    if isinstance(f, Fn) and f.info.qual not in seen:
                        seen.add(f.info.qual)
                        yield f.info


def files(rep):
    I = Interp()
    todo = acquirers(I)
    rep.floor('functions_opening_files', len(todo), 12)
    n = 0
    for finds, und, cov in parallel(one_file_job, [(fi.qual, f) for fi in todo for f in (False, True)]):
        for a in finds:
            rep.add(*a)
        for u in und:
            rep.undecide(u)
        n += cov
    rep.cover(file_paths=n)


_I = None


def stream_read(t):
    """truth of what a read from a stream returned: every loop over a stream ends"""
    return t.op in ('truthy', 'nonempty') and any(
        isinstance(x, T) and (x.op == 'tempop' and x.args[0] == K('read') or
                              x.op == 'attr' and isinstance(x.args[1], K) and x.args[1].v in ('read', 'readline', 'read1'))
        for x in subterms(t))


def one_file_job(job):
    from ..runner import Report
    r = Report('C19', 'quick')
    n = one_file(r, *job)
    return [(f['rule'], f['construct'], f['what'], f['path']) for f in r.findings.values()], list(r.undecided), n


def one_file(rep, qual, fault):
    global _I
    if _I is None:
        _I = Interp()
    I = _I
    I.hooks = {}
    I.max_dev = 1
    I.max_rec = 1
    I.MAX_WHILE = 2
    I.free_pred = stream_read
    f = I.get_func(qual)
    f = f.fn if isinstance(f, Bound) else f
    fi = f.info
    if fault:
        for g in all_functions(I):
            if g.qual != qual and not g.name.startswith('__'):
                I.hooks[g.qual] = lazy_fault(g.qual)
    st = I.start()
    a = fi.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    args = []
    if fi.owner is not None and fi.kind != 'static':
        c = Cls(fi.owner)
        if fi.kind == 'class':
            args.append(c)
        else:
            _, init = fi.owner.lookup('__init__')
            ia, ik = [], {}
            if isinstance(init, Fn):
                b = init.info.node.args
                ia = [T('param', x.arg) for x in (b.posonlyargs + b.args)[1:]]
                ik = {x.arg: T('param', x.arg) for x in b.kwonlyargs}
            made = I.instantiate(c, ia, ik, st, None)
            if not made:
                return 0
            r, st = made[0]
            args.append(r)
        names = names[1:]
    args += [T('param', x) for x in names]
    kw = {x.arg: T('param', x.arg) for x in a.kwonlyargs}
    cnt = 0
    for kind, v, s in I.run(f, args, kw, st):
        cnt += 1
        # handles that belong to the caller or are returned are not this function's to close
        how = 'returns' if kind == 'ret' else 'fails'
        fl = [ops.short(e[1]) for e in s.events() if e[0] == 'fault']
        if fl:
            how = 'fails in %s' % fl[-1]
        if opaque_but_worker(s):
            rep.undecide('%s: path runs through code that is not modelled' % qual)
            continue
        if isinstance(v, Ref) and kind == 'ret' and any(e[0] == 'acquire' and e[1] == v for e in s.events()):
            continue
        released(rep, qual, s, how)
    if not cnt:
        rep.undecide('%s: no path through it could be followed to its end' % qual)
    return cnt


def lazy_fault(qual):
    def h(I, args, kwargs, st, node):
        s2 = st.fork()
        s2.event('fault', qual, I.where(node))
        I.raise_(ExcV(Ext('RuntimeError'), K('fault in ' + qual)), s2)
        return [(T('result', K(qual), *[I.as_term(x) for x in args]), st)]
    return h


def c18(rep):
    from . import c18_opts
    c18_opts.check(rep)
