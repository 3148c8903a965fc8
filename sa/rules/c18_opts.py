"""C18: what the user gives on the command line, in the product file or as arguments reaches its operation."""
import ast

from ..interp import Interp, HInst, HDict, HList
from ..terms import K, T, Ref, Cls, Fn, Bound, Ext, Tup, Star, NONE, subterms
from ..prog import AnalysisBroken
from ..ops import stages, short
from .c10_inner import run, deep, facts, method_of, aside, ROOTS

Q = 'v8unpack.'
HOOKED = ['v8unpack.' + x for x in ('extract', 'build', 'build_all', 'extract_all', 'update_index_all')] + ['index.update_index']
BOTH = dict(temp='temp_dir', index='index', processes='processes')
ALL = dict(index='product_code', processes='processes')
# mode -> operation, parameters fed by the positional values, parameters fed by the named options
MODES = {
    'E': ('v8unpack.extract', ['in_filename', 'out_dir_name'], BOTH),
    'B': ('v8unpack.build', ['in_dir_name', 'out_file_name'], BOTH),
    'EA': ('v8unpack.extract_all', ['product_file_name'], ALL),
    'BA': ('v8unpack.build_all', ['product_file_name'], ALL),
    'I': ('index.update_index', ['src_dir'], dict(index='index_file_name', core='dest_dir')),
    'IA': ('v8unpack.update_index_all', ['product_file_name'], dict(index='product_code', core='dest_dir')),
}
OPTIONS = ('prefix', 'version', 'descent', 'auto_include')
OPTS = T('param', 'options')


def opt_terms(v):
    """names of command line values a term is made of"""
    out = set()
    for t in subterms(v):
        if isinstance(t, T) and t.op == 'attr' and isinstance(t.args[0], T) and is_ns(t.args[0]) and isinstance(t.args[1], K):
            out.add(t.args[1].v)
        if isinstance(t, T) and t.op in ('getattr', 'vars', 'idx') and t.args and isinstance(t.args[0], T) and is_ns(t.args[0]) \
                and len(t.args) > 1 and isinstance(t.args[1], K):
            out.add(t.args[1].v)
    return out


def is_ns(t):
    return any(isinstance(x, T) and x.op == 'attr' and x.args[1] == K('parse_args') for x in subterms(t)) and t.op == 'call'


def declared(rs):
    """option names declared with add_argument"""
    names = {}
    for kind, v, st in rs:
        for e in st.events():
            if e[0] == 'opaque' and isinstance(e[1], T) and e[1].op == 'attr' and e[1].args[1] == K('add_argument'):
                flags = [x.v for x in e[2] if isinstance(x, K) and isinstance(x.v, str)]
                kw = dict(e[3])
                dest = kw.get('dest')
                if dest is None:
                    long_ = [f for f in flags if f.startswith('--')] or flags
                    dest = K(long_[0].lstrip('-').replace('-', '_')) if long_ else None
                if dest is not None:
                    names[dest.v] = flags
    return names


def check(rep):
    cli(rep)
    batch(rep)
    operations(rep)
    pools(rep)
    carriers(rep)
    roots(rep)
    unused(rep)
    rep.explanation = (
        'Dataflow over the syntax trees: on every path of the command line entry every declared option is traced into the '
        'parameter of the operation it belongs to (a table gives mode, option and parameter), every field of the product '
        'file into the operation it configures, and the options of an operation through the stages into the object '
        'handlers; in the root handlers the value of the option is traced to the position of the property tree it sets.')
    rep.assumptions = ['the meaning of an option is the parameter table in sa/rules/c18_opts.py (from docs/usage.md)',
                       'an option that is falsy (empty string, zero, not given) counts as not given']


def cli(rep):
    I, f, rs = run('v8unpack.main', [], hooks=HOOKED, dev=None)
    names = declared(rs)
    rep.floor('declared_options', len(names), 12)
    n = 0
    seen = {}
    for kind, v, st in rs:
        mode = None
        for k, val in st.facts.items():
            if (k.op == 'eq' and k.args[1] is NONE and val is False or k.op == 'truthy' and val is True) and \
                    isinstance(k.args[0], T) and k.args[0].op == 'attr' and is_ns(k.args[0].args[0]) and \
                    k.args[0].args[1].v in MODES:
                mode = k.args[0].args[1].v
        if mode is None:
            continue
        if kind != 'ret':
            continue
        failed = any(e[0] == 'caught' for e in st.events())
        if failed:
            continue
        n += 1
        op, pos, table = MODES[mode]
        sg = [(q, d) for q, d, w in stages(st)]
        if len(sg) != 1 or sg[0][0] != Q + op:
            rep.add('mode', f.info.qual, '-%s runs %s instead of %s' % (
                mode, ', '.join(short(q) for q, d in sg) or 'nothing', op), facts(st))
            continue
        d = sg[0][1]
        for i, p in enumerate(pos):
            rep.cover(values_traced=1)
            want = [x for x in subterms(d.get(p, NONE)) if isinstance(x, T) and x.op == 'idx' and x.args[1] == K(i)
                    and mode in opt_terms(x)]
            if not want:
                rep.add('positional', f.info.qual, '-%s: value %d does not become %s of %s' % (mode, i + 1, p, op), facts(st))
        used = {mode}
        for o, p in table.items():
            rep.cover(values_traced=1)
            got = opt_terms(d.get(p, NONE))
            used |= got
            if got != {o} and not given(st, o) is False:
                rep.add('named', f.info.qual, '-%s: --%s does not become %s of %s' % (mode, o, p, op), facts(st))
        if 'options' in d:
            items = {}
            r = d['options']
            if isinstance(r, Ref) and isinstance(I.obj(st, r), HDict):
                items = I.obj(st, r).items
            elif not (isinstance(r, Ref) or r is NONE):
                rep.undecide('%s: options of -%s are not a dictionary that can be followed' % (f.info.qual, mode))
                continue
            for o in OPTIONS:
                rep.cover(values_traced=1)
                got = opt_terms(items.get(K(o), NONE))
                used |= got
                if got - {o} or not got and given(st, o) is not False:
                    rep.add('option', f.info.qual, '-%s: --%s does not become the option %s' % (mode, o, o), facts(st))
        elif mode in ('E', 'B'):
            rep.add('option', f.info.qual, '-%s: the options are not handed over' % mode, facts(st))
        for v_ in d.values():
            used |= {t for x in deep(I, st, v_) for t in opt_terms(x)}
        seen.setdefault(mode, set()).update(used)
        rep.cover(command_line_paths=1)
    for m in MODES:
        if m not in seen:
            rep.add('mode', f.info.qual, '-%s leads to no operation' % m)
    known = set(MODES) | set(OPTIONS) | set(BOTH) | {'core', 'help', 'h'}
    for o in names:
        if o not in known and not any(o in u for u in seen.values()):
            rep.add('declared', f.info.qual, 'option %s is accepted and used nowhere' % o)
    for o in ('temp', 'index', 'processes', 'core') + OPTIONS + tuple(MODES):
        if o not in names:
            rep.add('declared', f.info.qual, 'option %s is no longer accepted' % o)
    rep.floor('successful_command_lines', n, 12)


def given(st, o):
    for k, val in st.facts.items():
        if k.op == 'truthy' and o in opt_terms(k) or k.op == 'eq' and k.args[1] is NONE and o in opt_terms(k.args[0]):
            return val if k.op == 'truthy' else not val
    return None


# ------------------------------------------------------------------------------------------- the product file
FIELDS = {'build_all': ('v8unpack.build', dict(in_dir_name='src', out_file_name='bin', temp_dir='temp', index='index',
                                              options='options')),
          'extract_all': ('v8unpack.extract', dict(in_filename='bin', out_dir_name='src', temp_dir='temp', index='index',
                                                  options='options')),
          'update_index_all': ('index.update_index', dict(src_dir='src', index_file_name='index'))}


def fields(v):
    return {t.args[1].v for t in subterms(v) if isinstance(t, T) and t.op in ('idx', 'get') and len(t.args) > 1
            and isinstance(t.args[1], K) and isinstance(t.args[1].v, str)}


def batch(rep):
    for name, (op, table) in FIELDS.items():
        P = T('param', 'product_file_name')
        kw = dict(processes=T('param', 'processes')) if name != 'update_index_all' else dict(dest_dir=T('param', 'dest_dir'))
        I, f, rs = run('v8unpack.' + name, ['product_file_name', 'product_code'], kw, hooks=HOOKED[:2] + ['index.update_index',
                       'helper.load_json'], results={'helper.load_json': T('json', P)}, dev=2)
        n = 0
        for kind, v, st in rs:
            if kind != 'ret':
                continue
            sg = [(q, d) for q, d, w in stages(st) if q == Q + op]
            off = [k for k, val in st.facts.items() if val is True and 'disable' in fields(k) and k.op == 'truthy']
            some = any(k.op == 'nonempty' and val is True for k, val in st.facts.items()) or \
                any(k == T('truthy', T('param', 'product_code')) and val is True for k, val in st.facts.items())
            if not sg:
                if some and not off:
                    rep.add('batch', f.info.qual, 'a product of the file is passed over though it is not disabled', facts(st))
                continue
            if off:
                rep.add('batch', f.info.qual, 'a disabled product is processed', facts(st))
            n += 1
            d = sg[0][1]
            for p, fld in table.items():
                rep.cover(values_traced=1)
                val = d.get(p, NONE)
                got = set()
                for x in deep(I, st, val):
                    got |= fields(x)
                absent = any(k.op in ('haskey', 'hasidx') and k.args[1] == K(fld) and b is False for k, b in st.facts.items())
                if fld not in got and not absent:
                    rep.add('batch-field', f.info.qual, 'field %s of a product does not become %s of %s' % (fld, p, op), facts(st))
                for other in set(table.values()) - {fld}:
                    if other in got and fld != 'options' and not absent:
                        rep.add('batch-field', f.info.qual, 'field %s of a product becomes %s of %s' % (other, p, op), facts(st))
            for p in kw:
                if T('param', p) not in list(subterms(d.get(p, NONE))):
                    rep.add('batch-arg', f.info.qual, '%s is not handed to %s' % (p, op), facts(st))
        rep.floor('batch_paths:' + name, n, 1)


# ------------------------------------------------------------------------------------------- inside an operation
def operations(rep):
    from .r_ops import run_op, OPS, TEMP, INDEX, PROC, OPTS as O, is_none, strip, params
    n = 0
    for op in OPS:
        I, fn, rs = run_op(op)
        versioned = code = 0
        for kind, v, st in rs:
            if kind != 'ret':
                continue
            n += 1
            sg = stages(st)
            no_opts = st.facts.get(T('truthy', O)) is False
            for q, d, w in sg:
                if 'options' in d and not no_opts and not any(x == O for x in deep(I, st, d['options'])):
                    rep.add('options-passed', fn.info.qual, 'the options do not reach %s' % short(q), facts(st))
                if 'pool' in d and d['pool'] is NONE:
                    rep.add('pool-passed', fn.info.qual, '%s does not get the worker pool' % short(q), facts(st))
                if q.endswith('organizer_file.OrganizerFile.unpack') or q.endswith('organizer_file.OrganizerFile.pack'):
                    dv = [x for k, val in st.facts.items() for x in [k] if k.op == 'eq' and k.args[1] is NONE and val is False
                          and any(isinstance(y, T) and y == K('descent') or y == K('descent') for y in subterms(k))]
                    c = d.get('cls')
                    ce = isinstance(c, Cls) and c.info.name == 'OrganizerFileCE'
                    has = any(y == K('descent') for y in subterms(d.get('descent', NONE)))
                    code += 1
                    versioned += bool(dv)
                    if dv and not (ce and has):
                        rep.add('descent', fn.info.qual, 'a given version does not switch %s to the versioned mode' % short(q),
                                facts(st))
                    if not dv and ce:
                        rep.add('descent', fn.info.qual, '%s works in the versioned mode though no version is given' % short(q),
                                facts(st))
            if is_none(st, TEMP) is False:
                inner = [e for e in st.events() if e[0] == 'acquire-dir']
                mids = [x for q, d, w in sg for p, x in d.items() if isinstance(x, T) and
                        any(isinstance(y, T) and y.op == 'tmpdir' for y in subterms(x))]
                if inner or mids:
                    rep.add('temp', fn.info.qual, 'the given temporary folder is not used', facts(st))
            acq = [e for e in st.events() if e[0] == 'acquire-pool']
            if acq and is_none(st, PROC) is not True and st.facts.get(T('truthy', PROC)) is not False and \
                    not any(x == PROC for e in acq for a in e[1:] for x in deep(I, st, a)):
                rep.add('processes', fn.info.qual, 'the number of processes does not reach the worker pool', facts(st))
        if code and not versioned:
            rep.add('descent', fn.info.qual, 'the option descent is not looked at')
    rep.floor('operation_paths', n, 8)


def pools(rep):
    """get_pool hands the number of processes to the pool it creates and keeps a pool it is given"""
    I, f, rs = run('helper.get_pool', [], dict(pool=NONE, processes=T('param', 'processes')), dev=None)
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        acq = [e for e in st.events() if e[0] == 'acquire-pool']
        p = T('param', 'processes')
        no = st.facts.get(T('eq', p, NONE)) is True or st.facts.get(T('truthy', p)) is False
        if not acq:
            rep.undecide('%s: creates no pool on some path' % f.info.qual)
        elif not no and not any(x == p for e in acq for a in e[1:] for x in deep(I, st, a)):
            rep.add('processes', f.info.qual, 'the number of processes is not used for the pool', facts(st))
    rep.floor('get_pool_paths', n, 1)


def carriers(rep):
    """options travel from the stage to the handlers of the root and of every child object"""
    n = 0
    for q, hook in (('decoder.decode', 'decoder.Decoder.get_handler_by_version_file'),
                    ('decoder.encode', 'decoder.Decoder.get_handler_by_version_file')):
        def handler(I, d, st, node):
            return [(I.new(st, HInst('worker', {})), st)]
        I, f, rs = run(q, ['src', 'dst'], dict(pool=T('param', 'pool'), options=OPTS),
                       hooks=[hook, 'helper.run_in_pool', 'helper.run_in_pool_encode_include', 'helper.brace_file_read',
                              'helper.json_read', 'helper.txt_read', 'decoder.Decoder.get_encoder'],
                       results={hook: handler, 'helper.run_in_pool_encode_include': Tup(*[T('param', x) for x in 'abcd']),
                                'helper.run_in_pool': NONE, 'helper.brace_file_read': T('param', 'tree'),
                                'helper.txt_read': T('param', 'text'), 'decoder.Decoder.get_encoder': K('Configuration'),
                                'helper.json_read': T('param', 'header')}, dev=1)
        got = 0
        for kind, v, st in rs:
            for q2, d, w in stages(st):
                if q2.endswith('get_handler_by_version_file'):
                    got += 1
                    if d.get('options') != OPTS and not any(x == OPTS for x in deep(I, st, d.get('options', NONE))):
                        rep.add('options-passed', f.info.qual, 'the options do not reach the handler of the root object', facts(st))
        rep.floor('handler_calls:' + q, got, 1)
    I, f, rs = run('decoder.Decoder.get_handler_by_version_file', [],
                   dict(version=T('param', 'version'), root=T('param', 'root'), header=T('param', 'header'), options=OPTS,
                        configinfo=T('param', 'configinfo')), dev=4)
    for kind, v, st in rs:
        if kind != 'ret' or not isinstance(v, Ref):
            continue
        n += 1
        o = I.obj(st, v)
        if not isinstance(o, HInst) or o.attrs.get('options') != OPTS:
            rep.add('options-passed', f.info.qual, 'the root handler is created without the options', facts(st))
    rep.floor('root_handlers', n, 2)
    # one child object
    P = T('param', 'params')
    for name in ('decode_include', 'encode_include'):
        I, f, rs = run('decoder.Decoder.' + name, [P], cls='decoder.Decoder', hooks=['helper.get_class_metadata_object'],
                       results={'helper.get_class_metadata_object': lambda I, d, st, node: [(I.new(st, HInst('worker', {})), st)]})
        want = 5 if name == 'decode_include' else 3
        k = 0
        for kind, v, st in rs:
            for e in st.events():
                if method_of(e, name.split('_')[0]):
                    k += 1
                    vals = list(e[2]) + [x for _, x in e[3]]
                    if not any(isinstance(y, T) and y.op == 'idx' and y.args[1] == K(want) or
                               isinstance(y, T) and y.op in ('part', 'unpacked') and K(want) in y.args
                               for x in vals for y in subterms(x)):
                        rep.add('options-passed', f.info.qual, 'a child object is processed without the options', facts(st))
        rep.floor('child_calls:' + name, k, 1)


# ------------------------------------------------------------------------------------------- the root handlers
COMPAT = {'Configuration': 26, 'ConfigurationExtension': 43}


def chain_of(loc):
    out = []
    while isinstance(loc, T) and loc.op == 'idx':
        out.append(loc.args[1].v if isinstance(loc.args[1], K) else None)
        loc = loc.args[0]
    return out[::-1]


def tree(I, d, st, node):
    return [(T('tree', d.get('file_name', NONE)), st)]


def roots(rep):
    hm = Interp().mods[Q + 'helper']
    io = ['helper.' + k for k, v in hm.ns.items() if isinstance(v, Fn) and v.info.mod is hm and
          (k.endswith('_write') or k.startswith('check_'))]
    n = 0
    for cls in ROOTS:
        q = 'MetaObject.%s.%s' % (cls, cls)
        c = Interp().get_class(Q + q)
        for way in ('encode', 'decode'):
            _, m = c.info.lookup(way)
            if not isinstance(m, Fn):
                raise AnalysisBroken('%s has no %s' % (q, way))
            hooks = [x for x in aside(c, m, 'get_options') if x.split('.')[-1] not in ('decode_header', 'get_decode_header')]
            if way == 'encode':     # putting the children back is one step (C21 looks inside)
                for x in ('fill_header_includes', 'fill_header_include'):
                    _, fm = c.info.lookup(x)
                    if isinstance(fm, Fn) and fm.info.qual[len(Q):] not in hooks:
                        hooks.append(fm.info.qual[len(Q):])
            args = dict(file_name=T('param', 'file_name'), include_index=T('param', 'include_index'),
                        file_list=T('param', 'file_list')) if way == 'encode' else {}
            I, f, rs = run(m.info.qual[len(Q):], ['src', 'dst'], args, setup=q,
                           init=dict(options=OPTS, obj_version=K('803')),
                           attrs=dict(header=T('param', 'header')) if way == 'encode' else None,
                           hooks=io + hooks + ['helper.brace_file_read'],
                           results={'helper.brace_file_read': tree}, dev=2)
            opt = T('idx', OPTS, K('version'))
            used = auto = 0
            for kind, v, st in rs:
                if way == 'encode' and T('truthy', T('idx', OPTS, K('auto_include'))) in st.facts:
                    auto += 1
                if kind != 'ret':
                    continue
                n += 1
                rep.cover(root_handler_paths=1)
                if st.facts.get(T('eq', opt, NONE)) is False or st.facts.get(T('truthy', opt)) is True:
                    used += 1
                    if cls in COMPAT:
                        hits = [loc for loc, val in st.store.items() if val == opt and
                                chain_of(loc)[-5:] == [0, 3, 1, 1, COMPAT[cls]]]
                        if not hits:
                            rep.add('version-option', f.info.qual, 'the given compatibility version is not put into the '
                                                                   'properties', facts(st))
                elif cls in COMPAT:
                    for loc, val in st.store.items():
                        if chain_of(loc)[-5:] == [0, 3, 1, 1, COMPAT[cls]] and any(x == opt for x in subterms(val)):
                            rep.add('version-option', f.info.qual, 'the compatibility version is replaced though none is given',
                                    facts(st))
                if way == 'encode':
                    a = T('idx', OPTS, K('auto_include'))
                    filled = any(q2.split('.')[-1] == 'fill_header_includes' for q2, d, w in stages(st)) or any(
                        e[0] == 'opaque' and 'fill_header' in str(e[1]) for e in st.events())
                    if st.facts.get(T('truthy', a)) is True:
                        if not filled and any(x.endswith('fill_header_includes') for x in hooks):
                            rep.add('auto-include', f.info.qual, 'auto_include does not rebuild the table of contents', facts(st))
                    elif filled and st.facts.get(T('truthy', a)) is False:
                        rep.add('auto-include', f.info.qual, 'the table of contents is rebuilt though auto_include is not given',
                                facts(st))
                if way == 'encode' and cls == 'ConfigurationExtension':
                    pf = T('idx', OPTS, K('prefix'))
                    if st.facts.get(T('eq', pf, NONE)) is False or st.facts.get(T('truthy', pf)) is True:
                        if not any(any(x == pf for x in subterms(val)) and chain_of(loc)[-5:] == [0, 3, 1, 1, 42]
                                   for loc, val in st.store.items()):
                            rep.add('prefix-option', f.info.qual, 'the prefix is not put into the properties of the extension',
                                    facts(st))
            if not used and cls in COMPAT:
                rep.add('version-option', f.info.qual, 'the option version is never used')
            if way == 'encode' and not auto:
                rep.add('auto-include', f.info.qual, 'the option auto_include is never used')
    rep.floor('root_handler_paths_n', n, 12)


STAGES = {'extract', 'build', 'extract_all', 'build_all', 'update_index_all', 'update_index', 'decode', 'encode', 'unpack', 'pack',
          'get_handler_by_version_file', 'compress_and_build', 'parse', 'decompress_and_extract', 'json_decode', 'json_encode'}
OPTION_PARAMS = {'options', 'processes', 'temp_dir', 'index', 'descent', 'product_code', 'dest_dir', 'pool', 'index_code_areas'}


def unused(rep):
    """a parameter that carries an option is used by the function that takes it"""
    from .r_ops import all_functions
    I = Interp()
    n = 0
    for fi in all_functions(I):
        if fi.name.startswith('__') or fi.mod.name.endswith('unittest_helper'):
            continue
        body = [s for s in fi.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if all(isinstance(s, (ast.Pass, ast.Raise, ast.Return)) for s in body):
            continue
        if fi.mod.name not in (Q + 'v8unpack', Q + 'index', Q + 'decoder', Q + 'container_reader', Q + 'container_writer'):
            continue
        a = fi.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        used = {x.id for s in fi.node.body for x in ast.walk(s) if isinstance(x, ast.Name)}
        for p in names:
            if p in OPTION_PARAMS:
                n += 1
                if p not in used and not (p == 'pool' and fi.name in ('compress_and_build',)) and fi.name in STAGES:
                    rep.add('unused', fi.qual, 'takes %s and does nothing with it' % p)
    rep.floor('option_parameters', n, 20)
