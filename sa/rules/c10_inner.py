"""C10, inside the stages: nothing that was listed is left out, and no stage ends early."""
import ast

from ..interp import Interp, HInst, HList, HDict
from ..terms import K, T, Ref, Cls, Fn, Bound, Ext, Tup, ExcV, FD, FL, Star, NONE, subterms, comps, join
from ..prog import AnalysisBroken
from ..ops import StageHook, stages, short
from .. import ops

Q = 'v8unpack.'
DELIVER = ('stage', 'fileop', 'copy', 'rename', 'create', 'write')


class SubHook(StageHook):
    """records calls made from inside (not the analysed call itself)"""

    def __call__(self, I, args, kwargs, st, node):
        if node is None:
            return NotImplemented
        return StageHook.__call__(self, I, args, kwargs, st, node)


def deep(I, st, v, seen=None):
    """every term mentioned by a value, heap contents included"""
    if seen is None:
        seen = set()
    if isinstance(v, (tuple, list)) and not hasattr(v, 'key'):
        for x in v:
            yield from deep(I, st, x, seen)
        return
    for t in list(subterms(v)):
        if t in seen:
            continue
        seen.add(t)
        yield t
        if isinstance(t, Star):
            yield from deep(I, st, t.v, seen)
        elif isinstance(t, Ref):
            o = I.obj(st, t)
            if isinstance(o, HList):
                yield from deep(I, st, list(o.items), seen)
            elif isinstance(o, HDict):
                yield from deep(I, st, [x for kv in o.items.items() for x in kv], seen)
            elif isinstance(o, HInst):
                yield from deep(I, st, list(o.attrs.values()), seen)


def run(q, args, kw=None, hooks=(), sub=(), cls=None, dev=1, setup=None, results=None, attrs=None, while_=2, init=None, objs=(), listings=None, streams=None, setup_st=None):
    from .r_ops import stream_read
    I = Interp()
    I.streams = streams
    I.max_dev = dev
    I.max_rec = 1
    I.MAX_WHILE = while_
    I.free_pred = stream_read
    ops.install(I, [Q + h for h in hooks], results={Q + k: v for k, v in (results or {}).items()})
    for h in sub:
        I.hooks[Q + h] = SubHook(I, Q + h)
    f = I.get_func(Q + q)
    f = f.fn if isinstance(f, Bound) else f
    I.listings = listings or {}
    st = I.start()
    if setup_st:
        setup_st(st)
    for q_ in objs:
        r = I.new(st, HInst('worker', {}))
        I.hooks[Q + q_].result = r
    a = [T('param', x) if isinstance(x, str) else x(I) if callable(x) else x for x in args]
    if cls:
        a = [Cls(I.get_class(Q + cls).info)] + a
    elif setup:
        made = I.instantiate(I.get_class(Q + setup), [], init or {}, st, None)
        a, st = [made[0][0]] + a, made[0][1]
        for x, y in (attrs or {}).items():
            I.set_attr(a[0], x, y, st, None)
    return I, f, I.run(f, a, kw or {}, st)


def facts(st, n=8):
    from .r_ops import cond
    return cond(st, n)


def delivered(rep, q, args, kw=None, *, name, excuse=None, minimum, **k):
    """on every path that returns, every listed thing that exists is handed on"""
    from .r_ops import opaque_but_worker
    I, f, rs = run(q, args, kw, **k)
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        if opaque_but_worker(st):
            rep.undecide('%s: path runs through code that is not modelled' % f.info.qual)
            continue
        for key, val in list(st.facts.items()):
            if key.op != 'nonempty' or val is not True or not isinstance(key.args[0], T):
                continue
            item = key.args[0]
            if not listed(item):
                continue
            if item.op == 'starv':
                item = next((x for x in subterms(item) if isinstance(x, T) and x.op in ('key', 'elem')), item)
            n += 1
            rep.cover(listings_followed=1)
            if excuse and excuse(st, item):
                continue
            ok = False
            for e in st.events():
                if e[0] in DELIVER and any(x == item for x in deep(I, st, e[1:])):
                    ok = True
                    break
                if e[0] == 'listdir' and e[1] != item and any(x == item for x in subterms(e[1])) and \
                        st.facts.get(T('nonempty', T('entry', e[1]))) is False:
                    ok = True
                    break
            if not ok and any(kk.op == 'nonempty' and vv is True and kk != key and any(x == item for x in subterms(kk))
                              for kk, vv in st.facts.items()):
                ok = True       # a folder whose own entries are followed
            if not ok:
                rep.add('nothing-left-out', f.info.qual, '%s is passed over without being processed' % name, facts(st))
    rep.floor('listing_paths:' + short(q), n, minimum)


def listed(item):
    return item.op in ('entry', 'elem', 'item', 'key', 'iterelem', 'keyof', 'starv')


def check(rep):
    delivered(rep, 'container_reader.decompress_and_extract', ['src', 'dst'], hooks=['helper.run_in_pool'],
              name='an entry of an unpacked container', minimum=2)
    delivered(rep, 'container_writer.compress_and_build', ['src', 'dst'],
              hooks=['container_writer.calc_sha1', 'container.Container.build', 'container_doc.Document.compress',
                     'container_writer.compress_and_build_simple_file'],
              name='a built entry', minimum=2)
    organizer(rep)
    sha(rep)
    containers(rep)
    reader_loop(rep)
    decode_loop(rep)
    stub(rep)
    version_first(rep)


def stub(rep):
    """of two containers the last holds the object; the first is kept and comes back as the first"""
    src = T('param', 'src')
    dst = T('param', 'dst')
    opts = dict(options=T('param', 'options'))
    taken, kept = {}, None
    for names in (['0'], ['0', '1']):
        I, f, rs = run('decoder.decode', ['src', 'dst'], opts, hooks=['decoder.Decoder.decode'], listings={src: names})
        n = 0
        for kind, v, st in rs:
            if kind != 'ret':
                continue
            n += 1
            rep.cover(stub_paths=1)
            got = [d['src_dir'] for q, d, w in stages(st)]
            want = join([src, K(names[-1])])
            taken[len(names)] = want
            if got != [want]:
                rep.add('stub', f.info.qual, 'of %d containers the object is not taken from the last' % len(names), facts(st))
            arch = [e for e in st.events() if e[0] == 'archive']
            if len(names) == 2 and (len(arch) != 1 or arch[0][2] != join([src, K(names[0])]) or comps(arch[0][1])[:1] != (dst,)):
                rep.add('stub', f.info.qual, 'the first of two containers is not kept', facts(st))
            elif arch and len(names) == 2:
                kept = arch[0][1]
        rep.floor('stub_paths:extract:%d' % len(names), n, 1)
    I, f, rs = run('decoder.encode', ['src', 'dst'], dict(opts, file_name=T('param', 'file_name')),
                   hooks=['decoder.Decoder.encode'])
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        rep.cover(stub_paths=1)
        got = [d['dest_dir'] for q, d, w in stages(st)]
        back = [e for e in st.events() if e[0] == 'unarchive']
        have = None
        if kept is not None:
            where = join([src] + list(comps(kept))[1:])
            have = st.facts.get(T('isfile', where), st.facts.get(T('exists', where)))
            if have is None and not back:
                rep.add('stub', f.info.qual, 'the first container kept by extraction is not looked for', facts(st))
            if back and back[0][1] != where:
                rep.add('stub', f.info.qual, 'the first container is not restored from where extraction kept it', facts(st))
        if have is False and back:
            continue
        if bool(back) != bool(have) and have is not None:
            rep.add('stub', f.info.qual, 'the first container kept by extraction is not restored', facts(st))
        want = join([dst, K('1' if back else '0')])
        if got != [want]:
            rep.add('stub', f.info.qual, 'the object is not built as container %s' % ('1' if back else '0'), facts(st))
        if back and back[0][2] != join([dst, K('0')]):
            rep.add('stub', f.info.qual, 'the first container is not restored as the first', facts(st))
    rep.floor('stub_paths:build', n, 2)
    for names in (['0'], ['0', '1'], ['1', '0']):
        I, f, rs = run('container_writer.build', ['src', 'dst', 'nested'], hooks=['container.Container.build'],
                       listings={src: names})
        n = 0
        for kind, v, st in rs:
            if kind != 'ret':
                continue
            n += 1
            got = [d['src_dir'] for q, d, w in stages(st)]
            if got != [join([src, K(x)]) for x in sorted(names)]:
                rep.add('stub', f.info.qual, 'the containers are not written in the order they were found in', facts(st))
        rep.floor('stub_paths:write:%d' % len(names), n, 1)


def organizer(rep):
    from .r_ops import opaque_but_worker
    for cls in ('organizer_file.OrganizerFile', 'organizer_file_ce.OrganizerFileCE'):
        d = NONE if cls.endswith('OrganizerFile') else T('param', 'descent')
        delivered(rep, 'organizer_file.OrganizerFile.unpack', ['src', 'dst'], dict(index=T('param', 'index'), descent=d),
                  cls=cls, hooks=['helper.run_in_pool', 'organizer_file.OrganizerFile.unpack_file'],
                  excuse=is_folder,
                  name='a file of the unpacked tree', minimum=3, dev=4)
        delivered(rep, 'organizer_file.OrganizerFile.pack', ['src', 'dst'], dict(index=NONE, descent=d), cls=cls,
                  hooks=['helper.run_in_pool', 'organizer_file.OrganizerFile._pack_file'],
                  excuse=lambda st, item: is_folder(st, item) or overridden(st),
                  name='a source file', minimum=3, dev=4)


def is_folder(st, item):
    """folders are followed by the recursive call, which the engine cuts after one level"""
    return any(k.op == 'isdir' and v is True and any(x == item for x in subterms(k.args[0])) for k, v in st.facts.items())


def overridden(st):
    return any(k.op == 'isfile' and v is True and any(x == T('param', 'dst') for x in subterms(k.args[0]))
               for k, v in st.facts.items())


def sha(rep):
    """every container of a build gets its checksums after its entries were written"""
    src = T('param', 'src')
    I, f, rs = run('container_writer.compress_and_build', ['src', 'dst'], listings={src: ['0', '1']},
                   hooks=['container_writer.calc_sha1', 'container.Container.build', 'container_doc.Document.compress',
                          'container_writer.compress_and_build_simple_file'])
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        last = {}
        for i, (q, d, w) in enumerate(stages(st)):
            for c in ('0', '1'):
                if any(isinstance(x, T) and comps(x)[:2] == (src, K(c)) for x in d.values()):
                    last.setdefault(c, []).append(short(q))
        for c in ('0', '1'):
            names = last.get(c, [])
            if 'container_writer.calc_sha1' not in names:
                rep.add('checksums', f.info.qual, 'a container is finished without its checksums', facts(st))
            elif names[-1] != 'container_writer.calc_sha1':
                rep.add('checksums', f.info.qual, 'checksums are taken before all entries were written', facts(st))
    rep.floor('checksum_paths', n, 2)


def containers(rep):
    """the writer puts every container into the file, the second behind the first"""
    I, f, rs = run('container_writer.build', ['src', 'dst', 'nested'], hooks=['container.Container.build'])
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        cnt = None
        for k, val in st.facts.items():
            if k.op == 'eq' and val is True and isinstance(k.args[1], K) and isinstance(k.args[1].v, int) and \
                    k.args[0].op == 'len':
                cnt = k.args[1].v
        built = [d for q, d, w in stages(st)]
        if cnt is None:
            rep.undecide('%s: number of containers on a path not known' % f.info.qual)
            continue
        if len(built) != cnt:
            rep.add('every-container', f.info.qual, 'writes %d of %d containers' % (len(built), cnt), facts(st))
        if len({d['src_dir'] for d in built}) != len(built):
            rep.add('every-container', f.info.qual, 'writes one container twice', facts(st))
        opened = [e[1] for e in st.events() if e[0] == 'create']
        if T('param', 'dst') not in opened:
            rep.add('every-container', f.info.qual, 'does not write the requested file', facts(st))
    rep.floor('writer_paths', n, 2)


def reader_loop(rep):
    """the reader takes containers until the file ends, extracting each into a folder of its own"""
    from .r_ops import opaque_but_worker

    def sized(I, d, st, node):
        I.set_attr(d['self'], 'size', T('size_of', K(len(stages(st)))), st, node)
        return [(NONE, st)]
    I, f, rs = run('container_reader.extract', ['f', 'folder'], dev=4, while_=3,
                   hooks=['container.Container.read', 'container.Container.extract'],
                   results={'container.Container.read': sized})
    n = two = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        sg = stages(st)
        reads = [d['self'] for q, d, w in sg if q.endswith('.read')]
        outs = [d for q, d, w in sg if q.endswith('.extract')]
        if [d['self'] for d in outs] != reads:
            rep.add('reader', f.info.qual, 'a container that was read is not extracted', facts(st))
        dests = [d['dest_dir'] for d in outs]
        two += len(dests) > 1
        if len(set(dests)) != len(dests):
            rep.add('reader', f.info.qual, 'two containers are extracted into the same folder', facts(st))
        if any(T('param', 'folder') not in list(subterms(x)) for x in dests):
            rep.add('reader', f.info.qual, 'a container is extracted outside the given folder', facts(st))
        ends = [k for k, val in st.facts.items()
                if (k.op == 'eq' and k.args[1] == K(b'') and val is True) or (k.op in ('truthy', 'nonempty') and val is False)]
        if not ends:
            rep.add('reader', f.info.qual, 'stops before the end of the file', facts(st))
    rep.floor('reader_paths', n, 2)
    rep.floor('reader_paths_two_containers', two, 1)
    delivered(rep, 'container.Container.extract', ['dest', K(False), K(False)], setup='container.Container',
              attrs=dict(files=T('param', 'files')), hooks=['container.Container.extract_file'],
              name='an entry of the container', minimum=1)
    delivered(rep, 'container.Container.build', ['file', 'src'], setup='container.Container',
              hooks=['container.Container.add_file', 'container.Container.write_table_off_content',
                     'container.Container.write_header'], name='an entry to be built', minimum=2)
    delivered(rep, 'container.Container.extract_file', ['name', 'file_obj', 'path'], cls=None,
              name='a piece of the entry\'s data', minimum=1, dev=2)


def method_of(e, name):
    return e[0] == 'opaque' and isinstance(e[1], T) and e[1].op == 'attr' and isinstance(e[1].args[0], T) and \
        e[1].args[0].op == 'ref' and e[1].args[1] == K(name)


def decode_loop(rep):
    """child objects are decoded until no task is left; the root encoder always runs last"""
    from .r_ops import opaque_but_worker

    def nxt(I, d, st, node):
        n = sum(1 for q, _, _ in stages(st) if q.endswith('helper.run_in_pool'))
        return [(T('tasks', K(n)), st)]
    I, f, rs = run('decoder.Decoder.decode', ['src', 'dst'], dict(pool=T('param', 'pool'), options=T('param', 'options')),
                   cls='decoder.Decoder', dev=3, hooks=['decoder.Decoder.detect_version', 'helper.run_in_pool'],
                   results={'helper.run_in_pool': nxt}, objs=['decoder.Decoder.detect_version'])
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        first = [e for e in st.events() if method_of(e, 'decode')]
        if len(first) != 1 or list(first[0][2])[:2] != [T('param', 'src'), T('param', 'dst')]:
            rep.add('root-decoded', f.info.qual, 'the root object is not decoded exactly once from source to target', facts(st))
            continue
        want = T('call', first[0][1], *[I.as_term(x) for x in first[0][2]])
        prev = None
        for q, d, w in stages(st):
            if not q.endswith('helper.run_in_pool'):
                continue
            x = d['list_args']
            if prev is None and not (isinstance(x, T) and x.op == 'call' and x.args[0] == want.args[0]) or \
                    prev is not None and x != prev:
                rep.add('children-decoded', f.info.qual, 'a round of child objects works on %s' % (x,), facts(st))
            if d.get('need_result') is not K(True):
                rep.add('children-decoded', f.info.qual, 'the tasks found in a round are not collected', facts(st))
            m = d['method']
            if not (isinstance(m, Bound) and m.fn.info.name == 'decode_include'):
                rep.add('children-decoded', f.info.qual, 'child objects are handed to %s' % (m,), facts(st))
            prev = T('tasks', K(sum(1 for q2, _, w2 in stages(st)[:stages(st).index((q, d, w)) + 1]
                                    if q2.endswith('helper.run_in_pool'))))
        last = prev if prev is not None else None
        if last is not None and not any(k.op in ('truthy', 'nonempty') and k.args[0] == last and val is False
                                        for k, val in st.facts.items()) and st.eqs.get(last) is not NONE:
            rep.add('children-decoded', f.info.qual, 'stops while tasks are left', facts(st))
        if last is None and not any(k.op in ('truthy', 'nonempty') and val is False for k, val in st.facts.items()):
            rep.add('children-decoded', f.info.qual, 'never decodes child objects', facts(st))
    rep.floor('decode_loop_paths', n, 2)

    # the containers of the binary
    I, f, rs = run('decoder.decode', ['src', 'dst'], dict(pool=T('param', 'pool'), options=T('param', 'options')),
                   hooks=['decoder.Decoder.decode'])
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        cnt = [k.args[1].v for k, val in st.facts.items() if k.op == 'eq' and val is True and k.args[0].op == 'len'
               and isinstance(k.args[1], K)]
        sg = stages(st)
        if len(sg) != 1 or sg[0][1].get('dest_dir') != T('param', 'dst'):
            rep.add('root-decoded', f.info.qual, 'the main container is not decoded into the target', facts(st))
        arch = [e for e in st.events() if e[0] == 'archive']
        if 2 in cnt and not arch:
            rep.add('second-container', f.info.qual, 'the first of two containers is dropped', facts(st))
    rep.floor('main_container_paths', n, 2)

    # build
    pi = T('param', 'index')
    I, f, rs = run('decoder.Decoder.encode', ['src', 'dst'],
                   dict(pool=T('param', 'pool'), options=T('param', 'options'), file_name=T('param', 'file_name')),
                   cls='decoder.Decoder', dev=2,
                   hooks=['decoder.Decoder.get_encoder', 'decoder.Decoder.get_handler_by_version_file', 'helper.json_read',
                          'helper.run_in_pool_encode_include', 'helper.update_dict'],
                   objs=['decoder.Decoder.get_handler_by_version_file'],
                   results={'decoder.Decoder.get_encoder': T('param', 'type'), 'helper.json_read': T('param', 'header'),
                            'helper.run_in_pool_encode_include': lambda I, d, st, node: [
                                (Tup(*[T(x, K(len(stages(st)))) for x in ('files', 'index', 'objs', 'children')]), st)]})
    n = 0
    for kind, v, st in rs:
        if kind != 'ret':
            continue
        n += 1
        enc = [i for i, e in enumerate(st.events()) if method_of(e, 'encode')]
        kids = [i for i, e in enumerate(st.events()) if method_of(e, 'encode_includes')]
        runs = [i for i, e in enumerate(st.events()) if e[0] == 'stage' and e[1].endswith('run_in_pool_encode_include')]
        if len(enc) != 1:
            rep.add('root-encoded', f.info.qual, 'the root object is built %d times' % len(enc), facts(st))
            continue
        e = list(st.events())[enc[0]]
        if list(e[2])[:2] != [T('param', 'src'), T('param', 'dst')]:
            rep.add('root-encoded', f.info.qual, 'the root object is not built from the sources into the target', facts(st))
        if not kids or runs and runs[-1] > enc[0]:
            rep.add('root-encoded', f.info.qual, 'the root object is built before its child objects', facts(st))
    rep.floor('encode_loop_paths', n, 2)


ROOTS = ('Configuration', 'ConfigurationExtension', 'ExternalDataProcessor')


def aside(c, enc, wanted):
    """methods of the class that do not lead to the wanted call: followed as one step"""
    ms = {}
    for k in reversed(c.info.mro):
        for name, v in getattr(k, 'ns', {}).items():
            v = v.fn if isinstance(v, Bound) else v
            if isinstance(v, Fn) and v.info.kind != 'property':
                ms[name] = v.info
    names = {n: {x.attr if isinstance(x, ast.Attribute) else x.id for x in ast.walk(i.node)
                 if isinstance(x, (ast.Attribute, ast.Name))} for n, i in ms.items()}
    lead = {wanted}
    while True:
        more = {n for n, u in names.items() if u & lead} - lead
        if not more:
            break
        lead |= more
    return [i.qual[len(Q):] for n, i in ms.items() if n not in lead and n != enc.info.name and not n.startswith('__')
            and n not in ('get_options', 'get_class_name_without_version')]


def version_first(rep):
    """the version check precedes the first write of every root encoder"""
    n = 0
    hm = Interp().mods[Q + 'helper']
    writers = ['helper.' + k for k, v in hm.ns.items() if isinstance(v, Fn) and v.info.mod is hm and k.endswith('_write')]
    for cls in ROOTS:
        q = 'MetaObject.%s.%s' % (cls, cls)
        c = Interp().get_class(Q + q)
        _, enc = c.info.lookup('encode')
        if not isinstance(enc, Fn):
            raise AnalysisBroken('%s has no encode' % q)
        fills = aside(c, enc, 'check_version')
        I, f, rs = run(enc.info.qual[len(Q):], ['src', 'dst'],
                       dict(file_name=T('param', 'file_name'), include_index=T('param', 'include_index'),
                            file_list=T('param', 'file_list')), setup=q,
                       init=dict(options=T('param', 'options'), obj_version=K('803')), attrs=dict(header=T('param', 'header')),
                       hooks=['helper.check_version'] + writers + fills, dev=1)
        for kind, v, st in rs:
            seen = False
            for e in st.events():
                if e[0] == 'stage' and e[1].endswith('check_version'):
                    seen = True
                elif (e[0] in ('create', 'copy', 'rename', 'delete') or e[0] == 'stage' and e[1][len(Q):] in writers + fills) \
                        and not seen and \
                        any(x == T('param', 'dst') for a in e[1:] for x in deep(I, st, a)):
                    rep.add('version-check', f.info.qual, 'an entry is written before the version of the sources was checked',
                            facts(st))
                    break
            if kind != 'ret':
                continue
            n += 1
            if not seen:
                rep.add('version-check', f.info.qual, 'the version of the sources is not checked', facts(st))
                continue
            d = [x for q_, x, w in stages(st) if q_.endswith('check_version')][0]
            ps = list(d.values())
            if any(k.op in ('haskey', 'hasidx') and k.args[1] == K('v8unpack') and val is False
                   for k, val in st.facts.items()):
                continue
            if not any(isinstance(x, T) and any(y == K('v8unpack') for y in subterms(x)) for x in ps):
                rep.add('version-check', f.info.qual, 'the version check does not look at the version stored in the sources',
                        facts(st))
    rep.floor('root_encoder_paths', n, 3)
    I = Interp()
    f = I.get_func(Q + 'helper.check_version')
    bad = [1 for kind, v, st in I.run(f, [T('param', 'ours'), T('param', 'theirs')]) if kind == 'raise']
    rep.floor('version_check_can_fail', len(bad), 1)
