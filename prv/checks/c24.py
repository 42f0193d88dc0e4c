"""Descriptor accessors against the position of the element.

(1) prv.visit.analyse: the walk over a file visits each element once, with its path, scope, parent and index.
(2) The visitors that fill the pool run on a generic element of every kind of position (prv.tables.World); the record each leaves
    is where its accessors look.
(3) Every accessor is evaluated on a descriptor of such an element, and its value compared with the one specified by its name.
(4) The options of an element are read from its own record as the options message of its own kind, and what the option
    resolution computes for an element is written back to that element."""
from prv import visit as V
from prv.tables import *
from prv.checks.c22w import literal

LEVEL = 'proof'
IS0, IS1 = ('+', frozenset({0})), ('+', frozenset({1}))
OPTIONS = {'file': 'FileOptions', 'message': 'MessageOptions', 'field': 'FieldOptions', 'extension': 'FieldOptions', 'oneof': 'OneofOptions',
           'enum': 'EnumOptions', 'enum_value': 'EnumValueOptions', 'service': 'ServiceOptions', 'method': 'MethodOptions'}


def part(t, x):
    return mk('part', t, x)


def at(t, i):
    return mk('at', t, i)


class Spec:
    """What the accessors of an element must return, in the normal form of World.norm."""

    def __init__(self, W, key):
        self.W, self.key = W, key
        self.kind, self.path, self.parent = W.ELEMS[key]
        self.el = W.norm(W.elem(self.path)[0])
        self.file = mk('file')
        self.filedesc = W.selfs('file')
        self.self = W.selfs(key)
        self.full = W.norm(W.fullname(key)) if key != 'file' else None
        self.parray = arr(*[x for st in self.path for x in st])

    def table(self):
        W, el, kind, key = self.W, self.el, self.kind, self.key
        own = W.selfs(self.parent) if self.parent else None
        out = {'name': part(el, 'name'), 'parent_pool': W.pool}
        if kind == 'file':
            out.update({'package_name': part(el, 'package'), 'file_descriptor_proto': el})
            return out
        out.update({'full_name': self.full, 'path': self.parray, 'parent_file': self.filedesc})
        if kind in V.GLOBAL:
            out['package_name'] = part(self.file, 'package')
            out['parent_file_descriptor_proto'] = self.file
            if kind != 'service':
                out['parent_message'] = some(own) if own is not None else NONE_OPT
        elif kind == 'enum_value':
            out['parent_enum'] = own
        elif kind == 'method':
            out['parent_service'] = own
        else:
            out['parent_message'] = own
        proto = {'message': 'descriptor_proto', 'enum': 'enum_descriptor_proto', 'field': 'field_descriptor_proto', 'extension': 'field_descriptor_proto',
                 'enum_value': 'enum_value_descriptor_proto', 'oneof': 'oneof_descriptor_proto', 'service': 'service_descriptor_proto',
                 'method': 'method_descriptor_proto'}[kind]
        out[proto] = el
        if kind in ('field', 'extension'):
            out['number'] = mk('cast', 'u32', part(el, 'number'), 'i32')
        if kind == 'enum_value':
            out['number'] = part(el, 'number')
        if kind == 'method':
            out['is_client_streaming'] = part(el, 'client_streaming')
            out['is_server_streaming'] = part(el, 'server_streaming')
        return out

    def lists(self):
        """Iterators over parts of the proto: accessor -> what each step yields."""
        el, kind = self.el, self.kind

        def rng(coll, incl):
            x = mk('each', part(el, coll))
            a, b = part(x, 'start'), part(x, 'end')
            if incl:
                return 'RangeInclusive', [a, b]
            return 'Range', [mk('cast', 'u32', a, 'i32'), mk('cast', 'u32', b, 'i32')]
        if kind == 'message':
            return {'reserved_ranges': rng('reserved_range', False), 'extension_ranges': rng('extension_range', False),
                    'reserved_names': ('', mk('each', part(el, 'reserved_name')))}
        if kind == 'enum':
            return {'reserved_ranges': rng('reserved_range', True), 'reserved_names': ('', mk('each', part(el, 'reserved_name')))}
        return {}


def accessor(C, W, key, name, want):
    fs = W.get(key, name)
    if fs is None:
        return 0
    C.inlined(W.last)
    C.ob(len(fs) > 0, 'accessor:%s:%s:ends' % (key, name), '%s of a %s never returns' % (name, key), 'the accessor returns')
    for f in fs:
        got = W.norm(f.ret)
        C.ob(got is want, 'accessor:%s:%s' % (key, name), '%s of a %s is %s instead of %s' % (name, key, show(got)[:160], show(want)[:160]),
             'the accessor returns the part its name says')
    return 1


def lists(C, W, key):
    n = 0
    for name, (kind, want) in Spec(W, key).lists().items():
        r = W.get(key, name, yields=True)
        if r is None:
            continue
        n += 1
        C.inlined(W.last)
        ys = [W.norm(v) for st, v in r[1] if v is not None]
        for y in ys:
            if kind:
                ok = y.op == 'agg' and y.a[0].endswith('::' + kind) and list(y.a[2:4]) == want
                ok = ok and all(x is k(0) for x in y.a[4:])
            else:
                ok = y is want
            C.ob(ok, 'list:%s:%s' % (key, name), '%s of a %s yields %s' % (name, key, show(y)[:160]), 'each element of the list, unchanged')
        C.ob(len(ys) > 0, 'list:%s:%s:empty' % (key, name), '%s of a %s yields nothing' % (name, key), 'each element of the list, unchanged')
        for f in r[0]:
            bare = all(x.op != 'agg' or not x.a[0].startswith('iter:') or x.a[0] == 'iter:map' for x in walk(f.ret))
            C.ob(bare, 'list:%s:%s:order' % (key, name), '%s of a %s reorders or drops elements' % (name, key), 'the list in its own order')
    return n


def dynamics(p):
    return [n for n in p.fn_by_name if n.endswith('DescriptorPool::get_message_by_name') or n.endswith('DescriptorPool::global')] + \
           [n for n in p.fn_by_name if n.lstrip('<').startswith('prost_reflect::dynamic')]


def reading(W, t):
    """decode(get_message_by_name(where, name).unwrap(), bytes).unwrap() -> (where, name, bytes)"""
    while t.op == 'proj':
        t = t.a[0]
    if t.op == 'app' and t.a[0].endswith('DynamicMessage::new') and len(t.a) == 3:
        d, b = t.a[2], None         # nothing could be read
    elif t.op == 'app' and t.a[0].endswith('decode') and len(t.a) == 4:
        d, b = t.a[2], W.norm(t.a[3])
    else:
        return None
    while d.op == 'proj':
        d = d.a[0]
    if d.op != 'app' or not d.a[0].endswith('get_message_by_name') or not isk(d.a[3]):
        return None
    w = d.a[2]
    where = 'built-in' if w.op == 'app' and (w.a[0].endswith('global') or w.a[0] == 'static:init') else w
    return where, kv(d.a[3]), b, d


def absent(W, f, place, empty):
    """Bytes without content stand for options that are not set."""
    if not (empty.op == 'app' and empty.a[0].startswith('default:') or empty.op == 'agg' and empty.a[0] in ('array', 'str') and len(empty.a) == 2
            or isk(empty) and kv(empty) in (b'', '')):
        return False
    for t, d in f.facts.items():
        if t.op == 'discr' and W.norm(t.a[0]) is place and d == IS0:
            return True
    return False


def lacks(W, f, full):
    return IS0 in [d for t, d in f.facts.items() if t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0].endswith('get_message_by_name')
                   and t.a[0].a[2] is W.pool and t.a[0].a[3] is k(full)]


def failed(W, f, full, where):
    """Decoding failed against the message of each of the pools."""
    got = set()
    for t, d in f.facts.items():
        if t.op == 'discr' and d == IS1 and t.a[0].op == 'app' and t.a[0].a[0].endswith('decode'):
            r = reading(W, t.a[0])
            if r is not None and r[1] == full:
                got.add('pool' if r[0] is W.pool else r[0])
    return set(where) <= got


def options(C, W, key):
    kind = W.ELEMS[key][0]
    S = Spec(W, key)
    fs = W.get(key, 'options', opaque=dynamics(W.p), prep=lambda E: setattr(E, 'exact_paths', True))
    if fs is None:
        return 0
    C.inlined(W.last)
    full = 'google.protobuf.' + OPTIONS[kind]
    place = part(S.el, 'options')
    set_ = 0
    for f in fs:
        r = reading(W, f.ret)
        ok = r is not None and r[1] == full
        C.ob(ok, 'options:%s:kind' % key, 'options of a %s: %s' % (key, show(W.norm(f.ret))[:200] if r is None else 'read as a %s' % r[1]),
             'options are decoded as the options message of the kind')
        if not ok:
            continue
        if r[2] is None:
            C.ob(failed(W, f, full, ('pool', 'built-in')) or failed(W, f, full, ('built-in',)) and lacks(W, f, full),
                 'options:%s:empty' % key, 'options of a %s read as empty though they may be decoded' % key, 'options are empty only when nothing decodes')
            continue
        own = r[2] is part(place, 'encoded')
        set_ += own
        C.ob(own or absent(W, f, place, r[2]), 'options:%s:bytes' % key, 'options of a %s are decoded from %s' % (key, show(r[2])[:160]),
             'the bytes of its own options')
        C.ob(r[0] is W.pool or r[0] == 'built-in', 'options:%s:pool' % key, 'the options message of a %s is looked up in %s' % (key, r[0]),
             'the pool, or the built-in pool when that fails')
        if r[0] == 'built-in':
            C.ob(lacks(W, f, full) or failed(W, f, full, ('pool',)), 'options:%s:own' % key,
                 'the options message of a %s is taken from the built-in pool though the own pool may define it' % key,
                 'the built-in pool only when the own pool lacks the message or cannot decode the bytes')
    C.ob(set_ > 0, 'options:%s:unset' % key, 'options of a %s are never read from its record' % key, 'the bytes of its own options')
    return 1


# ---- resolving options
def flatpath(t):
    if t.op == 'agg' and t.a[0] == 'array':
        return list(t.a[2:])
    if t.op == 'app' and t.a[0] == 'extend' and len(t.a) == 4:
        a, b = flatpath(t.a[2]), flatpath(t.a[3])
        return None if a is None or b is None else b + a
    return None


def visitors_of_options(W):
    out = {}
    for n in W.p.fn_by_name:
        if ' as ' + V.VISITOR[:-2] + '>::visit_' in n:
            ty = n[1:].split(' as ')[0]
            a = W.p.adts.get(ty.split('<')[0])
            if a and any(W.p.types[f[1]]['k'] == 'ref' and W.p.types[f[1]].get('m') and W.p.ts(f[1]).endswith('::DescriptorPool') for f in a['v'][0]['f']):
                out.setdefault(ty, {})[n.rsplit('visit_', 1)[1]] = n
    return out


def resolving(C, W):
    vs = visitors_of_options(W)
    C.ob(len(vs) == 1, 'resolve:visitor', '%d visitors resolve options' % len(vs), 'one visitor resolves options')
    n = 0
    for ty, fns in vs.items():
        for key in W.ELEMS:
            kind, path, parent = W.ELEMS[key]
            fn = fns.get(kind)
            C.ob(fn is not None, 'resolve:%s:visit' % key, 'options of a %s are not resolved' % key, 'every kind has its options resolved')
            if fn is None:
                continue
            n += 1
            E = engine(W.p)
            E.opaque |= set(dynamics(W.p))
            for m in W.p.fn_by_name:
                if m.startswith(ty.split('<')[0] + '::') and m.rsplit('::', 1)[-1].startswith('set_') or m.endswith('>::set_option'):
                    E.opaque.add(m)
            V.concrete(E)
            fs = E.run(fn, args=dict(enumerate([mk('visitor')] + W.visit_args(key))))
            C.inlined(E)
            el = Spec(W, key).el
            num = W.sch[W.elem(path)[1]]['options']
            want = [x for st in path for x in st] + [num]
            judge(C, W, E, fs, key, el, [x if isinstance(x, T) else k(x) for x in want], OPTIONS[kind], False)
            if kind == 'message':
                x = mk('each', part(el, 'extension_range'))
                judge(C, W, E, fs, key + ' extension range', x, None, 'ExtensionRangeOptions', True,
                      ([x2 if isinstance(x2, T) else k(x2) for st in path for x2 in st], W.sch['DescriptorProto']['extension_range'], el))
    C.floor('kinds of position whose options are resolved', n, 12)


def judge(C, W, E, fs, key, el, want, kind, looped, rng=None):
    place = part(el, 'options')
    full = 'google.protobuf.' + kind
    seen = 0
    for f in fs:
        evs = []
        W.flat(f.trace, evs)
        good, stray = [], []
        for lp, ev in evs:
            if ev.a[0] != 'mut' or kv(ev.a[1]) != 'push':
                continue
            v = ev.a[3]
            if v.op != 'agg' or len(v.a) < 5 or v.a[0] != 'tuple':
                continue
            pth = [flatpath(x) for x in v.a[2:]]
            pth = [x for x in pth if x and len(x) > 0]
            if lp != looped and not (lp and not looped):
                continue
            if lp == looped:
                good.append((v, pth))
        has = [d for t, d in f.facts.items() if t.op == 'discr' and W.norm(t.a[0]) is place]
        if not looped:
            if IS0 in has:
                C.ob(not good, 'resolve:%s:unset' % key, 'options of a %s without options are set' % key, 'options that are not set stay so')
                continue
            C.ob(IS1 in has and len(good) == 1, 'resolve:%s:once' % key, 'the options of a %s are stored %d times' % (key, len(good)), 'options are stored once')
        for v, pth in good:
            fi = [x for x in v.a[2:] if x is f_]
            C.ob(len(fi) == 1, 'resolve:%s:file' % key, 'the options of a %s are stored for another file' % key, 'the file of the element')
            if not looped:
                C.ob(pth[:1] == [want], 'resolve:%s:path' % key, 'the options of a %s are stored at %s' % (key, show(arr(*pth[0]))[:120] if pth else 'no path'),
                     'the path of the element and of its options')
            else:
                base, num, msg = rng
                ok = pth and len(pth[0]) == len(base) + 3 and pth[0][:len(base)] == base and pth[0][len(base)] is k(num) and \
                    pth[0][-1] is k(W.sch['ExtensionRange']['options']) and position(W, pth[0][-2], part(msg, 'extension_range'))
                C.ob(ok, 'resolve:%s:path' % key, 'the options of an %s are stored at %s' % (key, show(arr(*pth[0]))[:120] if pth else 'no path'),
                     'the path of the element and of its options')
            bs = v.a[-1]
            if bs.op == 'app' and bs.a[0].endswith('encode_to_vec'):
                seen += 1
            elif not looped:
                bad = any(t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0].endswith('decode') and d == IS1 for t, d in f.facts.items())
                C.ob(bad, 'resolve:%s:bytes' % key, 'the options of a %s are stored as %s' % (key, show(bs)[:100]), 'the resolved message is stored')
    dec = {}
    for f in fs:
        for t in walk_all(f):
            if t.op == 'app' and t.a[0].endswith('decode') and len(t.a) == 4:
                r = reading(W, t)
                if r and (r[1] == full and r[2] is part(place, 'encoded')):
                    dec['own'] = True
                elif r and not (r[2] is not part(place, 'encoded') and r[1] != full):
                    dec[r[1], r[2]] = True
    wrong = [x for x in dec if x != 'own']
    C.ob('own' in dec and not wrong, 'resolve:%s:kind' % key, 'the options of a %s are decoded as %s' % (key, [(a, show(b)[:80]) for a, b in wrong]),
         'options are decoded as the options message of the kind')
    C.ob(seen > 0, 'resolve:%s:bytes' % key, 'the resolved options of a %s are not stored' % key, 'the resolved message is stored')


def walk_all(f):
    seen = set()
    out = []

    def tr(x):
        for ev in x:
            if isinstance(ev, tuple):
                for _, e in ev[1]:
                    tr(e)
            else:
                for t in walk(ev, seen):
                    out.append(t)
    tr(f.trace)
    for t in f.facts:
        out += list(walk(t, seen))
    return out


def position(W, t, coll):
    """The index of the element a loop over a collection is at."""
    while t.op == 'cast':
        t = t.a[1]
    return t.op == 'app' and t.a[0] == 'enum_idx' and any(W.norm(x) is coll for x in walk(W.norm(t))) or \
        t.op not in ('k',) and any(x is coll for x in walk(W.norm(t)))


# ---- writing the resolved options back
def setters(W):
    out = []
    for n, fs in W.p.fn_by_name.items():
        if not n.startswith(D) or '{' in n or '::tests::' in n:
            continue
        b = W.p.bodies.get(fs[0]['key'])
        if b is None:
            continue
        tys = [W.p.ts(t) for t in b.locals[1:b.argc + 1]]
        if len(tys) == 3 and tys[0].replace("'_ ", '') == '&mut ' + V.TYPES + 'FileDescriptorProto' and tys[1].endswith('[i32]'):
            out.append(n)
    return out


def writing(C, W):
    ss = setters(W)
    C.ob(len(ss) == 1, 'store:function', '%d functions store resolved options in a file' % len(ss), 'one function stores options')
    p = W.p
    n = 0
    for fn in ss:
        targets = {}
        for key in W.ELEMS:
            path = W.ELEMS[key][1]
            targets[key] = path
            if W.ELEMS[key][0] == 'message':
                targets[key + ' extension range'] = path + ((5, mk('sym', 'range')),)
        for key, path in targets.items():
            rng = key.endswith('extension range')
            el, pn = W.elem(path[:-1] if rng else path)
            if rng:
                el = W.proj(el, W.fidx(V.TYPES + pn, 'extension_range'), mk('cast', 'usize', path[-1][1], 'i32'))
                adt = [x for x in p.adts if x.startswith(V.TYPES) and x.endswith('ExtensionRange')][0]
                num = W.sch['ExtensionRange']['options']
            else:
                adt = V.TYPES + pn
                num = W.sch[pn]['options']
            oi = W.fidx(adt, 'options')
            E = Engine(p, opaque=[m for m in p.fn_by_name if V.TYPES in m and '::decode' in m], max_steps=8000000)
            E.rec_limit = 5
            V.concrete(E)
            enc = mk('encoded')
            fs = E.run(fn, args={0: mk('raw'), 1: arr(*[x for st in path for x in st] + [num]), 2: enc})
            C.inlined(E)
            n += 1
            place = E.get1(State(), el, ('f', None, oi))
            C.ob(len(fs) == 1, 'store:%s:ends' % key, 'storing the options of a %s ends in %d ways' % (key, len(fs)), 'storing options succeeds')
            for f in fs:
                ch = changes(f.st.mem.get(mk('raw'), mk('raw')), mk('raw'), E)
                ok = len(ch) == 1 and ch[0][0] is place
                C.ob(ok, 'store:%s' % key, 'storing the options of a %s changes %s' % (key, [show(W.norm(x))[:100] for x, _ in ch]),
                     'the options of the element are replaced, nothing else')
                if ok:
                    v = ch[0][1]
                    good = v.op == 'agg' and v.a[1] == 1 and v.a[2].op == 'proj' and v.a[2].a[0].op == 'app' and v.a[2].a[0].a[0].endswith('decode') \
                        and v.a[2].a[0].a[-1] is enc
                    C.ob(good, 'store:%s:value' % key, 'the options of a %s become %s' % (key, show(v)[:120]), 'the options are the resolved bytes')
    C.floor('positions whose options are stored', n, 15)


def applying(C, W):
    """Each resolved option is stored with its own file, path and bytes."""
    p = W.p
    ss = setters(W)
    keys = {p.fn_by_name[x][0]['key'] for x in ss} | set(ss)
    callers = [n for n, fs in p.fn_by_name.items() if '{' not in n and n not in ss and keys & p.callees(fs[0]['key'])]
    C.ob(len(callers) >= 1, 'apply:caller', 'nothing stores the resolved options', 'resolved options are stored')
    for fn in callers:
        E = engine(p)
        E.opaque |= {n for n in p.fn_by_name if n == D + 'build::visit::visit'} | set(ss)
        E.watch = {x: 'store' for x in ss}
        b = p.body_of(fn)
        fs = E.run(fn, args={i: mk('arg', i) for i in range(b.argc)})
        C.inlined(E)
        for f in fs:
            if f.ret.op == 'agg' and f.ret.a[0].endswith('Result') and f.ret.a[1] == 1:
                continue
            loops = [ev for ev in f.trace if isinstance(ev, tuple)]
            hit = 0
            for lp in loops:
                per = []
                for _, e in lp[1]:
                    evs = []
                    W.flat(e, evs)
                    per.append([x for _, x in evs if x.a[0] == 'store'])
                if not any(per):
                    continue
                hit += 1
                ok = all(len(x) == 1 for x in per)
                C.ob(ok, 'apply:each', 'some resolved options are not stored', 'each resolved option is stored')
                for x in per:
                    for ev in x:
                        a, b2 = ev.a[-2:]
                        el = a.a[0] if a.op == 'proj' else None
                        same = el is not None and el.op == 'elem' and b2.op == 'proj' and b2.a[0] is el and el.a[0].op != 'agg'
                        C.ob(same, 'apply:pairs', 'path and bytes of different options are stored together: %s' % show(ev)[:200],
                             'path and bytes of one option')
                        if same:
                            rest = [q for q in range(3) if q not in (a.a[2], b2.a[2])]
                            fi = mk('proj', el, a.a[1], rest[0])
                            where = show(us(fi))
                            C.ob(where in str(ev.a[1]) or where in show(ev.a[1]), 'apply:file', 'options are stored in the file %s' % show(ev.a[1])[:200],
                                 'the file of the element')
            C.ob(hit == 1, 'apply:once', 'resolved options are stored %d times' % hit, 'each resolved option is stored')


def changes(v, base, E):
    """The places of a value that differ from the base: [(place, new value)]."""
    if v is base:
        return []
    if v.op == 'upd' and v.a[0] is base:
        out = []
        for el, x in v.a[1]:
            out += changes(x, E.get1(State(), base, el), E)
        return out
    return [(base, v)]


def run(p, C):
    bad, n, ghosts = V.analyse(p)
    C.obligations += n - len(bad)
    C.discharged += n - len(bad)
    for key, msg in bad.items():
        C.ob(False, 'walk:' + ':'.join(str(x) for x in key), msg, 'the walk visits each element once in its place')
    C.groups.setdefault('the walk visits each element once in its place', [0, 0])
    C.groups['the walk visits each element once in its place'][0] += n
    C.groups['the walk visits each element once in its place'][1] += n - len(bad)
    C.floor('obligations of the walk', n, 100)
    W = World(p)
    W.build(W.scenario())
    for key, msg in W.bad.items():
        C.ob(False, 'record:' + ':'.join(str(x) for x in key), msg, 'each element is recorded once')
    C.ob(not W.bad, 'record:all', 'records', 'each element is recorded once')
    na = nl = no = 0
    for key in W.ELEMS:
        if key not in getattr(W, 'recs', {}):
            continue
        for name, want in sorted(Spec(W, key).table().items()):
            na += accessor(C, W, key, name, want)
        nl += lists(C, W, key)
        no += options(C, W, key)
    jsonnames(C, p)
    C.floor('accessors evaluated', na, 120)
    C.floor('lists evaluated', nl, 10)
    C.floor('options accessors evaluated', no, 15)
    resolving(C, W)
    writing(C, W)
    applying(C, W)


def jsonnames(C, p):
    """The JSON name: the stated one, else the lower camel case of the name; of an extension the full name in brackets."""
    for stated in (True, False):
        W = World(p)
        sc = W.scenario(json_name=stated)

        def assume(E, sc=sc):
            sc(E)
            E.rec_limit = 5
            V.concrete(E)
        W.build(sc, keys=['file', 'message', 'nested', 'extension', 'nested extension'])
        W.build(assume, keep=('find_file_field_proto_mut',), keys=['field', 'nested field'], more=True)
        for key in ('field', 'nested field'):
            S = Spec(W, key)
            fs = W.get(key, 'json_name') or []
            for f in fs:
                got = W.norm(f.ret)
                if stated:
                    ok = got is mk('sym', 'json name') or got is part(S.el, 'json_name')
                else:
                    ok = got.op == 'app' and got.a[0].endswith('to_json_name') and got.a[2:] == (part(S.el, 'name'),)
                C.ob(ok, 'json_name:%s:%s' % (key, stated), 'the JSON name of a %s whose proto %s one is %s' % (key, 'states' if stated else 'does not state', show(got)[:120]),
                     'the JSON name')
            C.ob(len(fs) > 0, 'json_name:%s:%s:ends' % (key, stated), 'json_name of a %s never returns' % key, 'the JSON name')
        for key in ('extension', 'nested extension'):
            S = Spec(W, key)
            fs = W.get(key, 'json_name') or []
            for f in fs:
                lit = literal(f.ret)
                lit = [W.norm(x) if isinstance(x, T) else x for x in lit] if lit is not None else None
                ok = lit is not None and flat(lit) == ['[', S.full, ']']
                C.ob(ok, 'json_name:%s' % key, 'the JSON name of an %s is %s' % (key, lit), 'the JSON name')
            C.ob(len(fs) > 0, 'json_name:%s:ends' % key, 'json_name of an %s never returns' % key, 'the JSON name')


def flat(xs):
    out = []
    for x in xs:
        if isinstance(x, T) and x.op == 'app' and 'new_display' in x.a[0]:
            x = x.a[2]
        if out and isinstance(out[-1], str) and isinstance(x, str):
            out[-1] += x
        else:
            out.append(x)
    return out
