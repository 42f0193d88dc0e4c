"""Every implementation of the reflection trait is evaluated by the abstract interpreter: its descriptor must be the lookup, in the
global pool, of the one name that belongs to the implementing type.  The constructor of the built-in descriptor set is evaluated
to a constant and compared field by field with the schema of Google's well-known files (oracle/wkt.json, generated by protoc).
The code generated by the derive macro is analysed in a witness crate."""
import json, os
from prv.kinds import *
from prv.program import VERIF
from prv.checks import c22w

LEVEL = 'proof'
POOLN = 'prost_reflect::descriptor::DescriptorPool::'
TR = ' as prost_reflect::reflect::ReflectMessage>::descriptor'
WRAP = {'bool': 'BoolValue', 'f32': 'FloatValue', 'f64': 'DoubleValue', 'i32': 'Int32Value', 'i64': 'Int64Value', 'u32': 'UInt32Value',
        'u64': 'UInt64Value', 'alloc::string::String': 'StringValue', 'alloc::vec::Vec<u8>': 'BytesValue', 'bytes::bytes::Bytes': 'BytesValue',
        '()': 'Empty'}
DT = 'prost_reflect::descriptor::types::'


def rust_name(pkg_path, full):
    """The path prost generates for a nested protobuf message name."""
    parts = full.split('.')
    mods = [snake(x) for x in parts[:-1]]
    return '::'.join([pkg_path] + mods + [parts[-1]])


def snake(s):
    o = ''
    for i, c in enumerate(s):
        if c.isupper() and i:
            o += '_'
        o += c.lower()
    return o


def oracle():
    return json.load(open(os.path.join(VERIF, 'oracle', 'wkt.json')))['file']


def all_messages(msgs, prefix):
    for m in msgs:
        n = prefix + '.' + m['name']
        yield n, m
        yield from all_messages(m.get('nested_type', []), n)


class Conv:
    """Constant term -> plain data."""

    def __init__(self, p):
        self.p = p
        self.bad = []

    def __call__(self, t):
        if t.op == 'k':
            return kv(t)
        if t.op == 'agg':
            kd = t.a[0]
            if kd == 'core::option::Option':
                return None if t.a[1] == 0 else self(t.a[2])
            if kd in ('array', 'tuple'):
                return [self(x) for x in t.a[2:]]
            ad = self.p.adts.get(kd)
            if ad and ad['kind'] == 'enum':
                v = ad['v'][t.a[1]]
                return int(v['d'])
            if ad:
                d = {f[0]: self(x) for f, x in zip(ad['v'][t.a[1]]['f'], t.a[2:])}
                if kd == DT + 'Options':
                    e = t.a[2]
                    if not (e.op == 'app' and e.a[0].endswith('::encode_to_vec') and e.a[2] is t.a[3]):
                        self.bad.append('options bytes are not the encoding of the options value')
                    return d.get('value')
                return d
        if t.op == 'app' and t.a[0].endswith('>>::from') and t.a[0].startswith('<i32 as core::convert::From'):
            return self(t.a[2])
        if t.op == 'app' and t.a[0].endswith('::encode_to_vec'):
            return None
        self.bad.append(show(t)[:80])
        return None


def clean(x):
    """Drops absent entries, so that both sides compare alike."""
    if isinstance(x, dict):
        return {n: clean(v) for n, v in x.items() if v is not None and v != [] and v != {}}
    if isinstance(x, list):
        return [clean(v) for v in x]
    return x


FIELD = ['name', 'number', 'label', 'type', 'type_name', 'extendee', 'default_value', 'oneof_index', 'json_name', 'proto3_optional']


def cmp_field(C, key, got, want, n):
    for a in FIELD:
        n[0] += 1
        g, w = got.get(a), want.get(a)
        if a == 'proto3_optional':
            g, w = bool(g), bool(w)
        C.ob(g == w, '%s.%s:%s' % (key, want.get('name'), a), 'the built-in pool says %r, the protobuf schema %r' % (g, w), 'well-known field attribute')
    gp, wp = (got.get('options') or {}).get('packed'), (want.get('options') or {}).get('packed')
    C.ob((None if gp is None else bool(gp)) == (None if wp is None else bool(wp)), '%s.%s:packed' % (key, want.get('name')),
         'the built-in pool says packed=%r, the protobuf schema %r' % (gp, wp), 'well-known field attribute')


def byname(C, key, got, want, what):
    """Every element of the schema must be there, with the same name and in the same order; more (of a newer release) may be."""
    g = {x.get('name'): x for x in got}
    C.ob(len(g) == len(got), '%s:%s unique' % (key, what), 'a name occurs twice', 'names unique')
    for w in want:
        if C.ob(w['name'] in g, '%s.%s:present' % (key, w['name']), '%s is missing from the built-in pool' % what, what + ' present'):
            yield w['name'], g[w['name']], w


def cmp_msg(C, key, got, want, n):
    for nm, g, w in byname(C, key, got.get('field', []), want.get('field', []), 'field'):
        cmp_field(C, 'field:' + key, g, w, n)
    nums = [f.get('number') for f in got.get('field', [])]
    C.ob(len(set(nums)) == len(nums) and all(isinstance(x, int) for x in nums), 'numbers:' + key, 'field numbers %s' % nums, 'field numbers distinct')
    C.ob([o.get('name') for o in got.get('oneof_decl', [])] == [o['name'] for o in want.get('oneof_decl', [])], 'oneofs:' + key, 'oneof names differ', 'oneofs')
    C.ob(bool((got.get('options') or {}).get('map_entry')) == bool((want.get('options') or {}).get('map_entry')), 'map_entry:' + key, 'map_entry differs', 'map_entry')
    rg = lambda rs: sorted((r.get('start'), r.get('end')) for r in rs)
    C.ob(set(rg(want.get('extension_range', []))) == set(rg(got.get('extension_range', []))), 'extension ranges:' + key,
         '%s, expected %s' % (rg(got.get('extension_range', [])), rg(want.get('extension_range', []))), 'extension ranges')
    for nm, g, w in byname(C, key, got.get('nested_type', []), want.get('nested_type', []), 'message'):
        cmp_msg(C, key + '.' + nm, g, w, n)
    for nm, g, w in byname(C, key, got.get('enum_type', []), want.get('enum_type', []), 'enum'):
        cmp_enum(C, key + '.' + nm, g, w, n)


def cmp_enum(C, key, got, want, n):
    n[0] += 1
    gv, wv = [[(v.get('name'), v.get('number')) for v in x.get('value', [])] for x in (got, want)]
    C.ob(set(wv) <= set(gv) and len(dict(gv)) == len(gv) and gv[:1] and gv[0][1] == wv[0][1],
         'enum:' + key, 'values differ from the protobuf schema', 'enum values')


def global_pool(p, C, builtin):
    """The global pool starts as the built-in set, and global(), and the functions that add to the global pool, use that one pool."""
    ret = lambda f: p.ts(p.bodies[p.fn_by_name[f][0]['key']].locals[0]) if p.fn_by_name[f][0]['key'] in p.bodies else ''
    mut = {f['n'] for f in p.fns if f['key'] in p.bodies and p.bodies[f['key']].argc and p.ts(p.bodies[f['key']].locals[1]).startswith('&mut ')
           and p.ts(p.bodies[f['key']].locals[1]).endswith('DescriptorPool')}
    mkp = sorted(f for f in p.fn_by_name if f.startswith('prost_reflect::reflect::') and 'Result<' in ret(f) and 'DescriptorPool,' in ret(f))
    C.ob(len(mkp) == 1, 'pool constructor', 'constructors of the well-known pool: %s' % mkp, 'global pool')
    for f in mkp:
        E = Engine(p, opaque=mut | set(builtin) | {POOLN + 'new'}, watch={m: m for m in mut})
        fs = E.run(f)
        C.inlined(E)
        n = 0
        for x in fs:
            evs = [e for e in x.trace if isinstance(e, T)]
            okk = len(evs) == 1 and evs[0].a[0] in mut and evs[0].a[1].op == 'app' and evs[0].a[1].a[0] == POOLN + 'new'
            src = evs[0].a[2] if okk else None
            seen = [] if src is None else list(walk(src))
            okk = okk and src is not None and src.op in ('iter', 'app', 'proj') and len(seen) <= 8 and any(y.op == 'app' and y.a[0] in builtin for y in seen)
            C.ob(okk, 'pool constructor:whole set', 'the pool is built by %s' % [show(e)[:160] for e in evs], 'global pool')
            n += x.ret.op == 'agg' and x.ret.a[1] == 0
        C.ob(n == 1, 'pool constructor:result', 'successful results: %d' % n, 'global pool')
    stat = set()
    inits = {}
    for f, inner in (('global', None), ('decode_global_file_descriptor_set', 'decode_file_descriptor_set'), ('add_global_file_descriptor_proto', 'add_file_descriptor_proto')):
        inn = {POOLN + inner} if inner else set()
        cl = set(only_existing(p, ['<prost_reflect::descriptor::DescriptorPool as core::clone::Clone>::clone']))
        E = Engine(p, opaque=set(mkp) | inn | cl, watch={POOLN + inner: 'mutate'} if inner else None)
        E.inits = inits
        for x in E.run(POOLN + f, args={0: mk('input')} if inner else {}):
            if inner:
                evs = [e for e in x.trace if isinstance(e, T)]
                C.ob(len(evs) == 1 and evs[0].a[2] is mk('input'), 'global:' + f, 'calls %s' % [show(e)[:160] for e in evs], 'global pool')
                src = evs[0].a[1] if evs else UNIT
                res = {x.ret.a[1]} if x.ret.op == 'agg' else set()
            else:
                src = x.ret
            st = {y for y in walk(src) if y.op == 'static'}
            copied = inner and any(y.op == 'app' and y.a[0] in cl for y in walk(src))
            C.ob(len(st) == 1 and not copied, 'global:%s:static' % f, 'works on %s' % show(src)[:200], 'global pool')
            stat |= st

    def built(t, depth=0):
        seen = list(walk(t))
        return any(y.op == 'app' and y.a[0] in mkp for y in seen) or depth < 4 and any(
            y.op == 'app' and y.a[0] == 'static:init' and inits.get(y.a[2]) and all(built(v, depth + 1) for v in inits[y.a[2]]) for y in seen)
    for s in stat:
        vs = inits.get(s, set())
        C.ob(bool(vs) and all(built(v) for v in vs), 'global:starts', 'the global pool starts as %s' % [show(v)[:120] for v in vs], 'global pool')
    C.ob(len(stat) == 1, 'global:one pool', 'the global pool functions use %s' % sorted(map(show, stat)), 'global pool')


def run(p, C):
    files = oracle()
    for nm in ('global', 'get_message_by_name'):
        p.find(POOLN + nm)
    opq = {POOLN + 'global', POOLN + 'get_message_by_name'}
    # 1. implementations
    impls = {}
    for im in sorted(n for n in p.fn_by_name if n.endswith(TR) and n.startswith('<')):
        impls[im[1:-len(TR)]] = im
    want = {t: 'google.protobuf.' + w for t, w in WRAP.items()}
    wrapped = set(want.values())
    for f in files:
        path = 'prost_types::compiler' if f['package'].endswith('compiler') else 'prost_types::protobuf'
        for full, m in all_messages(f.get('message_type', []), f['package']):
            if (m.get('options') or {}).get('map_entry') or full in wrapped:
                continue
            want[rust_name(path, full[len(f['package']) + 1:])] = full
    n = 0
    for ty, im in impls.items():
        if ty == 'prost_reflect::dynamic::DynamicMessage' or '<M>' in ty or ty.endswith('<M, A>'):
            continue
        E = Engine(p, opaque=opq)
        fs = E.run(im)
        C.inlined(E)
        exp = want.get(ty)
        n += 1
        got = set()
        for f in fs:
            r = f.ret
            if r.op == 'proj' and r.a[1] == 1:
                r = r.a[0]
            ok_ = r.op == 'app' and r.a[0] == POOLN + 'get_message_by_name' and len(r.a) == 4 and r.a[2].op == 'app' \
                and r.a[2].a[0] == POOLN + 'global' and isk(r.a[3])
            # `unwrap` of the lookup: the payload of the option
            got.add(kv(r.a[3]) if ok_ else show(f.ret)[:80])
        C.ob(exp is not None and got == {exp}, 'impl:' + ty, 'descriptor() looks up %s in the global pool, the type is %s' % (sorted(map(str, got)), exp), 'name of the message type')
        if n in (2, 20, 40):
            C.sample('descriptor() of %s is DescriptorPool::global().get_message_by_name(%r)' % (ty, exp))
    C.floor('trait implementations for well-known types', n, 58)
    missing = [t for t in want if t not in impls and t != 'bytes::bytes::Bytes']
    C.cov['well_known_messages_without_a_rust_type'] = missing[:20]
    # delegation
    for ty, im in impls.items():
        if ty == 'prost_reflect::dynamic::DynamicMessage':
            E = Engine(p)
            fs = E.run(im, args={0: mk('self')})
            dm = p.adts[ty]['v'][0]['f']
            i = [j for j, x in enumerate(dm) if p.ts(x[1]) == 'prost_reflect::descriptor::MessageDescriptor' or p.ts(x[1]).endswith('MessageDescriptor')]
            C.ob(len(i) == 1 and {show(f.ret) for f in fs} == {'self().%d' % i[0]}, 'impl:DynamicMessage', 'descriptor() returns %s' % [show(f.ret)[:80] for f in fs], 'dynamic message')
        elif 'alloc::boxed::Box' in ty:
            E = Engine(p)
            fs = E.run(im, args={0: mk('self')})
            rs = {f.ret for f in fs}
            C.ob(len(rs) == 1 and all(x.op == 'app' and x.a[0].endswith('ReflectMessage::descriptor') and mk('self') in walk(x) for x in rs),
                 'impl:Box', 'descriptor() returns %s' % [show(x) for x in rs], 'boxed message')
    # 2. the built-in schema
    fn = [f for f in p.fn_by_name if f.startswith('prost_reflect::reflect::') and p.bodies.get(p.fn_by_name[f][0]['key']) is not None
          and p.ts(p.bodies[p.fn_by_name[f][0]['key']].locals[0]) == DT + 'FileDescriptorSet']
    C.ob(len(fn) == 1, 'builtin set', 'constructors of the built-in descriptor set: %s' % fn, 'built-in set')
    cnt = [0]
    for f in fn[:1]:
        E = Engine(p, max_steps=4000000)
        fs = E.run(f)
        C.inlined(E)
        conv = Conv(p)
        C.ob(len(fs) == 1, 'builtin constant', 'the built-in set is not a constant', 'built-in set')
        got = clean(conv(fs[0].ret))
        C.ob(not conv.bad, 'builtin constant parts', 'not constant: %s' % conv.bad[:3], 'built-in set')
        gf = {x.get('name'): x for x in got.get('file', [])}
        order = [x.get('name') for x in got.get('file', [])]
        C.ob(len(gf) == len(order), 'files unique', 'a file occurs twice: %s' % order, 'built-in set')
        for w in files:
            if not C.ob(w['name'] in gf, 'file:' + w['name'], 'missing from the built-in pool', 'built-in set'):
                continue
            g = gf[w['name']]
            for a in ('package', 'syntax'):
                C.ob(g.get(a) == w.get(a), 'file:%s:%s' % (w['name'], a), '%r, expected %r' % (g.get(a), w.get(a)), 'file attribute')
            C.ob(g.get('dependency', []) == w.get('dependency', []), 'file:%s:dependency' % w['name'], 'imports %s' % g.get('dependency'), 'file attribute')
            for nm, a, b in byname(C, w['package'], g.get('message_type', []), w.get('message_type', []), 'message'):
                cmp_msg(C, w['package'] + '.' + nm, a, b, cnt)
            for nm, a, b in byname(C, w['package'], g.get('enum_type', []), w.get('enum_type', []), 'enum'):
                cmp_enum(C, w['package'] + '.' + nm, a, b, cnt)
    C.floor('well-known schema attributes compared', cnt[0], 1900)
    global_pool(p, C, fn)
    c22w.run(p, C)
    C.cov['rule'] = 'the descriptor reported by a type is looked up by the name of that type; the built-in pool equals the protobuf schema'
