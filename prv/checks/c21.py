"""Each typed accessor of Value, MapKey and Kind is evaluated by the abstract interpreter once per variant: it must return the
content of that very variant (by value or by reference) for the variant it is named after and None for every other, without
writing through its argument. into_map_key and From<MapKey> are evaluated per variant and composed."""
from prv.wire import *

LEVEL = 'proof'
V = {'as_bool': 'Bool', 'as_u32': 'U32', 'as_u64': 'U64', 'as_i32': 'I32', 'as_i64': 'I64', 'as_f32': 'F32', 'as_f64': 'F64',
     'as_enum_number': 'EnumNumber', 'as_str': 'String', 'as_bytes': 'Bytes', 'as_message': 'Message', 'as_list': 'List', 'as_map': 'Map',
     'as_bool_mut': 'Bool', 'as_u32_mut': 'U32', 'as_u64_mut': 'U64', 'as_i32_mut': 'I32', 'as_i64_mut': 'I64', 'as_f32_mut': 'F32',
     'as_f64_mut': 'F64', 'as_enum_number_mut': 'EnumNumber', 'as_string_mut': 'String', 'as_bytes_mut': 'Bytes',
     'as_message_mut': 'Message', 'as_list_mut': 'List', 'as_map_mut': 'Map'}
M = {n: v for n, v in V.items() if v in ('Bool', 'U32', 'U64', 'I32', 'I64', 'String')}


def fst(x):
    return mk('content', x)


def accessor(p, C, ty, names, owner):
    VI = vidx(p, ty)
    n = 0
    for a, want in names.items():
        fn = '%s::%s' % (ty, a)
        p.find(fn)
        for v, i in VI.items():
            E = Engine(p)
            writes = []
            E.on_write = lambda st, base, path, val: writes.append((base, path))
            x = mk('content')
            # the value lives behind the reference argument, so that a returned reference can be told from a copy
            obj = mk('obj')
            arg = mk('ref', obj, ())

            def setup(st, vals):
                st.mem[obj] = agg(ty, i, x)
            r = E.run(fn, args={0: arg}, setup=setup)
            C.inlined(E)
            n += 1
            got = {f.ret for f in r}
            exp = {some(x)} if v == want else {NONE_OPT}
            after = {f.st.mem.get(obj) for f in r}
            C.ob(bool(r) and got == exp and not E.panics, 'accessor:%s::%s:%s' % (owner, a, v),
                 '%s on %s::%s returns %s, expected %s' % (fn, owner, v, [show(g) for g in got], [show(g) for g in exp]), 'accessor table')
            C.ob(after == {agg(ty, i, x)}, 'accessor-pure:%s::%s:%s' % (owner, a, v),
                 '%s changes the value it reads: %s' % (fn, [show(g) for g in after if g]), 'accessor does not change the value')
    return n


def run(p, C):
    n = accessor(p, C, VAL, V, 'Value') + accessor(p, C, MK, M, 'MapKey')
    VI, MI, KI = vidx(p, VAL), vidx(p, MK), vidx(p, KIND)
    for a, want in (('as_message', 'Message'), ('as_enum', 'Enum')):
        for kd, i in KI.items():
            E = Engine(p)
            x = mk('content')
            r = E.run(KIND + '::' + a, args={0: agg(KIND, i, x) if kd in ('Message', 'Enum') else agg(KIND, i)})
            C.inlined(E)
            n += 1
            got = {f.ret for f in r}
            C.ob(got == ({some(x)} if kd == want else {NONE_OPT}), 'accessor:Kind::%s:%s' % (a, kd), 'returns %s' % [show(g) for g in got], 'accessor table')
    # conversions
    back = '<%s as core::convert::From<%s>>::from' % (VAL, MK)
    for v, i in VI.items():
        x = mk('content')
        E = Engine(p)
        r = E.run(VAL + '::into_map_key', args={0: agg(VAL, i, x)})
        C.inlined(E)
        got = {f.ret for f in r}
        exp = {some(agg(MK, MI[v], x))} if v in MI else {NONE_OPT}
        n += 1
        C.ob(got == exp, 'into_map_key:' + v, 'Value::%s -> %s, expected %s' % (v, [show(g) for g in got], [show(g) for g in exp]), 'into_map_key')
    for v, i in MI.items():
        x = mk('content')
        E = Engine(p)
        r = E.run(back, args={0: agg(MK, i, x)})
        C.inlined(E)
        got = {f.ret for f in r}
        n += 1
        C.ob(v in VI and got == {agg(VAL, VI[v], x)}, 'from_map_key:' + v, 'MapKey::%s -> %s' % (v, [show(g) for g in got]), 'From<MapKey>')
    C.cov['rule'] = 'accessor/conversion result per variant'
    C.floor('accessor x variant evaluations', n, 430)
    C.sample('Value::as_str on Value::String(content) returns Some(content); on the 12 other variants None')
