"""The validity predicate, the defaults and every place that makes a Value for a kind (text parser, JSON kind and map-key
dispatch, default-value parser) are evaluated by the abstract interpreter for every kind (and every candidate variant); the
resulting table must be the kind -> variant table."""
from prv.kinds import *

LEVEL = 'proof'
SEED = "<prost_reflect::dynamic::serde::de::kind::%s<'_> as serde_core::de::%s<'de>>::%s"
ZERO = {'Bool': k(0), 'I32': k(0), 'I64': k(0), 'U32': k(0), 'U64': k(0), 'F32': k(0.0), 'F64': k(0.0), 'String': k('')}


def run(p, C):
    VI, MI, KI, XI = vidx(p, VAL), vidx(p, MK), vidx(p, KIND), vidx(p, KINDIDX)
    n = 0
    # 1. is_valid of a value / key for a kind
    for adt, idx, owner in ((VAL, VI, 'Value'), (MK, MI, 'MapKey')):
        for kd in KINDS:
            for v, i in idx.items():
                E = Engine(p, opaque=opaque_api(p))
                r = E.run(adt + '::is_valid', args={0: agg(adt, i, mk('content')), 1: kindterm(p, kd)})
                C.inlined(E)
                n += 1
                want = KINDS[kd][0] == v and (owner == 'Value' or kd in KEYKINDS)
                got = {f.ret for f in r}
                C.ob(got == {k(int(want))} and not E.panics, 'is_valid:%s::%s/%s' % (owner, v, kd),
                     '%s::%s is_valid for %s gives %s, expected %s' % (owner, v, kd, [show(g) for g in got], want), 'is_valid table')
    # 2. is_valid_for_field / _extension: cardinality
    for fn in ('field', 'extension'):
        for kd in KINDS:
            good = KINDS[kd][0]
            bad = 'I64' if good != 'I64' else 'I32'
            for shape, key in (('one', None), ('list', None)) + (('map', 'Int32'), ('map', 'String')) * (fn == 'field'):
                for v in VI:
                    elems = (good, bad) if v in ('List', 'Map') else (good,)
                    keys = (KINDS[key][0], 'Bool') if shape == 'map' and v == 'Map' else (None,)
                    for ev in elems:
                        for kv_ in keys:
                            S = Scenario(p, kd, shape, key)
                            S.variant = {'field': v, 'elem': ev, 'value': ev}
                            base = S.dhook

                            def dh(x, adt, S=S, base=base, kv_=kv_):
                                if adt == MK and kv_:
                                    return S.MI[kv_]
                                return base(x, adt)
                            S.E.discr_hook = dh
                            r = S.run(VAL + '::is_valid_for_' + fn)
                            C.inlined(S.E)
                            n += 1
                            got = {f.ret for f in r}
                            if shape == 'one':
                                want = {k(int(v == good))}
                            elif v == ('List' if shape == 'list' else 'Map'):
                                ok = ev == good and kv_ in (None, KINDS.get(key, (None,))[0])
                                want = {k(1)} if ok else {k(0), k(1)}   # 1 only for the empty collection
                            else:
                                want = {k(0)}
                            C.ob(got == want and not S.E.panics, 'is_valid_for_%s:%s/%s/%s' % (fn, shape, kd, v),
                                 'is_valid_for_%s of %s value (elements %s, keys %s) for %s %s field gives %s, expected %s' % (
                                     fn, v, ev, kv_, shape, kd, [show(g) for g in got], [show(g) for g in want]), 'is_valid_for_* table')
    # 2b. every element is looked at: elements reached by the whole iteration are the ones that decide
    for fn in ('field', 'extension'):
        for kd in KINDS:
            good = KINDS[kd][0]
            bad = 'I64' if good != 'I64' else 'I32'
            for shape, key in (('list', None), ('map', 'Int32')):
                for it_good in (True, False):
                    S = Scenario(p, kd, shape, key)
                    S.E.track_exhaust = True
                    top = 'List' if shape == 'list' else 'Map'

                    def dh(x, adt, S=S, it_good=it_good, top=top):
                        if adt == MK:
                            return S.MI['I32']
                        if adt != VAL:
                            return None
                        if S.vrole(x) == 'field':
                            return S.VI[top]
                        whole = any(y.op == 'elem' for y in walk(x)) and not any(y.op == 'partial' for y in walk(x))
                        return S.VI[good if whole == it_good else bad]
                    S.E.discr_hook = dh
                    r = S.run(VAL + '::is_valid_for_' + fn)
                    n += 1
                    got = {f.ret for f in r}
                    ok = got == ({k(1)} if it_good else {k(0), k(1)})
                    ends = all(any(t.op == 'exhausted' for t in f.facts) for f in r if f.ret == k(1))
                    C.ob(ok and ends, 'is_valid_for_%s:%s/%s:every-element' % (fn, shape, kd),
                         'is_valid_for_%s of a %s of %s accepts without looking at every element' % (fn, shape, kd), 'every element is checked')
    # 3. default of a kind
    for kd in KINDS:
        E = Engine(p, opaque=opaque_api(p))
        r = E.run(KIND + '::default_value', args={0: kindterm(p, kd)})
        C.inlined(E)
        n += 1
        v = KINDS[kd][0]
        for f in r:
            got = variant_of(p, f.ret)
            ok = got == v
            if ok and v in ZERO:
                ok = f.ret.a[2] == ZERO[v]
            C.ob(ok, 'default:Kind/' + kd, 'default of %s is %s' % (kd, show(f.ret)), 'kind default')
        C.ob(bool(r), 'default:Kind/%s:none' % kd, 'default_value never returns', 'kind default')
    for kd in KEYKINDS:
        E = Engine(p, opaque=opaque_api(p))
        r = E.run(MK + '::default_value', args={0: kindterm(p, kd)})
        C.inlined(E)
        n += 1
        v = KINDS[kd][0]
        got = {f.ret for f in r}
        C.ob(got == {agg(MK, MI[v], ZERO[v])} and not E.panics, 'default:MapKey/' + kd, 'default key of %s is %s' % (kd, [show(g) for g in got]), 'key default')
    # 4. default of a field: list / map / declared / kind
    for D in ('FieldDescriptor', 'ExtensionDescriptor'):
        api = [x for x in opaque_api(p) if not x.endswith('::default_value')]
        for shape in ('list', 'map', 'one'):
            for kd in KINDS:
                S = Scenario(p, kd, shape, 'Int32' if shape == 'map' else None)
                S.E.opaque = set(api)
                r = S.run(DESC + D + '::default_value')
                C.inlined(S.E)
                n += 1
                if shape == 'one':
                    # the declared default when there is one (any stored term), otherwise the default of the kind
                    kinds = [variant_of(p, f.ret) for f in r]
                    declared = [f.ret for f in r if variant_of(p, f.ret) is None]
                    ok = sorted(map(str, kinds)) == sorted([KINDS[kd][0], 'None']) and len(declared) == 1
                    # the stored default is returned exactly when there is one
                    for f in r:
                        opt = declared[0].a[0] if declared and declared[0].op == 'proj' else None
                        present = [d for t, d in f.facts.items() if opt is not None and opt in list(walk(t))]
                        ok = ok and len(present) == 1 and present[0] == ('+', frozenset([int(variant_of(p, f.ret) is None)]))
                else:
                    want = 'List' if shape == 'list' else 'Map'
                    ok = bool(r) and all(variant_of(p, f.ret) == want and empty(f.ret.a[2]) for f in r)
                C.ob(ok, 'default:%s/%s/%s' % (D, shape, kd), 'default of a %s %s field is %s' % (shape, kd, [show(f.ret)[:200] for f in r]), 'field default')
    # 5. text format
    stop = only_existing(p, [PARSER + x for x in ('peek', 'bump', 'unexpected_token', 'parse_message_value', 'parse_message', 'parse_field')])
    for kd in KINDS:
        E = Engine(p, opaque=opaque_api(p) + stop)
        r = E.run(PARSER + 'parse_value', args={1: kindterm(p, kd)})
        C.inlined(E)
        n += 1
        got = set()
        for f, x in oks(r):
            got.add(variant_of(p, x.a[2]) if x.op == 'agg' and x.a[0] == 'tuple' else None)
        C.ob(got == {KINDS[kd][0]}, 'text:' + kd, 'text parser makes %s for a %s field' % (sorted(map(str, got)), kd), 'text parser')
    # 6. JSON
    stop = only_existing(p, [DYN + 'serde::de::deserialize_message', DYN + 'serde::de::deserialize_enum'])
    for kd in KINDS:
        E = Engine(p, opaque=opaque_api(p) + stop)
        r = E.run(SEED % ('KindSeed', 'DeserializeSeed', 'deserialize'), args={0: agg(DYN + 'serde::de::kind::KindSeed', 0, kindterm(p, kd), mk('options'))})
        C.inlined(E)
        n += 1
        got = set()
        for f, x in oks(r):
            if x == NONE_OPT:
                got.add('None')
            elif x.op == 'agg' and x.a[1] == 1:
                got.add(variant_of(p, x.a[2]))
            else:
                got.add(str(x)[:80])
        C.ob(got - ({'None'} if kd == 'Enum' else set()) == {KINDS[kd][0]}, 'json:' + kd, 'JSON makes %s for a %s field' % (sorted(map(str, got)), kd), 'JSON kind dispatch')
    for key in KEYKINDS:
        S = Scenario(p, 'Int32', 'map', key, watch=lambda n_, r_, c_: 'insert' if n_.endswith('HashMap::insert') or r_.endswith('HashMap::insert') else None)
        E = S.E
        E.opaque |= set(stop)
        r = E.run(SEED % ('MapVisitor', 'Visitor', 'visit_map'), args={0: agg(DYN + 'serde::de::kind::MapVisitor', 0, agg(KIND, KI['Message'], mk('kindof', mk('d'))), mk('options'))})
        C.inlined(E)
        n += 1
        keys = set()
        for f in r:
            collect(f.trace, keys)
        got = {variant_of(p, x, MK) for x in keys}
        C.ob(got == {KINDS[key][0]}, 'jsonkey:' + key, 'JSON object keys become %s for %s map keys' % (sorted(map(str, got)), key), 'JSON map keys')
        C.ob(not E.panics, 'jsonkey-panic:' + key, 'reaches a panic for %s keys: %s' % (key, E.panics[:2]), 'JSON map keys')
    # 7. declared defaults
    for kd in KINDS:
        if kd in ('Message', 'Enum'):
            continue
        E = Engine(p)
        r = E.run(DESC + 'build::resolve::parse_simple_value', args={0: agg(KINDIDX, XI[kd])})
        C.inlined(E)
        n += 1
        got = {variant_of(p, x) for f, x in oks(r)}
        C.ob(got == {KINDS[kd][0]} and not E.panics, 'declared:' + kd, 'a declared default of a %s field becomes %s' % (kd, sorted(map(str, got))), 'declared default')
    C.floor('table cells evaluated', n, 1500)
    C.sample('Value::is_valid: 13 variants x 17 kinds; is_valid_for_field: shape x kind x variant x element validity x key validity')


def empty(t):
    for x in walk(t):
        if x.op in ('arg', 'proj', 'out', 'phi'):
            return False
    return True


def collect(trace, keys):
    for e in trace:
        if isinstance(e, tuple) and e and e[0] == 'loop':
            for fc, b in e[1]:
                collect(b, keys)
        elif e.op == 'ev' and e.a[0] == 'insert':
            keys.add(e.a[2])
