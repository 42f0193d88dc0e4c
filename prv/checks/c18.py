"""The JSON visitors used for every numeric kind and wrapper are found by evaluating the kind dispatch; each visit method is
evaluated with intervals: the accepted values are exactly those representable in the target type and the result equals them.
Map keys and the text-format integer parser are evaluated the same way on each token shape. Every serializer call made for a
numeric value (field, element, map key, wrapper) is evaluated per option and per class of floating-point value."""
from prv.serde import *

LEVEL = 'proof'
F32MAX = 3.4028234663852886e+38
INTS = {'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'}
SEED = "<prost_reflect::dynamic::serde::de::kind::%s<'_> as serde_core::de::%s<'de>>::%s"


def conv(p, C, adt, T, tag, unwrap=lambda t: t):
    """All visit methods of one visitor against the target type."""
    vs = visits(p, adt)
    n = 0
    for m, fn in sorted(vs.items()):
        src = m[6:]
        E = Engine(p, opaque=opaque_api(p))
        x = mk('input')
        r = E.run(fn, args={1: x})
        C.inlined(E)
        n += 1
        key = '%s:%s' % (tag, m)
        bad = []
        if src in INTS and T in INTS:
            bad = exact_int(r, x, src, T, unwrap)
        elif src in INTS and T in ('f32', 'f64'):
            for f, v in oks(r):
                if not (v.op == 'cast' and v.a[0] == T and v.a[1] is x):
                    bad.append('result %s' % show(v)[:100])
            if not oks(r):
                bad.append('never accepted')
        elif src == 'f64' and T in INTS:
            bad = exact_float_to_int(r, x, T, unwrap)
        elif src == T:
            if [v for f, v in oks(r)] != [x] or len(r) != 1:
                bad = ['result %s' % [show(f.ret)[:80] for f in r]]
        elif src == 'f64' and T == 'f32':
            for f, v in oks(r):
                lo, hi, _ = float_bounds(f, x)
                fin = [d for t, d in f.facts.items() if t.op == 'app' and t.a[0].endswith('is_finite') and v in t.a]
                if not (v.op == 'cast' and v.a[1] is x):
                    bad.append('result %s' % show(v)[:100])
                elif fin == [('+', frozenset([1]))]:
                    pass
                elif lo is None or hi is None or lo[0] != -F32MAX or hi[0] != F32MAX or not lo[1] or not hi[1]:
                    bad.append('accepted range %s..%s for a 32-bit float' % (lo, hi))
            if not oks(r):
                bad.append('never accepted')
        elif src == 'str':
            want = mk('proj', mk('app', '<%s as core::str::traits::FromStr>::from_str' % T, None, x), 0, 0)
            seen = 0
            for f, v in oks(r):
                d = f.facts.get(x)
                if v is want:
                    seen += 1
                elif isk(v) and T in ('f32', 'f64') and d and d[0] == '+' and all(
                        {'Infinity': 'inf', '-Infinity': '-inf', 'NaN': 'nan'}.get(z) == str(kv(v)) for z in d[1]):
                    pass
                else:
                    v = unwrap(v)
                    if v is want and v is not None:
                        seen += 1
                    else:
                        bad.append('result %s' % (show(v)[:120] if v is not None else 'unexpected'))
            if not seen:
                bad.append('numeric text is never accepted')
        elif src == 'string' and T == 'never':
            pass
        elif oks(r) and not (src == 'str' or src in ('some', 'newtype_struct')):
            bad = ['%s accepted for %s' % (src, T)]
        C.ob(not bad and not E.panics, key, '%s of %s (%s): %s' % (m, adt.split('::')[-1], T, '; '.join(bad)[:400] or 'may panic'), 'JSON numbers')
    for need in ('visit_i64', 'visit_u64', 'visit_f64', 'visit_str') if T != 'bool' else ('visit_bool',):
        C.ob(need in vs, '%s:%s:missing' % (tag, need), '%s does not accept %s' % (adt.split('::')[-1], need), 'JSON numbers')
    return n


def visitor_of(p, C, kd, E, r, what):
    out = set()
    for f in r:
        for e, _ in events(f.trace):
            if e.a[0].startswith('deserialize_'):
                v = e.a[2] if len(e.a) > 2 else None
                out.add(v.a[0] if v is not None and v.op == 'agg' else show(v)[:60] if v is not None else None)
    if not C.ob(len(out) == 1 and None not in out, '%s:visitor' % what, '%s is read through %s' % (what, sorted(map(str, out))), 'JSON dispatch'):
        return None
    return next(iter(out))


def run(p, C):
    n = 0
    VI, MI, KI = vidx(p, VAL), vidx(p, MK), vidx(p, KIND)
    api = opaque_api(p)
    # 1. JSON values and wrappers
    for kd, T in TY.items():
        E = Engine(p, opaque=api, watch=de_watch)
        r = E.run(SEED % ('KindSeed', 'DeserializeSeed', 'deserialize'), args={0: agg(DYN + 'serde::de::kind::KindSeed', 0, kindterm(p, kd), mk('options'))})
        C.inlined(E)
        adt = visitor_of(p, C, kd, E, r, 'json:' + kd)
        for f, v in oks(r):
            # the value stored is the one the visitor returned
            inner = v.a[2] if v.op == 'agg' and v.a[1] == 1 else None
            ok = inner is not None and inner.op == 'agg' and inner.a[2].op == 'proj' and inner.a[2].a[0].op == 'app' and 'deserialize_' in inner.a[2].a[0].a[0]
            C.ob(ok, 'json:%s:stored' % kd, 'stored value %s' % show(v)[:200], 'JSON dispatch')
        if adt:
            n += conv(p, C, adt, T, 'json:' + kd)
    for name, T in WKT.items():
        if T not in INTS | {'f32', 'f64', 'bool'}:
            continue
        E = Engine(p, opaque=api + [DESC + 'MessageDescriptor::parent_pool'], watch=de_watch)
        E.opaque |= {DM + 'transcode_from', DM + 'new'}
        E.typed = {DM + 'transcode_from': 0}
        E.oracle = lambda n_, a, res: k('google.protobuf.' + name) if n_.endswith('::full_name') else None
        r = E.run(DM + 'deserialize_with_options')
        C.inlined(E)
        adt = visitor_of(p, C, name, E, r, 'wrapper:' + name)
        if adt:
            n += conv(p, C, adt, T, 'wrapper:' + name)
    # enum numbers
    E = Engine(p, opaque=api, watch=de_watch)
    E.oracle = lambda n_, a, res: k('pkg.Other') if n_.endswith('EnumDescriptor::full_name') else None
    E.opaque.add(DESC + 'EnumDescriptor::full_name')
    r = E.run(SEED % ('KindSeed', 'DeserializeSeed', 'deserialize'), args={0: agg(DYN + 'serde::de::kind::KindSeed', 0, kindterm(p, 'Enum'), mk('options'))})
    adt = visitor_of(p, C, 'Enum', E, r, 'json:Enum')
    if adt:
        for m, fn in sorted(visits(p, adt).items()):
            if m[6:] in INTS:
                E = Engine(p, opaque=api)
                x = mk('input')
                r = E.run(fn, args={1: x})
                n += 1
                bad = exact_int(r, x, m[6:], 'i32', lambda t: t.a[2] if t.op == 'agg' and t.a[1] == 1 else None)
                C.ob(not bad, 'json:Enum:' + m, '%s of an enum: %s' % (m, '; '.join(bad)), 'JSON numbers')
    # 2. JSON map keys
    for key in KEYKINDS:
        S = Scenario(p, 'Int32', 'map', key, watch=lambda n_, r_, c_: 'insert' if n_.endswith('HashMap::insert') or r_.endswith('HashMap::insert') else None)
        stop = only_existing(p, [DYN + 'serde::de::deserialize_message', DYN + 'serde::de::deserialize_enum'])
        S.E.opaque |= set(stop)
        r = S.E.run(SEED % ('MapVisitor', 'Visitor', 'visit_map'), args={0: agg(DYN + 'serde::de::kind::MapVisitor', 0, agg(KIND, KI['Message'], mk('kindof', mk('d'))), mk('options'))})
        C.inlined(S.E)
        n += 1
        v = KINDS[key][0]
        T = TY.get(key)
        keys = {e.a[2] for f in r for e, _ in events(f.trace) if e.a[0] == 'insert'}
        C.ob(bool(keys), 'jsonkey:%s:none' % key, 'no map entry is ever inserted', 'JSON map keys')
        for t in keys:
            ok = t.op == 'agg' and t.a[0] == MK and t.a[1] == MI[v]
            if ok and T:
                c = t.a[2]
                ok = c.op == 'proj' and c.a[1:] == (0, 0) and c.a[0].op == 'app' and c.a[0].a[0] == '<%s as core::str::traits::FromStr>::from_str' % T
            C.ob(ok, 'jsonkey:' + key, 'a %s key is converted by %s' % (key, show(t)[:160]), 'JSON map keys')
    # 3. text format integers and floats
    n += text(p, C)
    # 4. JSON output
    n += write(p, C)
    C.floor('conversions evaluated', n, 150)
    C.sample('Int64: visit_f64 accepts exactly -2^63 <= v < 2^63 with zero fraction')


def text(p, C):
    TOK = DYN + 'text_format::parse::lex::Token'
    INT = DYN + 'text_format::parse::lex::Int'
    TI = vidx(p, TOK)
    txt, radix, flt = mk('text'), mk('radix'), mk('literal')
    ident = mk('ident')

    def mkint():
        names = [f['n'] if isinstance(f, dict) else f[0] for f in p.adts[INT]['v'][0]['f']]
        return agg(INT, 0, *[txt if nm == 'value' else radix for nm in names])
    T_INT, T_FLT, T_MINUS, T_ID = (agg(TOK, TI['IntLiteral'], mkint()), agg(TOK, TI['FloatLiteral'], flt), agg(TOK, TI['Minus']), agg(TOK, TI['Ident'], ident))
    n = 0

    def parse(kd, script):
        E = token_engine(p, script)
        r = E.run(PARSER + 'parse_value', args={1: kindterm(p, kd)})
        C.inlined(E)
        return E, r
    for kd, T in TY.items():
        if T == 'bool':
            continue
        want = vidx(p, VAL)[KINDS[kd][0]]
        pay = lambda t: t.a[2].a[2] if t.op == 'agg' and t.a[0] == 'tuple' and t.a[2].op == 'agg' and t.a[2].a[1] == want else None
        for neg in (0, 1):
            for shape, tok in (('int', T_INT), ('float', T_FLT), ('ident', T_ID)):
                E, r = parse(kd, ([T_MINUS] if neg else []) + [tok])
                n += 1
                key = 'text:%s:%s%s' % (kd, '-' if neg else '', shape)
                good = oks(r)
                bad = []
                if T in INTS:
                    if shape != 'int':
                        if good:
                            bad.append('accepted')
                    elif neg and T[0] == 'u':
                        # only -0 may be accepted
                        for f, v in good:
                            v = pay(v)
                            if v is None or not isk(v) or kv(v) != 0:
                                bad.append('negative number accepted as %s' % (show(v)[:80] if v is not None else None))
                    else:
                        atoms = {x for f, v in good for x in walk(v) if from_radix(x)} | {x for f, v in good for t in list(f.facts) + list(f.st.iv) for x in walk(t) if from_radix(x)}
                        atoms = {mk('proj', a, 0, 0) for a in atoms}
                        srcs = {a.a[0].a[0].split('>')[0][1:] for a in atoms}
                        if len(atoms) != 1:
                            bad.append('values come from %s' % [show(a)[:80] for a in atoms])
                        else:
                            a = next(iter(atoms))
                            if a.a[0].a[2:] != (txt, radix):
                                bad.append('parses %s' % show(a)[:100])
                            bad += exact_int(r, a, next(iter(srcs)), T, pay, bool(neg))
                else:
                    if not good:
                        bad.append('never accepted')
                    for f, v in good:
                        v = pay(v)
                        if v is None:
                            bad.append('unexpected result')
                            continue
                        if shape == 'ident':
                            z = folded(v)
                            spell = [t.a[3] for t, d in f.facts.items() if t.op == 'app' and 'eq_ignore_ascii_case' in t.a[0] and ident in t.a and d == ('+', frozenset([1])) and isk(t.a[3])]
                            spell = [kv(s) for s in spell]
                            w = z
                            if z == 'nan':
                                ok = not spell or spell == ['nan']
                            else:
                                ok = z == (-math.inf if neg else math.inf) and all(s in ('inf', 'infinity') for s in spell)
                            if not ok:
                                bad.append('%s for %s' % (show(v), spell))
                        else:
                            if T == 'f32':
                                if v.op == 'cast' and v.a[0] == 'f32':
                                    v = v.a[1]
                            sgn = 0
                            if v.op == 'un' and v.a[0] == 'Neg':
                                sgn, v = 1, v.a[1]
                            if sgn != neg:
                                bad.append('sign lost: %s' % show(v)[:80])
                            if shape == 'float' and v is not flt:
                                bad.append('value %s' % show(v)[:80])
                            if shape == 'int':
                                base = v
                                okk = base.op == 'proj' and base.a[0].op == 'app' and base.a[0].a[0] in (
                                    '<f64 as core::str::traits::FromStr>::from_str', '<f32 as core::str::traits::FromStr>::from_str') and base.a[0].a[2] is txt
                                if not okk or f.facts.get(radix) != ('+', frozenset([10])):
                                    bad.append('integer literal converted by %s' % show(v)[:100])
                C.ob(not bad, key, '%s %s literal for a %s field: %s' % ('negative' if neg else 'positive', shape, kd, '; '.join(bad)[:400]), 'text numbers')
    return n


def folded(v):
    """Constant value of a float term built from constants."""
    if isk(v):
        return kv(v)
    if v.op == 'cast':
        return folded(v.a[1])
    if v.op == 'un' and v.a[0] == 'Neg':
        z = folded(v.a[1])
        return z if z == 'nan' else None if z is None else -z
    return None


def from_radix(x):
    return x.op == 'app' and x.a[0].endswith('::from_str_radix')


def write(p, C):
    """Serializer calls for each value variant."""
    n = 0
    names = [f for f in p.fn_by_name if f.startswith('<prost_reflect::dynamic::serde::ser::') and f.endswith('serde_core::ser::Serialize>::serialize')]
    vfn = [f for f in names if 'ValueAndKind' in f]
    kfn = [f for f in names if 'MapKey' in f]
    if not vfn or not kfn:
        raise Broken('Serialize implementations of the JSON value wrapper not found')
    VI, MI = vidx(p, VAL), vidx(p, MK)
    WRAP = DYN + 'serde::ser::SerializeWrapper'
    VK = DYN + 'serde::ser::ValueAndKind'
    OPT = DYN + 'serde::SerializeOptions'
    on = [f['n'] if isinstance(f, dict) else f[0] for f in p.adts[OPT]['v'][0]['f']]

    def wrap(inner, opts):
        fn = [f['n'] if isinstance(f, dict) else f[0] for f in p.adts[WRAP]['v'][0]['f']]
        return agg(WRAP, 0, *[inner if x == 'value' else opts for x in fn])

    def opts(stringify):
        return agg(OPT, 0, *[k(stringify) if x == 'stringify_64_bit_integers' else mk('opt', x) for x in on])
    if 'stringify_64_bit_integers' not in on:
        raise Broken('option stringify_64_bit_integers not found')

    def calls(r):
        return [(f, [(e.a[0], e.a[2:]) for e, _ in events(f.trace)]) for f in r]

    def as_text(ev, x):
        # the decimal text of the number, formatted by the serializer or beforehand
        if len(ev) != 1 or len(ev[0][1]) != 1:
            return False
        y = ev[0][1][0]
        return ev[0][0] == 'collect_str' and y is x or ev[0][0] == 'serialize_str' and y.op == 'app' and y.a[0].endswith('to_string') and y.a[-1] is x

    def check_num(r, x, T, s, key):
        bad = []
        cs = calls(r)
        seen = set()
        for f, ev in cs:
            if T in ('i64', 'u64') and s:
                if not as_text(ev, x):
                    bad.append('written by %s' % [(a, [show(z)[:60] for z in b]) for a, b in ev])
            elif T in INTS:
                if ev != [('serialize_' + T, (x,))]:
                    bad.append('written by %s' % [(a, [show(z)[:60] for z in b]) for a, b in ev])
            else:
                cl = fclasses(f, x)
                if len(ev) != 1:
                    bad.append('undetermined case %s' % [a for a, b in ev])
                    continue
                seen |= cl
                for c in cl:
                    want = ('serialize_' + T, (x,)) if c == 'finite' else ('serialize_str', (k({'inf': 'Infinity', '-inf': '-Infinity', 'nan': 'NaN'}[c]),))
                    if ev[0] != want:
                        bad.append('%s written by %s(%s)' % (c, ev[0][0], [show(z)[:40] for z in ev[0][1]]))
        if T in ('f32', 'f64') and seen != set(CLASSES):
            bad.append('classes %s only' % sorted(seen))
        if not cs:
            bad.append('nothing is written')
        C.ob(not bad, key, '%s (64-bit as strings: %s): %s' % (key, s, '; '.join(bad)[:400]), 'JSON output')
    for v, T in (('I32', 'i32'), ('I64', 'i64'), ('U32', 'u32'), ('U64', 'u64'), ('F32', 'f32'), ('F64', 'f64')):
        for s in (0, 1):
            x = mk('content')
            E = Engine(p, opaque=opaque_api(p), watch=ser_watch)
            vk = [f['n'] if isinstance(f, dict) else f[0] for f in p.adts[VK]['v'][0]['f']]
            val = agg(VAL, VI[v], x)
            r = E.run(vfn[0], args={0: wrap(agg(VK, 0, *[val if z == 'value' else mk('kind') for z in vk]), opts(s))})
            C.inlined(E)
            n += 1
            check_num(r, x, T, s, 'write:%s:%d' % (v, s))
            if T in INTS:
                E = Engine(p, opaque=opaque_api(p), watch=ser_watch)
                r = E.run(kfn[0], args={0: wrap(agg(MK, MI[v], x), opts(s))})
                n += 1
                ev = [e for f, e in calls(r)]
                C.ob(len(ev) == 1 and as_text(ev[0], x), 'writekey:%s' % v, 'a map key is written by %s' % str(ev)[:200], 'JSON output')
    for name, T in WKT.items():
        if T not in INTS | {'f32', 'f64'}:
            continue
        for s in (0, 1):
            E = Engine(p, opaque=opaque_api(p), watch=ser_watch)
            E.typed = {DM + 'transcode_to': 0}
            E.opaque.add(DM + 'transcode_to')
            E.oracle = lambda n_, a, res: k('google.protobuf.' + name) if n_.endswith('::full_name') else None
            r = E.run(DM + 'serialize_with_options', args={2: opts(s)})
            C.inlined(E)
            n += 1
            xs = {t for f in r for e, _ in events(f.trace) for z in e.a[1:] for t in walk(z) if t.op == 'proj' and t.a[0].op == 'app' and 'transcode_to' in t.a[0].a[0]}
            ok = len(xs) == 1 and next(iter(xs)).a[0].a[0].endswith('<%s>' % T)
            C.ob(ok, 'writewrapper:%s:type' % name, 'the content of %s is taken as %s' % (name, [show(x)[:80] for x in xs]), 'JSON output')
            if ok:
                check_num([f for f in r if list(events(f.trace))], next(iter(xs)), T, s, 'writewrapper:%s:%d' % (name, s))
    return n
