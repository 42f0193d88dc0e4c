"""The JSON form of every well-known type, derived from the source for all values of the message.

Writing: DynamicMessage::serialize_with_options is evaluated once per well-known name (and once with an unknown name, which
yields the complete partition of names) and the successful paths are compared with the calls the JSON mapping prescribes, made
on the transcoded message.  Reading: the visitor used for each name is found by evaluation and every entry point of it is
evaluated; what reading stores is what writing transcodes.  The field-mask converters are read as transducers and compared with
the reference ones for every string."""
from prv.serde import *
from prv.trans import char_loops, equal, accepts

LEVEL = 'proof'
OPT = 'core::option::Option'
PT = 'prost_types::protobuf::'
NATIVE = {'Any': PT + 'Any', 'Timestamp': PT + 'Timestamp', 'Duration': PT + 'Duration', 'Struct': PT + 'Struct', 'FloatValue': 'f32', 'DoubleValue': 'f64',
          'Int32Value': 'i32', 'Int64Value': 'i64', 'UInt32Value': 'u32', 'UInt64Value': 'u64', 'BoolValue': 'bool',
          'StringValue': 'alloc::string::String', 'BytesValue': 'bytes', 'FieldMask': PT + 'FieldMask', 'ListValue': PT + 'ListValue', 'Value': PT + 'Value',
          'Empty': '()'}
BYTES = ('bytes::bytes::Bytes', 'alloc::vec::Vec<u8>')
NAMES = {'google.protobuf.' + n for n in WKT}


def opq(p):
    return list(opaque_api(p)) + only_existing(p, [DESC + 'MessageDescriptor::parent_pool', POOL + 'get_message_by_name', DM + 'transcode_to', DM + 'transcode_from', DM + 'new'])


def engine(p, name=None, watch=None, own=True):
    E = Engine(p, opaque=opq(p), watch=watch)
    E.typed = {DM + 'transcode_to': 0, DM + 'transcode_from': 0}
    if name:
        def oracle(n, a, r):
            if n.endswith('MessageDescriptor::full_name') and (not own or not any(t.op == 'app' and t.a[0].endswith('get_message_by_name') for t in walk(a[0]))):
                return k(name)
        E.oracle = oracle
    return E


def is_err(f):
    return f.ret.op == 'agg' and f.ret.a[0].endswith('result::Result') and f.ret.a[1] == 1


def native(t):
    """The type a term was transcoded to, when it is the successful result of a transcode of a message."""
    if t.op == 'proj' and t.a[1:] == (0, 0):
        t = t.a[0]
        if t.op == 'app' and t.a[0].startswith(DM + 'transcode_to::<'):
            return t.a[0][len(DM + 'transcode_to::<'):-1], t.a[2] if len(t.a) > 2 else None
    return None, None


def name_of(e):
    return e.a[0]


def arg(e, i):
    return e.a[1 + i] if len(e.a) > 1 + i else None


def flat(tr):
    """Top-level events, and the bodies of the loops at top level."""
    return [e for e in tr if isinstance(e, T)], [e for e in tr if isinstance(e, tuple) and e and e[0] == 'loop']


def size_ok(t, want):
    """A length hint that cannot mislead a serializer: none, or the right one."""
    if t is None or t.op != 'agg':
        return False
    return t.a[1] == 0 or any(t.a[2] is w for w in want)


def entries(evs):
    """serialize_entry, or serialize_key directly followed by serialize_value."""
    out, i = [], 0
    while i < len(evs):
        e = evs[i]
        if e.a[0] == 'serialize_entry':
            out.append((arg(e, 1), arg(e, 2)))
        elif e.a[0] == 'serialize_key' and i + 1 < len(evs) and evs[i + 1].a[0] == 'serialize_value':
            out.append((arg(e, 1), arg(evs[i + 1], 1)))
            i += 1
        else:
            out.append(e)
        i += 1
    return out


def wrapped(t):
    """(value, options) handed on to a nested serializer."""
    if t is not None and t.op == 'agg' and len(t.a) == 4:
        return t.a[2], t.a[3]
    return None, None


def base_elem(t):
    return t.a[0] if t is not None and t.op == 'elem' else None


def collection(f, raw, is_map, C, key, what):
    """serialize_map/seq over every element of `raw`, then end()."""
    evs, loops = flat(f.trace)
    bad = []
    first = 'serialize_map' if is_map else 'serialize_seq'
    if not evs or evs[0].a[0] != first or not size_ok(arg(evs[0], 1), [mk('len', raw), mk('app', 'len', None, raw)]) and not (
            arg(evs[0], 1) is not None and arg(evs[0], 1).op == 'agg' and arg(evs[0], 1).a[1] == 1 and 'len(' in show(arg(evs[0], 1)) and raw in list(walk(arg(evs[0], 1)))):
        bad.append('starts with %s' % ([show(e)[:80] for e in evs[:1]]))
    if len(evs) != 2 or evs[-1].a[0] != 'end':
        bad.append('calls %s' % [e.a[0] for e in evs])
    if len(loops) != 1:
        bad.append('%d loops' % len(loops))
    else:
        bodies = loops[0][1]
        for fc, b in bodies:
            if any(not isinstance(e, T) for e in b):
                bad.append('nested loop')
                continue
            es = entries(list(b)) if is_map else list(b)
            if len(es) != 1:
                bad.append('an iteration writes %s' % [show(e)[:60] for e in b])
                continue
            if is_map:
                kk, vv = es[0] if isinstance(es[0], tuple) else (None, None)
                v, o = wrapped(vv)
                el = next((w for w in walk(vv) if w.op == 'elem'), None) if vv is not None else None
                if el is None or el.a[0] is not raw or kk is not mk('proj', el, None, 0) and not (kk is not None and kk.op == 'proj' and kk.a[0] is el and kk.a[-1] == 0):
                    bad.append('the key is %s' % (show(kk)[:80] if kk is not None else None))
                if not (v is not None and v.op == 'proj' and v.a[0] is el and v.a[-1] == 1):
                    bad.append('the value is %s' % (show(vv)[:80] if vv is not None else None))
            else:
                v, o = wrapped(arg(es[0], 1)) if es[0].a[0] == 'serialize_element' else (None, None)
                if not (v is not None and v.op == 'elem' and v.a[0] is raw):
                    bad.append('the element is %s' % show(es[0])[:100])
            if not (o is not None and o is mk('options')):
                bad.append('options %s' % (show(o)[:40] if o is not None else None))
    C.ob(not bad, key, '%s is written as: %s' % (what, '; '.join(bad)[:400]), 'JSON form')


def snake(s, c):
    up = c.isascii() and c.isupper()
    if up:
        return None
    if s:
        return (c.upper(), 0) if c.isascii() and c.islower() else None
    return ('', 1) if c == '_' else (c, 0)


def camel(s, c):
    if c == '_':
        return None
    return ('_' + c.lower(), 0) if c.isascii() and c.isupper() else (c, 0)


ALPHABET = 'azAZ_019\u00e9\u00c9'


def run(p, C):
    n = 0
    self_, ser = mk('self'), mk('serializer')
    opts = mk('options')
    # ---- 1. writing, by name
    for nm, kind in WKT.items():
        E = engine(p, 'google.protobuf.' + nm, ser_watch)
        fs = [f for f in E.run(DM + 'serialize_with_options', args={0: mk('self'), 1: mk('serializer'), 2: mk('options')})]
        C.inlined(E)
        good = [f for f in fs if not is_err(f)]
        n += 1
        key = 'ser:' + nm
        what = 'google.protobuf.' + nm
        C.ob(bool(good), key + ':never', what + ' is never written', 'JSON form')
        C.ob(not E.panics, key + ':panic', what + ' may panic', 'JSON form')
        C.sample('%s: %d successful paths' % (what, len(good)))
        raws = set()
        for f in fs:
            for t in list(f.facts) + [x for e, _ in events(f.trace) for x in e.a[1:] if isinstance(x, T)]:
                for w in walk(t):
                    if w.op == 'app' and w.a[0].startswith(DM + 'transcode_to::<'):
                        raws.add(w)
        if nm == 'Empty':
            for f in good:
                evs, loops = flat(f.trace)
                ok = not loops and (len(evs) == 1 and evs[0].a[0] == 'collect_map' and show(arg(evs[0], 1)).startswith('iter:empty') or
                                    len(evs) == 2 and evs[0].a[0] == 'serialize_map' and evs[1].a[0] == 'end' and size_ok(arg(evs[0], 1), [k(0)]))
                C.ob(ok, key, 'written as %s' % [show(e)[:80] for e in evs], 'JSON form')
            continue
        types = {w.a[0][len(DM + 'transcode_to::<'):-1] for w in raws}
        want = set(BYTES) if nm == 'BytesValue' else {NATIVE[nm]}
        if not C.ob(len(raws) == 1 and types <= want and all(w.a[2] is self_ for w in raws), key + ':type', '%s is transcoded to %s from %s' % (what, sorted(types), [show(x) for w in raws for x in w.a[1:] if isinstance(x, T)]), 'JSON form'):
            continue
        raw = mk('proj', next(iter(raws)), 0, 0)
        if nm == 'Any':
            write_any(p, C, E, good, raw, key)
            continue
        if nm == 'Value':
            write_value(p, C, fs, good, raw, key)
            continue
        for f in good:
            evs, loops = flat(f.trace)
            if nm in ('Struct', 'ListValue'):
                coll = mk('proj', raw, None, 0)
                coll = next((e.a[0] for e, _ in events(f.trace) for w in e.a[1:] if isinstance(w, T) for e in walk(w) if e.op == 'elem'), coll)
                C.ob(coll.op == 'proj' and coll.a[0] is raw, key + ':of', 'the iterated collection is %s' % show(coll)[:100], 'JSON form')
                collection(f, coll, nm == 'Struct', C, key, what)
                continue
            if len(evs) != 1 or (loops and nm != 'FieldMask'):
                C.ob(False, key, '%s is written as %s' % (what, [show(e)[:80] for e in evs]), 'JSON form')
                continue
            e = evs[0]
            m, x = e.a[0], arg(e, 1)
            ok = arg(e, 0) is ser
            if kind in ('timestamp', 'duration'):
                ok = ok and m in ('collect_str', 'serialize_str') and text_of(x, raw)
            elif kind in ('i32', 'u32', 'bool'):
                ok = ok and m == 'serialize_' + kind and x is raw
            elif kind in ('i64', 'u64'):
                ok = ok and x is raw and (m == 'serialize_' + kind or m == 'collect_str') or m == 'serialize_str' and text_of(x, raw)
            elif kind in ('f32', 'f64'):
                ok = ok and (m == 'serialize_' + kind and x is raw and fclasses(f, raw) <= {'finite'} or
                             m == 'serialize_str' and isk(x) and {'Infinity': 'inf', '-Infinity': '-inf', 'NaN': 'nan'}.get(kv(x)) and
                             fclasses(f, raw) <= {{'Infinity': 'inf', '-Infinity': '-inf', 'NaN': 'nan'}[kv(x)]})
            elif kind == 'string':
                ok = ok and m in ('serialize_str', 'collect_str') and x is raw
            elif kind == 'bytes':
                eng = {t.a[0] for t in walk(x) if t.op == 'named' and 'base64' in str(t.a[0])}
                ok = ok and m in ('serialize_str', 'collect_str') and raw in list(walk(x)) and eng == {'base64::engine::general_purpose::STANDARD'}
            elif kind == 'fieldmask':
                ok = ok and m in ('serialize_str', 'collect_str')
            C.ob(ok, key, '%s is written as %s' % (what, show(e)[:160]), 'JSON form')
        if kind in ('f32', 'f64'):
            cov = set().union(*[fclasses(f, raw) for f in good])
            C.ob(cov == set(CLASSES), key + ':classes', 'only %s values are written' % sorted(cov), 'JSON form')
    # ---- 2. field masks
    E = engine(p, 'google.protobuf.FieldMask', ser_watch)
    fs = E.run(DM + 'serialize_with_options', args={0: mk('self'), 1: mk('serializer'), 2: mk('options')})
    masks(C, E, fs, snake, 'ser:FieldMask', lambda s: s == 0)
    # ---- 3. the sets of names, and the plain form of all others
    for op, watch in (('serialize_with_options', ser_watch), ('deserialize_with_options', de_watch)):
        E = engine(p, None, watch)
        pos, neg = set(), set()
        for f in E.run(DM + op):
            for t, d in f.facts.items():
                if t.op == 'app' and t.a[0].endswith('MessageDescriptor::full_name') and not any(w.op == 'app' and w.a[0].endswith('get_message_by_name') for w in walk(t.a[2])):
                    if d[0] == '+':
                        pos |= set(d[1])
                    else:
                        neg |= set(d[1])
        n += 1
        C.ob(pos == NAMES, 'names:' + op, '%s treats specially: missing %s, unexpected %s' % (op, sorted(NAMES - pos), sorted(pos - NAMES)), 'JSON form')
    # ---- 4. reading
    seen = {}
    for nm, kind in WKT.items():
        E = engine(p, 'google.protobuf.' + nm, de_watch, own=False)
        fs = E.run(DM + 'deserialize_with_options')
        C.inlined(E)
        n += 1
        key = 'de:' + nm
        good = [f for f in fs if not is_err(f)]
        C.ob(bool(good) and not E.panics, key + ':never', 'google.protobuf.%s is never read' % nm, 'JSON form')
        for f in good:
            evs, loops = flat(f.trace)
            C.ob(len(evs) == 1 and not loops and evs[0].a[0].startswith('deserialize_'), key + ':calls', 'reading makes the calls %s' % [show(e)[:80] for e in evs], 'JSON form')
            v = f.ret.a[2] if f.ret.op == 'agg' else f.ret
            apps = {w for w in walk(v) if w.op == 'out' and str(w.a[0]).startswith(DM + 'transcode_from::<')}
            ty = {w.a[0][len(DM + 'transcode_from::<'):-1] for w in apps}
            want = set(BYTES) if nm == 'BytesValue' else {NATIVE[nm]}
            C.ob(ty and ty <= want, key + ':type', 'google.protobuf.%s is stored from %s' % (nm, sorted(ty) or show(v)[:120]), 'JSON form')
        vis = {arg(e, 1).a[0] for f in fs for e, _ in events(f.trace) if arg(e, 1) is not None and arg(e, 1).op == 'agg'}
        if C.ob(len(vis) == 1, key + ':visitor', 'google.protobuf.%s is read through %s' % (nm, sorted(vis)), 'JSON form'):
            seen[nm] = next(iter(vis))
    n += visitors(p, C, seen)
    n += nulls(p, C)
    n += null_enum(p, C)
    C.floor('well-known type conversions evaluated', n, 45)


def text_of(x, raw):
    """x is raw, or raw formatted with nothing added."""
    if x is raw:
        return True
    return x is not None and x.op == 'app' and x.a[0].endswith('to_string') and x.a[-1] is raw


def masks(C, E, fs, spec, key, acc):
    ls = [L for L in char_loops(E)]
    good = [L for L in ls if L.why is None]
    if not good:
        C.sample('%s: the character loop has an unknown form; its transducer was not compared' % key)
        return
    for L in good:
        bad, pairs = equal(L, spec, 0, ALPHABET)
        C.ob(not bad, key + ':chars', 'character conversion: %s' % '; '.join(bad)[:300], 'field mask paths')
        if bad:
            continue
        # an enclosing iteration continues only from accepting states
        after = [fc for ph, (e, ys) in E.phi_in.items() if ph.a[0][0] != L.lid for fc, v in ys if any(w in L.state for t, _ in fc for w in walk(t))]
        for s, st in pairs:
            if after and not acc(s):
                C.ob(not any(accepts(L, fc, st) for fc in after), key + ':end', 'a path that cannot be converted back is accepted at its end (state %s)' % (st,), 'field mask paths')
            if after and acc(s):
                C.ob(any(accepts(L, fc, st) for fc in after), key + ':end', 'a convertible path is refused at its end (state %s)' % (st,), 'field mask paths')
        if not after and any(not acc(s) for s, _ in pairs):
            C.ob(False, key + ':end', 'a path that cannot be converted back is accepted: nothing looks at the state after the last character', 'field mask paths')
    # separators
    consts = set()
    chars = set()
    for L in good:
        chars |= {L.src}
    src = {w.a[-1] for s in chars for w in walk(s) if w.op == 'app' and w.a[0].rsplit('::', 1)[-1] == 'split'}
    C.ob(k(46) in src or k('.') in src, key + ':split', 'paths are split on %s' % [show(x) for x in src], 'field mask paths')
    ps = E.pushed | {a for f in fs for w in walk(f.ret) if w.op == 'app' and w.a[0].rsplit('::', 1)[-1] in ('join', 'concat') for a in w.a[2:] if isinstance(a, T) and isk(a)}
    C.ob(k(46) in ps or k('.') in ps, key + ':join', 'the parts of a path are joined with %s' % sorted(show(x) for x in ps), 'field mask paths')


def write_value(p, C, fs, good, raw, key):
    """Each variant of Value by its own JSON type; numbers JSON cannot express are refused."""
    KD = PT + 'value::Kind'
    names = {i: n for n, i in vidx(p, KD).items()} if KD in p.adts else {0: 'NullValue', 1: 'NumberValue', 2: 'StringValue', 3: 'BoolValue', 4: 'StructValue', 5: 'ListValue'}
    got = {}
    kd = None
    for f in good:
        evs, loops = flat(f.trace)
        var = 'none'
        pay = None
        for t, d in f.facts.items():
            if t.op == 'discr' and t.a[0].op == 'proj' and t.a[0].a[-2:] == (1, 0) and d[0] == '+' and len(d[1]) == 1:
                var = names.get(next(iter(d[1])), '?')
                kd = t.a[0]
                pay = mk('proj', kd, next(iter(d[1])), 0)
            elif t.op == 'discr' and t.a[0].op == 'proj' and t.a[0].a[-2:] == (1, 0) and d[0] == '-':
                var = ','.join(sorted(names[i] for i in names if i not in d[1]))
        e = evs[0] if evs else None
        m = e.a[0] if e is not None else None
        got.setdefault(var, set()).add(m)
        if var in ('NumberValue', 'StringValue', 'BoolValue'):
            want = {'NumberValue': 'serialize_f64', 'StringValue': 'serialize_str', 'BoolValue': 'serialize_bool'}[var]
            C.ob(len(evs) == 1 and not loops and m == want and arg(e, 1) is pay, key + ':' + var, 'a %s is written as %s' % (var, show(e)[:100] if e is not None else None), 'JSON form')
            if var == 'NumberValue':
                C.ob(fclasses(f, pay) <= {'finite'}, key + ':finite', 'numbers of class %s are written as JSON numbers' % sorted(fclasses(f, pay)), 'JSON form')
        elif var in ('StructValue', 'ListValue'):
            coll = mk('proj', pay, 0, 0)
            real = next((w.a[0] for e2, _ in events(f.trace) for x in e2.a[1:] if isinstance(x, T) for w in walk(x) if w.op == 'elem'), None)
            C.ob(real is not None and pay in list(walk(real)), key + ':' + var, 'a %s iterates %s' % (var, show(real)[:80] if real is not None else None), 'JSON form')
            if real is not None:
                collection(f, real, var == 'StructValue', C, key + ':' + var, var)
        else:
            C.ob(len(evs) == 1 and not loops and m in ('serialize_none', 'serialize_unit'), key + ':null', 'a null or empty Value is written as %s' % [show(x)[:60] for x in evs], 'JSON form')
    for v in ('NumberValue', 'StringValue', 'BoolValue', 'StructValue', 'ListValue'):
        C.ob(v in got, key + ':' + v + ':never', 'a Value holding %s is never written' % v, 'JSON form')
    C.ob(any(m in ('serialize_none', 'serialize_unit') for s in got.values() for m in s), key + ':null:never', 'a null Value is never written', 'JSON form')


def write_any(p, C, E, good, raw, key):
    """"@type" first with the URL of the Any; then "value" for exactly the well-known names, the fields otherwise."""
    url = mk('proj', raw, None, 0)
    pos = set()
    neg = None
    for f in good:
        evs, loops = flat(f.trace)
        es = entries(evs)
        names = [(t, d) for t, d in f.facts.items() if d[1] and all(isinstance(x, str) and x.startswith('google.protobuf.') for x in d[1])]
        wk = [d for t, d in names if d[0] == '+']
        C.ob(bool(names), key + ':name', 'a path of Any does not depend on the name of the payload', 'JSON form')
        ok = len(evs) >= 3 and evs[0].a[0] == 'serialize_map' and isinstance(es[1], tuple) and es[1][0] is k('@type') and es[1][1] is not None and es[1][1].op == 'proj' \
            and es[1][1].a[0] is raw and es[1][1].a[-1] == 0 and evs[-1].a[0] == 'end'
        C.ob(ok, key + ':type-url', 'Any is written as %s' % [show(e)[:70] for e in evs][:4], 'JSON form')
        for t, d in names:
            ws = [w for w in walk(t) if w.op == 'app' and w.a[0].rsplit('::', 1)[-1] in ('rsplit_once', 'rsplit', 'rsplitn', 'rfind', 'rsplit_terminator')]
            C.ob(any(raw in list(walk(w)) and (k(47) in w.a or k('/') in w.a) for w in ws) or any(
                w.op == 'app' and w.a[0].endswith('full_name') for w in walk(t)), key + ':message-name', 'the name of the payload is %s' % show(t)[:120], 'JSON form')
        if wk:
            pos |= set(wk[0][1])
            v, o = wrapped(es[2][1]) if len(es) > 2 and isinstance(es[2], tuple) else (None, None)
            ok = len(es) == 4 and isinstance(es[2], tuple) and es[2][0] is k('value') and v is not None and same_options(p, o, mk('options')) and not loops and size_ok(arg(evs[0], 1), [k(2)])
            ok = ok and any('merge' in str(w.a[0]) or 'decode' in str(w.a[0]) for w in walk(v) if w.op in ('app', 'out'))
            C.ob(ok, key + ':value', 'an Any holding a well-known type is written as %s' % [show(e)[:70] for e in evs], 'JSON form')
        else:
            neg = frozenset(next(iter(names))[1][1]) if names else frozenset()
            bodies = [b for l in loops for _, b in l[1]]
            n = sum(1 for b in bodies for e, _ in events(b) if e.a[0] in ('serialize_entry', 'serialize_key'))
            C.ob(len(loops) == 1 and n >= 1 and len(es) == 3 and size_ok(arg(evs[0], 1), []), key + ':fields', 'an Any holding another message is written as %s' % [show(e)[:70] for e in evs], 'JSON form')
    C.ob(pos == NAMES, key + ':names', 'Any uses "value" for %s' % sorted(pos ^ NAMES), 'JSON form')
    C.ob(neg == NAMES, key + ':others', 'Any inlines the fields except for %s' % sorted((neg or frozenset()) ^ NAMES), 'JSON form')


KINDS_OF = {'visit_bool': 3, 'visit_i64': 1, 'visit_u64': 1, 'visit_f64': 1, 'visit_str': 2, 'visit_string': 2, 'visit_unit': 0, 'visit_seq': 5, 'visit_map': 4, 'visit_borrowed_str': 2}


def visitors(p, C, seen):
    n = 0

    def each(nm, watch=None):
        nonlocal n
        for m, fn in sorted(visits(p, seen[nm]).items()):
            E = engine(p, None, lambda a, r, c: (watch(a, r, c) if watch else None) or de_watch(a, r, c))
            fs = E.run(fn, args={1: mk('input')} if p.body_of(fn).argc > 1 else None)
            C.inlined(E)
            n += 1
            yield m, E, [f for f in fs if not is_err(f)], fs
    ins = lambda a, r, c: 'insert' if a.endswith('Map::insert') or str(r).endswith('Map::insert') else 'push' if a.endswith('Vec::push') or str(r).endswith('Vec::push') else None
    for nm in ('Timestamp', 'Duration'):
        if nm not in seen:
            continue
        vs = visits(p, seen[nm])
        C.ob('visit_str' in vs, 'visit:%s:str' % nm, '%s does not accept strings' % nm, 'JSON form')
        for m, E, good, fs in each(nm):
            for f in good:
                ok = f.ret.op == 'agg'
                x = f.ret.a[2] if ok else None
                ok = x is not None and x.op == 'proj' and x.a[1:] == (0, 0) and x.a[0].op == 'app' and x.a[0].a[0] == '<%s as core::str::traits::FromStr>::from_str' % (PT + nm) and x.a[0].a[2] is mk('input')
                C.ob(ok, 'visit:%s:%s' % (nm, m), '%s of %s gives %s' % (m, nm, show(f.ret)[:160]), 'JSON form')
            C.ob(bool(good) == (m == 'visit_str') or m in ('visit_string', 'visit_borrowed_str'), 'visit:%s:%s:never' % (nm, m), '%s never accepts a string' % nm, 'JSON form')
    if 'Value' in seen:
        have = visits(p, seen['Value'])
        for m in ('visit_bool', 'visit_i64', 'visit_u64', 'visit_f64', 'visit_str', 'visit_unit', 'visit_seq', 'visit_map'):
            C.ob(m in have, 'visit:Value:%s:missing' % m, 'a Value cannot be read through %s' % m, 'JSON form')
        for m, E, good, fs in each('Value', ins):
            C.ob(bool(good), 'visit:Value:%s:never' % m, 'a Value is never read through %s' % m, 'JSON form')
            for f in good:
                x = f.ret.a[2] if f.ret.op == 'agg' else None
                kd = x.a[2].a[2] if x is not None and x.op == 'agg' and x.a[2].op == 'agg' and x.a[2].a[1] == 1 else None
                want = KINDS_OF.get(m)
                ok = kd is not None and kd.op == 'agg' and want is not None and kd.a[1] == want
                if ok and m in ('visit_bool', 'visit_f64', 'visit_str', 'visit_string', 'visit_borrowed_str'):
                    ok = kd.a[2] is mk('input')
                if ok and m in ('visit_i64', 'visit_u64'):
                    ok = kd.a[2].op == 'cast' and kd.a[2].a[0] == 'f64' and kd.a[2].a[1] is mk('input')
                C.ob(ok, 'visit:Value:' + m, '%s of a Value gives %s' % (m, show(f.ret)[:160]), 'JSON form')
                if m in ('visit_seq', 'visit_map'):
                    contents(C, E, f, m == 'visit_map', seen['Value'], 'visit:Value:' + m)
    for nm, m0 in (('Struct', 'visit_map'), ('ListValue', 'visit_seq')):
        if nm not in seen:
            continue
        C.ob(m0 in visits(p, seen[nm]), 'visit:%s:missing' % nm, '%s cannot be read' % nm, 'JSON form')
        for m, E, good, fs in each(nm, ins):
            C.ob(bool(good) and m == m0, 'visit:%s:%s' % (nm, m), '%s is read through %s' % (nm, m), 'JSON form')
            for f in good:
                contents(C, E, f, nm == 'Struct', seen.get('Value'), 'visit:%s:%s' % (nm, m))
    if 'Empty' in seen:
        for m, E, good, fs in each('Empty'):
            evs = [e for f in good for e, _ in events(f.trace)]
            ok = m == 'visit_map' and good and all(any(t.op == 'discr' and t.a[0].op == 'proj' and t.a[0].a[1:] == (0, 0) and d == ('+', frozenset([0])) for t, d in f.facts.items()) and
                                                   not any(isinstance(e, tuple) for e in f.trace) for f in good)
            C.ob(ok, 'visit:Empty:' + m, 'an Empty with fields is accepted', 'JSON form')
    if 'FieldMask' in seen:
        for m, E, good, fs in each('FieldMask'):
            C.ob(bool(good) and m in ('visit_str', 'visit_string', 'visit_borrowed_str'), 'visit:FieldMask:' + m, 'a field mask is read through %s' % m, 'JSON form')
            masks(C, E, fs, camel, 'visit:FieldMask', lambda s: True)
            srcs = {w.a[-1] for ph, (e, ys) in E.phi_in.items() for fc, v in ys for t in [t for t, _ in fc] + ([v] if v is not None else []) for w in walk(t)
                    if w.op == 'app' and w.a[0].rsplit('::', 1)[-1] == 'split'}
            C.ob(k(44) in srcs or k(',') in srcs, 'visit:FieldMask:list', 'the mask is split on %s' % [show(x) for x in srcs], 'field mask paths')
    if 'Any' in seen:
        for m, E, good, fs in each('Any'):
            read_any(p, C, E, good, 'visit:Any')
    return n


def contents(C, E, f, is_map, vis, key):
    """Every element delivered by the deserializer is stored, read with the visitor of Value."""
    evs, loops = flat(f.trace)
    loops = [l for l in loops if any(e.a[0] in ('next_key', 'next_entry', 'next_element', 'next_element_seed', 'next_key_seed', 'next_entry_seed', 'next_value_seed') for _, b in l[1] for e, _ in events(b))]
    if not C.ob(len(loops) == 1, key + ':loop', 'elements are read in %d loops' % len(loops), 'JSON form'):
        return
    for fc, b in loops[0][1]:
        es = [e for e in b if isinstance(e, T)]
        store = [e for e in es if e.a[0] == ('insert' if is_map else 'push')]
        if not C.ob(len(store) == 1, key + ':store', 'an element read is stored %d times' % len(store), 'JSON form'):
            continue
        xs = [x for x in store[0].a[1:] if isinstance(x, T)]
        vals = [w for x in xs for w in walk(x) if w.op == 'app' and 'de::' in w.a[0] or w.op == 'app' and w.a[0].rsplit('::', 1)[-1].startswith('next_')]
        heads = {w.a[0].rsplit('::', 1)[-1].split('<')[0] for w in vals}
        used = any(w.op == 'agg' and w.a[0] == vis for e in es for x in e.a[1:] if isinstance(x, T) for w in walk(x))
        C.ob(used, key + ':seed', 'elements are not read as Values', 'JSON form')
        C.ob(bool(heads & ({'next_value_seed', 'next_entry_seed'} if is_map else {'next_element_seed', 'next_element'})), key + ':value', 'what is stored is %s' % [show(x)[:60] for x in xs], 'JSON form')
        if is_map:
            C.ob(bool(heads & {'next_key', 'next_entry_seed', 'next_key_seed', 'next_entry'}), key + ':key', 'the key stored is %s' % [show(x)[:60] for x in xs], 'JSON form')


def read_any(p, C, E, good, key):
    pos, neg = set(), None
    C.ob(bool(good), key + ':never', 'an Any is never read', 'JSON form')
    for f in good:
        a = f.ret.a[2] if f.ret.op == 'agg' else None
        ok = a is not None and a.op == 'agg' and a.a[0].endswith('::Any') and len(a.a) == 4
        if not C.ob(ok, key + ':result', 'the result is %s' % show(f.ret)[:100], 'JSON form'):
            continue
        url, val = a.a[2], a.a[3]
        keyfacts = [(t, d) for t, d in f.facts.items() if d[0] == '+' and set(d[1]) == {'@type'}]
        C.ob(bool(keyfacts), key + ':type', 'the type URL is not taken from "@type"', 'JSON form')
        names = [(t, d) for t, d in f.facts.items() if d[1] and all(isinstance(x, str) and x.startswith('google.protobuf.') for x in d[1])]
        mine = [(t, d) for t, d in names if url in list(walk(t)) and not any(w.op == 'app' and w.a[0].endswith('full_name') for w in walk(t))]
        ok = bool(mine) and any((k(47) in w.a or k('/') in w.a) for t, _ in mine for w in walk(t) if w.op == 'app' and '::r' in w.a[0])
        C.ob(ok, key + ':name', 'the payload name does not come from the type URL', 'JSON form')
        C.ob(val.op == 'app' and 'encode_to_vec' in val.a[0], key + ':encode', 'the payload bytes are %s' % show(val)[:80], 'JSON form')
        for t, d in mine:
            if d[0] == '+':
                pos |= set(d[1])
                evs = list(events(f.trace))
                taken = any(k('value') in list(walk(x)) for e, _ in evs for x in e.a[1:] if isinstance(x, T)) or any('value' in d2[1] and d2[0] == '+' for t2, d2 in f.facts.items())
                C.ob(taken, key + ':value', 'the payload of a well-known type is not read from "value"', 'JSON form')
            else:
                neg = frozenset(d[1])
                evs = [e for e, _ in events(f.trace)]
                C.ob(any(e.a[0] == 'deserialize_map' for e in evs) and any(e.a[0].startswith('next_value_seed') and lp for e, lp in events(f.trace)),
                     key + ':fields', 'the fields before or after "@type" are not read', 'JSON form')
    C.ob(pos == NAMES, key + ':names', 'reading an Any uses "value" for a different set of types: %s' % sorted(pos ^ NAMES), 'JSON form')
    C.ob(neg == NAMES, key + ':others', 'reading an Any inlines the fields of a different set of types: %s' % sorted((neg or frozenset()) ^ NAMES), 'JSON form')


def nulls(p, C):
    """JSON null for a field: the null Value, the null enum, and otherwise an unset field."""
    n = 0
    E = engine(p, 'some.Message', de_watch, own=False)
    fs = E.run(DM + 'deserialize_with_options')
    vis = {arg(e, 1).a[0] for f in fs for e, _ in events(f.trace) if e.a[0] == 'deserialize_map' and arg(e, 1) is not None and arg(e, 1).op == 'agg'}
    seeds = set()
    for v in vis:
        for m, fn in visits(p, v).items():
            if m != 'visit_map':
                continue
            E = engine(p, None, de_watch)
            for f in E.run(fn):
                for e, _ in events(f.trace):
                    for x in e.a[1:]:
                        if e.a[0].startswith('next_value_seed') and isinstance(x, T) and x.op == 'agg' and 'visit_unit' in visits(p, x.a[0]):
                            seeds.add(x.a[0])
    if not C.ob(bool(seeds), 'null:seed', 'no visitor of field values handles null', 'JSON null'):
        return 0
    for s in sorted(seeds):
        for m in ('visit_unit', 'visit_none'):
            vs = visits(p, s)
            if not C.ob(m in vs, 'null:%s' % m, 'null is not handled through %s' % m, 'JSON null'):
                continue
            for kd, nm in [('Message', 'google.protobuf.Value'), ('Enum', 'google.protobuf.NullValue'), ('Message', 'some.Message'), ('Enum', 'some.Enum'), ('Int32', None), ('String', None)]:
                E = Engine(p, opaque=opq(p) + only_existing(p, [DESC + 'EnumDescriptor::full_name']), watch=de_watch)
                E.typed = {DM + 'transcode_to': 0, DM + 'transcode_from': 0}
                kt = kindterm(p, kd, mk('kindof'))
                E.oracle = lambda a, ar, r: k(nm) if a.endswith('Descriptor::full_name') else kt if a.endswith('::kind') and nm is not None or a.endswith('::kind') else None
                E.opaque |= set(only_existing(p, [DESC + 'FieldDescriptor::kind', DESC + 'ExtensionDescriptor::kind'] + [x for x in p.fn_by_name if x.endswith('FieldDescriptorLike>::kind')]))
                fs = E.run(vs[m])
                C.inlined(E)
                n += 1
                key = 'null:%s:%s' % (m, nm or kd)
                rets = [f for f in fs if not (nm == 'google.protobuf.Value' and is_err(f))]
                for f in rets:
                    x = f.ret.a[2] if f.ret.op == 'agg' and f.ret.a[1] == 0 else None
                    some = x.a[2] if x is not None and x.op == 'agg' and x.a[0] == OPT and x.a[1] == 1 else None
                    if nm == 'google.protobuf.NullValue':
                        ok = variant_of(p, some) == 'EnumNumber' and isk(some.a[2]) and kv(some.a[2]) == 0 if some is not None else False
                    elif nm == 'google.protobuf.Value':
                        ok = some is not None and variant_of(p, some) == 'Message' and any(str(w.a[0]).startswith(DM + 'transcode_from::<' + PT + 'Value') for w in walk(some) if w.op == 'out')
                        ok = ok and any(t.op == 'discr' and any(w.op == 'agg' and w.a[0] == PT + 'value::Kind' and w.a[1] == 0 for w in walk(t)) for t in f.facts)
                    else:
                        ok = x is not None and x.op == 'agg' and x.a[0] == OPT and x.a[1] == 0
                    C.ob(ok, key, 'null for a field of type %s gives %s' % (nm or kd, show(f.ret)[:140]), 'JSON null')
                C.ob(bool(rets), key + ':never', 'null for %s is never read' % (nm or kd), 'JSON null')
    return n


def null_enum(p, C):
    """The null enum is read from null and from its only name."""
    SEED = "<prost_reflect::dynamic::serde::de::kind::KindSeed<'_> as serde_core::de::DeserializeSeed<'de>>::deserialize"
    E = Engine(p, opaque=opq(p) + only_existing(p, [DESC + 'EnumDescriptor::full_name']), watch=de_watch)
    E.oracle = lambda a, ar, r: k('google.protobuf.NullValue') if a.endswith('EnumDescriptor::full_name') else None
    fs = E.run(SEED, args={0: agg(DYN + 'serde::de::kind::KindSeed', 0, kindterm(p, 'Enum'), mk('options'))})
    vis = {arg(e, 1).a[0] for f in fs for e, _ in events(f.trace) if e.a[0].startswith('deserialize_') and arg(e, 1) is not None and arg(e, 1).op == 'agg'}
    if not C.ob(len(vis) == 1, 'nullenum:visitor', 'the null enum is read through %s' % sorted(vis), 'JSON null'):
        return 0
    n = 0
    vs = visits(p, next(iter(vis)))
    for m in ('visit_str', 'visit_unit'):
        if not C.ob(m in vs, 'nullenum:' + m + ':missing', 'the null enum is not read through ' + m, 'JSON null'):
            continue
        E = engine(p)
        x = mk('input')
        fs = E.run(vs[m], args={1: x} if m == 'visit_str' else None)
        C.inlined(E)
        n += 1
        hit = False
        for f, v in oks(fs):
            num = v.a[2] if v.op == 'agg' and v.a[0] == OPT and v.a[1] == 1 else None
            d = f.facts.get(x)
            if num is not None:
                good = isk(num) and kv(num) == 0 and (m == 'visit_unit' or d is not None and d[0] == '+' and set(d[1]) == {'NULL_VALUE'})
                hit = hit or good
                C.ob(good, 'nullenum:' + m, 'the null enum is %s for %s' % (show(v)[:60], d), 'JSON null')
        C.ob(hit, 'nullenum:' + m + ':never', 'null is never read through ' + m, 'JSON null')
    return n
