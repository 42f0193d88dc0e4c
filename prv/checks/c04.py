"""Unknown fields. For each wire type the value decode_value builds from what it read is fed to encode, encoded_len, wire_type and
number: the bytes written are the bytes read. The sets they live in (nested groups, the message's slots) append what was decoded,
write every element in order, and hand every element out."""
from prv.msgapi import *

LEVEL = 'proof'
UF = DYN + 'unknown::UnknownField::'
UFT = DYN + 'unknown::UnknownField'
# what decode_value must call for a wire type: codecs whose value keeps every bit of the payload
READS = {'SixtyFourBit': (('fixed64', 'sfixed64'), 8), 'ThirtyTwoBit': (('fixed32', 'sfixed32'), 4)}


def set_type(p):
    """The type of the unknown fields stored for a number."""
    ent, iv, iu, _ = entry_type(p)
    return p.types[p.adts[ent]['v'][iu]['f'][0][1]]['n']


def payload_enum(p):
    """The enum inside an unknown field that holds the payload."""
    out = [p.types[f[1]]['n'] for v in p.adts[UFT]['v'] for f in v['f'] if p.types[f[1]]['k'] == 'adt' and p.adts.get(p.types[f[1]]['n'], {}).get('kind') == 'enum']
    if len(out) != 1:
        raise Broken('the payload enum of UnknownField was not found')
    return out[0]


def items(E, t, seen=()):
    """A sequence as pieces: ('item', x) one element, ('each', conditional yields) one per iteration, ('rest', t) earlier content."""
    if t.op == 'agg' and t.a[0] == 'array':
        return [('item', x) for x in t.a[2:]]
    if t.op == 'agg' and len(t.a) == 3:  # a struct around the sequence
        return items(E, t.a[2], seen)
    if t.op == 'upd' and len(t.a[1]) == 1:
        (path, v), = t.a[1]
        return items(E, v, seen)
    if t.op == 'app' and t.a[0] == 'collect':
        # one element per element of a given collection; a single literal element is collected as itself
        return [('item', x) if not any(y.op == 'elem' for y in walk(x)) else ('each', frozenset([(frozenset(), x)])) for x in t.a[2:]]
    if t.op == 'app' and t.a[0] == 'push' and len(t.a) == 4:
        if t.a[3].op == 'phi' and t.a[3] in seen:
            return [('item', t.a[2])]
        return items(E, t.a[3], seen) + [('item', t.a[2])]
    if t.op == 'phi' and t in E.phi_in and t not in seen:
        e, ys = E.phi_in[t]
        out = items(E, e, seen + (t,)) if e is not None else [('rest', t)]
        feeds = []
        for fc, v in ys:
            if v is None or v.op != 'app' or v.a[0] != 'push' or v.a[3] is not t:
                return out + [('rest', t)]
            feeds.append(v.a[2])
        if len(feeds) == 1 and not any(y.op == 'elem' for y in walk(feeds[0])):
            return out + [('item', feeds[0])]
        return out + [('each', frozenset((frozenset(), x) for x in feeds))]
    return [('rest', t)]


def expect(w, f, n):
    """The canonical writes that reproduce what the trace of f read, or a reason."""
    ev = [e for e in f.trace if isinstance(e, T)]
    if len(ev) != len(f.trace) or len(ev) != 1:
        return None, 'reads %s' % ', '.join(show(e)[:80] if isinstance(e, T) else 'a loop' for e in f.trace)
    lab = ev[0].a[0].split('::')
    args = ev[0].a[1:]
    if w == 'Varint':
        if lab[-1] != 'decode_varint' or args[0] is not mk('buf'):
            return None, 'reads a varint with %s' % '::'.join(lab)
        outs = [y for y in walk(f.ret) if y.op == 'app' and y.a[0].endswith('decode_varint')]
        if not outs:
            return None, 'drops what it read'
        return [('key', n, w), ('varint', mk('proj', outs[0], 0, 0))], None
    if lab[-1] != 'merge':
        return None, 'reads with %s' % '::'.join(lab)
    want_args = [agg(WT, WTN.index(w))]
    # the call's output: the value argument
    pos = 2 if lab[-2] == 'group' else 1
    outs = [y for y in walk(f.ret) if y.op == 'out' and y.a[0].endswith('encoding::%s::merge' % lab[-2]) and y.a[2] == pos]
    if len(set(outs)) != 1:
        return None, 'drops what it read'
    x = outs[0]
    wt_arg = args[pos - 1]
    if wt_arg is not want_args[0] or not any(a is mk('buf') for a in args) or not any(a is mk('ctx') for a in args):
        return None, 'merge is called with %s' % ', '.join(show(a)[:60] for a in args)
    if w == 'LengthDelimited':
        return (seq_of_codec('bytes', n, x), None) if lab[-2] == 'bytes' else (None, 'length-delimited payload read as %s' % lab[-2])
    if w == 'StartGroup':
        if lab[-2] != 'group' or args[0] is not n:
            return None, 'group read as %s with %s' % (lab[-2], show(args[0])[:60])
        return seq_of_codec('group', n, x), None
    mods, size = READS[w]
    if lab[-2] not in mods:
        return None, '%s payload read as %s' % (w, lab[-2])
    return [('key', n, w), ('fix', size, x)], None


def canon_fix(seq, size_of):
    """put_slice(to_le_bytes(x)) writes the little-endian bytes of x."""
    out = []
    for e in seq:
        if e[0] == 'loop':
            out.append(('loop', frozenset((c, tuple(canon_fix(b, size_of))) for c, b in e[1])))
        elif e[0] == 'bytes' and e[1].op == 'app' and e[1].a[0].endswith('::to_le_bytes'):
            out.append(('fix', 8 if '64' in e[1].a[0] else 4, e[1].a[2]))
        else:
            out.append(e)
    return out


def run(p, C):
    n = 0
    setn, pe = set_type(p), payload_enum(p)
    num = mk('number')
    variant_of = {}
    made = {}
    for i, w in enumerate(WTN):
        E = Engine(p, opaque=[], watch=Scenario.watch)
        fs = E.run(UF + 'decode_value', args={0: num, 1: agg(WT, i), 2: mk('buf'), 3: mk('ctx')})
        C.inlined(E)
        n += 1
        key = 'decode:%s' % w
        good = 0
        for f in fs:
            if not C.ob(f.ret.op == 'agg' and f.ret.a[0] == 'core::result::Result', key + ':result', 'undetermined result %s' % show(f.ret)[:200], 'decode'):
                continue
            if f.ret.a[1] == 1:
                continue
            good += 1
            if not C.ob(w != 'EndGroup', key + ':end', 'an end-group key is stored as a field', 'decode'):
                continue
            U = f.ret.a[2]
            want, why = expect(w, f, num)
            if not C.ob(want is not None, key + ':read', '%s: %s' % (w, why), 'decode'):
                continue
            vs = [y for y in walk(U) if y.op == 'agg' and y.a[0] == pe]
            if vs:
                variant_of[w] = vs[0].a[1]
            E2 = Engine(p, opaque=[], watch=Scenario.watch)
            for g in E2.run(UF + 'encode', args={0: U, 1: mk('buf')}):
                got = canon_fix(canon_seq(g.trace), None)
                C.ob(strip_all(got) == strip_all(want), 'encode:%s' % w, 'read %s, written back as %s' % (show_seq(want), show_seq(got)), 'bytes written = bytes read')
                wl = Lens(E2).seq(canon_seq(g.trace))
                E3 = Engine(p, opaque=[], watch=Scenario.watch)
                for h in E3.run(UF + 'encoded_len', args={0: U}):
                    hl = Lens(E3).lin(h.ret)
                    C.ob(hl == wl, 'len:%s' % w, 'written %s, reported %s' % (show_len(wl), show_len(hl)), 'length')
                C.inlined(E3)
            C.inlined(E2)
            made[w] = U
            for fn, v in (('number', num), ('wire_type', agg(WT, i))):
                E4 = Engine(p)
                for h in E4.run(UF + fn, args={0: U}):
                    C.ob(h.ret is v, '%s:%s' % (fn, w), '%s() is %s' % (fn, show(h.ret)[:80]), 'accessors')
        C.ob(good >= 1 or w == 'EndGroup', key + ':accepted', '%s is never accepted' % w, 'decode')
        if w == 'EndGroup':
            C.ob(any(f.ret.op == 'agg' and f.ret.a[1] == 1 for f in fs), key + ':refused', 'no error path', 'decode')
    C.sample({w: show(u)[:200] for w, u in made.items()})
    # decode: key then value
    E = Engine(p, opaque=[UF + 'decode_value'], watch=Scenario.watch)
    for f in E.run(UF + 'decode', args={0: mk('buf'), 1: mk('ctx')}):
        if f.ret.op == 'agg' and f.ret.a[1] == 1 and not any(y.op == 'app' and y.a[0].endswith('decode_value') for y in walk(f.ret)):
            continue
        calls = [y for y in walk(f.ret) if y.op == 'app' and y.a[0] == UF + 'decode_value']
        okk = False
        if len(calls) == 1:
            a = calls[0].a[2:]
            dk = [y for y in walk(a[0]) if y.op == 'app' and y.a[0].endswith('decode_key')]
            okk = bool(dk) and a[0] is mk('proj', mk('proj', dk[0], 0, 0), None, 0) and a[1] is mk('proj', mk('proj', dk[0], 0, 0), None, 1)
        C.ob(okk, 'decode:key', 'decode passes %s' % show(f.ret)[:200], 'decode')
        n += 1
    C.inlined(E)
    # the set: every element encoded, in order, and appended on decode
    SM = '<%s as prost::message::Message>::' % setn
    p.find(SM + 'encode_raw')
    npay = len(p.adts[pe]['v'])
    for w, vi in sorted(variant_of.items()):
        def hook(v, adt, vi=vi):
            return vi if adt == pe else None
        ref = Engine(p, opaque=[], watch=Scenario.watch)
        ref.discr_hook = hook
        one = [strip_all(canon_fix(canon_seq(g.trace), None)) for g in ref.run(UF + 'encode', args={0: mk('ITEM'), 1: mk('buf')})]
        E = Engine(p, opaque=[], watch=Scenario.watch)
        E.track_exhaust = True
        E.discr_hook = hook
        enc = E.run(SM + 'encode_raw', args={1: mk('buf')})
        C.inlined(E)
        n += 1
        for f in enc:
            got, why = loop_over(E, f, lambda t: show(t).startswith('self'))
            C.ob(got == one, 'set-encode:%s' % w, 'a group writes its %s element as %s' % (w, why or got), 'sets write every element')
        E2 = Engine(p, opaque=[], watch=Scenario.watch)
        E2.discr_hook = hook
        l = E2.run(SM + 'encoded_len')
        C.inlined(E2)
        n += 1
        A = {Lens(E).seq(canon_seq(f.trace)) for f in enc}
        B = {Lens(E2).lin(f.ret) for f in l}
        C.ob(bool(A) and A == B, 'set-len:%s' % w, 'written %s, reported %s' % (' OR '.join(map(show_len, A)), ' OR '.join(map(show_len, B))), 'length')
        # merge_field appends exactly what decode_value gives
        i = WTN.index(w)
        E3 = Engine(p, opaque=[], watch=Scenario.watch)
        for f in E3.run(SM + 'merge_field', args={1: num, 2: agg(WT, i), 3: mk('buf'), 4: mk('ctx')}):
            if f.ret.op == 'agg' and f.ret.a[1] == 1:
                continue
            cur = None
            for kx, v in f.st.mem.items():
                if kx is mk('self') or show(kx) == 'self':
                    cur = E3.canon(f.st, v)
            its = items(E3, cur) if cur is not None else []
            okk = len(its) == 2 and its[0][0] == 'rest' and its[1][0] == 'item' and strip_all(its[1][1]) == strip_all(made[w])
            C.ob(okk and f.ret.op == 'agg', 'set-merge:%s' % w, 'a nested %s field is kept as %s' % (w, show(cur)[:300] if cur is not None else 'nothing'), 'decoded fields are appended')
        C.inlined(E3)
        n += 1
    # the message: a number nobody knows
    for s in ('absent', 'unknown', 'taken'):
        for w, vi in sorted(variant_of.items()):
            S = Slots(p, {'own': s}, lambda E, st, key: 'own' if key is num else None, watch=Scenario.watch)
            S.E.oracle = lambda nm, a, r: NONE_OPT if nm.endswith('::get_field') or nm.endswith('::get_extension') else None
            for f in S.run(MSG + 'merge_field', args={1: num, 2: agg(WT, WTN.index(w)), 3: mk('buf'), 4: mk('ctx')}):
                key = 'message:%s,%s' % (s, w)
                fin = S.final(f, 'own')
                if f.ret.op == 'agg' and f.ret.a[1] == 1:
                    continue
                C.ob(f.ret.op == 'agg' and f.ret.a[1] == 0, key + ':ok', 'result %s' % show(f.ret)[:200], 'stored in the message')
                its = items(S.E, fin[1]) if fin[0] == 'unknown' else []
                want = ([('rest',)] if s == 'unknown' else []) + [('item', strip_all(made[w]))]
                got = [x[:1] if x[0] == 'rest' else (x[0], strip_all(x[1])) if x[0] == 'item' else x for x in its]
                C.ob(got == want, key + ':kept', 'the field is kept as %s' % (fin,), 'stored in the message')
                C.ob(not stray(f), key + ':others', 'other entries change: %s' % stray(f), 'stored in the message')
            C.inlined(S.E)
            n += 1
    # encoding a message writes the unknown fields of every number
    for w, vi in sorted(variant_of.items()):
        S, E = message_iteration(p, 'unknown', pe, vi)
        ref = Engine(p, opaque=[], watch=Scenario.watch)
        ref.discr_hook = lambda v, adt, vi=vi: vi if adt == pe else None
        one = [strip_all(canon_fix(canon_seq(g.trace), None)) for g in ref.run(UF + 'encode', args={0: mk('ITEM'), 1: mk('buf')})]
        enc = S.run(MSG + 'encode_raw')
        for f in enc:
            got, why = loop_over(E, f, lambda t: True)
            C.ob(got == one, 'message-encode:%s' % w, 'a message writes its unknown %s field as %s' % (w, why or got), 'messages write unknown fields')
        S2, E2 = message_iteration(p, 'unknown', pe, vi)
        l = S2.run(MSG + 'encoded_len')
        A = {Lens(E).seq(canon_seq(f.trace)) for f in enc}
        B = {Lens(E2).lin(f.ret) for f in l}
        C.ob(bool(A) and A == B, 'message-len:%s' % w, 'written %s, reported %s' % (' OR '.join(map(show_len, A)), ' OR '.join(map(show_len, B))), 'length')
        C.inlined(E)
        C.inlined(E2)
        n += 2
    # handing them out
    for fn in ('unknown_fields', 'take_unknown_fields'):
        for s in ('value', 'unknown', 'taken'):
            S, E = message_iteration(p, s, None, None)
            for f in S.run(DM + fn):
                n += 1
                C.ob(f.st.mem.get(S.flag('own')) is k(1), '%s:%s:untouched' % (fn, s), 'the call itself changes the message', 'iterators')
                ys = yields(E, f)
                elems = [(st, e) for st, e in ys if e is not None]
                if s == 'unknown':
                    okk = len(elems) >= 1 and all(is_stored_elem(E.canon(st, e)) and not extra_facts(f, st) for st, e in elems)
                    C.ob(okk, '%s:yields' % fn, '%s yields %s' % (fn, [(show(E.canon(st, e))[:100], [show(t)[:60] for t in extra_facts(f, st)]) for st, e in elems]), 'iterators')
                    for st, e in elems:
                        # the stored entry afterwards
                        left = [v for kx, v in st.mem.items() if isinstance(kx, T) and any(y.op == 'elem' for y in walk(kx)) and v.op == 'agg' and v.a[0] == S.entry]
                        if fn == 'unknown_fields':
                            C.ob(not left, fn + ':kept', 'reading unknown fields changes the entry to %s' % [show(v) for v in left], 'iterators')
                        else:
                            C.ob(bool(left) and all(v.a[1] in S.units for v in left), fn + ':taken', 'a taken entry becomes %s' % [show(v) for v in left], 'iterators')
                else:
                    C.ob(not elems, '%s:%s:nothing' % (fn, s), '%s yields something of a %s entry' % (fn, s), 'iterators')
                    left = [v for st, _ in ys for kx, v in st.mem.items() if isinstance(kx, T) and any(y.op == 'elem' for y in walk(kx)) and v.op == 'agg' and v.a[0] == S.entry and v.a[1] not in S.units]
                    changed = [v for st, _ in ys for kx, v in st.mem.items() if isinstance(kx, T) and any(y.op == 'elem' for y in walk(kx)) and v.op == 'agg' and v.a[0] == S.entry]
                    C.ob(not changed, '%s:%s:left' % (fn, s), '%s overwrites a %s entry' % (fn, s), 'iterators')
            C.inlined(E)
    C.ob(len(variant_of) == npay == 5, 'variants', 'payload variants reached from the wire: %s of %d' % (variant_of, npay), 'decode')
    C.floor('wire types evaluated', len(made), 5)
    C.floor('abstract runs', n, 45)


def extra_facts(f, st):
    return [t for t, d in st.facts.items() if t not in f.facts and t.op != 'exhausted' and not (t.op == 'discr')]


def is_stored_elem(t):
    """An element of the set stored in an element of the message's map, nothing skipped."""
    if any(y.op == 'partial' for y in walk(t)):
        return False
    return t.op == 'elem' and sum(1 for y in walk(t) if y.op == 'elem') == 2


def strip_all(x):
    """Without call sites, loop conditions and names of buffers."""
    if isinstance(x, T):
        def g(y):
            if y.op == 'out':
                return mk('out', y.a[0], None, *y.a[2:])
            if y.op == 'app' and y.a[1] is not None:
                return mk('app', y.a[0], None, *y.a[2:])
            return None
        return strip_sites(subst(x, g))
    if isinstance(x, (tuple, list)):
        return tuple(strip_all(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(strip_all(y) for y in x)
    return x


def loop_over(E, f, coll_ok):
    """[canonical writes per element with the element renamed ITEM] of a trace that is one (possibly nested) loop over all
    elements of one collection; or (None, reason)."""
    seqs = f.trace
    depth = 0
    while True:
        loops = [e for e in seqs if isinstance(e, tuple) and e and e[0] == 'loop']
        evs = [e for e in seqs if isinstance(e, T) and e.op == 'ev' and not e.a[0].endswith(('encoded_len', 'key_len'))]
        if len(loops) == 1 and not evs:
            bodies = [b for c, b in loops[0][1] if any(True for _ in events(b))]
            if len(bodies) > 1:
                break
            if not bodies:
                return None, 'nothing'
            seqs = bodies[0]
            depth += 1
            if depth > 4:
                return None, 'too deep'
            continue
        break
    if not depth:
        return None, 'no loop over the elements: %s' % [show(e)[:80] if isinstance(e, T) else e for e in seqs][:3]
    if any(isinstance(e, tuple) for e in seqs):
        loops = [e for e in seqs if isinstance(e, tuple) and e and e[0] == 'loop']
        if len(loops) == 1 and len(seqs) == 1:
            bodies = [b for c, b in loops[0][1]]
        else:
            return None, 'several loops'
    else:
        bodies = [seqs]
    out = set()
    for b in bodies:
        cs = strip_all(canon_fix(canon_seq(b), None))
        els = sorted({y for e in cs for x in e if isinstance(x, T) for y in walk(x) if y.op == 'elem'}, key=lambda y: -len(show(y)))
        if not els or any(y.op == 'partial' for y in walk(els[0])) or not coll_ok(els[0].a[0]):
            return None, 'not all elements: %s' % (show(els[0])[:120] if els else cs,)
        top = els[0]
        memo = {}
        out.add(tuple(tuple(subst(x, lambda y: mk('ITEM') if y is top else None, memo) if isinstance(x, T) else x for x in e) for e in cs))
    return [o for o in out], None


def message_iteration(p, s, pe, vi):
    def rolefn(E, st, key):
        if key.op == 'app' and key.a[0].endswith('::number') and key.a[2].op == 'elem' and not any(y.op == 'partial' for y in walk(key)):
            return 'own'
        return None
    S = Slots(p, {'own': s}, rolefn, watch=Scenario.watch)
    E = S.E
    E.track_exhaust = True
    E.discr_hook = lambda v, adt: ({'value': S.iv, 'unknown': S.iu, 'taken': S.units[0]}[s] if adt == S.entry else vi if adt == pe and pe else None)
    E.oracle = lambda nm, a, r: NONE_OPT if nm.endswith('::get_field') or nm.endswith('::get_extension') else None
    return S, E
