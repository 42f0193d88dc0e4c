"""Wire codec table. For every kind x {singular, list, packed, group, map value} and map key kind, the abstract
interpreter derives what encode_raw writes for a field or extension and which codec merge_field calls on which
payload with which wire type; each must be the codec the protobuf encoding assigns to that kind."""
from prv.wire import *

LEVEL = 'proof'


def force_present(S, ext):
    """Fixes the lookups: the field is known (ext: an extension) and stored."""
    p = S.p
    od, oo = S.E.discr_hook, S.E.oracle
    # the storage enum: the variant holding a Value
    holders = {}
    for n, ad in p.adts.items():
        if ad['kind'] == 'enum' and n.startswith('prost_reflect::') and n not in (VAL,):
            for i, v in enumerate(ad['v']):
                if len(v['f']) == 1 and p.types[v['f'][0][1]].get('n') == VAL:
                    holders[n] = i

    def dh(v, adt):
        if v.op == 'app' and v.a[0].endswith('MessageDescriptor::get_field') and v.a[2] is not None:
            return 0 if ext else 1
        if v.op == 'app' and v.a[0].endswith('MessageDescriptor::get_extension'):
            return 1 if ext else 0
        if v.op == 'app' and v.a[0].endswith('BTreeMap::get'):
            return 1
        if adt in holders:
            return holders[adt]
        return od(v, adt)

    def orc(n, a, r):
        if n.endswith('::containing_oneof'):
            return NONE_OPT
        return oo(n, a, r)
    S.E.discr_hook = dh
    S.E.oracle = orc


def bodies_of(seq, out):
    """The alternatives written inside the outermost loops over the fields."""
    for e in seq:
        if e[0] == 'loop':
            for c, b in e[1]:
                out.append((c, [x for x in b if not (x[0] == 'loop' and all(not y for _, y in x[1]))]))
        else:
            out.append((frozenset(), [e]))


def is_number(t):
    return t.op == 'app' and t.a[0].endswith('::number') and t.a[0].startswith(DESC)


def payload_candidates(S, seq, variant, role):
    seen = []

    def go(x):
        if isinstance(x, T):
            for y in walk(x):
                if y.op == 'proj' and y.a[1] == S.VI[variant] and y.a[2] == 0 and y not in seen and S.vrole(y.a[0]) == role:
                    seen.append(y)
        elif isinstance(x, (tuple, list, frozenset)):
            for z in x:
                go(z)
    go(seq)
    return seen


def coherent(V, X):
    """The written value belongs to the written number's descriptor X."""
    wv = set(walk(V))
    if any(is_number(t) and t.a[2] is X for t in wv):
        return True
    return any(t.op == 'elem' and t in wv for t in walk(X))


def ss(x):
    if isinstance(x, T):
        return strip_sites(x)
    if isinstance(x, (tuple, list)):
        return tuple(ss(y) for y in x)
    if isinstance(x, frozenset):
        return frozenset(ss(y) for y in x)
    return x


def noconds(seq):
    return tuple(('loop', frozenset(noconds(b) for _, b in e[1])) if e[0] == 'loop' else e for e in seq)


def shape_expect(S, n, pay, fam):
    """The expected sequence for payload pay; lengths are checked by C02 and masked here."""
    var, codec, wt = KINDS[S.kind]
    if S.shape in ('one',):
        return seq_of_codec(codec, n, pay)
    if S.shape == 'group':
        return seq_of_codec('group', n, pay)
    el = mk('proj', mk('elem', pay), S.VI[var], 0)
    if S.shape in ('list', 'group_list'):
        return [('loop', frozenset({tuple(seq_of_codec('group' if S.shape == 'group_list' else codec, n, el))}))]
    if S.shape == 'packed':
        return [('key', n, 'LengthDelimited'), ('varint', 'LEN'), ('loop', frozenset({tuple(seq_of_codec(codec, n, el)[1:])}))]
    if S.shape == 'map':
        ent = mk('elem', pay)
        kv_, kc, _ = KINDS[S.key]
        kp = mk('proj', mk('proj', ent, None, 0), S.MI[kv_], 0)
        vp = mk('proj', mk('proj', ent, None, 1), S.VI[var], 0)
        return [('loop', frozenset({tuple([('key', n, 'LengthDelimited'), ('varint', 'LEN')] + seq_of_codec(kc, k(1), kp) + seq_of_codec(codec, k(2), vp))}))]


def mask_len(seq):
    """Masks the length prefix of packed lists and map entries (checked against the content by C02)."""
    out = []
    for i, e in enumerate(seq):
        if e[0] == 'loop':
            out.append(('loop', frozenset(mask_len(b) for b in e[1])))
        elif e[0] == 'varint' and i == 1 and seq[0][0] == 'key' and seq[0][2] == 'LengthDelimited' and len(seq) > 2 and seq[2][0] in ('loop', 'key'):
            out.append(('varint', 'LEN'))
        else:
            out.append(e)
    return tuple(out)


def show_masked(s):
    o = []
    for e in s:
        if e[0] == 'loop':
            o.append('loop{' + ' | '.join(show_masked(b) for b in e[1]) + '}')
        else:
            o.append(' '.join(show(x)[-120:] if isinstance(x, T) else str(x) for x in e))
    return '; '.join(o)


def check_encode(p, C, kd, shape, key, ext):
    S = Scenario(p, kd, shape, key, extra_flags={r: dict(supports_presence=1) for r in ('field', 'key', 'value')})
    force_present(S, ext)
    name = '%s/%s%s/%s' % (shape, kd, ('/key ' + key) if key else '', 'extension' if ext else 'field')
    fs = S.run(MSG + 'encode_raw')
    C.inlined(S.E)
    bs = []
    for f in fs:
        bodies_of(canon_seq(f.trace), bs)
    which = 'get_extension' if ext else '::fields'
    cnt = 0
    for c, b in bs:
        if not b:
            continue
        b2 = mask_len(noconds(ss(tuple(b))))
        ns = [t for e in b2 for t in flat_terms(e) if is_number(t)]
        n = ns[0] if ns else None
        isext = n is not None and any(t.op == 'app' and t.a[0].endswith('get_extension') for t in walk(n))
        if n is None or isext != ext:
            C.ob(n is not None, 'encode:%s' % name, 'writes with a number that is not the number of the field: %s' % show_masked(b2), 'encode')
            continue
        cnt += 1
        role = 'field'
        pays = payload_candidates(S, b2, S.variant['field'], 'field')
        okk = False
        exp = None
        for pay in pays:
            exp = ss(shape_expect(S, n, pay, None))
            if tuple(exp) == tuple(b2) and coherent(pay, n.a[2]):
                okk = True
        C.ob(okk, 'encode:%s' % name, 'writes  %s\nexpected %s' % (show_masked(b2), show_masked(exp) if exp else 'the payload of the value (variant %s) of the field' % S.variant['field']), 'encode')
    C.ob(cnt >= 1, 'encode:%s' % name, 'no path writes this field at all', 'encode reaches')
    return 1


def flat_terms(e):
    if isinstance(e, T):
        yield from walk(e)
    elif isinstance(e, (tuple, list, frozenset)):
        for x in e:
            yield from flat_terms(x)


# ---- decoding
def watch_merge(n, r, c):
    x = Scenario.watch(n, r, c)
    if x:
        return x
    if n == 'alloc::vec::Vec::push':
        return 'push'
    if n.endswith('::HashMap::insert'):
        return 'insert'
    return None


def merges(tr, path=()):
    """(event, enclosing loop facts) of a trace, loops flattened."""
    for e in tr:
        if isinstance(e, tuple):
            for c, b in e[1]:
                yield from merges(b, path + (c,))
        else:
            yield e, path


def codec_of(e):
    parts = e.a[0].split('::')
    if len(parts) >= 2 and parts[-1].startswith('merge') and parts[-2] in CODECS:
        return parts[-2]
    return None


def has_out(E, t, fn, seen=None):
    """Term t holds the output of a call of fn (through loop phis)."""
    seen = seen if seen is not None else set()
    for x in walk(t):
        if x.op == 'out' and x.a[0] == fn:
            return True
        if x.op == 'phi' and x not in seen and x in E.phi_in:
            seen.add(x)
            for _, v in E.phi_in[x][1]:
                if v is not None and has_out(E, v, fn, seen):
                    return True
    return False


def variant_with_out(S, t, adt, var, fn):
    """t is a value of variant var whose payload was decoded by fn."""
    if t.op == 'agg' and t.a[0] == adt:
        return t.a[1] == var and has_out(S.E, t.a[2], fn)
    if t.op == 'upd':
        return all(e[0] == 'f' and e[1] == var and e[2] == 0 for e, _ in t.a[1]) and any(has_out(S.E, x, fn) for _, x in t.a[1])
    return False


def check_merge(p, C, kd, shape, key, ext):
    S = Scenario(p, kd, shape, key, watch=watch_merge, extra_flags={r: dict(supports_presence=1) for r in ('field', 'key', 'value')})
    force_present(S, ext)
    name = '%s/%s%s/%s' % (shape, kd, ('/key ' + key) if key else '', 'extension' if ext else 'field')
    fs = S.run(MSG + 'merge_field')
    C.inlined(S.E)
    var, codec, wt = KINDS[kd]
    if shape in ('group', 'group_list'):
        codec, wt = 'group', 'StartGroup'
    wire_arg = S.E.args[2]
    fn = ENC + codec + '::merge'
    C.ob(bool(fs), 'decode:%s' % name, 'no path decodes this field', 'decode reaches')
    seen_ok = 0
    seen_packed = 0
    for f in fs:
        evs = list(merges(f.trace))
        known = f.facts.get(mk('discr', f.ret))
        errret = (f.ret.op == 'agg' and f.ret.a[0] == 'core::result::Result' and f.ret.a[1] == 1) or known == ('+', frozenset((1,)))
        labels = [(codec_of(e), e, pth) for e, pth in evs if codec_of(e)]
        others = [e for e, _ in evs if not codec_of(e) and e.a[0].split('::')[-1] not in ('merge_loop', 'push', 'insert', 'decode_key', 'skip_field', 'check_wire_type')]
        C.ob(not others, 'decode:%s' % name, 'unexpected decoding step %s' % [show(e)[:200] for e in others], 'decode')
        wd = f.facts.get(mk('discr', wire_arg))
        mloop = any(e.a[0].split('::')[-1] == 'merge_loop' for e, _ in evs)
        if shape in ('one', 'group'):
            C.ob(len(labels) == 1 and labels[0][0] == codec, 'decode:%s' % name, 'decoded with %s instead of %s' % ([l[0] for l in labels], codec), 'decode codec')
            if len(labels) != 1:
                continue
            e = labels[0][1]
            a = e.a[1:]
            if codec == 'group':
                C.ob(is_number(a[0]), 'decode:%s' % name, 'group end tag compared with %s' % show(a[0])[:200], 'decode group tag')
                a = a[1:]
            C.ob(a[0] is wire_arg, 'decode:%s' % name, 'wire type passed to the codec is %s, not the one read' % show(a[0])[:200], 'decode wire type')
            # where the result lands: the payload of the stored value
            landed = any(e2[0] == 'f' and e2[1] == S.VI[var] and x.op == 'out' and x.a[0] == fn
                         for v in f.st.mem.values() for t in walk(v) if t.op == 'upd' for e2, x in t.a[1]) or \
                any(t.op == 'agg' and t.a[0] == VAL and t.a[1] == S.VI[var] and t.a[2].op == 'out' and t.a[2].a[0] == fn
                    for v in f.st.mem.values() for t in walk(v))
            C.ob(landed, 'decode:%s' % name, 'the decoded payload is not stored in a Value::%s' % var, 'decode target')
            seen_ok += 1
        elif shape in ('list', 'group_list'):
            packable = kd in PACKABLE
            bad = [l[0] for l in labels if l[0] != codec]
            C.ob(not bad, 'decode:%s' % name, 'elements decoded with %s instead of %s' % (bad, codec), 'decode codec')
            ld = wd is not None and wd[0] == '+' and wd[1] == frozenset((WTN.index('LengthDelimited'),))
            canld = wd is None or (WTN.index('LengthDelimited') in wd[1]) == (wd[0] == '+')
            if packable and ld:
                C.ob(mloop, 'decode:%s' % name, 'length-delimited (packed) input is not decoded element by element', 'decode packed')
            elif packable:
                C.ob(not (canld and not mloop), 'decode:%s' % name, 'packed input is treated as a single element', 'decode packed')
            if mloop:
                C.ob(packable, 'decode:%s' % name, 'packed decoding for a kind that cannot be packed', 'decode packed')
                seen_packed += 1
                for cd, e, pth in labels:
                    C.ob(bool(pth) and e.a[1] is wtterm(wt), 'decode:%s' % name, 'packed elements are read with wire type %s instead of %s' % (show(e.a[1])[:100], wt), 'decode wire type')
            else:
                for cd, e, pth in labels:
                    w = e.a[2] if cd == 'group' else e.a[1]
                    C.ob(w is wire_arg, 'decode:%s' % name, 'wire type passed to the codec is %s, not the one read' % show(w)[:200], 'decode wire type')
                    if cd == 'group':
                        C.ob(is_number(e.a[1]), 'decode:%s' % name, 'group end tag compared with %s' % show(e.a[1])[:200], 'decode group tag')
            # each successfully decoded element is pushed once, as the variant of the kind
            for trc in elem_traces(f.trace):
                ms = [e for e in trc if isinstance(e, T) and codec_of(e)]
                ps = [e for e in trc if isinstance(e, T) and e.a[0] == 'push']
                if not ms:
                    C.ob(not ps, 'decode:%s' % name, 'an element is added without decoding', 'decode push')
                    continue
                if ps:
                    C.ob(len(ps) == 1 and len(ms) == 1 and variant_with_out(S, ps[0].a[2], VAL, S.VI[var], fn), 'decode:%s' % name,
                         'element stored as %s, expected Value::%s of the decoded payload' % (show(ps[0].a[2])[:200], var), 'decode push')
                    seen_ok += 1
            if not mloop and not errret:
                C.ob(sum(1 for e, _ in evs if e.a[0] == 'push') == 1, 'decode:%s' % name, 'a decoded element is not added to the list on success', 'decode push')
        elif shape == 'map':
            kvv, kc, kwt = KINDS[key]
            C.ob(mloop, 'decode:%s' % name, 'map entry is not decoded as a length-delimited record', 'decode map entry')
            ins = [e for e, pth in evs if e.a[0] == 'insert' and not pth]
            C.ob(len(ins) == (0 if errret else 1), 'decode:%s' % name, 'entry inserted %d times on %s' % (len(ins), 'failure' if errret else 'success'), 'decode map insert')
            for e in ins:
                kt, vt = e.a[2], e.a[3]
                C.ob(variant_with_out(S, kt, MK, S.MI[kvv], ENC + kc + '::merge'), 'decode:%s' % name, 'inserted key is %s' % show(kt)[:200], 'decode map key')
                C.ob(variant_with_out(S, vt, VAL, S.VI[var], fn), 'decode:%s' % name, 'inserted value is %s' % show(vt)[:200], 'decode map value')
            seen = set()
            for e in f.trace:
                if not isinstance(e, tuple):
                    continue
                for c, b in e[1]:
                    ms = [x for x in b if isinstance(x, T) and codec_of(x)]
                    dk = [(t, d) for t, d in c if t.op == 'proj' and t.a[2] == 0 and t.a[0].op == 'proj' and 'decode_key' in show(t.a[0])]
                    tag = dk[0][1] if dk else None
                    dec = [x for x in b if isinstance(x, T) and x.a[0].endswith('decode_key')]
                    if not dec:
                        continue
                    for x in ms:
                        w = x.a[2] if codec_of(x) == 'group' else x.a[1]
                        want = kc if tag == ('+', frozenset((1,))) else codec if tag == ('+', frozenset((2,))) else None
                        C.ob(codec_of(x) == want, 'decode:%s' % name, 'entry part with number %s is decoded with %s, expected %s' % (tag, codec_of(x), want), 'decode map dispatch')
                        C.ob(w.op == 'proj' and w.a[2] == 1 and 'decode_key' in show(w), 'decode:%s' % name, 'wire type of the entry part is %s' % show(w)[:200], 'decode wire type')
                        seen.add(want)
                    if tag == ('-', frozenset((1, 2))):
                        C.ob(not ms and any(isinstance(x, T) and x.a[0].endswith('skip_field') for x in b), 'decode:%s' % name, 'unknown entry parts are not skipped', 'decode map dispatch')
            C.ob({kc, codec} <= seen, 'decode:%s' % name, 'entry parts decoded: %s' % sorted(map(str, seen)), 'decode map dispatch')
            seen_ok += 1
    C.ob(seen_ok > 0, 'decode:%s' % name, 'no successful path', 'decode reaches')
    if shape == 'list' and kd in PACKABLE:
        C.ob(seen_packed > 0, 'decode:%s' % name, 'packed form not accepted', 'decode packed')
    return 1


def elem_traces(tr):
    flat = [e for e in tr if isinstance(e, T)]
    if flat:
        yield flat
    for e in tr:
        if isinstance(e, tuple):
            for c, b in e[1]:
                yield from elem_traces(b)


def scenarios(thorough):
    for kd in KINDS:
        yield kd, 'one', None
        yield kd, 'list', None
        if kd in PACKABLE:
            yield kd, 'packed', None
        for key in (KEYKINDS if thorough else ['String'] if kd != 'Int32' else KEYKINDS):
            yield kd, 'map', key
    yield 'Message', 'group', None
    yield 'Message', 'group_list', None


def run(p, C):
    n = 0
    for kd, shape, key in scenarios(C.tier == 'thorough'):
        for ext in (False, True):
            if ext and shape == 'map':
                continue
            n += check_encode(p, C, kd, shape, key, ext)
            if shape != 'packed':
                n += check_merge(p, C, kd, shape, key, ext)
    C.floor('scenarios', n, 180)
