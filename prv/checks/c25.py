"""The text-format parser is run from its public entry on token scripts over the slot model of the message: for every way a field
is named and given (plain, group, extension, inside a message, inside an element of a list, inside an expanded Any), for every
stored state of the field and of the other members of its oneof (in every order of the members), a second setting is refused and
a first one is stored; list and map fields grow. The JSON visitor of messages is run on documents that give two members of one
oneof, in both orders and with nulls."""
import itertools

from prv.textparse import *
from prv.checks import c19

LEVEL = 'proof'
G1 = 'text: a singular field that is present is refused'
G2 = 'text: a second member of a oneof is refused'
G3 = 'text: a first setting is stored'
G4 = 'text: list and map fields grow'
G5 = 'text: an expanded Any is refused twice'
G6 = 'JSON: two members of a oneof are refused'
FNAME, GROUP, ENAME = mk('fname'), mk('groupname'), mk('extname')
SELF, SUB = 'self', mk('submessage')


def result(f):
    r = f.ret
    return ('ok' if r.a[1] == 0 else 'err') if r.op == 'agg' and r.a[0] == 'core::result::Result' else '?'


def values(T):
    """(kind, tokens of one value, colon needed)"""
    return [
        ('Int32', [T.int_()], 1), ('Uint64', [T.int_()], 1), ('Double', [T('FloatLiteral', mk('num'))], 1), ('Float', [T.int_()], 1),
        ('Bool', [T.ident(k('true'))], 1), ('String', [T('StringLiteral', mk('bytes'))], 1), ('Bytes', [T('StringLiteral', mk('bytes'))], 1),
        ('Enum', [T.ident(mk('valuename'))], 1),
        ('Message', [T('LeftBrace'), T('RightBrace')], 0), ('Message', [T('LeftAngleBracket'), T('RightAngleBracket')], 0),
        ('Message', [T('Colon'), T('LeftBrace'), T('RightBrace')], 0),
    ]


def names(T):
    """(how it is named, tokens, lookups of the enclosing message, group)"""
    byname = {'get_field_by_name': lambda a: some(TARGET) if a is FNAME else NONE_OPT}
    group = {'get_field_by_name': lambda a: some(TARGET) if a is not GROUP and any(x is GROUP for x in walk(a)) else NONE_OPT}
    ext = {'get_extension_by_full_name': lambda a: some(TARGET) if any(x is ENAME for x in walk(a)) else NONE_OPT, 'get_field_by_name': lambda a: NONE_OPT}
    return [('field', [T.ident(FNAME)], byname, 0), ('group', [T.ident(GROUP)], group, 1),
            ('extension', [T('LeftBracket'), T.ident(ENAME), T('RightBracket')], ext, 0)]


def extra(p, group=0):
    """Answers about names and descriptors that do not depend on the message."""
    def f(n, last, a, res):
        if last == 'number' and n.startswith(DESC) and a[0] in (TARGET, OTHER, THIRD):
            return k({TARGET: 11, OTHER: 12, THIRD: 13}[a[0]])
        if n.endswith('PartialEq>::eq') and 'Descriptor' in n and all(x in (TARGET, OTHER, THIRD) for x in a[:2]):
            return k(int(a[0] is a[1]))
        if group and last == 'eq' and any(x is GROUP for x in walk(res)) and any(x.op == 'app' and x.a[0].endswith('::name') for x in walk(res)):
            return k(1)
        if last == 'get_value_by_name' and n.startswith(DESC):
            return some(mk('enumvalue'))
        if last == 'from_str_radix' or (last == 'parse' and 'str' in n):
            return ok(mk('number'))
        return None
    return f


def roles(key):
    return {11: 'own', 12: 'other', 13: 'third'}.get(kv(key)) if isk(key) else None


def text(p, C):
    T = Tokens(p)
    n = 0
    states = [(s, pr, d) for s in STATES for pr in (0, 1) for d in (0, 1)]

    def go(script, own, other, oneof, look, group, kind, key, presence=1, default=0, members=(), third='absent', more=None):
        nonlocal n
        base = extra(p, group)

        def ex(nm, last, a, res):
            if last == 'eq' and nm.endswith('PartialEq>::eq') and VAL in nm and any(x.op == 'app' and x.a[0].endswith('Descriptor::default_value') for x in a):
                return k(default)
            if more:
                r = more(nm, last, a, res)
                if r is not None:
                    return r
            return base(nm, last, a, res)
        ans = dict(is_list=k(0), is_map=k(0), is_group=k(group), kind=kindterm(p, kind), supports_presence=k(presence))
        P = Parse(p, script, own, other, oneof, look, ans, extra=ex, roles=roles, slots={'third': third}, members=members)
        n += 1
        C.inlined(P.E)
        C.ob(bool(P.r), key + ':runs', 'no outcome', 'the parser ends')
        C.ob(all(result(f) != '?' for f in P.r), key + ':result', 'an outcome is neither Ok nor Err', 'the parser ends')
        return P

    for (how, nt, look, group), (kind, vt, colon) in itertools.product(names(T), values(T)):
        if group and kind != 'Message':
            continue
        script = nt + ([T('Colon')] if colon else []) + vt
        form = '%s %s%d' % (how, kind, len(vt))
        for s, pr, d in (states if kind in ('Int32', 'String', 'Message') else states[3:5] + states[:1]):
            present = s == 'value' and (pr or not d)
            key = '%s:%s,%d,%d' % (form, s, pr, d)
            P = go(script, s, 'absent', 0, look, group, kind, key, pr, d)
            if present:
                C.ob(not [f for f in P.r if result(f) != 'err'], key + ':refused', '%s that is already present is set again' % form, G1)
            else:
                good = [f for f in P.r if result(f) == 'ok']
                C.ob(bool(good) and all(P.S.final(f, 'own')[0] == 'value' and P.S.final(f, 'own')[1] is not mk('stored', 'own') for f in good), key + ':stored',
                     '%s: a first setting leaves %s' % (form, sorted({str(P.S.final(f, 'own')[0]) for f in good})), G3)
        if how == 'extension':
            continue
        for members in itertools.permutations((TARGET, OTHER, THIRD)):
            order = ''.join({TARGET: 's', OTHER: 'o', THIRD: 't'}[x] for x in members)
            for oth, thr in (('value', 'absent'), ('absent', 'value'), ('absent', 'absent'), ('unknown', 'taken')):
                key = '%s:oneof %s,%s,%s' % (form, order, oth, thr)
                P = go(script, 'absent', oth, 1, look, group, kind, key, members=members, third=thr)
                if 'value' in (oth, thr):
                    C.ob(not [f for f in P.r if result(f) != 'err'], key + ':refused', '%s is accepted although another member of its oneof is present' % form, G2)
                else:
                    good = [f for f in P.r if result(f) == 'ok']
                    C.ob(bool(good) and all(P.S.final(f, 'own')[0] == 'value' for f in good), key + ':stored', '%s: a first member of a oneof is not stored' % form, G3)
            P = go(script, 'value', 'absent', 1, look, group, kind, '%s:oneof %s,own' % (form, order), members=members)
            C.ob(not [f for f in P.r if result(f) != 'err'], '%s:oneof %s,own:refused' % (form, order), '%s that is already present is set again' % form, G1)
    return n, go, T


KEYF, VALF, OUTER, OUTER2 = mk('keyfield'), mk('valuefield'), mk('outerfield'), mk('outerfield2')
ENUMBER = {KEYF: 1, VALF: 2, OUTER: 31, OUTER2: 32, TARGET: 11, OTHER: 12, THIRD: 13}
ROLE = {1: 'key', 2: 'val', 11: 'own', 12: 'other', 13: 'third', 31: 'outer', 32: 'outer2'}


def field_facts(facts):
    """Answers for several fields: field -> {question: answer}."""
    def f(n, last, a, res):
        if not a or not n.startswith(DESC):
            return None
        if last == 'number' and a[0] in ENUMBER:
            return k(ENUMBER[a[0]])
        if a[0] in facts:
            if last in facts[a[0]]:
                return facts[a[0]][last]
            if last in ('is_list', 'is_map', 'is_group'):
                return k(0)
            if last == 'containing_oneof':
                return NONE_OPT
        return None
    return f


def both(*fs):
    def f(n, last, a, res):
        for g in fs:
            r = g(n, last, a, res)
            if r is not None:
                return r
        return None
    return f


def grow(p, C, T):
    """List and map fields keep what they hold and add what is given, in order; they are never refused."""
    n = 0
    VI = vidx(p, VAL)
    LB, RB, CM, CO, B0, B1 = T('LeftBracket'), T('RightBracket'), T('Comma'), T('Colon'), T('LeftBrace'), T('RightBrace')

    def val(i):
        return [T('StringLiteral', mk('bytes', i))]

    def entry(i):
        return [B0, T.ident(k('key')), CO, T.int_(mk('digits', i)), T.ident(k('value')), CO] + val(i) + [B1]

    def digits(nm, last, a, res):
        return ok(mk('number', a[0])) if last == 'from_str_radix' else None
    for lst, kind in ((1, 'Bytes'), (0, 'Message')):
        var, base, one = ('List', 'list', val) if lst else ('Map', 'map', entry)
        held, empty = mk(base + '0'), mk('empty' + base)
        for s in STATES:
            for cnt, toks in ((1, one(1)), (0, [LB, RB]), (1, [LB] + one(1) + [RB]), (2, [LB] + one(1) + [CM] + one(2) + [RB]),
                              (3, [LB] + one(1) + [CM] + one(2) + [CM] + one(3) + [RB]),
                              (2, one(1) + [T.ident(FNAME), CO] + one(2)), (2, [LB] + one(1) + [RB, T('Semicolon'), T.ident(FNAME), CO] + one(2))):
                look = {'get_field_by_name': lambda a: some(TARGET) if a is FNAME else some(KEYF) if a == k('key') else some(VALF) if a == k('value') else NONE_OPT,
                        'get_field': lambda a: {1: some(KEYF), 2: some(VALF)}.get(kv(a), NONE_OPT) if isk(a) else NONE_OPT}
                facts = {TARGET: dict(is_list=k(lst), is_map=k(1 - lst), kind=kindterm(p, kind), default_value=agg(VAL, VI[var], empty)),
                         KEYF: dict(kind=kindterm(p, 'Int32')), VALF: dict(kind=kindterm(p, 'Bytes'))}
                P = Parse(p, [T.ident(FNAME), CO] + toks, s, 'absent', 0, look, {}, extra=both(field_facts(facts), digits, extra(p)),
                          roles=lambda key: ROLE.get(kv(key)) if isk(key) else None,
                          slots={'third': 'absent', 'key': 'absent', 'val': 'absent'}, members=(), anydesc=1, fresh=('key', 'val'),
                          stored={'own': agg(VAL, VI[var], held)})
                n += 1
                C.inlined(P.E)
                want = held if s == 'value' else empty
                for i in range(1, cnt + 1):
                    v = agg(VAL, VI['Bytes'], mk('bytes', i))
                    key = mk('number', mk('digits', i))
                    want = ('push', v, want) if lst else ('mapset', key, v, want)
                got = {P.S.final(f, 'own') for f in P.r if result(f) == 'ok'}
                okk = bool(P.r) and all(result(f) == 'ok' for f in P.r) and len(got) == 1 and all(
                    g[0] == 'value' and g[1].op == 'agg' and g[1].a[1] == VI[var] and same_chain(g[1].a[2], want, lst or cnt < 2 or LB not in toks) for g in got)
                C.ob(okk, 'grow:%s:%s:%d:%d' % (base, s, cnt, len(toks)), 'a %s field (%s) given %d values ends as %s' % (
                    base, s, cnt, sorted(show(g[1])[:150] if len(g) > 1 else str(g) for g in got) or 'an error'), G4)
    return n


def same_chain(t, want, exact):
    """t is the given pushes (or map insertions) on the given start, whatever the functions that did them. (Entries of one list are
    read before any is stored; the model knows one entry at a time, so for those only their number is compared.)"""
    if not isinstance(want, tuple):
        return t is want
    if t.op != 'app' or t.a[0] != want[0]:
        return False
    if want[0] == 'push':
        return t.a[2] is want[1] and same_chain(t.a[3], want[2], exact)
    key = t.a[2]
    while key.op == 'agg' and len(key.a) == 3:
        key = key.a[2]
    return (not exact or key is want[1] and t.a[3] is want[2]) and same_chain(t.a[4], want[3], exact)


def nested(p, C, T):
    """The same inside a message value: of a field, in a list, in an extension, in an expanded Any."""
    n = 0
    LB, RB, CM, CO, B0, B1 = T('LeftBracket'), T('RightBracket'), T('Comma'), T('Colon'), T('LeftBrace'), T('RightBrace')
    A0, A1 = T('LeftAngleBracket'), T('RightAngleBracket')
    ON, ON2, AN = mk('outername'), mk('outername2'), mk('othername')
    one = [T.ident(FNAME), CO, T('StringLiteral', mk('bytes', 1))]
    two = [T.ident(FNAME), CO, T('StringLiteral', mk('bytes', 2))]
    oth = [T.ident(AN), CO, T('StringLiteral', mk('bytes', 3))]
    nameext = [LB, T.ident(ENAME), RB]
    nameany = [LB, T.ident(mk('domain')), T('ForwardSlash'), T.ident(mk('anyname')), RB]
    # (where, tokens before, tokens after, outer field facts)
    spots = [('message', [T.ident(ON), B0], [B1], dict()), ('message <>', [T.ident(ON), CO, A0], [A1], dict()),
             ('extension', nameext + [B0], [B1], dict()), ('any', nameany + [B0], [B1], dict()),
             ('list', [T.ident(ON), B0], [B1], dict(is_list=k(1))), ('list element', [T.ident(ON), CO, LB, B0], [B1, RB], dict(is_list=k(1))),
             ('later element', [T.ident(ON), CO, LB, B0] + one + [B1, CM, B0], [B1, RB], dict(is_list=k(1))),
             ('two deep', [T.ident(ON), B0, T.ident(ON2), B0], [B1, B1], dict())]
    VI = vidx(p, VAL)
    for where, pre, post, of in spots:
        for body, oneof, good, what in ((one, 0, 1, 'once'), (one + two, 0, 0, 'twice'), (one + [T('Comma')] + two, 0, 0, 'twice'), (one + oth, 1, 0, 'two members'),
                                        (oth + [T('Semicolon')] + one, 1, 0, 'two members'), (one + oth, 0, 1, 'two fields')):
            for members in ((TARGET, OTHER), (OTHER, TARGET)) if oneof else ((),):
                look = {'get_field_by_name': lambda a: some(TARGET) if a is FNAME else some(OTHER) if a is AN else some(OUTER) if a is ON else some(OUTER2) if a is ON2 else NONE_OPT,
                        'get_extension_by_full_name': lambda a: some(OUTER) if any(x is ENAME for x in walk(a)) else NONE_OPT}
                inner = dict(kind=kindterm(p, 'Bytes'), containing_oneof=some(mk('oneof')) if oneof else NONE_OPT)
                facts = {TARGET: inner, OTHER: inner, OUTER: dict(of, kind=kindterm(p, 'Message'), default_value=agg(VAL, VI['List'], mk('emptylist'))),
                         OUTER2: dict(kind=kindterm(p, 'Message'))}

                def more(nm, last, a, res):
                    if last == 'get_message_by_name':
                        return some(mk('desc'))
                    if last == 'full_name':
                        return k('google.protobuf.Any')
                    return None
                P = Parse(p, pre + body + post, 'absent', 'absent', 0, look, {}, extra=both(field_facts(facts), more, extra(p)),
                          roles=lambda key: ROLE.get(kv(key)) if isk(key) else None,
                          slots={'third': 'absent', 'key': 'absent', 'val': 'absent', 'outer': 'absent', 'outer2': 'absent'}, members=members, anydesc=1,
                          fresh=('own', 'other'), opaque=[DPOOL + 'get_message_by_name'])
                n += 1
                C.inlined(P.E)
                res = {result(f) for f in P.r}
                key = 'nested:%s:%s:%d:%s' % (where, what, len(body), ''.join({TARGET: 's', OTHER: 'o'}[x] for x in members))
                if good:
                    C.ob('ok' in res, key, 'a message in %s that gives a field %s is refused' % (where, what), G3)
                else:
                    C.ob(res == {'err'}, key, 'a message in %s that gives %s is accepted' % (where, what), G1 if what == 'twice' else G2)
    return n


DPOOL = DESC + 'DescriptorPool::'


def anys(p, C, T):
    """[domain/name] { } sets both fields of an Any: refused when one of them is present."""
    n = 0
    CO, B0, B1 = T('Colon'), T('LeftBrace'), T('RightBrace')
    tok = [T('LeftBracket'), T.ident(mk('domain')), T('ForwardSlash'), T.ident(mk('anyname')), T('RightBracket'), B0, B1]
    for fname in (k('google.protobuf.Any'), k('pkg.Other')):
        for url, val in itertools.product(('absent', 'value', 'taken'), repeat=2):
            for times in (1, 2):
                facts = {KEYF: dict(kind=kindterm(p, 'String'), supports_presence=k(1)), VALF: dict(kind=kindterm(p, 'Bytes'), supports_presence=k(1))}
                look = {'get_field': lambda a: {1: some(KEYF), 2: some(VALF)}.get(kv(a), NONE_OPT) if isk(a) else NONE_OPT,
                        'get_field_by_name': lambda a: {'type_url': some(KEYF), 'value': some(VALF)}.get(kv(a), NONE_OPT) if isk(a) else NONE_OPT}

                def more(nm, last, a, res):
                    if last == 'get_message_by_name':
                        return some(mk('desc'))
                    if last == 'full_name':
                        return fname
                    if last in ('is_valid_for_field', 'is_valid_for_extension'):
                        return k(1)
                    if last == 'eq' and VAL in nm and any(x.op == 'app' and x.a[0].endswith('::default_value') for x in a):
                        return k(0)
                    return None
                P = Parse(p, tok * times, 'absent', 'absent', 0, look, {}, extra=both(field_facts(facts), more, extra(p)),
                          roles=lambda key: ROLE.get(kv(key)) if isk(key) else None, slots={'third': 'absent', 'key': url, 'val': val}, members=(),
                          anydesc=1, opaque=[DPOOL + 'get_message_by_name'])
                n += 1
                C.inlined(P.E)
                res = {result(f) for f in P.r}
                key = 'any:%s:%s,%s:%d' % (kv(fname), url, val, times)
                if kv(fname) != 'google.protobuf.Any':
                    C.ob(res == {'err'}, key, 'an expanded Any in another message is accepted', G5)
                elif times == 2 or 'value' in (url, val):
                    C.ob(res == {'err'}, key, 'an expanded Any is accepted although the Any already has a value', G5)
                else:
                    C.ob('ok' in res and all(P.S.final(f, r)[0] == 'value' and P.S.final(f, r)[1] is not mk('stored', r) for f in P.r if result(f) == 'ok' for r in ('key', 'val')),
                         key, 'an expanded Any does not set both fields', G3)
    return n


def json(p, C):
    """Documents that give two members of a oneof."""
    n = 0
    sc = c19.Scope(p)
    mine = [a for a in sc.carr if any(p.ts(c19.ft(f)[1]) == '&mut ' + DYN + 'DynamicMessage' for f in p.adts[a]['v'][0]['f'])]
    vm = [fn for fn in sc.fns if any(fn.startswith('<%s<' % a) or fn.startswith('<%s as' % a) for a in mine) and fn.endswith('::visit_map')]
    C.ob(len(vm) == 1, 'json:visitor', 'visitors that fill a message: %s' % vm, G6)
    MA = ['serde::de::MapAccess::', 'serde_core::de::MapAccess::']
    pos = mk('ghost', 'keys read')
    names_ = {'own': TARGET, 'other': OTHER, 'plain': OUTER}
    orders = [(TARGET, OTHER, THIRD), (OTHER, TARGET, THIRD), (THIRD, OTHER, TARGET), (THIRD, TARGET, OTHER)]
    docs = [(d, v) for d in (('own',), ('own', 'other'), ('other', 'own'), ('own', 'plain'), ('own', 'plain', 'other')) for v in itertools.product((0, 1), repeat=len(d))]
    for fn in vm:
        for byname in (0, 1):
            for members in orders:
                for doc, vals in docs:
                    S = Slots(p, {'own': 'absent', 'other': 'absent', 'third': 'absent', 'outer': 'absent'}, lambda E, st, key: ROLE.get(kv(key)) if isk(key) else None,
                              opaque=[ONEOF + 'fields'] + only_existing(p, [DESC + 'MessageDescriptor::' + x for x in c19.LOOKUPS]))
                    E = S.E
                    E.unroll = 2 * len(doc) + 4
                    E.known_lists = True
                    E.opaque = set(E.opaque) - {ONEOF + 'fields'}

                    def fields(E_, st, fr, b, c, args, tys, dt):
                        it = mk('finite', mk('members', E_.canon(st, args[0], True)), *members)
                        st.mem.pop(mk('ghost', 'finite', it), None)
                        return [(st, it)]
                    E.models[ONEOF + 'fields'] = fields

                    def key(E_, st, fr, b, c, args, tys, dt):
                        i = kv(st.mem.get(pos, k(0)))
                        st.mem[pos] = k(i + 1)
                        if i >= len(doc):
                            return [(st, ok(NONE_OPT))]
                        x = mk('jsonkey', doc[i])
                        return [(st, ok(some(tup(x, val(i)) if c['n'].rsplit('::', 1)[1].startswith('next_entry') else x)))]

                    def val(i):
                        return some(mk('jsonvalue', doc[i])) if vals[i] else NONE_OPT

                    def value(E_, st, fr, b, c, args, tys, dt):
                        return [(st, ok(val(kv(st.mem.get(pos, k(1))) - 1)))]
                    for x in ('next_key', 'next_key_seed', 'next_entry', 'next_entry_seed'):
                        E.models.update({m + x: key for m in MA})
                    for x in ('next_value', 'next_value_seed'):
                        E.models.update({m + x: value for m in MA})
                    inner = dict(containing_oneof=some(mk('oneof')), supports_presence=k(1))
                    ff = field_facts({TARGET: inner, OTHER: inner, THIRD: inner, OUTER: dict(supports_presence=k(1))})

                    def oracle(nm, a, res):
                        last = nm.rsplit('::', 1)[1]
                        if nm.startswith(DESC) and last in ('get_field_by_json_name', 'get_field_by_name'):
                            w = [x for x in walk(a[1]) if x.op == 'jsonkey']
                            if len(w) == 1 and (last == 'get_field_by_name') == bool(byname):
                                return some(names_[w[0].a[0] if isinstance(w[0].a[0], str) else kv(w[0].a[0])])
                            return NONE_OPT
                        if nm.startswith(DESC) and last in c19.LOOKUPS:
                            return NONE_OPT
                        if nm.endswith('PartialEq>::eq') and 'Descriptor' in nm and all(x in ENUMBER for x in a[:2]):
                            return k(int(a[0] is a[1]))
                        return ff(nm, last, a, res)
                    E.oracle = oracle
                    o = agg(c19.DE, 0, *[k(0) for _ in range(len(c19.fnames(p, c19.DE)))])
                    r = S.run(fn, args={i: a for i, a in sc.args(fn, o).items()})
                    C.inlined(E)
                    n += 1
                    res = {result(f) for f in r}
                    given = {d for d, v in zip(doc, vals) if v}
                    kk = 'json:%d:%s:%s:%s' % (byname, ''.join({TARGET: 's', OTHER: 'o', THIRD: 't'}[x] for x in members), '+'.join(doc), ''.join(map(str, vals)))
                    if {'own', 'other'} <= given:
                        C.ob(res == {'err'}, kk, 'a document that gives two members of a oneof is accepted', G6)
                    else:
                        C.ob(res == {'ok'} and all((S.final(f, ROLE[ENUMBER[names_[d]]])[0] == 'value') == (d in given) for f in r for d in doc),
                             kk, 'a document that gives each oneof at most one value is refused or not stored', G6)
    return n


def run(p, C):
    n, go, T = text(p, C)
    C.floor('runs of the text-format parser', n, 300)
    C.floor('list and map fields', grow(p, C, T), 40)
    C.floor('nested settings', nested(p, C, T), 40)
    C.floor('expanded Any', anys(p, C, T), 30)
    C.floor('JSON documents', json(p, C), 80)
