"""Field attributes against the rules of the language, for every combination of what a field proto may say.

For each valid combination of syntax, label, type, packed option, oneof membership and proto3_optional the visitors that fill the pool
run on a field (and an extension) whose proto says exactly that and everything else is open; each attribute accessor is then evaluated
on the record they leave and must give, on every path, the value the language defines for the combination."""
from prv.tables import *
from prv import visit as V
from prv.checks.c24 import IS0, IS1, part

LEVEL = 'proof'
SCALAR = ['Double', 'Float', 'Int32', 'Int64', 'Uint32', 'Uint64', 'Sint32', 'Sint64', 'Fixed32', 'Fixed64', 'Sfixed32', 'Sfixed64', 'Bool',
          'String', 'Bytes']
TYPES = [(x, None) for x in SCALAR] + [('Message', 'Message'), ('Group', 'Message'), ('Enum', 'Enum')]
ZERO = {'Double': ('F64', 0.0), 'Float': ('F32', 0.0), 'Int32': ('I32', 0), 'Sint32': ('I32', 0), 'Sfixed32': ('I32', 0), 'Int64': ('I64', 0),
        'Sint64': ('I64', 0), 'Sfixed64': ('I64', 0), 'Uint32': ('U32', 0), 'Fixed32': ('U32', 0), 'Uint64': ('U64', 0), 'Fixed64': ('U64', 0),
        'Bool': ('Bool', 0), 'String': ('String', None), 'Bytes': ('Bytes', None)}


def cases():
    """(syntax, label, type, what the type name refers to, packed option, in a oneof, proto3_optional)"""
    for syntax in ('Proto2', 'Proto3'):
        for ty, refers in TYPES:
            if ty == 'Group' and syntax == 'Proto3':
                continue
            for packed in ('no options', 'unset', 'true', 'false'):
                yield syntax, 'Repeated', ty, refers, packed, False, False
            for packed in ('no options', 'true'):
                yield syntax, 'Optional', ty, refers, packed, False, False
            yield syntax, 'Optional', ty, refers, 'no options', True, False
            if syntax == 'Proto3':
                yield syntax, 'Optional', ty, refers, 'no options', True, True
            else:
                yield syntax, 'Required', ty, refers, 'no options', False, False


def variant(p, adt, name):
    vs = [v['n'] for v in p.adts[adt]['v']]
    return vs.index(name) if name in vs else None


def values(fs):
    return [f.ret for f in fs]


def run(p, C):
    W = World(p)
    W.build(W.scenario(packed='no options'), keys=['file', 'message', 'enum', 'nested', 'extension', 'field', 'enum value'])
    for key, msg in W.bad.items():
        C.ob(False, 'record:' + ':'.join(str(x) for x in key), msg, 'each element is recorded once')
    if any(x not in getattr(W, 'recs', {}) for x in ('message', 'enum', 'field', 'extension')):
        return
    mapentry = D + 'api::MessageDescriptor::is_map_entry'
    mapentry = [n for n in p.fn_by_name if n.endswith('MessageDescriptor::is_map_entry')]
    C.ob(len(mapentry) == 1, 'anchor:is_map_entry', 'is_map_entry is missing', 'anchors')
    Kind, Card = None, None
    for n in p.adts:
        if n.startswith(D) and n.endswith('::Kind'):
            Kind = n
        if n.startswith('prost_reflect::') and n.endswith('::Cardinality'):
            Card = n
    Val = [n for n in p.adts if n == 'prost_reflect::dynamic::Value']
    C.ob(Kind is not None and Card is not None and bool(Val), 'anchor:types', 'Kind, Cardinality or Value is missing', 'anchors')
    if Kind is None or Card is None or not Val or not mapentry:
        return
    Val = Val[0]
    n = 0
    for key in ('field', 'extension'):
        for case in cases():
            if key == 'extension' and (case[5] or case[1] == 'Required'):
                continue
            n += one(C, W, key, case, Kind, Card, Val, mapentry)
    C.floor('combinations', n, 300)
    mapentries(C, W, mapentry[0])


def parses(p, n):
    """Functions that turn the text of a default into a value are followed."""
    if not n.startswith(D + 'build::') or n.rsplit('::', 1)[-1] not in SEARCH:
        return False
    b = p.bodies.get(p.fn_by_name[n][0]['key'])
    return b is not None and 'prost_reflect::dynamic::Value' in p.ts(b.locals[0])


def rebuild(W, key, sc):
    for x in [x for x in W.effects if x[0] == key]:
        del W.effects[x]
    W.searched.pop(key, None)
    W.bad.clear()
    W.recs.pop(key, None)
    W.build(sc, keys=[key], more=True, keep=[n for n in W.p.fn_by_name if parses(W.p, n)])
    return key in W.recs and not W.bad


def one(C, W, key, case, Kind, Card, Val, mapentry):
    p = W.p
    syntax, label, ty, refers, packed, oneof, p3 = case
    name = '%s %s %s %s%s%s, packed %s' % (syntax, label, ty, key, ' in a oneof' if oneof else '', ' (proto3 optional)' if p3 else '', packed)
    for default in (False, True):
        if default and (label == 'Repeated' or refers == 'Message' or packed != 'no options'):
            continue
        sc = W.scenario(label=label, ty=ty, refers=refers, proto3_optional=p3, oneof=oneof, packed=packed, syntax=syntax, default=default)
        okb = rebuild(W, key, sc)
        C.ob(okb, 'record:%s' % key, 'a %s is not recorded: %s' % (name, list(W.bad.values())), 'each combination is recorded')
        if not okb:
            return 0
        for ismap in ((False, True) if ty == 'Message' else (False,)):
            for got, want, what in attributes(C, W, key, case, Kind, Card, Val, mapentry, default, ismap):
                nm = 'map entry ' if ismap else ''
                if callable(want):
                    ok = want(got)
                    want = 'what the language defines'
                else:
                    ok = got is want
                C.ob(ok, '%s:%s:%s' % (what, key, rule(what, case, ismap, default)),
                     '%s of a %s%s%s is %s instead of %s' % (what, nm, name, ' with a default' if default else '', show(got)[:120],
                                                            show(want)[:80] if isinstance(want, T) else want), 'the attribute the language defines')
    return 1


def rule(what, case, ismap, default):
    syntax, label, ty, refers, packed, oneof, p3 = case
    return '%s %s %s%s%s%s packed=%s%s' % (syntax, label, ty, ' map' if ismap else '', ' oneof' if oneof else '', ' p3' if p3 else '', packed, ' default' if default else '')


def attributes(C, W, key, case, Kind, Card, Val, mapentry, default, ismap):
    p = W.p
    syntax, label, ty, refers, packed, oneof, p3 = case
    rep = label == 'Repeated'
    packable = refers != 'Message' and ty not in ('String', 'Bytes')

    def prep(E):
        for m in mapentry:
            E.models[m] = lambda *a: [(a[1], k(int(ismap)))]

    def get(method, opaque=()):
        fs = W.get(key, method, prep=prep, opaque=opaque)
        if fs is None:
            return None
        C.inlined(W.last)
        return fs
    want = {
        'cardinality': agg(Card, variant(p, Card, label)),
        'is_packed': k(int(rep and packable and (packed == 'true' or packed != 'false' and syntax == 'Proto3'))),
        'is_list': k(int(rep and not ismap)),
        'is_map': k(int(rep and ismap)),
        'is_group': k(int(ty == 'Group')),
        'is_required': k(int(label == 'Required')),
        'supports_presence': k(int(not rep and (key == 'extension' or syntax == 'Proto2' or refers == 'Message' or oneof or p3))),
        'is_packable': k(int(packable)),
    }
    for method, w in want.items():
        fs = get(method)
        if fs is None:
            need = method not in ('is_required', 'is_packable') or key == 'field' and method == 'is_required'
            C.ob(not need, 'anchor:%s:%s' % (key, method), '%s of a %s is missing' % (method, key), 'anchors')
            continue
        C.ob(bool(fs), 'ends:%s:%s' % (key, method), '%s of a %s never returns' % (method, key), 'the attribute the language defines')
        for f in fs:
            yield f.ret, w, method
    # the kind, with the type referred to
    def kind_ok(t):
        if t.op != 'agg' or t.a[0] != Kind:
            return False
        vn = p.adts[Kind]['v'][t.a[1]]['n']
        if refers is None:
            return vn == ty and len(t.a) == 2
        adt = {'Message': 'MessageDescriptor', 'Enum': 'EnumDescriptor'}[refers]
        return vn == refers and len(t.a) == 3 and t.a[2] is agg(D + adt, 0, W.pool, mk('sym', 'target'))
    for f in get('kind') or []:
        yield f.ret, kind_ok, 'kind'

    # the default
    def first(t):
        """The number of the first value of the enum the field refers to."""
        if t.op != 'agg' or t.a[0] != Val or p.adts[Val]['v'][t.a[1]]['n'] != 'EnumNumber':
            return False
        d = agg(D + 'EnumValueDescriptor', 0, agg(D + 'EnumDescriptor', 0, W.pool, mk('sym', 'target')), k(0))
        return t.a[2] is mk('app', num, None, d) or t.a[2] is W.of(d, 'number')

    def default_ok(t):
        if t.op == 'agg' and t.a[0] == Val:
            vn = p.adts[Val]['v'][t.a[1]]['n']
        else:
            vn = None
        if rep:
            x = t.a[2] if vn else None
            return vn == ('Map' if ismap else 'List') and empty(x)
        if default:
            # what its text says, as a value of the kind
            if refers == 'Enum':
                return vn == 'EnumNumber' and stated(C, W, key, t.a[2])
            if vn != ZERO[ty][0]:
                return False
            x = t.a[2]
            if ty == 'String':
                return x is mk('sym', 'default')
            if ty == 'Bytes':
                return not isk(x)
            return x.op == 'proj' and x.a[1:] == (0, 0) and x.a[0].op == 'app' and x.a[0].a[0].rsplit('::', 1)[-1] in ('from_str', 'parse') and \
                x.a[0].a[2:] == (mk('sym', 'default'),) and text_type(x.a[0].a[0], RUST[vn])
        if refers == 'Enum':
            return first(t)
        if refers == 'Message':
            d = agg(D + 'MessageDescriptor', 0, W.pool, mk('sym', 'target'))
            return vn == 'Message' and fresh(W, t.a[2], d)
        zn, zv = ZERO[ty]
        return vn == zn and (isk(t.a[2]) and kv(t.a[2]) == zv if zv is not None else empty(t.a[2]))
    num = D + 'EnumValueDescriptor::number'
    num = [x for x in p.fn_by_name if x.endswith('EnumValueDescriptor::number')]
    num = num[0] if num else None
    newm = [x for x in p.fn_by_name if x.endswith('DynamicMessage::new')]
    for f in get('default_value', opaque=newm + ([num] if num else [])) or []:
        yield f.ret, default_ok, 'default_value'


def fresh(W, t, d):
    return t.op == 'app' and t.a[0].endswith('DynamicMessage::new') and t.a[2:] == (d,)


RUST = {'F64': 'f64', 'F32': 'f32', 'I32': 'i32', 'I64': 'i64', 'U32': 'u32', 'U64': 'u64', 'Bool': 'bool'}


def text_type(name, want):
    return name.startswith('<%s as ' % want) if name.startswith('<') else True


def stated(C, W, key, x):
    """The number of the value of the enum that has the stated name."""
    d = agg(D + 'EnumValueDescriptor', 0, agg(D + 'EnumDescriptor', 0, W.pool, mk('sym', 'target')), mk('sym', 'q'))
    want = W.of(d, 'number')
    steps = []
    t, w = x, want
    while t.op == 'proj' and w.op == 'proj':
        if t.a[1:] != w.a[1:]:
            return False
        t, w = t.a[0], w.a[0]
    if t.op != 'elem' or w.op != 'idx' or W.in_pool(t.a[0]) is None or [W.pos(y) if isinstance(y, T) else y for y in W.in_pool(t.a[0])] != \
            [W.pos(y) if isinstance(y, T) else y for y in W.in_pool(w.a[0])]:
        return False
    nm = W.of(d, 'name')
    for (k2, ty), finals in W.effects.items():
        if k2 != key:
            continue
        for f, evs in finals:
            if not any(e[1] == 'push' and e[2] == W.recplace[key] for e in evs):
                continue
            about = [(y, dd) for y, dd in f.facts.items() if t in set(walk(y)) and y.op != 'discr']
            eqs = [y for y, dd in about if dd == IS1 and 'Eq' in y.a[:1] and mk('sym', 'default') in y.a]
            if len(eqs) != 1:
                return False
            other = [y for y in eqs[0].a if isinstance(y, T) and y is not mk('sym', 'default')]
            if len(other) != 1 or shape(W, other[0], t) != shape(W, nm, w_of(nm)):
                return False
    return True


def w_of(t):
    """The innermost element of a list a term speaks about."""
    return next((x for x in walk(t) if x.op == 'idx' and W_POS(x.a[1]) is mk('sym', 'q')), None)


def W_POS(t):
    while t.op == 'cast':
        t = t.a[1]
    return t


def shape(W, t, el):
    """A term with an element of a list abstracted."""
    if t is el:
        return 'element'
    if not isinstance(t, T):
        return t
    return (t.op,) + tuple(shape(W, x, el) for x in t.a)


def empty(t):
    if t is None:
        return False
    if isk(t):
        return kv(t) in ('', b'')
    return t.op == 'agg' and t.a[0] in ('array', 'str', 'vec') and len(t.a) == 2 or t.op == 'app' and len(t.a) <= 3 and \
        (t.a[0].rsplit('::', 1)[-1] in ('new', 'default') or t.a[0].startswith('default:'))


def projected(t, src):
    while t.op == 'proj':
        t = t.a[0]
    return t is src


def mapentries(C, W, fn):
    """is_map_entry is the map_entry option of the message."""
    for key in ('message', 'nested'):
        el = W.norm(W.elem(W.ELEMS[key][1])[0])
        fs = W.get(key, 'is_map_entry')
        C.inlined(W.last)
        C.ob(bool(fs), 'is_map_entry:ends', 'is_map_entry never returns', 'map entries')
        opts = part(el, 'options')
        for f in fs or []:
            set_ = [d for t, d in f.facts.items() if t.op == 'discr' and W.norm(t.a[0]) is opts]
            r = W.norm(f.ret)
            ok = set_ == [IS0] and r is k(0) or set_ == [IS1] and r is part(part(opts, 'value'), 'map_entry') or \
                isk(r) and any(W.norm(t) is part(part(opts, 'value'), 'map_entry') and d == ('+', frozenset({kv(r)})) for t, d in f.facts.items())
            C.ob(ok, 'is_map_entry:%s' % key, 'is_map_entry of a %s is %s' % (key, show(r)[:160]), 'map entries')
