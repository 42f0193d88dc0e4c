"""Option setters and defaults are evaluated symbolically. Every function that is given options (directly or inside a visitor or
wrapper) is evaluated on its own: the options it hands to any other function, visitor, seed or wrapper must be its own. The places
where an option is consulted are evaluated for every value of that option, against the behaviour it names."""
import itertools
from prv.text import *
from prv.engine import ok, some
from prv.serde import same_options

LEVEL = 'proof'
SER, DE = DYN + 'serde::SerializeOptions', DYN + 'serde::DeserializeOptions'
DEFAULTS = {SER: dict(stringify_64_bit_integers=1, use_enum_numbers=0, use_proto_field_name=0, skip_default_fields=1), DE: dict(deny_unknown_fields=1),
            FO: dict(pretty=0, skip_unknown_fields=1, expand_any=1, skip_default_fields=1, print_message_fields_in_index_order=0)}
OTHER = {'core::clone::Clone', 'core::fmt::Debug', 'serde_core::de::Visitor'}


def ft(f):
    return (f['n'], f['t']) if isinstance(f, dict) else (f[0], f[1])


def base(s):
    s = s.lstrip('&')
    s = s[4:] if s.startswith('mut ') else s
    return re.sub(r'<.*', '', s)


def structs(p, C):
    """Setters, constructors and defaults."""
    n = 0
    for adt, want in DEFAULTS.items():
        if adt not in p.adts:
            raise Broken('%s not found' % adt)
        short = adt.split('::')[-1]
        nf = len(p.adts[adt]['v'][0]['f'])
        start = agg(adt, 0, *[mk('old', i) for i in range(nf)])
        which = {}
        for opt in want:
            E = Engine(p)
            r = E.run(adt + '::' + opt, args={0: start, 1: mk('yes')})
            C.inlined(E)
            n += 1
            res = [f.ret for f in r]
            ch = [[i for i, x in enumerate(t.a[2:]) if x is not mk('old', i)] for t in res if t.op == 'agg' and t.a[0] == adt]
            good = len(res) == 1 and len(ch) == 1 and len(ch[0]) == 1 and res[0].a[2 + ch[0][0]] is mk('yes')
            if C.ob(good, 'setter:%s::%s' % (short, opt), '%s::%s gives %s' % (short, opt, [show(t)[:150] for t in res]), 'setters'):
                which[opt] = ch[0][0]
        C.ob(len(set(which.values())) == len(want), 'setters distinct:' + short, 'setters of %s change %s' % (short, which), 'setters')
        for ctor in ('%s::new' % adt, '<%s as core::default::Default>::default' % adt):
            r = Engine(p).run(ctor)
            n += 1
            res = [f.ret for f in r]
            good = len(res) == 1 and res[0].op == 'agg' and len(res[0].a) == 2 + nf
            got = {o: kv(res[0].a[2 + i]) if isk(res[0].a[2 + i]) else show(res[0].a[2 + i]) for o, i in which.items()} if good else None
            C.ob(good and got == want, 'default:' + ctor.replace(adt, short), '%s gives %s, documented %s' % (ctor.split('::')[-1], got, want), 'defaults')
    return n


class Scope:
    """Functions that receive options, and the types that carry them."""

    def __init__(self, p):
        self.p = p
        self.opt = {SER, DE}
        self.carr = {}
        for a, d in p.adts.items():
            if len(d['v']) == 1:
                ix = [i for i, f in enumerate(d['v'][0]['f']) if p.ts(ft(f)[1]).lstrip('&') in self.opt]
                if ix:
                    self.carr[a] = ix
        self.fns = {}
        for n in p.fn_by_name:
            s = sig(p, n)
            if s is None:
                continue
            pos = {i: base(x) for i, x in enumerate(s[1]) if base(x) in self.opt or base(x) in self.carr}
            if not pos or any(n.startswith(a + '::') or n.startswith('<%s as ' % a) for a in self.opt) or n.endswith('::expecting'):
                continue
            self.fns[n] = pos

    def carrier(self, adt, o):
        fs = self.p.adts[adt]['v'][0]['f']
        return agg(adt, 0, *[o if i in self.carr[adt] else mk('own', ft(f)[0]) for i, f in enumerate(fs)])

    def args(self, n, o):
        return {i: o if a in self.opt else self.carrier(a, o) for i, a in self.fns[n].items()}

    def label(self, n, r, c):
        if n in self.fns or r in self.fns:
            return (n if n in self.fns else r)
        if n.startswith('serde_core::') and 'Error' not in n:
            ts = [self.p.ts(i) for i in c.get('a', []) if isinstance(i, int)]
            return n + '\0' + '\0'.join(ts)
        return None


def alien(sc, label):
    """Types of this crate, other than the carriers of options, that a foreign (de)serializer call is asked to handle."""
    bad = []
    for t in label.split('\0')[1:]:
        i = 0
        while True:
            m = re.compile(r'(?<![\w:])prost_reflect::[\w:]*\w').search(t, i)
            if not m:
                break
            i = m.end()
            if m.group(0) in sc.carr or m.group(0) in LEAF:
                d = 0
                while i < len(t) and (d or t[i] == '<'):
                    d += (t[i] == '<') - (t[i] == '>')
                    i += 1
            else:
                bad.append(m.group(0))
    return bad


LEAF = set()


def propagation(p, C):
    """Options handed on by each function that has them."""
    sc = Scope(p)
    C.floor('functions given options', len(sc.fns), 40)
    n = 0
    # types whose (de)serialization depends on options: those with a carrier or an options-taking function; the others are leaves
    dep = {DYN + 'DynamicMessage', VAL, DESC + 'MessageDescriptor'} | {a for a in p.adts if a.startswith(DYN + 'serde::') and a not in sc.carr}
    for n_ in p.fn_by_name:
        m = re.match(r'^<(prost_reflect::[\w:]+)(<.*>)? as serde_core::(ser::Serialize|de::\w+)(<.*>)?>::', n_)
        if m and m.group(1) not in sc.carr and m.group(1) not in dep:
            dep.add(m.group(1))
    plain = set()
    for a in dep:
        if a.startswith(DYN + 'serde::'):
            plain.add(a)
    # visitors and seeds without options may not lead to a message or an enum
    LEAF.clear()
    reach = {}
    for a in sorted(plain):
        fs = [n_ for n_ in p.fn_by_name if re.match(r'^<%s(<.*>)? as ' % re.escape(a), n_)]
        seen, todo = set(), [p.fn_by_name[f][0]['key'] for f in fs]
        while todo:
            x = todo.pop()
            if x in seen or x not in p.bodies:
                continue
            seen.add(x)
            todo += [y for y in p.callees(x) if y in p.bodies]
        names = {p.bodies[x].name for x in seen}
        reach[a] = names & (set(sc.fns) | {DM + 'serialize', DM + 'deserialize'})
        if not reach[a]:
            LEAF.add(a)
    o = mk('OPTIONS')
    for fn in sorted(sc.fns):
        n += 1
        short = fn.replace(DYN + 'serde::', '').replace(DYN, '').replace('serde_core::', '')

        def cases():
            if fn.endswith('serialize') and 'DynamicMessage' in fn or fn.endswith(('::deserialize_message', '::serialize_message')):
                return [None] + ['google.protobuf.' + w for w in WKT]
            if fn.endswith('Visitor<\'de>>::visit_some') or fn.endswith('deserialize'):
                return [None]
            return [None]
        bad = set()
        for full in cases():
            E = Engine(p, opaque=opaque_api(p) + [DESC + 'MessageDescriptor::parent_pool'] + [x for x in sc.fns if x != fn], watch=sc.label)
            E.opaque |= {DM + 'transcode_from', DM + 'transcode_to', DM + 'new', DM + 'decode'} & set(p.fn_by_name)
            E.oracle = (lambda full: lambda n_, a, res: k(full or 'pkg.Other') if n_.endswith('::full_name') else None)(full)
            try:
                r = E.run(fn, args=sc.args(fn, o))
            except Limit as e:
                C.ob(False, 'options:%s:limit' % short, 'too many cases: %s' % e, 'propagation')
                continue
            C.inlined(E)
            for f in r:
                for e, _ in events(f.trace):
                    lab = e.a[0]
                    name = lab.split('\0')[0]
                    for x in e.a[1:]:
                        for y in walk(x):
                            if y.op == 'agg' and y.a[0] in sc.opt and not same_options(p, y, o):
                                bad.add('options made on the spot are handed to %s' % name.split('::')[-1])
                            if y.op == 'agg' and y.a[0] in sc.carr:
                                for j in sc.carr[y.a[0]]:
                                    if not same_options(p, y.a[2 + j], o):
                                        bad.add('%s is built with %s' % (y.a[0].split('::')[-1], show(y.a[2 + j])[:80]))
                    if name in sc.fns:
                        for i, a in sc.fns[name].items():
                            ev = e.a[1:]
                            if a in sc.opt and (i >= len(ev) or not same_options(p, ev[i], o)):
                                bad.add('%s is given %s' % (name.split('::')[-1], show(ev[i])[:80] if i < len(ev) else None))
                    else:
                        for t in alien(sc, lab):
                            bad.add('%s is asked to handle %s without options' % (name.split('::')[-1], t.split('::')[-1]))
        C.ob(not bad, 'options:' + short, '%s: %s' % (short, '; '.join(sorted(bad))[:400]), 'propagation')
    return n


def norm(t, o=None):
    """Options aggregates become one symbol."""
    if not isinstance(t, T):
        return t
    if t.op == 'agg' and t.a[0] in (SER, DE, FO):
        return mk('OPTIONS')
    return mk(t.op, *[norm(x) if isinstance(x, T) else x for x in t.a])


def sopts(p, **o):
    return agg(SER, 0, *[k(o[x]) for x in fnames(p, SER)])


def combos(names):
    for bits in itertools.product((0, 1), repeat=len(names)):
        yield dict(zip(names, bits))


def ser_fields(p, C):
    """Which fields of a message are written to JSON, and under which name."""
    W = Writer(p)
    item = item_adt(p)
    n = 0
    for kind in ('Field', 'Extension', 'Unknown'):
        for o in combos(fnames(p, SER)):
            def watch(n_, r, c):
                if n_ in W.fn['iter']:
                    return 'iter'
                return ser_watch(n_, r, c)
            E = Engine(p, opaque=opaque_api(p) + W.fn['iter'], watch=watch)
            E.oracle = lambda n_, a, res: k('pkg.Other') if n_.endswith('MessageDescriptor::full_name') else None
            E.opaque |= {DESC + d + '::' + a for d in ('FieldDescriptor', 'ExtensionDescriptor', 'MessageDescriptor') for a in ('name', 'json_name', 'full_name', 'kind') if DESC + d + '::' + a in p.fn_by_name}
            E.discr_hook = lambda v, adt, kind=kind: vidx(p, item)[kind] if adt == item else None
            r = E.run(DM + 'serialize_with_options', args={2: sopts(p, **o)})
            C.inlined(E)
            n += 1
            key = 'json:%s:%s' % (kind, ''.join(str(o[x]) for x in sorted(o)))
            bad = []
            saw = 0
            for f in r:
                for e, _ in events(f.trace):
                    if e.a[0] == 'iter' and e.a[3] != k(1 - o['skip_default_fields']):
                        bad.append('default values are included: %s' % show(e.a[3])[:60])
                    if e.a[0] == 'serialize_entry':
                        saw += 1
                        want = 'name' if kind == 'Field' and o['use_proto_field_name'] else 'json_name'
                        nm = e.a[2]
                        if not (nm.op == 'app' and nm.a[0].endswith('::' + want)):
                            bad.append('written under %s' % show(nm)[:80])
                if not any(e.a[0] == 'iter' for e, _ in events(f.trace)) and oks([f]):
                    bad.append('fields are not iterated')
            if bool(saw) != (kind != 'Unknown'):
                bad.append('%d entries written' % saw)
            C.ob(not bad, key, '%s with %s: %s' % (kind, o, '; '.join(sorted(set(bad)))[:300]), 'JSON fields')
    return n


def item_adt(p):
    c = [a for a, d in p.adts.items() if a.startswith(DYN) and {'Field', 'Extension', 'Unknown'} == {v['n'] for v in d['v']}]
    if len(c) != 1:
        raise Broken('type of iterated fields not found: %s' % c)
    return c[0]


def ser_values(p, C):
    """What each option changes about the JSON of one value."""
    VI = vidx(p, VAL)
    names = fnames(p, SER)
    vfn = [f for f in p.fn_by_name if f.startswith('<%sserde::ser::' % DYN) and 'ValueAndKind' in f and f.endswith('serde_core::ser::Serialize>::serialize')]
    if not vfn:
        raise Broken('Serialize implementation of the JSON value wrapper not found')
    WRAP, VK = DYN + 'serde::ser::SerializeWrapper', DYN + 'serde::ser::ValueAndKind'
    n = 0
    x = mk('content')
    for v in sorted(VI):
        for null in ((0, 1) if v == 'EnumNumber' else (0,)):
            res = {}
            for o in combos(names):
                E = Engine(p, opaque=opaque_api(p) + [DM + 'serialize_with_options'], watch=lambda n_, r, c: 'nested' if n_ == DM + 'serialize_with_options' else ser_watch(n_, r, c))
                E.opaque |= {DESC + 'EnumDescriptor::get_value', DESC + 'EnumDescriptor::full_name', DESC + 'EnumValueDescriptor::name'}
                E.oracle = lambda n_, a, r_: k('google.protobuf.NullValue' if null else 'pkg.E') if n_.endswith('EnumDescriptor::full_name') else None
                kd = kindterm(p, 'Enum') if v == 'EnumNumber' else mk('kind')
                w = agg(WRAP, 0, *[agg(VK, 0, *[agg(VAL, VI[v], x) if z == 'value' else kd for z in fnames(p, VK)]) if z == 'value' else sopts(p, **o) for z in fnames(p, WRAP)])
                r = E.run(vfn[0], args={0: w})
                C.inlined(E)
                n += 1
                # the serializer calls on each path, with the lookups they depend on
                out = set()
                for f in r:
                    look = tuple(sorted((show(t), tuple(sorted(d[1]))) for t, d in f.facts.items() if 'get_value' in show(t)))
                    out.add((look, tuple(norm(e) for e, _ in events(f.trace))))
                res[tuple(sorted(o.items()))] = frozenset(out)
            dep = {'I64': {'stringify_64_bit_integers'}, 'U64': {'stringify_64_bit_integers'}, 'EnumNumber': set() if null else {'use_enum_numbers'}}.get(v, set())
            for nm in names:
                diff = any(res[tuple(sorted(o.items()))] != res[tuple(sorted(dict(o, **{nm: 1 - o[nm]}).items()))] for o in combos(names))
                C.ob(diff == (nm in dep), 'value:%s%s:%s' % (v, ':null' if null else '', nm), 'the JSON of %s %s on %s' % (v, 'depends' if diff else 'does not depend', nm), 'JSON values')
            if v in ('I64', 'U64'):
                form(C, 'value:' + v, [(o, evs) for o in combos(names) for _, evs in res[tuple(sorted(o.items()))]])
            if v == 'EnumNumber' and not null:
                for o in combos(names):
                    for look, evs in res[tuple(sorted(o.items()))]:
                        calls = [(e.a[0], e.a[2:]) for e in evs]
                        found = [d for t, d in look if 'get_value' in t]
                        if o['use_enum_numbers']:
                            good = calls == [('serialize_i32', (x,))]
                        elif found == [(0,)]:
                            good = calls == [('serialize_i32', (x,))]
                        elif found == [(1,)]:
                            good = len(calls) == 1 and calls[0][0] == 'serialize_str' and calls[0][1][0].op == 'app' and calls[0][1][0].a[0].endswith('EnumValueDescriptor::name')
                        else:
                            good = False
                        C.ob(good, 'value:enum:%s' % o['use_enum_numbers'], 'an enum value is written by %s (lookup %s)' % (str([(a, [show(z)[:60] for z in b]) for a, b in calls])[:200], found), 'JSON values')
    for w in WKT:
        if w == 'Any':
            continue
        res = {}
        for o in combos(names):
            E = Engine(p, opaque=opaque_api(p), watch=ser_watch)
            E.typed = {DM + 'transcode_to': 0}
            E.opaque.add(DM + 'transcode_to')
            E.oracle = lambda n_, a, r_: k('google.protobuf.' + w) if n_.endswith('::full_name') else None
            r = E.run(DM + 'serialize_with_options', args={2: sopts(p, **o)})
            C.inlined(E)
            n += 1
            res[tuple(sorted(o.items()))] = frozenset((str(sorted((show(norm(t)), sorted(map(str, d[1])), d[0]) for t, d in f.facts.items())), tuple(norm(e) for e, _ in events(f.trace))) for f in r)
        dep = {'stringify_64_bit_integers'} if w in ('Int64Value', 'UInt64Value') else set()
        for nm in names:
            diff = any(res[tuple(sorted(o.items()))] != res[tuple(sorted(dict(o, **{nm: 1 - o[nm]}).items()))] for o in combos(names))
            C.ob(diff == (nm in dep), 'wkt:%s:%s' % (w, nm), 'the JSON of %s %s on %s' % (w, 'depends' if diff else 'does not depend', nm), 'JSON values')
        if dep:
            form(C, 'wkt:' + w, [(o, evs) for o in combos(names) for _, evs in res[tuple(sorted(o.items()))]])
    return n


def form(C, key, paths):
    """Whatever the 64-bit integer is, the option alone decides between a string and a number."""
    for o, evs in paths:
        want = ('collect_str', 'serialize_str') if o['stringify_64_bit_integers'] else ('serialize_i64', 'serialize_u64', 'serialize_i128', 'serialize_u128')
        other = sorted({e.a[0] for e in evs if e.a[0] not in want})
        C.ob(not other, key + ':form', 'a 64-bit integer is written by %s when stringify_64_bit_integers is %d' % (', '.join(other), o['stringify_64_bit_integers']), 'JSON values')


DENY = mk('deny')
LOOKUPS = ('get_field_by_json_name', 'get_field_by_name', 'get_extension_by_json_name')


def de_run(p, C, sc, fn, deny, oracle=None, watch=None, opaque=()):
    def lab(n, r, c):
        x = watch(n, r, c) if watch else None
        return x or (None if not n.startswith('<') and n in sc.fns else sc.label(n, r, c))
    E = Engine(p, opaque=opaque_api(p) + [DESC + 'MessageDescriptor::parent_pool'] + list(opaque) + [x for x in sc.fns if x != fn and x.startswith('<')], watch=lab)
    E.opaque |= ({DM + x for x in ('transcode_from', 'transcode_to', 'new', 'decode')} | {DESC + 'EnumDescriptor::get_value_by_name'} |
                 {DESC + 'MessageDescriptor::' + x for x in LOOKUPS}) & set(p.fn_by_name)
    E.oracle = lambda n_, a, res: (oracle(n_) if oracle else None) or (k('pkg.Other') if n_.endswith('::full_name') else None)
    d = [i for i, f in enumerate(fnames(p, DE)) if f == 'deny_unknown_fields']
    r = E.run(fn, args=sc.args(fn, agg(DE, 0, *[(k(deny) if isinstance(deny, int) else deny) if i in d else mk('other', i) for i in range(len(fnames(p, DE)))])))
    C.inlined(E)
    return r


def of_event(t):
    """the error comes from something that was called, not made here"""
    return any(x.op == 'proj' and x.a[1:2] == (1,) and x.a[0].op == 'app' for x in walk(t)) or (t.op == 'proj')


def short_events(trace):
    return tuple('loop' if isinstance(e, tuple) else e.a[0].split('\0')[0].split('::')[-1] for e in trace)


def iters(f):
    out = []

    def go(tr):
        for e in tr:
            if isinstance(e, tuple):
                for fc, b in e[1]:
                    out.append((dict(fc), b))
                    go(b)
    go(f.trace)
    return out


def deser(p, C):
    """What rejecting unknown names changes."""
    sc = Scope(p)
    n = 0
    dep = []
    fns = [fn for fn in sorted(sc.fns) if fn.startswith('<') and any(a == DE or a in sc.carr and any(p.ts(ft(p.adts[a]['v'][0]['f'][i])[1]).lstrip('&') == DE for i in sc.carr[a]) for a in sc.fns[fn].values())]
    for fn in fns:
        r = de_run(p, C, sc, fn, DENY)
        n += 1
        bad = set()
        short = fn.replace(DYN + 'serde::', '').replace('serde_core::', '')
        d = lambda facts: next((v for t, v in facts.items() if t is DENY), None)
        rej, acc = ('+', frozenset([1])), ('+', frozenset([0]))
        lenient = {(norm(f.ret)) for f in r if d(f.facts) == acc}
        lit = {short_events(b) for f in r for fc, b in iters(f) if d(fc) == acc}
        for f in r:
            if d(f.facts) == acc and f.ret.op == 'agg' and f.ret.a[1] == 1 and not of_event(f.ret.a[2]):
                bad.add('an error is raised although unknown names are allowed: %s' % show(f.ret)[:100])
            if d(f.facts) == rej:
                dep.append(fn)
                if f.ret.op == 'agg' and f.ret.a[1] == 0 and norm(f.ret) not in lenient:
                    bad.add('accepted differently when unknown names are rejected: %s' % show(f.ret)[:100])
                if f.ret.op == 'agg' and f.ret.a[1] == 1 and not of_event(f.ret.a[2]):
                    why = [t for t, v in f.facts.items() if any(x.op == 'app' and x.a[0].rsplit('::', 1)[-1] in ('get_value_by_name', 'next_key') + LOOKUPS or x.op == 'elem' for x in walk(t)) or
                           (t.op == 'app' and 'eq' in t.a[0]) or any(isk(x) and isinstance(kv(x), str) for x in walk(t))]
                    why += [t for t, v in f.facts.items() if v[0] == '-' or any(isinstance(z, str) for z in v[1])]
                    if not why:
                        bad.add('a value is rejected that is not an unknown name: %s' % show(f.ret)[:100])
            for fc, b in iters(f):
                if d(fc) == rej and short_events(b) not in lit:
                    bad.add('an entry is handled differently when unknown names are rejected: %s' % str(short_events(b)))
        C.ob(not bad, 'deny:' + short, '%s: %s' % (short, '; '.join(sorted(bad))[:300]), 'unknown names')
    C.floor('functions that consult deny_unknown_fields', len(set(dep)), 3)
    n += unknown_fields(p, C, sc)
    return n


def unknown_fields(p, C, sc):
    n = 0
    isign = lambda e: 'IgnoredAny' in e.a[0]
    SET = re.compile(r'DynamicMessage::(set|try_set|clear|take|get_\w*mut|merge)')
    # message fields
    mine = [a for a in sc.carr if any(p.ts(ft(f)[1]) == '&mut ' + DYN + 'DynamicMessage' for f in p.adts[a]['v'][0]['f'])]
    vm = [fn for fn in sc.fns if any(fn.startswith('<%s<' % a) or fn.startswith('<%s as' % a) for a in mine) and fn.endswith('::visit_map')]
    C.ob(len(vm) == 1, 'unknown:message visitor', 'visitors that fill a message: %s' % vm, 'unknown names')
    watch = lambda n_, r_, c_: n_ if SET.search(n_) else None
    sets = [x for x in p.fn_by_name if SET.search(x)]
    for fn in vm:
        for known in (0, 1):
            for deny in (0, 1):
                def oracle(n_):
                    last = n_.rsplit('::', 1)[-1]
                    if last in LOOKUPS and 'MessageDescriptor' in n_:
                        return some(mk('desc', last)) if known and last == 'get_field_by_json_name' else NONE_OPT
                    return None
                r = de_run(p, C, sc, fn, deny, oracle, watch, sets)
                n += 1
                bad = set()
                its = [b for f in r for fc, b in iters(f) if any(not isinstance(e, tuple) and 'next_key' in e.a[0] for e in b)]
                if known:
                    if not its or any('IgnoredAny' in e.a[0] for b in its for e in b if not isinstance(e, tuple)):
                        bad.add('a known field is ignored')
                    for b in its:
                        seeds = [e for e in b if not isinstance(e, tuple) and 'next_value_seed' in e.a[0]]
                        st = [e for e in b if not isinstance(e, tuple) and SET.search(e.a[0])]
                        if len(seeds) != 1 or len(st) > 1:
                            bad.add('a known field is read %d times and set %d times' % (len(seeds), len(st)))
                elif deny:
                    if its:
                        bad.add('an unknown field is accepted: %s' % str(short_events(its[0])))
                    if not [f for f in r if f.ret.op == 'agg' and f.ret.a[1] == 1 and not of_event(f.ret.a[2])]:
                        bad.add('no error for an unknown field')
                else:
                    if not its:
                        bad.add('an unknown field is never skipped')
                    for b in its:
                        if [e for e in b if isinstance(e, tuple)] or sum(isign(e) for e in b) != 1 or len(b) != 2:
                            bad.add('an unknown field is handled by %s' % str(short_events(b)))
                C.ob(not bad, 'unknown:field:%d:%d' % (known, deny), 'known=%d, unknown names rejected=%d: %s' % (known, deny, '; '.join(sorted(bad))[:300]), 'unknown names')
    # leftovers of an Any
    av = [fn for fn in sorted(sc.fns) if fn.endswith('::visit_map') and 'Any' in fn.split(' as ')[0]]
    C.ob(len(av) == 1, 'unknown:any visitor', 'visitors of Any: %s' % av, 'unknown names')
    for fn in av:
        for deny in (0, 1):
            r = de_run(p, C, sc, fn, deny)
            n += 1
            bad = set()
            good = [f for f in r if f.ret.op == 'agg' and f.ret.a[1] == 0]
            kinds = set()
            for f in good:
                ev = short_events(f.trace)
                if 'visit_map' in ev:
                    kinds.add('fields')
                    if 'deserialize_map' not in ev or ev.index('deserialize_map') > ev.index('visit_map'):
                        bad.add('entries read before the type are dropped')
                else:
                    kinds.add('value')
                    if ev[-1] != ('next_key' if deny else 'next_entry'):
                        bad.add('entries after the value are not %s' % ('rejected' if deny else 'skipped'))
            made = [f.ret.a[2] for f in r if f.ret.op == 'agg' and f.ret.a[1] == 1 and not of_event(f.ret.a[2])]
            made += [f.ret.a[2] for f in r if f.ret.op == 'agg' and f.ret.a[1] == 1 and 'next_key' in ''.join(str(x.a[0]) for x in walk(f.ret.a[2]) if x.op == 'app') and 'custom' in show(f.ret.a[2])]
            late = [t for t in made if any(x.op == 'app' and x.a[0].endswith('::next_key') for x in walk(t)) and not any(x.op == 'elem' for x in walk(t))]
            early = [t for t in made if any(x.op == 'elem' for x in walk(t))]
            if deny and not (late and early):
                bad.add('unknown entries %s are not rejected' % ('after the value' if early else 'before the value'))
            if kinds != {'fields', 'value'}:
                bad.add('payload forms: %s' % sorted(kinds))
            C.ob(not bad, 'unknown:any:%d' % deny, 'unknown names rejected=%d: %s' % (deny, '; '.join(sorted(bad))[:300]), 'unknown names')
    # enum names
    ev = [fn for fn in sc.fns if fn.endswith('::visit_str')]
    C.floor('enum name visitors', len(ev), 2)
    for fn in ev:
        null = not any(p.ts(ft(f)[1]).endswith('EnumDescriptor') for a in sc.fns[fn].values() for f in p.adts[a]['v'][0]['f'])
        for known in (0, 1):
            for deny in (0, 1):
                E = Engine(p, opaque=opaque_api(p))
                E.opaque |= {DESC + 'EnumDescriptor::get_value_by_name', DESC + 'EnumValueDescriptor::number'} & set(p.fn_by_name)
                E.oracle = lambda n_, a, res: (some(mk('enumvalue')) if known else NONE_OPT) if n_.endswith('get_value_by_name') else None
                args = sc.args(fn, agg(DE, 0, *[k(deny)]))
                args[1] = k('NULL_VALUE' if known else 'OTHER') if null else mk('name')
                r = E.run(fn, args=args)
                C.inlined(E)
                n += 1
                res = {f.ret for f in r}
                if known:
                    good = len(res) == 1 and all(t.op == 'agg' and t.a[1] == 0 and t.a[2].op == 'agg' and t.a[2].a[1] == 1 for t in res)
                elif deny:
                    good = bool(res) and all(t.op == 'agg' and t.a[1] == 1 for t in res)
                else:
                    good = res == {ok(NONE_OPT)}
                C.ob(good, 'unknown:%s:%d:%d' % ('null' if null else 'enum', known, deny), 'known=%d, unknown names rejected=%d: %s' % (known, deny, [show(t)[:80] for t in res]), 'unknown names')
    # an ignored element or entry leaves no trace
    for nm, end, add in (('element', '::visit_seq', 'Vec::push'), ('entry', '::visit_map', 'HashMap::insert')):
        for fn in sorted(sc.fns):
            if not fn.endswith(end) or fn in vm:
                continue
            seed = 'next_element_seed' if end == '::visit_seq' else 'next_value_seed'
            r = de_run(p, C, sc, fn, 0, lambda n_: kindterm(p, 'Int32') if n_.endswith('::kind') else None, lambda n_, r_, c_: 'ADD' if add in n_ or add in r_ else 'EXT' if n_.endswith('Extend::extend') else None)
            its = [(fc, b) for f in r for fc, b in iters(f) if any(not isinstance(e, tuple) and seed in e.a[0] for e in b)]
            if not its or 'Any' in fn:
                continue
            n += 1
            bad = set()
            for fc, b in its:
                inner = [v for t, v in fc.items() if t.op == 'discr' and t.a[0].op == 'proj' and any(seed in str(x.a[0]) for x in walk(t.a[0]) if x.op == 'app') and depth(t.a[0]) == (2 if end == '::visit_seq' else 1)]
                added = sum(1 for e in b if not isinstance(e, tuple) and e.a[0] == 'ADD')
                # adding what an optional value holds adds it exactly when it is there
                whole = [e for e in b if not isinstance(e, tuple) and e.a[0] == 'EXT']
                if len(whole) == 1 and not added and not inner and payload(whole[0].a[-1], seed):
                    continue
                if len(inner) != 1 or (inner[0] == ('+', frozenset([1]))) != (added == 1):
                    bad.add('%d values added for %s' % (added, inner))
            C.ob(not bad, 'ignored:%s' % fn.split(' as ')[0].split('::')[-1], 'an %s with an ignored value: %s' % (nm, '; '.join(sorted(bad))[:200]), 'unknown names')
    return n


def payload(t, seed):
    """The optional value a seeded read gave, nothing done to it."""
    while t.op == 'proj':
        t = t.a[0]
    return t.op == 'app' and seed in str(t.a[0])


def depth(t):
    d = 0
    while t.op == 'proj':
        d += 1
        t = t.a[0]
    return d


def blanks(x):
    """text without blanks and separators"""
    return re.sub(r'[\s,]', '', x)


def plain(pieces):
    """What is written, apart from layout."""
    out = []
    for x in pieces:
        if isinstance(x, str):
            x = blanks(x)
            if x and out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        elif x[0] == 'loop':
            # an iteration that writes nothing but layout is no iteration
            out.append(('loop', frozenset((tuple(plain(b))) for fc, b in x[1])))
        else:
            out.append(tuple(norm(y) if isinstance(y, T) else y for y in x))
    return tuple(out)


def text_case(p, C, W, what, o, item=None, value=None, cow=0, val=None, oracle=None):
    E = W.engine(what)
    it, VI, KI = item_adt(p), vidx(p, VAL), vidx(p, KIND)

    def hook(v, adt):
        if item and adt == it:
            return vidx(p, it)[item]
        if value and adt == VAL:
            return VI[value]
        if adt == KIND and item:
            return KI['Message']
        if adt.endswith('borrow::Cow'):
            return cow
        return None
    E.discr_hook = hook
    E.oracle = oracle
    r = W.run(E, W.fn[what][0], W.term(**o), val)
    C.inlined(E)
    return E, r


def text_opts(p, C):
    W = Writer(p)
    n = 0
    it = item_adt(p)
    VI = vidx(p, VAL)
    names = W.opts
    base_ = dict(DEFAULTS[FO])

    def grid(*which):
        for c in combos(which):
            yield dict(base_, **c)
    grp = lambda v: (lambda n_, a, res: k(v) if n_.endswith('::is_group') else None)
    own = lambda e, o: all(y.a[2:] == tuple(k(o[x]) for x in names) for x in e.a[1:] for y in walk(x) if y.op == 'agg' and y.a[0] == FO)

    def common(E, r, o, key, what):
        bad = set()
        for f in r:
            w = W.after(f)
            w = dict(zip(W.fields, w.a[2:])) if w is not None and w.op == 'agg' else {}
            if w.get(W.options_field()) is not W.term(**o).a[2 + W.fields.index(W.options_field())]:
                bad.add('the options are changed')
            for e, _ in events(f.trace):
                if not own(e, o):
                    bad.add('the options change on the way to %s' % e.a[0])
                if e.a[0] == 'iter' and e.a[3:5] != (k(1 - o['skip_default_fields']), k(o['print_message_fields_in_index_order'])):
                    bad.add('fields are iterated with %s' % [show(x) for x in e.a[3:5]])
                if e.a[0] == 'any' and not o['expand_any']:
                    bad.add('Any is expanded')
        C.ob(not bad, 'text:%s:%s' % (what, key), '%s: %s' % (what, '; '.join(sorted(bad))[:300]), 'text options')

    def text(r):
        return frozenset(plain(flat_text(f.trace)) for f in r)
    # a message's fields
    for item, value, group in (('Field', 'I32', 0), ('Field', 'Message', 0), ('Field', 'Message', 1), ('Extension', 'String', 0), ('Extension', 'Message', 0), ('Unknown', 'I32', 0)):
        got = {}
        for o in grid(*names):
            E, r = text_case(p, C, W, 'message', o, item, value, oracle=grp(group))
            n += 1
            key = '%s:%s:%d' % (item, value, group)
            common(E, r, o, key, 'message')
            noany = [f for f in r if not any(t.op == 'discr' and any(x.op == 'app' and x.a[0] in W.fn['any'] for x in walk(t)) and v == ('+', frozenset([1])) for t, v in f.facts.items())]
            isany = [f for f in r if f not in noany]
            got[tuple(sorted(o.items()))] = (text(noany), text(isany))
            seen = {w[1] for s in text(noany) for x in s for w in ([x] if isinstance(x, tuple) and x[0] == 'call' else [y for b in x[1] for y in b] if isinstance(x, tuple) and x[0] == 'loop' else []) if isinstance(w, tuple) and w[0] == 'call'}
            want = 'unknown' if item == 'Unknown' else 'value'
            C.ob((want in seen) == (item != 'Unknown' or not o['skip_unknown_fields']), 'text:shown:' + key, '%s with skip_unknown_fields=%d shows %s' % (item, o['skip_unknown_fields'], sorted(seen)), 'text options')
            C.ob(bool(isany) == bool(o['expand_any']), 'text:expand:' + key, 'Any payloads are%s expanded with expand_any=%d' % ('' if isany else ' not', o['expand_any']), 'text options')
            for f in isany:
                fl = flat_text(f.trace)
                vals = [x for x in fl if not isinstance(x, str)]
                body = vals[-1] if vals else None
                good = len(vals) == 2 and vals[0][0] in ('str', 'show') and body[0] == 'call' and body[1] == 'value' and 'any' in str([W.label.get(y.a[0]) for y in walk(body[2]) if y.op == 'app'])
                C.ob(good, 'text:payload:' + key, 'an expanded Any is written as %s' % [x if isinstance(x, str) else x[:2] for x in fl], 'text options')
        for nm in ('pretty', 'expand_any', 'skip_default_fields', 'print_message_fields_in_index_order', 'skip_unknown_fields'):
            if nm == 'skip_unknown_fields' and item == 'Unknown':
                continue
            diff = [o for o in grid(*names) if sub(got[tuple(sorted(o.items()))], nm) != sub(got[tuple(sorted(dict(o, **{nm: 1 - o[nm]}).items()))], nm)]
            C.ob(not diff, 'text:only:%s:%s:%s:%d' % (nm, item, value, group), '%s changes what is written for a %s beyond what it names' % (nm, item), 'text options')
    # one value
    for v in sorted(VI):
        got = {}
        for o in grid('pretty', 'skip_unknown_fields', 'skip_default_fields', 'print_message_fields_in_index_order'):
            val = {1: agg(VAL, VI[v], mk('content')), 2: some(kindterm(p, 'Enum') if v == 'EnumNumber' else mk('kind'))}
            for item in (('Field', 'Unknown') if v == 'Message' else (None,)):
                E, r = text_case(p, C, W, 'value', o, item, None, val=val)
                n += 1
                common(E, r, o, v, 'value')
                got[item, tuple(sorted(o.items()))] = (text(r), frozenset())
        for nm in ('pretty', 'skip_unknown_fields', 'skip_default_fields', 'print_message_fields_in_index_order'):
            for (item, ot), res in got.items():
                o = dict(ot)
                if nm == 'skip_unknown_fields' and item == 'Unknown':
                    continue
                C.ob(sub(res, nm) == sub(got[item, tuple(sorted(dict(o, **{nm: 1 - o[nm]}).items()))], nm), 'text:only:%s:%s:%s' % (nm, v, item), '%s changes what is written for %s' % (nm, v), 'text options')
    # unknown fields
    for o in grid('expand_any', 'skip_default_fields', 'print_message_fields_in_index_order', 'skip_unknown_fields'):
        both = []
        for pretty in (0, 1):
            E, r = text_case(p, C, W, 'unknown', dict(o, pretty=pretty))
            n += 1
            common(E, r, dict(o, pretty=pretty), 'unknown', 'unknown')
            both.append(frozenset(erase(x) for x in text(r)))
        C.ob(both[0] == both[1], 'text:only:pretty:unknown', 'pretty changes what is written for an unknown field', 'text options')
        got = both[0]
        C.ob(got == first_of(text_opts, 'u', got), 'text:only:unknown', 'options change what is written for an unknown field', 'text options')
    first_of(text_opts, None, None)
    n += entries(p, C, W)
    return n


STORE = {}


def first_of(o, key, v):
    if key is None:
        STORE.clear()
        return None
    return STORE.setdefault(key, v)


def sub(g, nm):
    """The texts to compare when an option changes: iteration arguments are compared elsewhere."""
    a, b = g
    strip = lambda s: frozenset(erase(x) for x in s)
    return (strip(a),) if nm == 'expand_any' else (strip(a), strip(b))


def erase(x):
    """iterators over fields become one symbol: what they are given is an obligation of its own"""
    if isinstance(x, T):
        if x.op == 'app' and x.a[0].endswith('::iter') and len(x.a) == 6:
            return mk('FIELDS')
        if x.op == 'elem':
            return mk('elem', erase(x.a[0]))
        return mk(x.op, *[erase(y) if isinstance(y, T) else y for y in x.a])
    if isinstance(x, (tuple, frozenset)):
        return type(x)(erase(y) for y in x)
    return x


def entries(p, C, W):
    """What the public entry points hand to the writer."""
    n = 0
    names = W.opts
    dflt = tuple(k(DEFAULTS[FO][x]) for x in names)
    o = agg(FO, 0, *[mk('opt', x) for x in names])
    cases = [(DM + 'to_text_format_with_options', {1: o}, tuple(mk('opt', x) for x in names), 'message'), (DM + 'to_text_format', {}, dflt, 'message')]
    for ty in (DYN + 'DynamicMessage', VAL):
        for tr in ('Display',):
            cases.append(('<%s as core::fmt::%s>::fmt' % (ty, tr), {}, None, 'message' if ty != VAL else 'value'))
    for fn, args, want, what in cases:
        E = W.engine()
        r = E.run(fn, args=args)
        C.inlined(E)
        n += 1
        got = set()
        for f in r:
            for e, _ in events(f.trace):
                if e.a[0] == what:
                    got |= {y.a[2:] for y in walk(e.a[1]) if y.op == 'agg' and y.a[0] == FO}
        if want is None:
            good = len(got) == 1
            for g in got:
                for x, y in zip(names, g):
                    good = good and (y is k(DEFAULTS[FO][x]) or y == k(DEFAULTS[FO][x]) or (x == 'pretty' and y.op == 'app' and y.a[0].endswith('::alternate')))
        else:
            good = got == {want}
        C.ob(good, 'text:entry:' + fn.split('::')[-1] + ':' + what + ':' + ('fmt' if want is None else ''), '%s writes with %s' % (fn, [[show(x)[:40] for x in g] for g in got]), 'text options')
    return n


def run(p, C):
    n = structs(p, C)
    n += propagation(p, C)
    n += ser_fields(p, C)
    n += ser_values(p, C)
    n += deser(p, C)
    n += text_opts(p, C)
    C.floor('cases evaluated', n, 60)
