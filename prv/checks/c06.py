"""Every presence query, getter, clear and take of DynamicMessage, and every iterator over its fields, is evaluated over a slot
model of the message for every stored state, presence tracking, default equality and lookup result; encoding and length are
evaluated over the same cases. All must agree with one definition: present = a value is stored and (presence tracked or not default)."""
from prv.msgapi import *

LEVEL = 'proof'


def iteration(p, fn, s, pres, dflt, found, C, kind='field'):
    """[(field descriptor term, value term, state after)] an iterator yields for one stored entry; None when undetermined."""
    ent, iv, iu, units = entry_type(p)

    def rolefn(E, st, key):
        if key.op == 'app' and key.a[0].endswith('::number') and key.a[2].op == 'elem' and not any(y.op == 'partial' for y in walk(key)):
            return 'own'
        return None
    S = Slots(p, {'own': s}, rolefn, watch=Scenario.watch)
    E = S.E
    E.track_exhaust = True
    VI = vidx(p, VAL)
    E.discr_hook = lambda v, adt: ({'value': S.iv, 'unknown': S.iu, 'taken': units[0] if units else None, 'absent': units[0] if units else None}[s] if adt == S.entry
                                   else VI['I32'] if adt == VAL else None)

    def oracle(n, a, res):
        last = n.rsplit('::', 1)[1]
        if last == 'supports_presence':
            return k(pres)
        if last in ('is_list', 'is_map', 'is_group', 'is_packed'):
            return k(0)
        if last == 'kind' and n.startswith(DESC):
            return kindterm(p, 'Int32')
        if last in ('get_field', 'get_extension') and n.startswith(DESC):
            if (last == 'get_extension') != (kind == 'ext'):
                return NONE_OPT
            return some(mk('descof', k(last), a[1])) if found else NONE_OPT
        if n.endswith('PartialEq>::eq') and VAL in n:
            return k(dflt) if any(x.op == 'app' and x.a[0].endswith('Descriptor::default_value') for x in a) else None
        return None
    E.oracle = oracle
    return S, E


def is_entry(t):
    """(the entry element term) when t is the stored value of an element of the message's map"""
    w = [y for y in walk(t) if y.op == 'elem']
    return w[0] if w and not any(y.op == 'partial' for y in walk(t)) else None


def run(p, C):
    n = 0
    grid = [(s, pr, d) for s in STATES for pr in (0, 1) for d in (0, 1)]
    for op in ('has', 'get', 'get_mut', 'set', 'clear', 'take'):
        for fn in OPS[op]:
            for s, pr, d in grid:
                c = Case(p, fn, s, presence=pr, default=d)
                C.inlined(c.S.E)
                n += 1
                key = c.key()
                present = s == 'value' and (pr or not d)
                C.ob(len(c.r) == 1 and not c.panics, key + ':returns', '%s has %d outcomes' % (fn, len(c.r)), op)
                for f in c.r:
                    r = f.ret
                    opt = how_of(fn) in ('number', 'name') and op in ('get', 'get_mut')
                    if opt:
                        r = r.a[2] if r.op == 'agg' and r.a[0] == 'core::option::Option' and r.a[1] == 1 else r
                    stored = mk('stored', 'own')
                    if op == 'has':
                        C.ob(r == k(int(present)), key + ':has', '%s reports %s' % (fn, show(r)[:100]), 'presence')
                    elif op == 'get':
                        C.ob(strip(r) is (stored if s == 'value' else c.default), key + ':get', '%s gives %s' % (fn, show(r)[:150]), 'getter')
                    elif op == 'get_mut':
                        want = stored if s == 'value' else c.default
                        C.ob(r is want and c.own(f) == ('value', want), key + ':mut', '%s gives %s and stores %s' % (fn, show(r)[:100], c.own(f)), 'mutable getter')
                    elif op == 'set':
                        C.ob(c.own(f) == ('value', mk('value')), key + ':set', '%s stores %s' % (fn, c.own(f)), 'setter')
                    elif op == 'clear':
                        C.ob(c.own(f) == ('absent',), key + ':clear', 'after %s the field is %s' % (fn, c.own(f)), 'clear')
                    elif op == 'take':
                        C.ob(r == (some(stored) if present else NONE_OPT), key + ':take', '%s gives %s' % (fn, show(r)[:150]), 'take')
                        C.ob(c.own(f)[0] != 'value' or (not present and c.own(f) == c.start()), key + ':taken', 'after %s the field is %s' % (fn, c.own(f)), 'take')
                    if op in ('has', 'get'):
                        C.ob(c.own(f) == c.start() and c.other_kept(f) and not any(e.op == 'ev' for e, _ in events(f.trace)), key + ':pure',
                             '%s changes the message' % fn, 'queries change nothing')
    # iterators
    for fn, kind in (('fields', 'field'), ('fields_mut', 'field'), ('take_fields', 'field'), ('extensions', 'ext'), ('extensions_mut', 'ext'),
                     ('take_extensions', 'ext')):
        for s, pr, d in grid:
            for found in (1, 0):
                if s == 'absent':
                    continue
                S, E = iteration(p, fn, s, pr, d, found, C, kind)
                r = S.run(DM + fn)
                C.inlined(E)
                n += 1
                key = '%s:%s,%d,%d,%d' % (fn, s, pr, d, found)
                present = s == 'value' and (pr or not d) and found
                if not C.ob(len(r) == 1, key + ':one', '%d outcomes' % len(r), 'iterators'):
                    continue
                ys = yields(E, r[0])
                got = [(st, e) for st, e in ys if e is not None]
                if not present:
                    C.ob(not got, key + ':skip', '%s yields a field that is not present' % fn, 'iterators')
                    for st, e in ys:
                        C.ob(not [v for kx, v in st.mem.items() if isinstance(kx, T) and kx.op == 'proj'], key + ':untouched', '%s changes a field it does not yield' % fn, 'iterators')
                    continue
                good = len(got) == 1
                why = '%d elements' % len(got)
                for st, e in got:
                    e = E.canon(st, e)
                    el = is_entry(e)
                    extra = [t for t in st.facts if t.op != 'exhausted' and t not in r[0].facts]
                    ok = e.op == 'agg' and len(e.a) == 4 and el is not None and not extra
                    if ok:
                        ds = e.a[2]
                        ok = ds is mk('descof', k('get_field' if kind == 'field' else 'get_extension'), mk('proj', el, 0, 0) if False else ds.a[1])
                        ok = ok and ds.op == 'descof' and show(ds.a[1]) == show(el) + '.0'
                        ok = ok and show(e.a[3]) == show(el) + '.1@%d.0' % S.iv
                        wr = {show(kx): v for kx, v in st.mem.items() if isinstance(kx, T) and kx.op not in ('slot', 'slotp')}
                        if fn.startswith('take'):
                            w = list(wr.values())
                            ok = ok and len(w) == 1 and w[0].op == 'agg' and w[0].a[0] == S.entry and w[0].a[1] != S.iv
                        else:
                            ok = ok and not wr
                    good = good and ok
                    why = '%s%s' % (show(e)[:200], ' only when %s' % [show(t)[:80] for t in extra] if extra else '')
                C.ob(good, key + ':yield', '%s yields %s for a present field' % (fn, why), 'iterators')
    # encoding and length visit the present fields
    for fn, label in (('encode_raw', 'int32::encode'), ('encoded_len', None)):
        for s, pr, d in grid:
            for ext in (0, 1):
                S, E = iteration(p, fn, s, pr, d, ext, C, 'ext')
                r = S.run(MSG + fn)
                C.inlined(E)
                n += 1
                key = '%s:%s,%d,%d,ext=%d' % (fn, s, pr, d, ext)
                present = s == 'value' and (pr or not d)
                if label is None:
                    terms = {y for f in r for y in walk(f.ret)}
                    for t in list(terms):
                        if t.op == 'phi' and t in E.phi_in:
                            e0, ys = E.phi_in[t]
                            for fc, v in ys:
                                terms |= set(walk(v)) if v is not None else set()
                        elif t.op == 'sum':
                            for fc, v in t.a[0]:
                                terms |= set(walk(v))
                    lens = {y for y in terms if y.op == 'app' and (y.a[0].endswith('encoding::int32::encoded_len'))}
                    descs = {('ext' if any(z.op == 'descof' for z in walk(y)) else 'field') for y in lens}
                    want = ({'field'} | ({'ext'} if ext else set())) if present else set()
                    C.ob(descs == want, key + ':visit', 'the length counts %s, expected %s' % (sorted(descs), sorted(want)), 'encoding visits the present fields')
                    continue
                for f in r:
                    evs = []
                    for e in f.trace:
                        if isinstance(e, tuple) and e and e[0] == 'loop':
                            for fc, b in e[1]:
                                extra = [t for t, _ in fc if t.op != 'exhausted']
                                evs += [(x, extra) for x in b if isinstance(x, T)]
                                if any(not isinstance(x, T) for x in b):
                                    evs.append((mk('ev', 'unknown'), extra))
                        else:
                            evs.append((e, ['outside a loop']))
                    got = set()
                    for e, extra in evs:
                        lab = e.a[0]
                        if lab == label and e.a[1].op == 'app' and e.a[1].a[0].endswith('::number'):
                            ds = e.a[1].a[2]
                            which = 'ext' if ds.op == 'descof' else 'field'
                            if which == 'field':
                                src = 'stored' if any(y.op == 'stored' for y in walk(e.a[2])) else 'other'
                                base = [y for y in walk(ds) if y.op == 'app' and y.a[0].startswith(DESC + 'MessageDescriptor::')]
                                good = src == 'stored' and ds.op == 'elem' and len(base) == 1 and base[0].a[0].rsplit('::', 1)[1] in ('fields', 'fields_in_index_order')
                            else:
                                el = is_entry(e.a[2])
                                good = el is not None and show(ds.a[1]) == show(el) + '.0' and show(e.a[2]).startswith(show(el) + '.1@%d.0' % S.iv)
                            got.add(which if good and not extra else 'wrong:' + show(e)[:120] + str([show(x)[:60] if isinstance(x, T) else x for x in extra]))
                        elif lab == 'unknown' or s == 'unknown':
                            got.add('unknown')
                        else:
                            got.add('wrong:' + show(e)[:120])
                    want = ({'field'} | ({'ext'} if ext else set())) if present else {'unknown'} if s == 'unknown' else set()
                    C.ob(got == want, key + ':visit', 'encoding writes %s, expected %s' % (sorted(got), sorted(want)), 'encoding visits the present fields')
                C.ob(len(r) >= 1, key + ':none', 'never returns', 'encoding visits the present fields')
    C.floor('evaluated operations', n, 400)
