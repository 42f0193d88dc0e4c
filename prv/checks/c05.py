"""Every operation that can make a field present (setters, checked setters, mutable access, wire merge), by descriptor, number
and name, is evaluated over a slot model of the message: with a oneof, every other member and nothing else is removed, whatever
was stored; without one, no other field is touched. The functions that build or insert a stored value are listed from the MIR and
each must be among the functions evaluated."""
from prv.msgapi import *

LEVEL = 'proof'


def run(p, C):
    n = 0
    seen = set()
    cases = []
    for op in ('set', 'try_set', 'get_mut'):
        for fn in OPS[op]:
            for s in STATES:
                for o in (0, 1):
                    if how_of(fn) == 'ext' and o:
                        continue
                    cases.append((fn, dict(s=s, oneof=o)))
    for s in STATES:
        for o in (0, 1):
            cases.append(('merge_field', dict(s=s, oneof=o, name=MSG + 'merge_field', how='number', opaque=merge_of(p))))
    for s in STATES:
        cases.append(('merge_field/ext', dict(s=s, found=0, ext=1, name=MSG + 'merge_field', how='number', opaque=merge_of(p))))
    for fn, kw in cases:
        c = Case(p, fn, **kw)
        C.inlined(c.S.E)
        seen |= c.S.E.inlined
        n += 1
        key = c.key()
        C.ob(bool(c.r), key + ':none', '%s never returns' % fn, 'setting')
        for f in c.r:
            C.ob(c.own(f)[0] == 'value', key + ':set', 'after %s the field holds %s' % (fn, c.own(f)), 'the field is set')
            why = stray(f)
            C.ob(not why, key + ':stray', '%s also acts on %s' % (fn, why), 'no other field')
            if kw.get('oneof'):
                why = c.oneof_clear(f)
                C.ob(why is None, key + ':oneof', '%s: %s' % (fn, why), 'oneof cleared')
            else:
                C.ob(c.other_kept(f), key + ':other', '%s changes another field' % fn, 'no other field')
    # operations that must not touch other fields
    for op in ('has', 'get', 'clear', 'take'):
        for fn in OPS[op]:
            for s in STATES:
                c = Case(p, fn, s, oneof=0 if how_of(fn) == 'ext' else 1)
                C.inlined(c.S.E)
                seen |= c.S.E.inlined
                n += 1
                for f in c.r:
                    C.ob(c.other_kept(f) and not stray(f), c.key() + ':other',
                         '%s changes another field' % fn, 'no other field')
    for s in STATES:
        c = Case(p, 'merge_field/unknown', s, found=0, name=MSG + 'merge_field', how='number', opaque=merge_of(p))
        seen |= c.S.E.inlined
        for f in c.r:
            C.ob(c.other_kept(f) and (c.own(f)[0] != 'value' or c.own(f) == c.start()), c.key() + ':other',
                 'an unknown field makes a known one present', 'no other field')
    ms = makers(p)
    for fn in ms:
        base = fn.split('::{closure')[0]
        ok = fn in seen or base in seen or ' as core::clone::Clone>' in fn
        C.ob(ok, 'maker:' + fn, '%s (%s) can make a field present and is not reached from the evaluated operations' % (fn, ', '.join(sorted(ms[fn]))), 'stored values are built only here')
    C.sample('functions that build or insert stored values: %s' % sorted(ms))
    C.floor('evaluated operations', n, 150)
    C.floor('functions building stored values', len(ms), 1)


def merge_of(p):
    """The per-value merge is the subject of C01; here it is a step that leaves the message alone."""
    return [n for n in p.fn_by_name if n.startswith(VAL + '::') and n.endswith('::merge_field')] + \
        [n for n in p.fn_by_name if n.startswith(DYN + 'unknown::') and n.endswith('::decode_value')]

