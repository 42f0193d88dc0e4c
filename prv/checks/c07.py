"""The checked setters are evaluated over a slot model of the message for every stored state, lookup result and validity of the
value: Ok exactly when the field exists and the value is valid for it, then exactly that field holds exactly that value; otherwise
the error names the reason and carries the field and value, and nothing in the message is written."""
from prv.msgapi import *

LEVEL = 'proof'


def run(p, C):
    n = 0
    err_adt = None
    for fn in OPS['try_set']:
        for s in STATES:
            for valid in (0, 1):
                for found in (1, 0) if how_of(fn) != 'desc' else (1,):
                    c = Case(p, fn, s, oneof=1, valid=valid, found=found)
                    C.inlined(c.S.E)
                    n += 1
                    key = c.key()
                    C.ob(bool(c.r) and not c.panics, key + ':returns', '%s may panic' % fn, 'returns')
                    for f in c.r:
                        r = f.ret
                        good = r.op == 'agg' and r.a[0] == 'core::result::Result'
                        if not C.ob(good, key + ':result', 'undetermined result %s' % show(r)[:200], 'result'):
                            continue
                        if found and valid:
                            C.ob(r.a[1] == 0, key + ':ok', 'a valid value for an existing field is refused', 'result')
                            C.ob(c.own(f) == ('value', mk('value')), key + ':stored', 'after success the field holds %s' % (c.own(f),), 'stored')
                            why = c.oneof_clear(f) if s != 'value' else None
                            C.ob(why is None and not stray(f), key + ':others', str(why or stray(f)), 'stored')
                        else:
                            C.ob(r.a[1] == 1, key + ':err', 'accepted although %s' % ('the field does not exist' if not found else 'the value is not valid'), 'result')
                            C.ob(c.own(f) == c.start() and c.other_kept(f) and not any(e.op == 'ev' for e, _ in events(f.trace)), key + ':unchanged',
                                 'refused, but the message is changed: %s' % (c.own(f),), 'unchanged')
                            e = r.a[2]
                            if C.ob(e.op == 'agg' and p.adts.get(e.a[0]) is not None, key + ':error', 'undetermined error', 'error'):
                                vn = p.adts[e.a[0]]['v'][e.a[1]]
                                if not found:
                                    C.ob(vn['n'] == 'NotFound', key + ':reason', 'reported as %s' % vn['n'], 'error')
                                else:
                                    fs = dict(zip([x[0] for x in vn['f']], e.a[2:]))
                                    C.ob(vn['n'] == 'InvalidType' and fs.get('field') is TARGET and fs.get('value') is mk('value'), key + ':reason',
                                         'reported as %s with %s' % (vn['n'], {a: show(b)[:60] for a, b in fs.items()}), 'error')
    # lookups that find nothing touch nothing
    for op in ('has', 'get', 'get_mut', 'set', 'clear', 'take'):
        for fn in OPS[op]:
            if how_of(fn) not in ('number', 'name'):
                continue
            for s in STATES:
                c = Case(p, fn, s, oneof=1, found=0)
                C.inlined(c.S.E)
                n += 1
                for f in c.r:
                    C.ob(c.own(f) == c.start() and c.other_kept(f) and not any(e.op == 'ev' for e, _ in events(f.trace)), c.key() + ':untouched',
                         '%s of an unknown field changes the message' % fn, 'unknown field')
                    none = {'has': k(0), 'get': NONE_OPT, 'get_mut': NONE_OPT, 'take': NONE_OPT}.get(op)
                    C.ob(none is None or f.ret == none, c.key() + ':none', '%s of an unknown field gives %s' % (fn, show(f.ret)[:100]), 'unknown field')
    C.floor('evaluated operations', n, 80)
