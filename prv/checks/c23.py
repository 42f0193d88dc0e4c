"""The values of Timestamp and Duration that are written to and read from JSON are exactly those the mapping defines.

The successful paths of the writer and of the string visitors are conditions on (seconds, nanos).  Every fact on such a path
is a comparison of a function of the two numbers with a constant, so the plane is cut into finitely many cells; each cell is
decided by evaluating the facts on representatives (every constant of the facts and of the specification, and its
neighbours), and compared with the specified region.  Field masks are compared with the reference transducers."""
from prv.checks.c17 import *
from prv.trans import ceval

LEVEL = 'proof'
DMAX = 315576000000
TMIN, TMAX = -62135596800, 253402300799
NMAX = 999999999
I32, I64 = (-2**31, 2**31 - 1), (-2**63, 2**63 - 1)


def spec_ts(s, n):
    return TMIN <= s <= TMAX and 0 <= n <= NMAX


def spec_dur(s, n):
    return abs(s) <= DMAX and abs(n) <= NMAX and not (s < 0 < n or n < 0 < s)


def facts_of(f, s, n):
    out = []
    for t, d in f.facts.items():
        if (s in list(walk(t)) or n in list(walk(t))):
            out.append((t, d))
    for t, d in f.st.iv.items():
        if s in list(walk(t)) or n in list(walk(t)):
            out.append((t, ('iv', d)))
    return out


def constants(fs):
    out = set()
    for t, d in fs:
        vals = [x for x in d[1] if isinstance(x, int)]
        for w in walk(t):
            if isk(w) and isinstance(kv(w), int):
                vals.append(kv(w))
        for v in vals:
            out |= {v - 1, v, v + 1, -v - 1, -v, 1 - v}
    return out


def region(C, key, what, good, s, n, spec, read):
    """The (seconds, nanos) of the successful paths against the specified region."""
    paths = [facts_of(f, s, n) for f in good]
    cs = {0, 1, -1, NMAX, NMAX + 1, -NMAX, -NMAX - 1, TMIN, TMIN - 1, TMIN + 1, TMAX, TMAX + 1, DMAX, DMAX + 1, -DMAX, -DMAX - 1, *I64, *I32}
    for ps in paths:
        cs |= constants(ps)
    secs = sorted(c for c in cs if I64[0] <= c <= I64[1])
    nans = sorted(c for c in cs if I32[0] <= c <= I32[1])
    wrong_in, wrong_out, undecided = None, None, None
    cells = 0
    for a in secs:
        for b in nans:
            if read and (not (abs(b) <= NMAX and not (a < 0 < b or b < 0 < a)) or what == 'Timestamp' and b < 0):
                continue  # the parsers of prost-types only yield normalized values
            cells += 1
            env = {s: a, n: b}
            acc = False
            for ps in paths:
                r = True
                for t, d in ps:
                    v = ceval(t, env)
                    if v is None:
                        undecided = t
                        continue
                    if d[0] == 'iv':
                        if (d[1][0] is not None and v < d[1][0]) or (d[1][1] is not None and v > d[1][1]):
                            r = False
                    elif (v in d[1]) != (d[0] == '+'):
                        r = False
                acc = acc or r
            if acc and not spec(a, b) and wrong_in is None:
                wrong_in = (a, b)
            if not acc and spec(a, b) and wrong_out is None:
                wrong_out = (a, b)
    C.ob(wrong_in is None, key + ':range', '%s with seconds %s and nanos %s is outside the range but %s' % ((what,) + (wrong_in or (0, 0)) + ('accepted' if read else 'written',)) +
         (' (condition not understood: %s)' % show(undecided)[:100] if undecided is not None else ''), 'JSON range')
    C.ob(wrong_out is None, key + ':refused', '%s with seconds %s and nanos %s is in range but refused' % ((what,) + (wrong_out or (0, 0))), 'JSON range')
    return cells


def run(p, C):
    n = 0
    for nm, spec in (('Timestamp', spec_ts), ('Duration', spec_dur)):
        E = engine(p, 'google.protobuf.' + nm, ser_watch)
        E.exact_paths = True
        fs = E.run(DM + 'serialize_with_options', args={0: mk('self'), 1: mk('serializer'), 2: mk('options')})
        C.inlined(E)
        good = [f for f in fs if not is_err(f)]
        raw = {w for f in good for e, _ in events(f.trace) for x in e.a[1:] if isinstance(x, T) for w in walk(x) if w.op == 'app' and w.a[0].startswith(DM + 'transcode_to::<')}
        if C.ob(len(raw) == 1, 'ser:%s:raw' % nm, '%s is written from %d values' % (nm, len(raw)), 'JSON range'):
            r = mk('proj', next(iter(raw)), 0, 0)
            fields = sorted({w for f in fs for t in list(f.facts) + list(f.st.iv) for w in walk(t) if w.op == 'proj' and w.a[0] is r}, key=lambda t: str(t.a[-1]))
            s, x = mk('proj', r, None, 0), mk('proj', r, None, 1)
            cells = region(C, 'ser:' + nm, nm, good, s, x, spec, False)
            n += cells
            C.sample('%s: %d cells of (seconds, nanos) compared when writing' % (nm, cells))
        # reading
        E = engine(p, 'google.protobuf.' + nm, de_watch, own=False)
        fs = E.run(DM + 'deserialize_with_options')
        vis = {arg(e, 1).a[0] for f in fs for e, _ in events(f.trace) if arg(e, 1) is not None and arg(e, 1).op == 'agg'}
        if not C.ob(len(vis) == 1, 'de:%s:visitor' % nm, '%s is read through %s' % (nm, sorted(vis)), 'JSON range'):
            continue
        for m, fn in sorted(visits(p, next(iter(vis))).items()):
            if m not in ('visit_str', 'visit_string', 'visit_borrowed_str'):
                continue
            E = engine(p)
            E.exact_paths = True
            fs = E.run(fn, args={1: mk('input')})
            C.inlined(E)
            good = [f for f in fs if not is_err(f)]
            vals = {f.ret.a[2] for f in good if f.ret.op == 'agg'}
            if not C.ob(len(vals) == 1, 'de:%s:%s' % (nm, m), 'the value read is %s' % [show(v)[:80] for v in vals], 'JSON range'):
                continue
            r = next(iter(vals))
            cells = region(C, 'de:' + nm, nm, good, mk('proj', r, None, 0), mk('proj', r, None, 1), spec, True)
            n += cells
    E = engine(p, 'google.protobuf.FieldMask', ser_watch)
    fs = E.run(DM + 'serialize_with_options', args={0: mk('self'), 1: mk('serializer'), 2: mk('options')})
    masks(C, E, fs, snake, 'ser:FieldMask', lambda s: s == 0)
    C.floor('cells compared', n, 300)
