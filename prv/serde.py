"""Helpers for the JSON and text conversions: traces of serializer calls, visitor tables, classes of floating-point values."""
import math, re
from .kinds import *
from .engine import int_range, NONE_OPT

TY = {'Double': 'f64', 'Float': 'f32', 'Int32': 'i32', 'Sint32': 'i32', 'Sfixed32': 'i32', 'Int64': 'i64', 'Sint64': 'i64', 'Sfixed64': 'i64',
      'Uint32': 'u32', 'Fixed32': 'u32', 'Uint64': 'u64', 'Fixed64': 'u64', 'Bool': 'bool'}
WKT = {'Any': 'any', 'Timestamp': 'timestamp', 'Duration': 'duration', 'Struct': 'struct', 'FloatValue': 'f32', 'DoubleValue': 'f64', 'Int32Value': 'i32',
       'Int64Value': 'i64', 'UInt32Value': 'u32', 'UInt64Value': 'u64', 'BoolValue': 'bool', 'StringValue': 'string', 'BytesValue': 'bytes',
       'FieldMask': 'fieldmask', 'ListValue': 'list', 'Value': 'value', 'Empty': 'empty'}
DM = DYN + 'DynamicMessage::'
POOL = DESC + 'DescriptorPool::'


def ser_watch(n, r, c):
    if n.startswith('serde_core::ser::') and not n.endswith('Serialize::serialize') and 'Error' not in n:
        return n.rsplit('::', 1)[1]
    return None


def de_watch(n, r, c):
    if n.startswith('serde_core::de::') and 'Error' not in n and r not in (None,) and 'key' not in c:
        return n.rsplit('::', 1)[1]
    return None


def events(trace, inloop=False):
    """Flat list of (event, in loop, facts of the iteration)."""
    for e in trace:
        if isinstance(e, tuple) and e and e[0] == 'loop':
            for fc, b in e[1]:
                yield from events(b, True)
        else:
            yield e, inloop


def visits(p, adt):
    """visit_* methods of a visitor struct."""
    out = {}
    pat = re.compile(r'^<%s(<.*>)? as serde_core::de::Visitor<.*>>::(visit_\w+)$' % re.escape(adt))
    for n in p.fn_by_name:
        m = pat.match(n)
        if m:
            out[m.group(2)] = n
    return out


# ---- floating-point classes
CLASSES = {'finite': 1.5, 'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}


def fval(t, x, v):
    if t is x:
        return v
    if isk(t):
        z = kv(t)
        return math.nan if z == 'nan' else z
    if t.op == 'cast' and t.a[0] in ('f32', 'f64') and t.a[2] in ('f32', 'f64'):
        return fval(t.a[1], x, v)
    if t.op == 'un' and t.a[0] == 'Neg':
        z = fval(t.a[1], x, v)
        return None if z is None else -z
    if t.op == 'app' and len(t.a) == 3:
        z = fval(t.a[2], x, v)
        if z is None:
            return None
        f = t.a[0].rsplit('::', 1)[1] if '::' in t.a[0] else ''
        if f == 'abs':
            return abs(z)
        if f == 'is_finite':
            return int(math.isfinite(z))
        if f == 'is_nan':
            return int(math.isnan(z))
        if f == 'is_infinite':
            return int(math.isinf(z))
        if f == 'is_sign_negative':
            return int(math.copysign(1, z) < 0) if math.isinf(z) else None
        if f == 'is_sign_positive':
            return int(math.copysign(1, z) > 0) if math.isinf(z) else None
    if t.op in ('flt', 'fle') or (t.op == 'bin' and t.a[0] == 'Eq'):
        a, b = (t.a[0], t.a[1]) if t.op != 'bin' else (t.a[1], t.a[2])
        va, vb = fval(a, x, v), fval(b, x, v)
        if va is None or vb is None:
            return None
        if math.isfinite(va) and math.isfinite(vb) and a is not b:
            return None  # splits the finite class
        return int(va < vb if t.op == 'flt' else va <= vb if t.op == 'fle' else va == vb)
    return None


def fclasses(f, x):
    """Classes of x not excluded by the facts of a path (an over-approximation)."""
    out = set()
    for c, v in CLASSES.items():
        good = True
        for t, d in f.facts.items():
            if x not in list(walk(t)) or t.op == 'discr':
                continue
            if t is x:
                vals = [math.nan if z == 'nan' else z for z in d[1]]
                if c == 'finite':
                    if d[0] == '+' and not any(isinstance(z, float) and math.isfinite(z) for z in vals):
                        good = False
                elif any(z == v for z in vals) != (d[0] == '+'):
                    good = False
                continue
            z = fval(t, x, v)
            if z is not None and (z in d[1]) != (d[0] == '+'):
                good = False
        if good:
            out.add(c)
    return out


# ---- exact conversions
def ival(f, x, ty):
    """Interval of the integer term x on a path."""
    iv = f.st.iv.get(x)
    r = int_range(ty)
    d = f.facts.get(x)
    if d and d[0] == '+' and all(isinstance(z, int) for z in d[1]):
        return (min(d[1]), max(d[1]))
    if iv is None:
        return r
    return (r[0] if iv[0] is None else max(iv[0], r[0]), r[1] if iv[1] is None else min(iv[1], r[1]))


def union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def strip_exact(f, t, x, tx):
    """Is t the value of integer x (through casts that keep the value on this path)? Returns the sign (+1/-1) or None."""
    lo, hi = ival(f, x, tx)
    sign = 1
    while t is not x:
        if t.op == 'cast':
            r = int_range(t.a[0])
            if r is None:
                return None
            a, b = (lo, hi) if sign_of_inner(t, x) > 0 else (-hi, -lo)
            if not (r[0] <= a and b <= r[1]):
                return None
            t = t.a[1]
        elif t.op == 'un' and t.a[0] == 'Neg':
            sign = -sign
            t = t.a[1]
        elif t.op == 'bin' and t.a[0] == 'Sub' and isk(t.a[1]) and kv(t.a[1]) == 0:
            sign = -sign
            t = t.a[2]
        elif t.op == 'app' and t.a[0].endswith('::wrapping_neg'):
            if lo < -(1 << 62):
                return None
            sign = -sign
            t = t.a[2]
        else:
            return None
    return sign


def sign_of_inner(t, x):
    s = 1
    while t is not x and isinstance(t, T):
        if t.op == 'cast':
            t = t.a[1]
        elif t.op == 'un' and t.a[0] == 'Neg':
            s = -s
            t = t.a[1]
        elif t.op == 'bin' and t.a[0] == 'Sub':
            s = -s
            t = t.a[2]
        elif t.op == 'app' and len(t.a) == 3:
            s = -s
            t = t.a[2]
        else:
            break
    return s


def exact_int(finals, x, src, dst, payload=lambda t: t, neg=False):
    """The Ok results cover exactly the source values that are (after the sign) in the target range, and equal them."""
    rs, rd = int_range(src), int_range(dst)
    want = (max(rs[0], -rd[1]), min(rs[1], -rd[0])) if neg else (max(rs[0], rd[0]), min(rs[1], rd[1]))
    ivs, bad = [], []
    for f, v in oks(finals):
        v = payload(v)
        if v is None:
            bad.append('unexpected result')
            continue
        lo, hi = ival(f, x, src)
        if isk(v):
            if not (lo == hi and kv(v) == (-lo if neg else lo)):
                bad.append('%s for values %s..%s' % (show(v), lo, hi))
        else:
            s = strip_exact(f, v, x, src)
            if s != (-1 if neg else 1):
                bad.append('%s for values %s..%s' % (show(v)[:120], lo, hi))
        ivs.append((lo, hi))
    u = union(ivs)
    if not bad and u != [want]:
        bad.append('accepted values are %s, the representable ones are %s' % (u, [want]))
    return bad


def float_bounds(f, x):
    """(lo, lo inclusive, hi, hi inclusive, integral) from the facts on float x; None bound when absent."""
    lo = hi = None
    integral = False
    for t, d in f.facts.items():
        val = next(iter(d[1])) if d[0] == '+' and len(d[1]) == 1 else None
        if t.op in ('flt', 'fle') and val is not None:
            a, b = t.a[0], t.a[1]
            strict = (t.op == 'flt') == (val == 1)
            if a is x and isk(b):
                c = kv(b)
                up = val == 1
            elif b is x and isk(a):
                c = kv(a)
                up = val == 0
            else:
                continue
            if up:
                if hi is None or c < hi[0]:
                    hi = (c, not strict)
            elif lo is None or c > lo[0]:
                lo = (c, not strict)
        if t.op == 'app' and t.a[0].endswith('::fract') and t.a[2] is x and val == 0.0:
            integral = True
        if t.op == 'bin' and t.a[0] == 'Eq' and val == 1 and x in t.a:
            o = t.a[2] if t.a[1] is x else t.a[1]
            if o.op == 'app' and o.a[0].rsplit('::', 1)[-1] in ('trunc', 'floor', 'ceil', 'round') and o.a[2] is x:
                integral = True
        if t.op == 'bin' and t.a[0] == 'Rem' and t.a[1] is x and isk(t.a[2]) and kv(t.a[2]) == 1.0 and val == 0.0:
            integral = True
    return lo, hi, integral


def exact_float_to_int(finals, x, dst, payload=lambda t: t):
    rd = int_range(dst)
    bad = []
    n = 0
    for f, v in oks(finals):
        v = payload(v)
        n += 1
        if v is None or not (v.op == 'cast' and v.a[0] == dst and v.a[1] is x):
            bad.append('result %s' % (show(v)[:120] if v is not None else None))
            continue
        lo, hi, integral = float_bounds(f, x)
        if not integral:
            bad.append('a fraction may be truncated')
        ilo = None if lo is None else int(lo[0]) + (0 if lo[1] else 1)
        ihi = None if hi is None else int(hi[0]) - (0 if hi[1] else 1)
        if ilo != rd[0] or ihi != rd[1]:
            bad.append('accepted range is %s..%s, the representable one is %s..%s' % (ilo, ihi, rd[0], rd[1]))
    if not n:
        bad.append('never accepted')
    return bad


def same_options(p, x, o):
    """x is the options o: the same, or built anew with every choice of the user (a flag) taken from o; other fields are the
    serializer's own state."""
    if x is o:
        return True
    if x.op in ('ref', 'box') and x.a and isinstance(x.a[0], T):
        return same_options(p, x.a[0], o)
    if x.op != 'agg' or x.a[0] not in p.adts or len(p.adts[x.a[0]]['v']) != 1:
        return False
    flags = 0
    for i, f in enumerate(p.adts[x.a[0]]['v'][0]['f']):
        t = f['t'] if isinstance(f, dict) else f[1]
        if p.ts(t) == 'bool':
            flags += 1
            y = x.a[2 + i]
            if not (y.op == 'proj' and y.a[0] is o and y.a[-1] == i):
                return False
    return flags > 0
