"""Loops over the characters of a string that append to another string, read as finite-state transducers.

The engine records, for every value carried round a loop, what enters it and what each path of the body feeds back.  For a
loop over `chars()`/`bytes()` this gives a transition relation: (state, class of the character) -> (appended text, state).
The relation is evaluated on representatives of the character classes and compared with a reference transducer by exploring
the product of the two machines, which decides equality for every string over those classes."""
from .terms import *
from .wire import walk
from .engine import int_range

ASCII = {'is_ascii_uppercase': lambda c: 65 <= c <= 90, 'is_ascii_lowercase': lambda c: 97 <= c <= 122,
         'is_ascii_alphabetic': lambda c: 65 <= c <= 90 or 97 <= c <= 122, 'is_ascii_digit': lambda c: 48 <= c <= 57,
         'is_ascii_alphanumeric': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57, 'is_ascii': lambda c: c < 128,
         'is_ascii_graphic': lambda c: 33 <= c <= 126, 'is_ascii_control': lambda c: c < 32 or c == 127,
         'is_ascii_punctuation': lambda c: 33 <= c <= 47 or 58 <= c <= 64 or 91 <= c <= 96 or 123 <= c <= 126,
         'is_ascii_hexdigit': lambda c: 48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102,
         'is_uppercase': lambda c: chr(c).isupper(), 'is_lowercase': lambda c: chr(c).islower(), 'is_alphabetic': lambda c: chr(c).isalpha(),
         'is_alphanumeric': lambda c: chr(c).isalnum(), 'is_numeric': lambda c: chr(c).isnumeric()}
MAPS = {'unsigned_abs': abs, 'abs': abs, 'wrapping_abs': abs, 'saturating_abs': abs, 'signum': lambda c: (c > 0) - (c < 0), 'is_negative': lambda c: int(c < 0), 'is_positive': lambda c: int(c > 0),
        'to_ascii_uppercase': lambda c: c - 32 if 97 <= c <= 122 else c, 'to_ascii_lowercase': lambda c: c + 32 if 65 <= c <= 90 else c}


def ceval(t, env):
    """Value of a term when some of its parts have known values; None when unknown."""
    if t in env:
        return env[t]
    if isk(t):
        v = kv(t)
        return v if isinstance(v, int) else (ord(v) if isinstance(v, str) and len(v) == 1 else v)
    if t.op == 'cast':
        v = ceval(t.a[1], env)
        if isinstance(v, int) and t.a[0] in ('u8', 'u16', 'u32', 'u64'):
            return v & (int_range(t.a[0])[1])
        return v
    if t.op == 'discr':
        v = ceval(t.a[0], env)
        return int(v[0] == 'some') if isinstance(v, tuple) else None
    if t.op == 'proj' and t.a[1:] == (1, 0):
        v = ceval(t.a[0], env)
        return v[1] if isinstance(v, tuple) and v[0] == 'some' else None
    if t.op == 'un':
        v = ceval(t.a[1], env)
        return None if v is None else (int(not v) if t.a[0] == 'Not' else -v if t.a[0] == 'Neg' else None)
    if t.op in ('lt', 'le', 'eq'):
        a, b = ceval(t.a[0], env), ceval(t.a[1], env)
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        return int(a < b if t.op == 'lt' else a <= b if t.op == 'le' else a == b)
    if t.op == 'bin':
        a, b = ceval(t.a[1], env), ceval(t.a[2], env)
        if not isinstance(a, int) or not isinstance(b, int):
            return None
        o = t.a[0].replace('WithOverflow', '').replace('Unchecked', '')
        f = {'Eq': lambda: int(a == b), 'Ne': lambda: int(a != b), 'Lt': lambda: int(a < b), 'Le': lambda: int(a <= b), 'Gt': lambda: int(a > b),
             'Ge': lambda: int(a >= b), 'Add': lambda: a + b, 'Sub': lambda: a - b, 'Mul': lambda: a * b, 'BitAnd': lambda: a & b, 'BitOr': lambda: a | b,
             'BitXor': lambda: a ^ b, 'Shl': lambda: a << b, 'Shr': lambda: a >> b, 'Div': lambda: a // b if b else None, 'Rem': lambda: a % b if b else None}.get(o)
        return f() if f else None
    if t.op == 'add':
        vs = [ceval(x, env) if isinstance(x, T) else x for x in t.a]
        return sum(vs) if all(isinstance(v, int) for v in vs) else None
    if t.op == 'app':
        f = t.a[0].rsplit('::', 1)[-1]
        xs = [x for x in t.a[2:] if isinstance(x, T)]
        if f.startswith(('checked_', 'wrapping_', 'saturating_')) and t.a[0].startswith('<'):
            r = int_range(t.a[0][1:].split('>')[0])
            op = {'abs': lambda a: abs(a), 'neg': lambda a: -a, 'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b}.get(f.split('_', 1)[1])
            vs = [ceval(x, env) for x in xs]
            if r is None or op is None or not all(isinstance(v, int) for v in vs):
                return None
            v = op(*vs)
            fits = r[0] <= v <= r[1]
            if f.startswith('checked_'):
                return ('some', v) if fits else ('none',)
            if f.startswith('saturating_'):
                return min(max(v, r[0]), r[1])
            return (v - r[0]) % (r[1] - r[0] + 1) + r[0]
        if len(xs) == 1:
            v = ceval(xs[0], env)
            if isinstance(v, int):
                if f in ASCII:
                    return int(ASCII[f](v))
                if f in MAPS:
                    return MAPS[f](v)
        if f in ('min', 'max') and len(xs) == 2:
            a, b = ceval(xs[0], env), ceval(xs[1], env)
            return None if a is None or b is None else (min(a, b) if f == 'min' else max(a, b))
        if f in ('eq', 'ne') and len(xs) == 2:
            a, b = ceval(xs[0], env), ceval(xs[1], env)
            if a is not None and b is not None:
                return int((a == b) == (f == 'eq'))
    return None


def consistent(facts, env):
    """False when a fact contradicts the known values."""
    for t, d in facts:
        v = ceval(t, env)
        if v is None:
            continue
        if d[0] == 'iv':
            lo, hi = d[1] if isinstance(d[1], tuple) else (None, None)
            if isinstance(v, int) and ((lo is not None and v < lo) or (hi is not None and v > hi)):
                return False
        elif (v in d[1]) != (d[0] == '+'):
            return False
    return True


class Loop:
    def __init__(self, lid, src, ch):
        self.lid, self.src, self.ch = lid, src, ch
        self.out = None      # the phi of the string appended to
        self.state = []      # other carried values
        self.paths = []      # (facts, appended terms, {phi: next value})
        self.entry = {}
        self.why = None

    def start(self):
        return tuple(ceval(self.entry[s], {}) if self.entry.get(s) is not None else None for s in self.state)

    def step(self, state, c):
        env = {s: v for s, v in zip(self.state, state) if v is not None}
        env[self.ch] = c
        res = set()
        for fc, out, nxt in self.paths:
            if consistent(fc, env):
                res.add((tuple(ceval(o, env) for o in out), tuple(ceval(nxt[s], env) if nxt[s] is not None else None for s in self.state)))
        return res


def appended(v, base):
    """Terms appended to base to make v (None when v is not base with things pushed)."""
    out = []
    while v is not base:
        if v is None or v.op != 'app' or not v.a[0].endswith('push') or len(v.a) < 4:
            return None
        out.append(v.a[2])
        v = v.a[3]
    return out[::-1]


def char_loops(E):
    """Every loop of the run over the characters or bytes of a string, with the values it carries."""
    byid = {}
    for ph in E.phi_in:
        byid.setdefault(ph.a[0][0], []).append(ph)
    out = []
    for lid, phis in byid.items():
        chs = set()
        for ph in phis:
            for fc, v in E.phi_in[ph][1]:
                for x in [t for t, _ in fc] + ([v] if v is not None else []):
                    for w in walk(x):
                        if w.op == 'elem' and w.a[1] == lid and w.a[0].op == 'app' and w.a[0].a[0].rsplit('::', 1)[-1] in ('chars', 'bytes', 'as_bytes', 'char_indices'):
                            chs.add(w)
        if len(chs) != 1:
            continue
        ch = next(iter(chs))
        L = Loop(lid, ch.a[0].a[2], ch)
        strs = [ph for ph in phis if any(appended(v, ph) for _, v in E.phi_in[ph][1] if v is not None)]
        if len(strs) != 1:
            L.why = 'the loop appends to %d strings' % len(strs)
            out.append(L)
            continue
        L.out = strs[0]
        L.state = sorted((ph for ph in phis if ph is not L.out), key=lambda t: t.id)
        L.entry = {ph: E.phi_in[ph][0] for ph in phis}
        tabs = {ph: {} for ph in phis}
        for ph in phis:
            for fc, v in E.phi_in[ph][1]:
                tabs[ph].setdefault(fc, set()).add(v)
        for fc in tabs[L.out]:
            nxt = {}
            for s in L.state:
                vs = tabs[s].get(fc, {None})
                nxt[s] = next(iter(vs)) if len(vs) == 1 else None
            for v in tabs[L.out][fc]:
                a = appended(v, L.out)
                if a is None:
                    L.why = 'the loop replaces the string'
                else:
                    L.paths.append((fc, a, nxt))
        out.append(L)
    return out


def equal(L, spec, start, alphabet):
    """Explores the product with the reference transducer spec(state, c) -> (text, state) or None (rejected).
    Returns (differences, reachable pairs (spec state, loop state))."""
    bad = []
    seen = {(start, L.start())}
    todo = list(seen)
    while todo:
        a, b = todo.pop()
        for c in alphabet:
            w = spec(a, c)
            got = L.step(b, ord(c))
            if w is None:
                if got:
                    bad.append('%r in state %s is not refused' % (c, a))
                continue
            outs = {o for o, _ in got}
            want = tuple(ord(x) for x in w[0])
            if outs != {want}:
                bad.append('%r in state %s gives %s instead of %r' % (c, a, sorted(''.join(chr(x) if x is not None else '?' for x in o) for o in outs), w[0]))
            for o, n in got:
                if o == want and (w[1], n) not in seen:
                    seen.add((w[1], n))
                    todo.append((w[1], n))
    return bad, seen


def accepts(L, facts, state):
    """Whether facts recorded after the loop allow this state of its carried values."""
    return consistent(facts, {s: v for s, v in zip(L.state, state) if v is not None})
