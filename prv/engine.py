"""Abstract interpreter over the dumped MIR.

Abstract state = (memory over interned terms) x (finite value sets and intervals of terms)
x (trace of watched calls).  States are partitioned by memory and trace (trace partitioning);
facts of merged partitions are joined (set union / interval hull).  Loops are run to a
fixpoint with widening (differing values become phi terms).  Calls to functions of the
analysed crates are analysed in context; recursion and foreign code are opaque terms.
No solver, no concrete execution.
"""
import heapq
from .terms import T, mk, k, isk, kv, agg, tup, UNIT, walk, show, subst

NEVER = mk("never")  # a fact of states nothing reaches
from .program import Broken

RET = -1
BOOL = frozenset((0, 1))
NONE_OPT = agg('core::option::Option', 0)


def some(x):
    return agg('core::option::Option', 1, x)


def ok(x):
    return agg('core::result::Result', 0, x)


def err(x):
    return agg('core::result::Result', 1, x)


class Limit(Exception):
    pass


class State:
    __slots__ = ('mem', 'facts', 'iv', 'trace', 'turn')

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.iv = {}
        self.trace = ()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.iv = dict(self.iv)
        s.trace = self.trace
        return s


class Dom:
    """A set of possible values: positive (pos=True) or complement."""
    __slots__ = ()


def dom_join(a, b):
    # a, b: ('+', fs) | ('-', fs)
    if a == b:
        return a
    if a[0] == '+' and b[0] == '+':
        return ('+', a[1] | b[1])
    if a[0] == '-' and b[0] == '-':
        r = a[1] & b[1]
        return ('-', r) if r else None
    p, nn = (a, b) if a[0] == '+' else (b, a)
    r = nn[1] - p[1]
    return ('-', r) if r else None


SIGNED = {'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64}
UNSIGNED = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}


def int_range(tn):
    if tn in SIGNED:
        n = SIGNED[tn]
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if tn in UNSIGNED:
        return (0, (1 << UNSIGNED[tn]) - 1)
    if tn == 'char':
        return (0, 0x10ffff)
    if tn == 'bool':
        return (0, 1)
    return None


def wrap(v, tn):
    r = int_range(tn)
    if r is None:
        return v
    n = r[1] - r[0] + 1
    return (v - r[0]) % n + r[0]


def prep(body):
    """RPO numbering, natural loops, liveness."""
    if body.rpo is not None:
        return
    n = len(body.blocks)
    succ = [()] * n
    for i, b in enumerate(body.blocks):
        if b is None:
            continue
        succ[i] = successors(b['t'])
    seen = [False] * n
    post = []
    onstack = set()
    back = []
    st = [(0, iter(succ[0]))]
    seen[0] = True
    onstack.add(0)
    while st:
        x, it = st[-1]
        for y in it:
            if not seen[y]:
                seen[y] = True
                onstack.add(y)
                st.append((y, iter(succ[y])))
                break
            elif y in onstack:
                back.append((x, y))
        else:
            st.pop()
            onstack.discard(x)
            post.append(x)
    rpo = post[::-1]
    body.idx = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    body.preds = preds
    loops = {}
    for (x, h) in back:
        l = loops.setdefault(h, {h})
        work = [x]
        while work:
            y = work.pop()
            if y in l:
                continue
            l.add(y)
            work.extend(preds[y])
    body.loops = loops
    # Order so that every loop is contiguous is not needed: exits wait in the outer worklist.
    # liveness of locals
    use = {}
    deff = {}
    for b in rpo:
        u, d = set(), set()
        blk = body.blocks[b]

        def useplace(p, isdef=False):
            if isdef and len(p) == 1:
                d.add(p[0])
            else:
                if p[0] not in d:
                    u.add(p[0])
            for el in p[1:]:
                if el != '*' and el[0] == 'i' and el[1] not in d:
                    u.add(el[1])

        def useop(o):
            if o[0] in ('copy', 'move'):
                useplace(o[1])
        for s in blk['s']:
            if s[0] == '=':
                rv = s[2]
                kk = rv[0]
                if kk == 'use':
                    useop(rv[1])
                elif kk == 'repeat':
                    useop(rv[1])
                elif kk == 'ref':
                    useplace(rv[2])
                elif kk == 'cast':
                    useop(rv[2])
                elif kk == 'bin':
                    useop(rv[2])
                    useop(rv[3])
                elif kk == 'un':
                    useop(rv[2])
                elif kk == 'discr':
                    useplace(rv[1])
                elif kk == 'agg':
                    for o in rv[2]:
                        useop(o)
                useplace(s[1], True)
            elif s[0] == 'setd':
                useplace(s[1])
        t = blk['t']
        if t[0] == 'switch':
            useop(t[1])
        elif t[0] == 'call':
            useop(t[1])
            for o in t[2]:
                useop(o)
            useplace(t[3], True)
        elif t[0] == 'assert':
            useop(t[1])
            for o in t[3][1:]:
                if isinstance(o, list):
                    useop(o)
        elif t[0] == 'ret':
            if 0 not in d:
                u.add(0)
        use[b], deff[b] = u, d
    live = {b: set() for b in rpo}
    changed = True
    while changed:
        changed = False
        for b in reversed(rpo):
            out = set()
            for s in succ[b]:
                out |= live[s]
            nl = use[b] | (out - deff[b])
            if nl != live[b]:
                live[b] = nl
                changed = True
    body.live = live
    body.rpo = rpo


def successors(t):
    kk = t[0]
    if kk == 'goto':
        return (t[1],)
    if kk == 'switch':
        return tuple(dict.fromkeys([b for _, b in t[2]] + [t[3]]))
    if kk == 'drop':
        return (t[2],)
    if kk == 'call':
        return (t[4],) if t[4] is not None else ()
    if kk == 'assert':
        return (t[4],)
    return ()


class Frame:
    __slots__ = ('body', 'depth', 'site')

    def __init__(self, body, depth, site):
        self.body = body
        self.depth = depth
        self.site = site


class Final:
    __slots__ = ('st', 'ret')

    def __init__(self, st, ret):
        self.st = st
        self.ret = ret

    @property
    def facts(self):
        return self.st.facts

    @property
    def trace(self):
        return self.st.trace


_refs_memo = {}


def refs_in(t):
    r = _refs_memo.get(t.id)
    if r is None:
        s = set()
        for x in walk(t):
            if x.op == 'ref' and isinstance(x.a[0], tuple):
                s.add(x.a[0])
        r = frozenset(s)
        _refs_memo[t.id] = r
    return r


class Engine:
    def __init__(self, prog, opaque=(), watch=None, stateless=None, max_steps=4000000, max_states=300, on_assert=None,
                 record_calls=False, pure=()):
        self.p = prog
        self.opaque = set(opaque)
        self.pure = set(pure)
        self.watch = watch or {}
        self.stateless = stateless or (lambda t: False)
        self.max_steps = max_steps
        self.max_states = max_states
        self.steps = 0
        self.sites = {}
        self.stack = []
        self.domain = {}
        self.const_mem = {}
        self.promo = {}
        self.panics = []
        self.unknown_calls = {}
        self.inlined = set()
        self.on_assert = on_assert
        self.opaque_called = {}
        self.callsites = 0
        self.forced_merges = 0
        self.models = {}
        from . import models
        models.install(self)
        self.on_write = None
        self.oracle = None
        self.discr_hook = None
        self.discr_names = {}
        self.branch_hook = None
        self.ptypes = {}
        self.rec_limit = 0
        self.stack_limit = 60
        self.rec_hook = None
        self.unroll = 0
        self.pushed = set()         # constants appended to strings and vectors
        self.known_lists = False    # iterate over lists of known elements one by one
        self.subst = None  # what is known of places: {term: value}
        self.track_exhaust = False
        self.typed = {}
        self.exact_paths = False  # never join paths that learned different things
        self.arrlen = {}
        self.before = {}  # {what an opaque call left in a place: what was there}
        self.inits = None           # what the initialisers of statics return (collected when a dict)

    # ---- sites
    def site(self, fr, b):
        key = (fr.site, fr.body.key, b)
        r = self.sites.get(key)
        if r is None:
            r = len(self.sites) + 1
            self.sites[key] = r
        return r

    # ---- memory
    def read(self, st, base, path):
        v = st.mem.get(base)
        if v is None:
            if isinstance(base, T):
                v = base
            else:
                v = self.const_mem.get(base)
                if v is None:
                    v = mk('uninit', base)
        for el in path:
            v = self.get1(st, v, el)
        return v

    def get1(self, st, v, el):
        while v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        if el[0] == 'f':
            if v.op == 'agg':
                if el[1] is None or v.a[1] == el[1] or v.a[1] is None:
                    if el[2] < len(v.a) - 2:
                        return v.a[2 + el[2]]
                return mk('bottom')
            if v.op == 'upd':
                for (e2, val) in v.a[1]:
                    if e2 == el:
                        return val
                return self.get1(st, v.a[0], el)
            return self.sub(mk('proj', v, el[1], el[2]))
        if el[0] == 'i':
            if v.op == 'agg' and v.a[0] == 'array' and el[1].op == 'k':
                i = kv(el[1])
                if i < len(v.a) - 2:
                    return v.a[2 + i]
            if v.op == 'upd':
                for (e2, val) in v.a[1]:
                    if e2 == el:
                        return val
                return self.sub(mk('idx', v, el[1]))
            return self.sub(mk('idx', v, el[1]))
        return mk('sub', v, *[x if isinstance(x, T) else k(int(x)) for x in el[1:]])

    def sub(self, t):
        return self.subst.get(t, t) if self.subst else t

    def set1(self, st, v, path, val):
        if not path:
            return val
        el = path[0]
        if v.op == 'ref':
            # auto-deref'd smart pointer: overwrite by value
            v = self.read(st, v.a[0], v.a[1])
        if v.op == 'agg' and el[0] == 'f' and (el[1] is None or v.a[1] == el[1]) and el[2] < len(v.a) - 2:
            a = list(v.a)
            a[2 + el[2]] = self.set1(st, a[2 + el[2]], path[1:], val)
            return mk('agg', *a)
        if v.op == 'agg' and v.a[0] == 'array' and el[0] == 'i' and el[1].op == 'k' and kv(el[1]) < len(v.a) - 2:
            a = list(v.a)
            i = 2 + kv(el[1])
            a[i] = self.set1(st, a[i], path[1:], val)
            return mk('agg', *a)
        inner = self.set1(st, self.get1(st, v, el), path[1:], val)
        if v.op == 'upd':
            items = tuple((e, x) for e, x in v.a[1] if e != el) + ((el, inner),)
            return mk('upd', v.a[0], tuple(sorted(items, key=lambda z: repr(z[0]))))
        return mk('upd', v, ((el, inner),))

    def write(self, st, base, path, val):
        if self.on_write is not None and isinstance(base, T):
            self.on_write(st, base, path, val)
        if not path:
            st.mem[base] = val
            return
        v = st.mem.get(base)
        if v is None:
            v = base if isinstance(base, T) else self.const_mem.get(base) or mk('uninit', base)
        st.mem[base] = self.set1(st, v, path, val)

    def mkref(self, base, path):
        if isinstance(base, T) and not path:
            return base
        return mk('ref', base, path)

    BOXY = ('alloc::boxed::Box', 'core::ptr::unique::Unique', 'core::ptr::non_null::NonNull')

    def loc(self, st, fr, place):
        body = fr.body
        base = ('L', fr.depth, place[0])
        path = ()
        ty = body.locals[place[0]]
        variant = None
        types = self.p.types
        for el in place[1:]:
            if el == '*':
                v = self.read(st, base, path)
                t = types[ty]
                ty = t.get('t')
                if ty is None:
                    ty = t.get('a', [0])[0] if t.get('a') else 0
                base, path = self.pointee(v)
            elif el[0] == 'f':
                t = types[ty]
                if t['k'] == 'adt' and t['n'] in self.BOXY:
                    pass
                else:
                    path = path + (('f', variant, el[1]),)
                variant = None
                ty = el[2]
            elif el[0] == 'd':
                variant = el[1]
            elif el[0] == 'i':
                iv = self.read(st, ('L', fr.depth, el[1]), ())
                path = path + (('i', iv),)
                ty = types[ty].get('t', 0)
            elif el[0] == 'c':
                off = k(el[1]) if not el[3] else mk('fromend', el[1])
                path = path + (('i', off),)
                ty = types[ty].get('t', 0)
            elif el[0] == 's':
                path = path + (('s', el[1], el[2], el[3]),)
            else:
                raise Broken('projection %r' % (el,))
        return base, path, ty

    def pointee(self, v):
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return v, ()

    def place_read(self, st, fr, place):
        b, p, ty = self.loc(st, fr, place)
        return self.read(st, b, p)

    def place_type(self, fr, place):
        ty = fr.body.locals[place[0]]
        types = self.p.types
        for el in place[1:]:
            if el == '*':
                t = types[ty]
                ty = t.get('t')
                if ty is None:
                    ty = t['a'][0] if t.get('a') else 0
            elif el[0] == 'f':
                ty = el[2]
            elif el[0] in ('i', 'c'):
                ty = types[ty].get('t', 0)
        return ty

    # ---- constants
    def const(self, st, c):
        kind = c['c']
        if kind == 'int':
            return k(int(c['v']))
        if kind == 'str':
            return k(c['v'])
        if kind == 'bytes':
            return k(bytes.fromhex(c['v']))
        if kind == 'mem':
            t = self.p.types[c['t']]
            if t['k'] == 'ref' and self.p.types[t['t']]['s'].startswith('[u8;'):
                return k(bytes.fromhex(c['v']))
            return mk('cmem', c['v'], t['s'])
        if kind == 'float':
            import struct
            b = int(c['v'])
            t = self.p.types[c['t']]['s']
            if t == 'f32':
                return mk('k', 'float', struct.unpack('<f', struct.pack('<I', b))[0]) if True else None
            v = struct.unpack('<d', struct.pack('<Q', b))[0]
            if v != v:
                return mk('k', 'float', 'nan')
            return mk('k', 'float', v)
        if kind == 'fn':
            return mk('fn', c['t'])
        if kind == 'zst':
            t = self.p.types[c['t']]
            if t['k'] == 'adt':
                return agg(t['n'], 0)
            if t['k'] == 'tuple':
                return UNIT
            if t['k'] == 'closure':
                return agg('closure:%d' % c['t'], 0)
            return mk('zst', t['s'])
        if kind == 'promoted':
            return self.promoted(c['k'], c['i'])
        if kind == 'named':
            if c.get('key') and c['key'] in self.p.bodies:
                return self.constbody(c['key'])
            return mk('named', c['n'])
        if kind == 'static':
            return mk('static', c['v'])
        if kind == 'bits':
            t = self.p.types[c['t']]
            if t['k'] == 'adt':
                ad = self.p.adts.get(t['n'])
                if ad and ad['kind'] == 'enum' and all(not v['f'] for v in ad['v']):
                    for i, v in enumerate(ad['v']):
                        if v['d'] == int(c['v']):
                            return agg(t['n'], i)
                if t['n'] == 'core::option::Option' and t['s'].startswith('core::option::Option<&') and int(c['v']) == 0:
                    return NONE_OPT
            return mk('bits', c['v'], t['s'])
        return mk('const', c.get('s', kind))

    def promoted(self, key, i):
        kk = (key, i)
        if kk in self.promo:
            return self.promo[kk]
        body = self.p.bodies[key].promoted[i]
        self.promo[kk] = mk('promoted', key, i)
        self.promo[kk] = self.run_const(body, ('P', key, i))
        return self.promo[kk]

    def constbody(self, key):
        kk = (key, None)
        if kk in self.promo:
            return self.promo[kk]
        self.promo[kk] = mk('named', key)
        self.promo[kk] = self.run_const(self.p.bodies[key], ('C', key))
        return self.promo[kk]

    def run_const(self, body, tag):
        st = State()
        depth = tag
        saved = self.stack
        self.stack = []
        rets = self.exec_body(body, st, depth, 0)
        self.stack = saved
        if len(rets) != 1:
            return mk('constof', body.key)
        st2 = rets[0]
        for kx, v in st2.mem.items():
            if not isinstance(kx, T):
                self.const_mem[kx] = v
        return st2.mem.get(('L', depth, 0), UNIT)

    # ---- operands / rvalues
    def operand(self, st, fr, o):
        if o[0] == 'const':
            return self.const(st, o[1])
        return self.place_read(st, fr, o[1])

    def op_type(self, fr, o):
        if o[0] == 'const':
            return o[1]['t']
        return self.place_type(fr, o[1])

    def rvalue(self, st, fr, rv, place):
        kk = rv[0]
        if kk == 'use':
            return self.operand(st, fr, rv[1])
        if kk == 'ref':
            b, p, ty = self.loc(st, fr, rv[2])
            return self.mkref(b, p)
        if kk == 'agg':
            fs = [self.operand(st, fr, o) for o in rv[2]]
            a = rv[1]
            if a[0] == 'tuple':
                return tup(*fs)
            if a[0] == 'array':
                return agg('array', 0, *fs)
            if a[0] == 'adt':
                return agg(a[1], a[2], *fs)
            if a[0] == 'closure':
                return agg('closure:%d' % a[1], 0, *fs)
            if a[0] == 'rawptr':
                return fs[0]
            return mk('app', 'agg', None, *fs)
        if kk == 'cast':
            v = self.operand(st, fr, rv[2])
            ck = rv[1]
            tn = self.p.ts(rv[3])
            if ck in ('IntToInt', 'FloatToInt', 'IntToFloat', 'FloatToFloat'):
                sn = self.p.ts(self.op_type(fr, rv[2]))
                return self.cast(st, v, sn, tn, ck)
            st_ = self.p.types[self.op_type(fr, rv[2])]
            if st_['k'] in ('ref', 'ptr'):
                at = self.p.types[st_['t']]
                if at['k'] == 'array' and at.get('len') is not None:
                    x = self.canon(st, v, True)
                    if x.op not in ('k', 'agg'):
                        self.arrlen[x] = int(at['len'])
            return v
        if kk == 'bin':
            a = self.operand(st, fr, rv[2])
            b = self.operand(st, fr, rv[3])
            tn = self.p.ts(self.op_type(fr, rv[2]))
            return self.binop(st, rv[1], a, b, tn)
        if kk == 'un':
            a = self.operand(st, fr, rv[2])
            tn = self.p.ts(self.op_type(fr, rv[2]))
            return self.unop(st, rv[1], a, tn)
        if kk == 'discr':
            b, p, ty = self.loc(st, fr, rv[1])
            return self.discr(st, self.read(st, b, p), ty)
        if kk == 'repeat':
            return mk('app', 'repeat', None, self.operand(st, fr, rv[1]), k(rv[2]))
        return mk('app', 'rvalue:' + kk, None)

    def discr(self, st, v, ty):
        while v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        t = self.p.types[ty]
        if t['k'] == 'adt':
            ad = self.p.adts.get(t['n'])
            if v.op == 'agg' and v.a[0] == t['n'] and v.a[1] is not None and ad:
                return k(ad['v'][v.a[1]]['d'])
            if v.op == 'upd' and v.a[0].op == 'agg' and v.a[0].a[1] is not None:
                return self.discr(st, v.a[0], ty)
            if self.discr_hook is not None and ad:
                h = self.discr_hook(v, t['n'])
                if h is not None:
                    return k(ad['v'][h]['d'])
            d = mk('discr', v)
            if ad and ad['kind'] == 'enum' and d not in self.domain:
                self.domain[d] = frozenset(x['d'] for x in ad['v'])
                self.discr_names[d] = t['n']
            if ad and len(ad['v']) == 1:
                return k(ad['v'][0]['d'])
            return d
        return mk('discr', v)

    def cast(self, st, v, sn, tn, ck):
        if sn == tn:
            return v
        if v.op == 'k' and isinstance(v.a[1], int) and ck == 'IntToInt':
            return k(wrap(v.a[1], tn))
        if v.op == 'k' and ck == 'IntToFloat':
            return mk('k', 'float', float(v.a[1]))
        if ck == 'IntToInt':
            # bool/enum widening keeps the value
            r1, r2 = int_range(sn), int_range(tn)
            if v.op == 'discr':
                return v
        if ck == 'FloatToFloat' and v.op == 'k' and isinstance(v.a[1], float):
            if sn == 'f32' and tn == 'f64':
                return v
        return mk('cast', tn, v, sn)

    def unop(self, st, op, a, tn):
        if op == 'Not':
            if tn == 'bool':
                if isk(a):
                    return k(1 - kv(a))
                if a.op == 'un' and a.a[0] == 'Not':
                    return a.a[1]
            elif isk(a):
                r = int_range(tn)
                if r:
                    return k(wrap(~kv(a), tn))
            return mk('un', 'Not', a)
        if op == 'Neg' and isk(a) and isinstance(kv(a), (int, float)):
            return k(-kv(a)) if isinstance(kv(a), int) else mk('k', 'float', -kv(a))
        if op == 'PtrMetadata':
            return self.length(st, a)
        return mk('un', op, a)

    def length(self, st, a):
        v = a
        while v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        if v in st.mem:
            v = st.mem[v]
        if v.op == 'k' and isinstance(kv(v), (str, bytes)):
            x = kv(v)
            return k(len(x.encode() if isinstance(x, str) else x))
        if v.op == 'agg' and v.a[0] == 'array':
            return k(len(v.a) - 2)
        if v in self.arrlen:
            return k(self.arrlen[v])
        return mk('app', 'len', None, v)

    CMP = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b,
           'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}

    def binop(self, st, op, a, b, tn):
        if op in self.CMP:
            return self.cmp(st, op, a, b, tn)
        if op in ('Add', 'Sub', 'Mul', 'AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'BitAnd', 'BitOr', 'BitXor',
                  'Shl', 'Shr', 'Div', 'Rem', 'AddUnchecked', 'SubUnchecked', 'MulUnchecked', 'ShlUnchecked', 'ShrUnchecked'):
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            wo = op.endswith('WithOverflow')
            if isk(a) and isk(b) and isinstance(kv(a), int) and isinstance(kv(b), int):
                x, y = kv(a), kv(b)
                f = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mul': lambda: x * y, 'BitAnd': lambda: x & y,
                     'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Shl': lambda: x << (y & 127), 'Shr': lambda: x >> (y & 127),
                     'Div': lambda: (abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)) if y else 0,
                     'Rem': lambda: (abs(x) % abs(y) * (1 if x >= 0 else -1)) if y else 0}[base]()
                w = wrap(f, tn)
                if wo:
                    return tup(k(w), k(w != f))
                return k(w)
            if base in ('Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor') and (b.id < a.id if not isk(a) and not isk(b) else isk(a)):
                a, b = b, a
            if base in ('Add', 'Sub', 'BitOr', 'BitXor', 'Shl', 'Shr') and isk(b) and kv(b) == 0 and not wo:
                return a
            if base == 'Mul' and isk(b) and kv(b) == 1 and not wo:
                return a
            if base == 'BitAnd' and isk(b) and kv(b) == 0:
                return b
            if tn == 'bool' and base in ('BitAnd', 'BitOr') and isk(b):
                if base == 'BitAnd':
                    return a if kv(b) else k(0)
                return k(1) if kv(b) else a
            r = mk('bin', base, a, b)
            if wo:
                if base in ('Add', 'Sub') and isk(b) and kv(b) == 0:
                    return tup(a, k(0))
                # no overflow when the intervals say so
                ra, rb = self.interval(st, a, tn), self.interval(st, b, tn)
                lim = int_range(tn)
                o = mk('ovf', base, a, b, tn)
                if ra and rb and lim:
                    c = self.iv_op(base, ra, rb)
                    if c and lim[0] <= c[0] and c[1] <= lim[1]:
                        o = k(0)
                return tup(r, o)
            return r
        return mk('bin', op, a, b)

    @staticmethod
    def iv_op(base, ra, rb):
        if base == 'Add':
            return (ra[0] + rb[0], ra[1] + rb[1])
        if base == 'Sub':
            return (ra[0] - rb[1], ra[1] - rb[0])
        if base == 'Mul':
            p = [x * y for x in ra for y in rb]
            return (min(p), max(p))
        return None

    def interval(self, st, v, tn=None):
        """Interval of an integer term, or None."""
        if isk(v):
            x = kv(v)
            return (x, x) if isinstance(x, int) else None
        d = st.facts.get(v)
        if d and d[0] == '+' and all(isinstance(x, int) for x in d[1]) and d[1]:
            return (min(d[1]), max(d[1]))
        iv = st.iv.get(v)
        r = int_range(tn) if tn else None
        if v.op == 'cast':
            tn2, inner, sn = v.a
            ri = self.interval(st, inner, sn)
            rt = int_range(tn2)
            if ri and rt and rt[0] <= ri[0] and ri[1] <= rt[1]:
                r = ri
            elif rt:
                r = rt
        elif v.op == 'bin' and v.a[0] in ('Add', 'Sub', 'Mul') and tn:
            ra, rb = self.interval(st, v.a[1], tn), self.interval(st, v.a[2], tn)
            if ra and rb:
                c = self.iv_op(v.a[0], ra, rb)
                lim = int_range(tn)
                if c and lim and lim[0] <= c[0] and c[1] <= lim[1]:
                    r = c
        elif v.op == 'bin' and v.a[0] == 'BitAnd' and isk(v.a[2]) and kv(v.a[2]) >= 0:
            r = (0, kv(v.a[2]))
        elif v.op == 'app' and v.a[0] in ('len', 'count'):
            r = (0, (1 << 63) - 1)
        if iv and r:
            return (max(iv[0], r[0]) if iv[0] is not None else r[0], min(iv[1], r[1]) if iv[1] is not None else r[1])
        if iv and iv[0] is not None and iv[1] is not None:
            return iv
        return r

    def cmp(self, st, op, a, b, tn):
        if isk(a) and isk(b):
            try:
                x, y = kv(a), kv(b)
                if x == 'nan' or y == 'nan':
                    return k(op == 'Ne')
                return k(self.CMP[op](x, y))
            except TypeError:
                pass
        isflt = tn in ('f32', 'f64')
        if a is b and not isflt:
            return k(op in ('Eq', 'Le', 'Ge'))
        if op in ('Gt', 'Ge'):
            op = {'Gt': 'Lt', 'Ge': 'Le'}[op]
            a, b = b, a
        if op in ('Eq', 'Ne'):
            if isk(a) or (not isk(b) and b.id < a.id):
                a, b = b, a
            if tn == 'bool' and isk(b):
                r = a if (kv(b) == 1) == (op == 'Eq') else self.unop(st, 'Not', a, 'bool')
                return r
            if isk(b):
                d = self.dom(st, a)
                if d:
                    if d[0] == '+':
                        if kv(b) not in d[1]:
                            return k(op == 'Ne')
                        if len(d[1]) == 1:
                            return k(op == 'Eq')
                    elif kv(b) in d[1]:
                        return k(op == 'Ne')
                if isinstance(kv(b), int) and not isflt:
                    i = self.interval(st, a, tn)
                    if i and (kv(b) < i[0] or kv(b) > i[1]):
                        return k(op == 'Ne')
            r = mk('bin', 'Eq', a, b)
            if op == 'Ne':
                return mk('un', 'Not', r)
            return r
        # Lt / Le
        if not isflt:
            ra, rb = self.interval(st, a, tn), self.interval(st, b, tn)
            if ra and rb:
                if op == 'Lt':
                    if ra[1] < rb[0]:
                        return k(1)
                    if ra[0] >= rb[1]:
                        return k(0)
                else:
                    if ra[1] <= rb[0]:
                        return k(1)
                    if ra[0] > rb[1]:
                        return k(0)
            # a <= b is not (b < a): one canonical atom for both
            if op == 'Le':
                return self.unop(st, 'Not', mk('lt', b, a, tn), 'bool')
            return mk('lt', a, b, tn)
        return mk('flt' if op == 'Lt' else 'fle', a, b, tn)

    # ---- facts
    def dom(self, st, v):
        d = st.facts.get(v)
        if d is None and v in self.domain:
            return ('+', self.domain[v])
        return d

    def known(self, st, v):
        """Constant value of term v under the facts, else None."""
        if isk(v):
            return kv(v)
        d = self.dom(st, v)
        if d and d[0] == '+' and len(d[1]) == 1:
            return next(iter(d[1]))
        if v.op == 'un' and v.a[0] == 'Not':
            x = self.known(st, v.a[1])
            if x is not None:
                return 1 - x
        if v.op == 'bin' and v.a[0] in ('Eq',):
            r = self.cmp(st, 'Eq', v.a[1], v.a[2], None)
            if isk(r):
                return kv(r)
        if v.op == 'lt':
            r = self.cmp(st, 'Lt', v.a[0], v.a[1], v.a[2])
            if isk(r):
                return kv(r)
        if v.op == 'bin' and v.a[0] in ('BitAnd', 'BitOr'):
            x, y = self.known(st, v.a[1]), self.known(st, v.a[2])
            if v.a[0] == 'BitAnd':
                if x == 0 or y == 0:
                    return 0
                if x == 1 and y == 1:
                    return 1
            else:
                if x == 1 or y == 1:
                    return 1
                if x == 0 and y == 0:
                    return 0
        return None

    def restrict(self, st, v, vals, pos):
        """Intersect v's domain with vals (pos) or its complement. False if empty."""
        if isk(v):
            return (kv(v) in vals) == pos
        d = self.dom(st, v)
        if d is None:
            nd = ('+', vals) if pos else ('-', vals)
        elif d[0] == '+':
            nd = ('+', d[1] & vals if pos else d[1] - vals)
        else:
            nd = ('+', vals - d[1]) if pos else ('-', d[1] | vals)
        if nd[0] == '+' and not nd[1]:
            return False
        iv = st.iv.get(v)
        if iv and nd[0] == '+':
            keep = frozenset(x for x in nd[1] if not isinstance(x, int) or ((iv[0] is None or x >= iv[0]) and (iv[1] is None or x <= iv[1])))
            if not keep:
                return False
            nd = ('+', keep)
        st.facts[v] = nd
        return True

    def bound(self, st, v, lo, hi, tn):
        if isk(v):
            x = kv(v)
            return (lo is None or x >= lo) and (hi is None or x <= hi)
        cur = st.iv.get(v)
        if cur is None:
            r = int_range(tn) if tn else None
            cur = r or (None, None)
        a = cur[0] if lo is None else (lo if cur[0] is None else max(lo, cur[0]))
        b = cur[1] if hi is None else (hi if cur[1] is None else min(hi, cur[1]))
        if a is not None and b is not None and a > b:
            return False
        st.iv[v] = (a, b)
        d = st.facts.get(v)
        if d and d[0] == '+':
            keep = frozenset(x for x in d[1] if not isinstance(x, int) or ((a is None or x >= a) and (b is None or x <= b)))
            if not keep:
                return False
            st.facts[v] = ('+', keep)
        if a is not None and a == b and tn not in ('f32', 'f64'):
            return self.restrict(st, v, frozenset((a,)), True)
        # through value-preserving casts
        if v.op == 'cast' and tn:
            inner, sn = v.a[1], v.a[2]
            ri, rt = int_range(sn), int_range(v.a[0])
            if ri and rt and rt[0] <= ri[0] and ri[1] <= rt[1]:
                return self.bound(st, inner, lo, hi, sn)
        return True

    def assume(self, st, v, val):
        """Assume boolean term v == val (0/1); False if contradictory."""
        kn = self.known(st, v)
        if kn is not None:
            return int(kn) == int(val)
        if v.op == 'un' and v.a[0] == 'Not':
            return self.assume(st, v.a[1], 1 - val)
        if v.op == 'bin' and v.a[0] == 'Eq':
            a, b = v.a[1], v.a[2]
            if isk(b):
                if not self.restrict(st, a, frozenset((kv(b),)), bool(val)):
                    return False
                if isinstance(kv(b), int):
                    if val:
                        if not self.bound(st, a, kv(b), kv(b), None):
                            return False
                    else:
                        iv = st.iv.get(a)
                        if iv and iv[0] is not None and iv[0] == kv(b):
                            if not self.bound(st, a, iv[0] + 1, None, None):
                                return False
                        elif iv and iv[1] is not None and iv[1] == kv(b):
                            if not self.bound(st, a, None, iv[1] - 1, None):
                                return False
                return True
            st.facts[v] = ('+', frozenset((val,)))
            return True
        if v.op == 'lt':
            a, b, tn = v.a
            if val:
                ra, rb = self.interval(st, a, tn), self.interval(st, b, tn)
                if rb and not self.bound(st, a, None, rb[1] - 1, tn):
                    return False
                if ra and not self.bound(st, b, ra[0] + 1, None, tn):
                    return False
            else:  # a >= b
                ra, rb = self.interval(st, a, tn), self.interval(st, b, tn)
                if rb and not self.bound(st, a, rb[0], None, tn):
                    return False
                if ra and not self.bound(st, b, None, ra[1], tn):
                    return False
            if not isk(a) and not isk(b):
                st.facts[v] = ('+', frozenset((val,)))
            return True
        if v.op == 'bin' and v.a[0] == 'BitAnd' and val:
            return self.assume(st, v.a[1], 1) and self.assume(st, v.a[2], 1)
        if v.op == 'bin' and v.a[0] == 'BitOr' and not val:
            return self.assume(st, v.a[1], 0) and self.assume(st, v.a[2], 0)
        return self.restrict(st, v, frozenset((val,)), True)

    def fork_bool(self, st, v):
        """[(state, 0/1)]"""
        kn = self.known(st, v)
        if kn is not None:
            return [(st, int(kn))]
        out = []
        for val in (0, 1):
            s2 = st.copy()
            if self.assume(s2, v, val):
                out.append((s2, val))
        return out

    # ---- canonical (reference-free) form of a value
    def canon(self, st, v, isref=False, depth=0):
        if depth > 8:
            return v
        if v.op == 'ref':
            return self.canon(st, self.read(st, v.a[0], v.a[1]), False, depth + 1)
        if v.op == 'agg':
            fs = tuple(self.canon(st, x, False, depth + 1) if isinstance(x, T) else x for x in v.a[2:])
            return mk('agg', v.a[0], v.a[1], *fs)
        if v.op == 'upd':
            return mk('upd', self.canon(st, v.a[0], False, depth + 1),
                      tuple((e, self.canon(st, x, False, depth + 1)) for e, x in v.a[1]))
        if isref and v in st.mem:
            m = st.mem[v]
            if m is not v:
                return self.canon(st, m, False, depth + 1)
        return v

    # ---- events
    def event(self, st, label, *args):
        st.trace = st.trace + (mk('ev', label, *args),)

    # ---- calls
    def is_mutref(self, ty):
        t = self.p.types[ty]
        return t['k'] in ('ref', 'ptr') and t.get('m')

    def is_ref(self, ty):
        return self.p.types[ty]['k'] in ('ref', 'ptr')

    def call_value(self, st, fr, b, f, fty, args, argtys):
        """Calls a closure / fn value with untupled args."""
        while f.op == 'ref':
            f2 = self.read(st, f.a[0], f.a[1])
            if f2.op == 'agg' and f2.a[0].startswith('closure:'):
                break
            f = f2
        t = None
        clos = f
        loc = None
        if f.op == 'ref':
            clos = self.read(st, f.a[0], f.a[1])
            loc = f
        if clos.op == 'agg' and clos.a[0].startswith('closure:'):
            t = self.p.types[int(clos.a[0][8:])]
        elif clos.op == 'fn':
            c = self.p.types[clos.a[0]]['c']
            return self.call(st, fr, b, c, args, argtys, None)
        elif fty is not None:
            tt = self.p.types[fty]
            while tt['k'] in ('ref', 'ptr'):
                tt = self.p.types[tt['t']]
            if tt['k'] == 'closure':
                t = tt
            elif tt['k'] == 'fndef':
                return self.call(st, fr, b, tt['c'], args, argtys, None)
        if t is None or not t.get('key') or t['key'] not in self.p.bodies:
            return self.opaque_call(st, fr, b, {'n': 'call:' + show(clos)[:60], 'a': []}, args, argtys, None)
        body = self.p.bodies[t['key']]
        selfty = self.p.types[body.locals[1]]
        if selfty['k'] in ('ref', 'ptr'):
            if loc is None:
                if clos.op == 'agg':
                    base = ('L', fr.depth, 'clos%d' % self.site(fr, b))
                    st.mem[base] = clos
                    loc = mk('ref', base, ())
                else:
                    loc = clos
            a0 = loc
        else:
            a0 = clos
        return self.inline(st, fr, b, body, [a0] + list(args))

    def untuple(self, st, v, n=None):
        while v.op == 'ref':
            v = self.read(st, v.a[0], v.a[1])
        if v.op == 'agg' and v.a[0] == 'tuple':
            return list(v.a[2:])
        return [mk('proj', v, None, i) for i in range(n or 1)]

    FNTRAITS = ('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')

    def call(self, st, fr, b, c, args, argtys, destty, tr=None):
        """[(state, value)] for calling callee description c."""
        self.callsites += 1
        if 'ctor' in c:
            return [(st, agg(c['ctor'][0], c['ctor'][1], *args))]
        n = c['n']
        r = c.get('r', n)
        if n in self.FNTRAITS:
            fty = c['a'][0] if c['a'] else None
            tupty = c['a'][1] if len(c['a']) > 1 else None
            nargs = len(self.p.types[tupty].get('a', ())) if tupty is not None else 1
            atys = self.p.types[tupty].get('a', []) if tupty is not None else []
            return self.call_value(st, fr, b, args[0], fty, self.untuple(st, args[1], nargs), atys)
        lab = self.watch_label(c, n, r)
        if n in self.opaque or r in self.opaque:
            return self.opaque_call(st, fr, b, c, args, argtys, destty, lab)
        m = self.models.get(r) or self.models.get(n)
        if m is not None:
            if lab:
                self.record(st, lab, args, argtys)
            res = m(self, st, fr, b, c, args, argtys, destty)
            if res is not None:
                return [x for x in res if NEVER not in x[0].facts]
        key = c.get('key')
        if key and key in self.p.bodies and lab is None:
            body = self.p.bodies[key]
            if self.stack.count(key) > self.rec_limit:
                self.event(st, 'recursion', k(r))
                if self.rec_hook is not None:
                    return self.rec_hook(self, st, fr, b, c, args, argtys, destty)
                return self.opaque_call(st, fr, b, c, args, argtys, destty)
            if c.get('rk') == 'ClosureOnce' or c.get('rk') == 'FnPtr':
                return self.call_value(st, fr, b, args[0], None, self.untuple(st, args[1]), [])
            if len(self.stack) < self.stack_limit:
                return self.inline(st, fr, b, body, args)
        elif key and key in self.p.bodies and lab is not None and lab.startswith('+'):
            # watched and analysed
            self.record(st, lab[1:], args, argtys)
            if self.stack.count(key) <= self.rec_limit:
                return self.inline(st, fr, b, self.p.bodies[key], args)
        return self.opaque_call(st, fr, b, c, args, argtys, destty, lab)

    def watch_label(self, c, n, r):
        w = self.watch
        if callable(w):
            return w(n, r, c)
        return w.get(r) or w.get(n)

    def record(self, st, lab, args, argtys):
        ev = [self.canon(st, a, i < len(argtys) and self.is_ref(argtys[i])) for i, a in enumerate(args)]
        self.event(st, lab, *ev)

    def opaque_call(self, st, fr, b, c, args, argtys, destty, lab=None):
        n = c.get('r') or c['n']
        if (c['n'] in self.typed or n in self.typed) and c['a']:
            i = self.typed.get(n, self.typed.get(c['n']))
            if i < len(c['a']):
                n = '%s::<%s>' % (n, self.p.ts(c['a'][i]))
        self.opaque_called[n] = self.opaque_called.get(n, 0) + 1
        cargs = [self.canon(st, a, i < len(argtys) and self.is_ref(argtys[i])) for i, a in enumerate(args)]
        if lab:
            self.event(st, lab, *cargs)
        impure = any(i < len(argtys) and self.is_mutref(argtys[i]) for i in range(len(args)))
        if n in self.pure:
            impure = False
        site = self.site(fr, b) if impure else None
        # closures passed to foreign code may be run any number of times
        sts = [st]
        for i, a in enumerate(args):
            cl = a
            while cl.op == 'ref':
                cl = self.read(st, cl.a[0], cl.a[1])
            if cl.op == 'agg' and cl.a[0].startswith('closure:'):
                t = self.p.types[int(cl.a[0][8:])]
                body = self.p.bodies.get(t.get('key'))
                if body is not None and body.key not in self.stack:
                    sts2 = []
                    for s in sts:
                        sts2 += self.hof(s, fr, b, a, body, n, cargs)
                    sts = sts2
        out = []
        for s in sts:
            res = mk('app', n, site, *cargs)
            if self.oracle is not None:
                o = self.oracle(n, cargs, res)
                if o is not None:
                    res = o
            for i, a in enumerate(args):
                if i < len(argtys) and self.is_mutref(argtys[i]) and not self.stateless(a):
                    base, path = self.pointee(a)
                    if isinstance(base, T) and base.op in ('k', 'agg'):
                        continue
                    v = self.read(s, base, path)
                    if v.op == 'agg':
                        self.write_lent(s, v, n, self.site(fr, b), i)
                    o = mk('out', n, self.site(fr, b), i)
                    self.before.setdefault(o, set()).add(v)
                    self.write(s, base, path, o)
                elif a.op == 'agg':
                    self.write_lent(s, a, n, self.site(fr, b), i)
            out.append((s, res))
        return out

    def write_lent(self, s, a, n, site, i):
        for j, r in enumerate(self.lent(a)):
            base, path = self.pointee(r)
            if not (isinstance(base, T) and base.op in ('k', 'agg')):
                self.write(s, base, path, mk('out', n, site, i, j))

    def lent(self, a):
        """The mutable references inside an aggregate"""
        adt = self.p.adts.get(a.a[0])
        if adt is None or not isinstance(a.a[1], int) or a.a[1] >= len(adt['v']):
            return []
        out = []
        for v, f in zip(a.a[2:], adt['v'][a.a[1]]['f']):
            if v.op == 'ref' and self.is_mutref(f[1]) and not self.stateless(v):
                out.append(v)
            elif v.op == 'agg':
                out += self.lent(v)
        return out

    def hof(self, st, fr, b, f, body, n, cargs):
        """Foreign higher-order call: the closure may run 0..n times."""
        nargs = body.argc - 1
        sid = self.site(fr, b)
        fargs = [mk('hofarg', n, sid, i, *cargs) for i in range(nargs)]
        entry = st

        def step(s):
            return [(s2, None) for s2, v in self.call_value(s, fr, b, f, None, fargs, [])]
        return [s for s, _ in self.loop_generic(st, fr, b, step)]

    def loop_generic(self, st, fr, b, step, yields=None):
        """0..n executions of step(state)->[(state,value)]; returns [(state, yields)]."""
        entry_trace = st.trace
        cur = st.copy()
        cur.trace = ()
        sid = self.site(fr, b)
        for it in range(8):
            start = cur.copy()
            res = step(cur.copy())
            j = start
            for s2, v in res:
                s3 = s2.copy()
                s3.trace = ()
                j = self.join(j, s3, sid)
            if self.same(j, cur):
                break
            cur = j
        else:
            raise Limit('hof loop')
        bodies = set()
        ys = []
        self.record_phis(entry=st, cur=cur, outs=[s2 for s2, _ in res])
        for s2, v in res:
            bodies.add((self.newfacts(cur, s2), s2.trace))
            ys.append((self.newfacts(cur, s2), v))
        cur = cur.copy()
        cur.trace = entry_trace
        if any(t for _, t in bodies):
            cur.trace = entry_trace + (('loop', frozenset(bodies)),)
        return [(cur, ys)]

    def record_phis(self, entry, cur, outs):
        """For each value that became a phi at a loop head: what enters and what the loop feeds back."""
        for kx, v in cur.mem.items():
            self.record_phi(entry, outs, kx, v, lambda m: m)

    def record_phi(self, entry, outs, kx, v, get):
        if v.op == 'phi':
            e = entry.mem.get(kx)
            if e is None:
                e = kx if isinstance(kx, T) else None
            e = get(e) if e is not None else None
            if e is v:
                return
            ys = set()
            for s in outs:
                m = s.mem.get(kx)
                m = get(m) if m is not None else None
                ys.add((self.newfacts(entry, s), m))
            self.phi_in[v] = (e, frozenset(ys))
        elif v.op == 'agg':
            for i, x in enumerate(v.a[2:]):
                if isinstance(x, T):
                    def g(m, get=get, i=i):
                        m = get(m)
                        if m is not None and m.op == 'agg' and i + 2 < len(m.a):
                            return m.a[i + 2]
                        return None
                    self.record_phi(entry, outs, kx, x, g)
        elif v.op == 'upd':
            for el, x in v.a[1]:
                def g2(m, get=get, el=el):
                    m = get(m)
                    return self.get1(State(), m, el) if m is not None else None
                self.record_phi(entry, outs, kx, x, g2)

    def newfacts(self, base, s):
        out = set()
        for t, d in s.facts.items():
            if base.facts.get(t) != d:
                out.add((t, d))
        for t, d in s.iv.items():
            if base.iv.get(t) != d:
                out.add((t, ('iv', d)))
        return frozenset(out)

    def inline(self, st, fr, b, body, args):
        prep(body)
        self.inlined.add(body.name)
        depth = fr.depth + 1 if isinstance(fr.depth, int) else (fr.depth, 1)
        site = self.site(fr, b)
        for i, a in enumerate(args):
            st.mem[('L', depth, i + 1)] = a
        self.stack.append(body.key)
        try:
            rets = self.exec_body(body, st, depth, site)
        finally:
            self.stack.pop()
        out = []
        for s in rets:
            v = s.mem.get(('L', depth, 0), UNIT)
            for kx in [kx for kx in s.mem if not isinstance(kx, T) and kx[1] == depth]:
                del s.mem[kx]
            out.append((s, v))
        if len(out) > 1 and not self.exact_paths:
            # merge results equal in memory, trace and value
            g = {}
            for s, v in out:
                kk = (s.trace, frozenset(s.mem.items()), v)
                if kk in g:
                    self.join_facts(g[kk][0], s)
                else:
                    g[kk] = (s, v)
            out = list(g.values())
        return out

    # ---- joins
    def join_facts(self, a, b):
        """a := a join b (facts only)."""
        f = {}
        for t, d in a.facts.items():
            e = b.facts.get(t)
            if e is None:
                iv = b.iv.get(t)
                continue
            j = dom_join(d, e)
            if j is not None:
                if j[0] == '+' and len(j[1]) > 64:
                    continue
                if j[0] == '+' and t in self.domain and j[1] == self.domain[t]:
                    continue
                if j[0] == '+' and j[1] == BOOL:
                    continue
                f[t] = j
        iv = {}
        for t, d in a.iv.items():
            e = b.iv.get(t)
            if e is None:
                continue
            lo = None if d[0] is None or e[0] is None else min(d[0], e[0])
            hi = None if d[1] is None or e[1] is None else max(d[1], e[1])
            if lo is not None or hi is not None:
                iv[t] = (lo, hi)
        a.facts = f
        a.iv = iv

    def join_val(self, x, y, tag):
        if x is y:
            return x
        if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a) == len(y.a):
            return mk('agg', x.a[0], x.a[1], *[self.join_val(p, q, tag + (i,)) for i, (p, q) in enumerate(zip(x.a[2:], y.a[2:]))])
        if (x.op == 'upd' and (y is x.a[0] or (y.op == 'upd' and y.a[0] is x.a[0]))) or (y.op == 'upd' and x is y.a[0]):
            base = x if y.op == 'upd' and x is y.a[0] else x.a[0]
            els = [e for z in (x, y) if z.op == 'upd' and z is not base for e, _ in z.a[1]]
            els = list(dict.fromkeys(els))
            st0 = State()
            items = []
            for e in els:
                p, q = self.get1(st0, x, e), self.get1(st0, y, e)
                items.append((e, self.join_val(p, q, tag + (repr(e),))))
            return mk('upd', base, tuple(sorted(items, key=lambda z: repr(z[0]))))
        return mk('phi', tag)

    def join(self, a, b, site):
        s = a.copy()
        for kx in list(s.mem):
            v2 = b.mem.get(kx)
            if v2 is None:
                if isinstance(kx, T):
                    v2 = kx
                else:
                    del s.mem[kx]
                    continue
            if s.mem[kx] is not v2:
                s.mem[kx] = self.join_val(s.mem[kx], v2, (site, kx if not isinstance(kx, T) else kx.id))
        for kx, v in b.mem.items():
            if isinstance(kx, T) and kx not in s.mem:
                s.mem[kx] = self.join_val(kx, v, (site, kx.id))
        self.join_facts(s, b)
        return s

    def char_gap(self, a, b):
        """Whether joining would forget which characters were excluded: the interval of a character-sized value would get a hole."""
        if self.exact_paths:
            return a.iv != b.iv or a.facts != b.facts
        for t, d in a.iv.items():
            e = b.iv.get(t)
            if e is None or e == d or t.op != 'elem' or None in d or None in e or max(d[1], e[1]) > 0x10ffff or min(d[0], e[0]) < 0:
                continue
            if d[1] + 1 < e[0] or e[1] + 1 < d[0]:
                return True
        return False

    def same(self, a, b):
        return a.mem == b.mem and a.facts == b.facts and a.iv == b.iv

    # ---- control
    def gc(self, fr, b, st):
        """Drop locals of the frame that are dead at block b and unreachable by reference."""
        live = fr.body.live.get(b)
        if live is None:
            return
        dead = []
        roots = []
        for kx, v in st.mem.items():
            if not isinstance(kx, T) and kx[1] == fr.depth and kx[2] not in live:
                dead.append(kx)
            else:
                roots.append(v)
        if not dead:
            return
        reach = set()
        work = []
        for v in roots:
            work.extend(refs_in(v))
        while work:
            x = work.pop()
            if x in reach:
                continue
            reach.add(x)
            v = st.mem.get(x)
            if v is not None:
                work.extend(refs_in(v))
        for kx in dead:
            if kx not in reach:
                del st.mem[kx]

    def merge(self, fr, b, states):
        if len(states) == 1:
            return states
        g = {}
        for s in states:
            kk = (s.trace, frozenset(s.mem.items()))
            for o in g.setdefault(kk, []):
                if not self.char_gap(o, s):
                    self.join_facts(o, s)
                    break
            else:
                g[kk].append(s)
        out = [s for l in g.values() for s in l]
        if len(out) > self.max_states:
            self.forced_merges += 1
            g = {}
            sid = self.site(fr, b)
            for s in out:
                kk = s.trace
                if kk in g:
                    g[kk] = self.join(g[kk], s, sid)
                else:
                    g[kk] = s
            out = list(g.values())
            if len(out) > 4 * self.max_states:
                raise Limit('%d states at %s bb%d' % (len(out), fr.body.key, b))
        return out

    def exec_body(self, body, st, depth, site):
        prep(body)
        fr = Frame(body, depth, site)
        rets, ex = self.region(fr, {0: [st]}, None, None)
        return rets

    def region(self, fr, pending, within, head):
        """Returns (returns, exits) ; when head is given, exits[head] are back edges."""
        body = fr.body
        idx = body.idx
        heap = [(idx[b], b) for b in pending]
        heapq.heapify(heap)
        inheap = set(pending)
        exits = {}
        rets = []
        first = True

        def route(blk, s):
            if blk == RET:
                rets.append(s)
                return
            if blk == head or (within is not None and blk not in within):
                exits.setdefault(blk, []).append(s)
                return
            self.gc(fr, blk, s)
            pending.setdefault(blk, []).append(s)
            if blk not in inheap:
                heapq.heappush(heap, (idx[blk], blk))
                inheap.add(blk)
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            states = self.merge(fr, b, pending.pop(b))
            if b in body.loops and b != head:
                for s in states:
                    lr, lx = self.run_loop(fr, b, s)
                    for s2 in lr:
                        route(RET, s2)
                    for blk, ss in lx.items():
                        for s2 in ss:
                            route(blk, s2)
            else:
                for s in states:
                    for blk, s2 in self.block(fr, b, s):
                        route(blk, s2)
        return rets, exits

    def unrolled(self, fr, head, entry, lset):
        """Runs a loop turn by turn, if it ends by itself after a few of them."""
        rets, exits = [], {}
        states = [entry.copy()]
        for _ in range(self.unroll):
            r, x = self.region(fr, {head: states}, lset, head)
            states = x.pop(head, [])
            rets += r
            for b, ss in x.items():
                exits.setdefault(b, []).extend(ss)
            if not states:
                return rets, exits
        return None

    def run_loop(self, fr, head, entry):
        body = fr.body
        lset = body.loops[head]
        if self.unroll:
            got = self.unrolled(fr, head, entry, lset)
            if got is not None:
                return got
        etrace = entry.trace
        cur = entry.copy()
        cur.trace = ()
        sid = self.site(fr, head)
        for it in range(12):
            rets, exits = self.region(fr, {head: [cur.copy()]}, lset, head)
            back = exits.pop(head, [])
            j = cur.copy()
            for s in back:
                s3 = s.copy()
                s3.trace = ()
                self.gc(fr, head, s3)
                j = self.join(j, s3, sid)
            if self.same(j, cur):
                break
            cur = j
        else:
            raise Limit('loop in %s' % body.key)
        bodies = set()
        for s in back:
            bodies.add((self.newfacts(cur, s), s.trace))
        self.record_phis(entry, cur, back)
        if any(t for _, t in bodies):
            pre = etrace + (('loop', frozenset(bodies)),)
        else:
            pre = etrace
        for s in rets:
            s.trace = pre + s.trace
        for ss in exits.values():
            for s in ss:
                s.trace = pre + s.trace
        return rets, exits

    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Limit('step limit in %s' % fr.body.key)
        blk = fr.body.blocks[b]
        for s in blk['s']:
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2], s[1])
                base, path, ty = self.loc(st, fr, s[1])
                self.write(st, base, path, v)
            elif s[0] == 'setd':
                base, path, ty = self.loc(st, fr, s[1])
                t = self.p.types[ty]
                self.write(st, base, path, agg(t.get('n', '?'), s[2]))
        t = blk['t']
        kk = t[0]
        if kk == 'goto':
            return [(t[1], st)]
        if kk == 'ret':
            return [(RET, st)]
        if kk == 'drop':
            return [(t[2], st)]
        if kk == 'unreachable' or kk == 'unwind':
            return []
        if kk == 'switch':
            return self.switch(fr, b, st, t)
        if kk == 'assert':
            v = self.operand(st, fr, t[1])
            exp = 1 if t[2] else 0
            kn = self.known(st, v)
            if self.on_assert is not None and (kn is None or int(kn) != exp):
                self.on_assert(self, fr, b, st, t, v)
            if not self.assume(st, v, exp):
                return []
            return [(t[4], st)]
        if kk == 'call':
            fop = t[1]
            args = [self.operand(st, fr, o) for o in t[2]]
            argtys = [self.op_type(fr, o) for o in t[2]]
            destty = self.place_type(fr, t[3])
            if fop[0] == 'const':
                c = self.p.types[fop[1]['t']].get('c')
                if c is None:
                    c = {'n': 'unknown', 'a': []}
                if t[4] is None:
                    self.panics.append((fr.body, b, c, dict(st.facts), dict(st.iv), st.trace))
                    return []
                self.curfr = fr
                res = self.call(st, fr, b, c, args, argtys, destty)
            else:
                f = self.operand(st, fr, fop)
                res = self.call_value(st, fr, b, f, self.op_type(fr, fop), args, argtys)
            out = []
            for s2, v in res:
                base, path, ty = self.loc(s2, fr, t[3])
                self.write(s2, base, path, v)
                if t[4] is not None:
                    out.append((t[4], s2))
            return out
        raise Broken('terminator %r' % (t[:2],))

    def switch(self, fr, b, st, t):
        v = self.operand(st, fr, t[1])
        tn = self.p.ts(self.op_type(fr, t[1]))
        targets = t[2]
        kn = self.known(st, v)
        if kn is not None and isinstance(kn, int):
            for val, blk in targets:
                if val == kn:
                    return [(blk, st)]
            return [(t[3], st)]
        if kn is not None:
            kn = None
        out = []
        if tn == 'bool':
            vals = [x for x, _ in targets]
            other = [x for x in (0, 1) if x not in vals]
            for val, blk in list(targets) + [(x, t[3]) for x in other]:
                s2 = st.copy()
                if self.assume(s2, v, val):
                    out.append((blk, s2))
            return out
        byblk = {}
        for val, blk in targets:
            byblk.setdefault(blk, []).append(val)
        used = frozenset(x for x, _ in targets)
        for blk, vals in byblk.items():
            if blk == t[3]:
                continue
            for val in vals if len(vals) <= 40 else ():
                s2 = st.copy()
                if self.restrict(s2, v, frozenset((val,)), True):
                    iv = s2.iv.get(v)
                    out.append((blk, s2))
        s2 = st.copy()
        rest = frozenset(x for x in used if any(bb != t[3] for xx, bb in targets if xx == x))
        iv = st.iv.get(v)
        if iv and iv[0] is not None and iv[1] is not None and iv[1] - iv[0] < 64:
            poss = frozenset(range(iv[0], iv[1] + 1)) - rest
            if poss and self.restrict(s2, v, poss, True):
                out.append((t[3], s2))
        elif self.restrict(s2, v, rest, False):
            out.append((t[3], s2))
        return out

    # ---- entry
    def run(self, name, args=None, setup=None):
        body = self.p.body_of(name) if name not in self.p.bodies else self.p.bodies[name]
        prep(body)
        st = State()
        vals = []
        for i in range(body.argc):
            nm = body.names.get(i + 1, 'a%d' % i)
            v = mk('arg', i, nm)
            if args and args.get(i) is not None:
                v = args[i]
            elif args and args.get(nm) is not None:
                v = args[nm]
            vals.append(v)
            st.mem[('L', 0, i + 1)] = v
        self.args = vals
        if setup:
            setup(st, vals)
        self.stack = [body.key]
        self.run_body = body
        self.inlined.add(body.name)
        rets = self.exec_body(body, st, 0, 0)
        out = []
        for s in rets:
            v = s.mem.get(('L', 0, 0), UNIT)
            out.append(Final(s, self.canon(s, v)))
        return self.norm_loops(out)

    def norm_loops(self, out):
        """let mut i = 0; while i < c.len() { .. c[i] ..; i += 1 } visits the elements of c: c[i] becomes elem(c)."""
        bound = {}
        def scan(tr):
            for e in tr:
                if isinstance(e, tuple) and e and e[0] == 'loop':
                    for fc, b in e[1]:
                        for t, d in fc:
                            if t.op == 'lt' and t.a[0].op == 'phi' and d == ('+', frozenset([1])) and t.a[1].op == 'app' and t.a[1].a[0] == 'len':
                                bound[t.a[0]] = t
                        scan(b)
        for f in out:
            scan(f.trace)
        counters = {}
        for ph, t in bound.items():
            e, ys = self.phi_in.get(ph, (None, ()))
            feeds = {v for _, v in ys}
            if e is k(0) and len(feeds) == 1 and next(iter(feeds)) is mk('bin', 'Add', ph, k(1)):
                counters[ph] = t
        if not counters:
            return out
        def f(y):
            if y.op == 'idx' and y.a[1] in counters and counters[y.a[1]].a[1].a[2] is y.a[0]:
                return mk('elem', y.a[0], 'while', 0)
            return None
        memo = {}
        def tr(x):
            if isinstance(x, T):
                return subst(x, f, memo)
            if isinstance(x, frozenset):
                return frozenset(tr(y) for y in x)
            if isinstance(x, tuple):
                if x and isinstance(x[0], T) and len(x) == 2 and isinstance(x[1], tuple) and x[1] and x[1][0] in ('+', '-'):
                    return (tr(x[0]), x[1])
                return tuple(tr(y) for y in x)
            return x
        def drop(tr_):
            o = []
            for e in tr_:
                if isinstance(e, tuple) and e and e[0] == 'loop':
                    e = ('loop', frozenset((frozenset((t, d) for t, d in fc if not (t.op == 'lt' and t.a[0] in counters)), drop(b)) for fc, b in e[1]))
                o.append(e)
            return tuple(o)
        for t, n in list(self.arrlen.items()):
            self.arrlen[tr(t)] = n
        for fn in out:
            fn.st.trace = tr(drop(fn.st.trace))
            fn.ret = tr(fn.ret)
            for t in counters.values():
                d = fn.st.facts.pop(t, None)
                if self.track_exhaust and d == ('+', frozenset([0])):
                    fn.st.facts[mk('exhausted', t.a[1].a[2])] = ('+', frozenset([1]))
        self.phi_in = {ph: (tr(e) if e is not None else None, frozenset((frozenset((tr(t), d) for t, d in fc if not (t.op == 'lt' and t.a[0] in counters)), tr(v) if v is not None else None) for fc, v in ys))
                       for ph, (e, ys) in self.phi_in.items()}
        return out
