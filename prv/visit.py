"""The walk over file descriptor protos: which visitor call is made for which element, under which path and name."""
from .terms import *
from .engine import Engine

VISIT = 'prost_reflect::descriptor::build::visit::visit'
VISITOR = 'prost_reflect::descriptor::build::visit::Visitor::'


def lin(t):
    """Linear form {atom: coefficient} over lengths; the constant is under None."""
    if isk(t) and isinstance(kv(t), int):
        return {None: kv(t)}
    if t.op == 'app' and t.a[0] == 'len':
        v = t.a[2]
        while v.op == 'ref' and isinstance(v.a[0], T):
            v = v.a[0]
        if v.op == 'agg' and v.a[0] == 'str':
            d = {}
            for x in v.a[2:]:
                if isk(x):
                    d[None] = d.get(None, 0) + (len(kv(x)) if isinstance(kv(x), str) else 1)
                else:
                    d[x] = d.get(x, 0) + 1
            return d
        if v.op == 'agg' and v.a[0] == 'array':
            return {None: len(v.a) - 2} if len(v.a) > 2 else {}
        return {v: 1}
    if t.op == 'bin' and t.a[0] in ('Add', 'Sub'):
        a, b = lin(t.a[1]), lin(t.a[2])
        if a is None or b is None:
            return None
        d = dict(a)
        for x, c in b.items():
            d[x] = d.get(x, 0) + (c if t.a[0] == 'Add' else -c)
        return {x: c for x, c in d.items() if c}
    if t.op == 'app' and t.a[0].endswith('saturating_sub'):
        a, b = lin(t.a[-2]), lin(t.a[-1])
        if a is None or b is None or set(b) - {None}:
            return None
        n = b.get(None, 0)
        if any(c < 0 for x, c in a.items()):
            return None
        if not a:
            return {}
        # names are not empty, so every atom counts at least one
        if sum(a.values()) < n:
            return {} if set(a) <= {None} else None
        d = dict(a)
        d[None] = d.get(None, 0) - n
        return {x: c for x, c in d.items() if c}
    return None


def strings(E):
    """Exact models of building a dotted name piece by piece."""
    def deref(st, v):
        while v.op == 'ref':
            v = E.read(st, v.a[0], v.a[1])
        return v

    def pieces(v):
        if isk(v) and kv(v) == '':
            return ()
        if v.op == 'agg' and v.a[0] == 'str':
            return v.a[2:]
        return None

    old = {}
    for n in ('push', 'push_str'):
        old[n] = E.models.get('alloc::string::String::' + n)

    def push(E_, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        cur = pieces(E.read(st, base, path))
        if cur is None:
            return old[c['n'].rsplit('::', 1)[1]](E_, st, fr, b, c, args, tys, dt)
        x = E.canon(st, args[1], True)
        if isk(x) and isinstance(kv(x), int):
            x = k(chr(kv(x)))
        xs = x.a[2:] if x.op == 'agg' and x.a[0] == 'str' else (x,)
        E.write(st, base, path, mk('agg', 'str', 0, *(cur + xs)))
        return [(st, UNIT)]
    for n in old:
        E.models['alloc::string::String::' + n] = push

    def trunc(E_, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        cur = pieces(E.read(st, base, path))
        l = lin(E.canon(st, args[1]))
        if cur is None or l is None:
            return None
        for i in range(len(cur) + 1):
            if lin(mk('app', 'len', None, mk('agg', 'str', 0, *cur[:i]))) == l:
                E.write(st, base, path, mk('agg', 'str', 0, *cur[:i]) if i else k(''))
                return [(st, UNIT)]
        return None
    E.models['alloc::string::String::truncate'] = trunc

    def ends(E_, st, fr, b, c, args, tys, dt):
        cur, x = pieces(deref(st, args[0])), E.canon(st, args[1], True)
        if cur and (cur[-1] is x):
            return [(st, k(1))]
        return None
    E.models['<str>::ends_with'] = ends

    emp = {}
    def empty(E_, st, fr, b, c, args, tys, dt):
        cur = pieces(deref(st, args[0]))
        if cur is not None:
            return [(st, k(int(not cur)))]
        return emp[c['n']](E_, st, fr, b, c, args, tys, dt)
    for n in ('<str>::is_empty', 'alloc::string::String::is_empty'):
        emp[n] = E.models[n]
        E.models[n] = empty

    def pop(E_, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        cur = E.read(st, base, path)
        if cur.op == 'agg' and cur.a[0] == 'array':
            from .engine import some, NONE_OPT
            if len(cur.a) == 2:
                return [(st, NONE_OPT)]
            E.write(st, base, path, mk('agg', *cur.a[:-1]))
            return [(st, some(cur.a[-1]))]
        if cur.op == 'app' and cur.a[0] == 'push':
            from .engine import some
            E.write(st, base, path, cur.a[3])
            return [(st, some(cur.a[2]))]
        return None
    E.models['alloc::vec::Vec::pop'] = pop


def concrete(E, turns=8):
    """Loops over arrays whose elements are known run turn by turn."""
    E.unroll = turns

    def known(st, v):
        while v.op == 'ref':
            v = E.read(st, v.a[0], v.a[1])
        return v if v.op == 'agg' and v.a[0] in ('array', 'citer') else None

    def over(names, make):
        for n in names:
            old = E.models.get(n)

            def f(E_, st, fr, b, c, args, tys, dt, old=old):
                v = known(st, args[0])
                r = make(st, v, args) if v is not None else None
                if r is not None:
                    return [(st, r)]
                return old(E_, st, fr, b, c, args, tys, dt) if old else None
            E.models[n] = f
    over(['core::iter::traits::collect::IntoIterator::into_iter', '<[T]>::iter', 'core::slice::<impl [T]>::iter'],
         lambda st, v, args: mk('agg', 'citer', 0, *v.a[2:]))

    def chunks(st, v, args):
        if not isk(args[1]) or v.a[0] != 'array':
            return None
        n = kv(args[1])
        xs = v.a[2:]
        return mk('agg', 'citer', 0, *[mk('agg', 'array', 0, *xs[i:i + n]) for i in range(0, len(xs), n)])
    over(['<[T]>::chunks', '<[T]>::chunks_exact'], chunks)

    nx = 'core::iter::traits::iterator::Iterator::next'
    old = E.models[nx]

    def nxt(E_, st, fr, b, c, args, tys, dt):
        from .engine import some, NONE_OPT
        base, path = E.pointee(args[0])
        v = E.read(st, base, path)
        if v.op == 'agg' and v.a[0] == 'citer':
            if len(v.a) == 2:
                return [(st, NONE_OPT)]
            E.write(st, base, path, mk('agg', 'citer', 0, *v.a[3:]))
            return [(st, some(v.a[2]))]
        return old(E_, st, fr, b, c, args, tys, dt)
    E.models[nx] = nxt

    def ranged(st, v, args):
        r = args[1]
        if v.a[0] != 'array' or r.op != 'agg' or 'range::Range' not in r.a[0]:
            return None
        ns = [lin(x) for x in r.a[2:]]
        if any(x is None or set(x) - {None} for x in ns):
            return None
        ns = [x.get(None, 0) for x in ns]
        n = len(v.a) - 2
        kind = r.a[0].rsplit('::', 1)[-1]
        lo, hi = {'Range': lambda: (ns[0], ns[1]), 'RangeFrom': lambda: (ns[0], n), 'RangeTo': lambda: (0, ns[0]),
                  'RangeFull': lambda: (0, n), 'RangeToInclusive': lambda: (0, ns[0] + 1)}.get(kind, lambda: (-1, 0))()
        if not 0 <= lo <= hi <= n:
            return None
        return mk('agg', 'array', 0, *v.a[2 + lo:2 + hi])
    over(['core::ops::index::Index::index'], ranged)

    def last(st, v, args):
        from .engine import some, NONE_OPT
        return some(v.a[-1]) if len(v.a) > 2 else NONE_OPT
    over(['<[T]>::last'], last)


def inductive(E):
    """A recursive call leaves the path and the scope as it found them (shown for the call being analysed)."""
    def keep(v):
        return v.op == 'agg' and v.a[0] in ('str', 'array') or isk(v) and kv(v) == ''

    def hook(E_, st, fr, b, c, args, tys, dt):
        before = []
        for i, a in enumerate(args):
            if i < len(tys) and E.is_mutref(tys[i]) and a.op == 'ref':
                v = E.read(st, *a.a)
                if v.op == 'agg':
                    before.append((a, [(j, x) for j, x in enumerate(v.a[2:]) if keep(x)], v))
        res = E.opaque_call(st, fr, b, c, args, tys, dt)
        for s, _ in res:
            for a, xs, v in before:
                kinds = [x if any(j == i for i, _ in xs) else mk('out', c['n'], E.site(fr, b), j) for j, x in enumerate(v.a[2:])]
                E.write(s, a.a[0], a.a[1], agg(v.a[0], v.a[1], *kinds))
        return res
    E.rec_hook = hook


KINDS = {
    'file': {'message': 'message_type', 'enum': 'enum_type', 'service': 'service', 'extension': 'extension'},
    'message': {'oneof': 'oneof_decl', 'field': 'field', 'message': 'nested_type', 'enum': 'enum_type', 'extension': 'extension'},
    'enum': {'enum_value': 'value'},
    'service': {'method': 'method'},
    'field': {}, 'oneof': {}, 'method': {}, 'enum_value': {}, 'extension': {},
}
PROTO = {'file': 'FileDescriptorProto', 'message': 'DescriptorProto', 'enum': 'EnumDescriptorProto', 'service': 'ServiceDescriptorProto',
         'field': 'FieldDescriptorProto', 'oneof': 'OneofDescriptorProto', 'method': 'MethodDescriptorProto',
         'enum_value': 'EnumValueDescriptorProto', 'extension': 'FieldDescriptorProto'}
TYPES = 'prost_reflect::descriptor::types::'
GLOBAL = ('file', 'message', 'enum', 'service', 'extension')


def schema():
    """Field numbers of descriptor.proto, from protoc."""
    import json, os
    d = json.load(open(os.path.join(os.path.dirname(__file__), '..', 'oracle', 'wkt.json')))
    out = {}
    for f in d['file']:
        if f['name'] == 'google/protobuf/descriptor.proto':
            for m in f['message_type']:
                out[m['name']] = {x['name']: x['number'] for x in m.get('field', [])}
                for q in m.get('nested_type', []):
                    out[q['name']] = {x['name']: x['number'] for x in q.get('field', [])}
    return out


def names(p):
    return [TYPES + PROTO[x] + '::' + n for x in PROTO for n in ('name', 'package') if TYPES + PROTO[x] + '::' + n in p.fn_by_name]


def struct_fields(p, name):
    a = p.adts.get(name)
    return [f[0] for f in a['v'][0]['f']] if a else None


def run(p, ghosts=None):
    E = Engine(p, watch={VISITOR + 'visit_' + x: x for x in KINDS}, opaque=names(p))
    strings(E)
    inductive(E)
    E.rec_limit = 1
    vis = mk('visitor')
    calls = {}
    if ghosts is not None:
        rh = E.rec_hook

        def rec(E_, st, fr, b, c, args, tys, dt):
            res = rh(E_, st, fr, b, c, args, tys, dt)
            out = []
            for s, v in res:
                ctx = [a for i, a in enumerate(args) if i < len(tys) and E.is_mutref(tys[i]) and a.op == 'ref']
                g = []
                for kind in GLOBAL:
                    x = None
                    for a in ctx:
                        x = E.read(s, *a.a)
                        for i in ghosts[kind]:
                            x = E.get1(s, x, ('f', None, i)) if x is not None else None
                    g.append(x)
                s.mem[vis] = agg('ghost', 0, *g)
                out.append((s, v))
            return out
        E.rec_hook = rec
    # the arguments of recursive calls
    rh2 = E.rec_hook

    def rec2(E_, st, fr, b, c, args, tys, dt):
        vals = []
        for i, a in enumerate(args):
            vals.append(E.canon(st, a, i < len(tys) and E.is_ref(tys[i])))
            if a.op == 'ref' and i < len(tys) and E.is_mutref(tys[i]):
                vals[-1] = E.read(st, *a.a)
        E.event(st, 'rec', k(c.get('r') or c['n']), *vals)
        return rh2(E_, st, fr, b, c, args, tys, dt)
    E.rec_hook = rec2

    def method(kind):
        def f(E_, st, fr, b, c, args, tys, dt):
            if ghosts is None or kind not in GLOBAL:
                return [(st, UNIT)]
            g = st.mem.get(vis)
            j = GLOBAL.index(kind)
            cur = E.get1(st, g, ('f', None, j))
            E.event(st, 'ghost', k(kind), cur)
            nxt = E.binop(st, 'Add', cur, k(1), 'u32')
            gs = [E.get1(st, g, ('f', None, i)) for i in range(len(GLOBAL))]
            gs[j] = nxt
            st.mem[vis] = agg('ghost', 0, *gs)
            return [(st, UNIT)]
        return f
    for kind in KINDS:
        E.models[VISITOR + 'visit_' + kind] = method(kind)
    off = mk('offsets')

    def setup(st, vals):
        if ghosts is not None:
            gs = []
            for kind in GLOBAL:
                x = off
                for i in ghosts[kind][1:]:
                    x = E.get1(st, x, ('f', None, i))
                gs.append(x)
            st.mem[vis] = agg('ghost', 0, *gs)
    return E, E.run(VISIT, args={0: off, 1: mk('files'), 2: vis}, setup=setup)


def casts(t):
    while t.op == 'cast' or t.op == 'app' and t.a[0].rsplit('::', 1)[-1] in ('try_from', 'try_into', 'unwrap', 'expect') and len(t.a) > 2:
        t = t.a[1] if t.op == 'cast' else t.a[2]
    return t


class Bisim:
    """Equality of two values that may be loop-carried: equal on entry and fed equally."""
    def __init__(self, phi_in):
        self.phi = phi_in
        self.assumed = set()

    def eq(self, a, b):
        if a is b or (a, b) in self.assumed:
            return True
        if a is None or b is None:
            return False
        if a.op == b.op == 'bin' and a.a[0] == b.a[0]:
            return self.eq(a.a[1], b.a[1]) and self.eq(a.a[2], b.a[2])
        pa, pb = self.resolve(a), self.resolve(b)
        if pa and pb:
            self.assumed.add((a, b))
            if not self.eq(pa[0], pb[0]):
                return False
            fa, fb = {}, {}
            for d, s in ((fa, pa[1]), (fb, pb[1])):
                for facts, m in s:
                    d.setdefault(facts, []).append(m)
            if set(fa) != set(fb):
                return False
            return all(len(fa[x]) == len(fb[x]) == 1 and self.eq(fa[x][0], fb[x][0]) for x in fa)
        return False

    def resolve(self, t):
        if t in self.phi:
            return self.phi[t]
        if t.op == 'proj':
            r = self.resolve(t.a[0])
            if r:
                def g(m):
                    while m is not None and m.op == 'upd':
                        for el, x in m.a[1]:
                            if el == ('f', t.a[1], t.a[2]):
                                return x
                        m = m.a[0]
                    if m is None:
                        return None
                    if m.op == 'agg':
                        return m.a[2 + t.a[2]] if t.a[2] + 2 < len(m.a) else None
                    return mk('proj', m, t.a[1], t.a[2])
                return g(r[0]), frozenset((f, g(m)) for f, m in r[1])
        return None


def root(t, phi, seen=None):
    """The entry value a loop-carried counter starts from."""
    b = Bisim(phi)
    for _ in range(40):
        r = b.resolve(t)
        if r:
            t = r[0]
        elif t.op == 'bin' and t.a[0] == 'Add':
            t = t.a[1]
        else:
            return t
    return t


def projpath(t, top):
    out = []
    while t.op == 'proj':
        out.append(t.a[2])
        t = t.a[0]
    return tuple(reversed(out)) if t is top else None


def analyse(p):
    """(violations {(event, key): text}, number of obligations). Sound for any nesting as the path and the scope are restored
    and each element is visited under the path, scope and parent of the visit that encloses it."""
    bad, n = {}, [0]
    sch = schema()
    E, fs = run(p)
    # which counter numbers which kind
    off = mk('offsets')
    counters = {}

    def scan(tr):
        for ev in tr:
            if isinstance(ev, tuple):
                for _, e in ev[1]:
                    scan(e)
            elif ev.a[0] in GLOBAL:
                i = index_pos(ev.a[0])
                counters.setdefault(ev.a[0], set()).add(projpath(root(ev.a[i + 1], E.phi_in), off))
    for f in fs:
        scan(f.trace)
    ghosts = {}
    for kind in GLOBAL:
        c = counters.get(kind)
        if not c or len(c) != 1 or None in c:
            bad['walk', kind, 'index'] = '%s: visits are not numbered by one counter that starts at the pool offset' % kind
        else:
            ghosts[kind] = list(c)[0]
    if len(set(ghosts.values())) != len(ghosts):
        bad['walk', 'index'] = 'kinds share a counter'
    if bad:
        return bad, 1, None
    # the place of the counters inside the context: where the offsets argument is stored
    ctx = context_field(E, p)
    E, fs = run(p, {x: (ctx,) + ghosts[x] for x in ghosts})
    W = Checker(p, E, bad, n, sch)
    if len(fs) != 1:
        bad['walk', 'paths'] = 'the walk can leave by %d ways' % len(fs)
    for f in fs:
        top = [x for x in f.trace if isinstance(x, tuple)]
        if len(top) != 1 or len(f.trace) != 1:
            bad['walk', 'files'] = 'the walk is not one loop over the files'
        for lp in top:
            W.loop(lp, None)
    return bad, n[0], ghosts


def index_pos(kind):
    # arguments after the visitor: path, [name], file, [parent], index, element
    return {'file': 2, 'message': 5, 'enum': 5, 'extension': 5, 'service': 4, 'field': 5, 'oneof': 5, 'method': 5, 'enum_value': 5}[kind]


def context_field(E, p):
    """Where the walk keeps the counters: the field of its context that has the type of the offsets argument."""
    b = p.body_of(VISIT)
    want = b.locals[1]
    for name, a in p.adts.items():
        if '::build::visit::' in name and a['kind'] == 'struct':
            fs = a['v'][0]['f']
            for i, f in enumerate(fs):
                if f[1] == want:
                    return i
    return None


class Checker:
    def __init__(self, p, E, bad, n, sch):
        self.p, self.E, self.bad, self.n, self.sch = p, E, bad, n, sch

    def say(self, kind, what, text):
        self.bad['walk', kind, what] = '%s: %s' % (kind, text)

    def args(self, ev):
        """Splits the arguments of a visitor event."""
        kind = ev.a[0]
        a = list(ev.a[2:])
        d = {'path': a[0]}
        if kind == 'file':
            d.update(index=a[1], elem=a[2])
        else:
            d['name'] = a[1]
            d['file'] = a[2]
            if kind == 'service':
                d.update(index=a[3], elem=a[4])
            else:
                d.update(parent=a[3], index=a[4], elem=a[5])
        return d

    def loop(self, lp, up):
        """One loop of the walk; up is the enclosing visit."""
        kinds = set()
        for facts, evs in lp[1]:
            kinds.add(self.body(facts, evs, up))
        return kinds

    def body(self, facts, evs, up):
        head = None
        kids = []
        ghost = None
        rec = None
        for ev in evs:
            if isinstance(ev, tuple):
                kids.append(ev)
            elif ev.a[0] in KINDS:
                if head is not None or kids:
                    self.say(ev.a[0], 'once', 'visited twice or after its parts')
                head = ev
            elif ev.a[0] == 'ghost':
                ghost = ev
            elif ev.a[0] == 'rec':
                rec = ev
        if head is None:
            if rec is not None and up is not None and up['depth'] >= 1:
                self.recursive(rec, up)
                return 'rec'
            self.bad['walk', 'element', up['kind'] if up else 'top'] = 'an element of a file is passed over'
            return None
        kind = head.a[0]
        d = self.args(head)
        d['kind'] = kind
        d['up'] = up
        d['depth'] = 0 if up is None or kind != 'message' or up['kind'] == 'file' else up['depth'] + 1
        if kind != 'message' and up is not None:
            d['depth'] = up['depth']
        d['facts'] = facts
        self.element(d, facts)
        if ghost is not None:
            self.n[0] += 1
            if not Bisim(self.E.phi_in).eq(d['index'], ghost.a[2]):
                self.say(kind, 'index', 'its index is not the number of such elements visited before')
        elif kind in GLOBAL:
            self.say(kind, 'index', 'its index is not counted')
        # parts
        want = dict(KINDS[kind])
        for lp in kids:
            got = self.loop(lp, d)
            for g in got:
                if g == 'rec':
                    g = 'message'
                if g in want:
                    del want[g]
                elif g is not None:
                    self.say(kind, 'parts', '%s visited twice' % g)
        for g, f in want.items():
            self.say(kind, 'parts.' + g, 'its %s (%s) are not visited' % (g, f))
        return kind

    def recursive(self, rec, up):
        want = KINDS[up['kind']].get('message')
        el = [a for a in rec.a[2:] if a.op == 'elem']
        self.n[0] += 1
        if len(el) != 1 or el[0].a[0].op != 'proj' or el[0].a[0].a[0] is not up['elem'] or self.fieldname(up['kind'], el[0].a[0].a[2]) != want:
            self.say('message', 'nested', 'the recursive visit is not given a nested message')
            return
        el = el[0]
        flat = []
        for a in rec.a[2:]:
            flat += [a] + [x for x in a.a[2:] if isinstance(x, T)] if a.op == 'agg' else [a]
        paths = [x for x in flat if x.op == 'agg' and x.a[0] == 'array']
        strs = [x for x in flat if x.op == 'agg' and x.a[0] == 'str']
        num = self.sch[PROTO['message']][want]
        self.n[0] += 4
        if len(paths) != 1 or paths[0].a[2:-2] != up['path'].a[2:] or paths[0].a[-2] is not k(num) or not self.counts(paths[0].a[-1], el):
            self.say('message', 'nested-path', 'the recursive visit starts from another path')
        if strs != [up['name']]:
            self.say('message', 'nested-scope', 'the recursive visit starts from another scope')
        if up['file'] not in flat:
            self.say('message', 'nested-file', 'the recursive visit is given another file')
        if not any(x.op == 'agg' and x.a[0].endswith('Option') and x.a[1] == 1 and x.a[2] is up['index'] for x in rec.a[2:]):
            self.say('message', 'nested-parent', 'the recursive visit is given another parent')

    def fieldname(self, kind, i):
        fs = struct_fields(self.p, TYPES + PROTO[kind])
        return fs[i] if fs and i < len(fs) else None

    def counts(self, t, el):
        """t is the position of el in its vector."""
        t = casts(t)
        if t.op == 'enum_idx' or t.op == 'app' and t.a[0] == 'enum_idx':
            it = [x for x in t.a if isinstance(x, T)][-1]
            while it.op in ('iter', 'ref') or it.op == 'app' and it.a[0] == 'iter':
                it = [x for x in it.a if isinstance(x, T)][-1]
            return it is el.a[0]
        ph = Bisim(self.E.phi_in).resolve(t)
        if ph and ph[0] is k(0):
            return all(m.op == 'bin' and m.a[0] == 'Add' and m.a[1] is t and m.a[2] is k(1) for _, m in ph[1]) and el.a[1] == t.a[0][0]
        return False

    def element(self, d, facts):
        kind, up, el = d['kind'], d['up'], d['elem']
        self.n[0] += 5
        for t, v in facts:
            u = t
            if u.op == 'ovf' or v[0] == 'iv' and casts(u).op != 'app':
                continue
            if u.op == 'app' and u.a[0] == 'len' and u.a[2].op == 'app' and u.a[2].a[0].endswith('::package'):
                continue
            if v[0] == 'iv':
                continue
            self.say(kind, 'condition', 'only visited when %s' % show(u)[:120])
        if up is None:
            if kind != 'file' or el.op != 'elem' or el.a[0].op == 'proj':
                self.say(kind, 'element', 'is not an element of the given files')
            if d['path'].a[2:] != ():
                self.say(kind, 'path', 'path is not empty')
            return
        if el.op != 'elem' or el.a[0].op != 'proj' or el.a[0].a[0] is not up['elem']:
            self.say(kind, 'element', 'is not a part of the enclosing %s' % up['kind'])
            return
        fname = self.fieldname(up['kind'], el.a[0].a[2])
        if KINDS[up['kind']].get(kind) != fname:
            self.say(kind, 'element', 'taken from %s.%s' % (up['kind'], fname))
            return
        num = self.sch[PROTO[up['kind']]].get(fname)
        pth = d['path']
        base = up['path'].a[2:]
        if pth.op != 'agg' or pth.a[2:-2] != base or pth.a[-2] is not k(num) or not self.counts(pth.a[-1], el):
            self.say(kind, 'path', 'path is %s, not the path of the enclosing %s followed by %d and its position' % (show(pth)[-120:], up['kind'], num))
        # names
        nm = mk('app', TYPES + PROTO[kind] + '::name', None, el)
        scope = up
        if kind == 'enum_value':
            scope = up['up']
        if scope['kind'] == 'file':
            pk = mk('app', TYPES + PROTO['file'] + '::package', None, scope['elem'])
            ln = mk('app', 'len', None, pk)
            empty = [v for t, v in scope['facts'] if t is ln]
            nonempty = any(v[0] == '-' or v[0] == 'iv' and v[1][0] and v[1][0] > 0 for v in empty)
            pre = (pk,) if nonempty else ()
        else:
            pre = scope['name'].a[2:] if scope['name'].op == 'agg' else ('?',)
        want = pre + ((k('.'),) if pre else ()) + (nm,)
        if d['name'].op != 'agg' or tuple(d['name'].a[2:]) != want:
            self.say(kind, 'name', 'full name is %s' % show(d['name'])[-200:])
        # file and parent
        f = up
        while f['kind'] != 'file':
            f = f['up']
        if d['file'] is not f['index']:
            self.say(kind, 'file', 'file index is not that of the enclosing file')
        if 'parent' in d:
            pr = d['parent']
            if kind in ('message', 'enum', 'extension'):
                good = pr.op == 'agg' and (pr.a[1] == 0 if up['kind'] == 'file' else pr.a[1] == 1 and pr.a[2] is up['index'])
            else:
                good = pr is up['index']
            if not good:
                self.say(kind, 'parent', 'parent index is %s' % show(pr)[:120])
        if kind not in GLOBAL and not self.counts(d['index'], el):
            self.say(kind, 'index', 'index is not its position')
