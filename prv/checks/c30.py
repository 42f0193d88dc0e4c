"""Every PartialEq impl of the descriptor, value and message types is executed symbolically, with two unknown operands and with the
same operand twice. When it says equal, the path must have compared every part: the shared pool by identity, the position, and of
values and messages the variant and all of its content. An operand always equals itself. Clone impls copy every part."""
from prv.kinds import *
from prv.checks import c13

LEVEL = 'proof'
G_ALL = 'equal only when every part is equal'
G_SELF = 'everything equals itself'
G_CLONE = 'a clone has every part of the original'
DYN = 'prost_reflect::dynamic::'


def eq_fn(t):
    return '<%s as core::cmp::PartialEq>::eq' % t


def pair(t):
    """(a, b) when t says a = b."""
    if t.op == 'bin' and t.a[0] == 'Eq':
        return t.a[1], t.a[2]
    if t.op == 'app' and len(t.a) == 4 and t.a[0].endswith(('::ptr_eq', '::eq')):
        return t.a[2], t.a[3]
    return None


class Eqs:
    def __init__(self, p, f, me, you):
        self.p, self.f, self.me, self.you = p, f, me, you
        self.pairs = set()
        self.never = False
        for t, d in f.st.facts.items():
            if d == ('+', frozenset({1})):
                self.add(t)
        if not isk(f.ret):
            self.add(f.ret)
        elif kv(f.ret) in (0, False):
            self.never = True

    def add(self, t):
        pr = pair(t)
        if pr is None:
            return
        a, b = pr
        for x, y in ((a, b), (b, a)):
            if self.mirror(x) is y:
                self.pairs.add(x)

    def mirror(self, t):
        """The same part of the other operand."""
        if t is self.me:
            return self.you
        if t.op in ('proj', 'down', 'discr', 'idx', 'app', 'sub') and any(isinstance(x, T) for x in t.a):
            return mk(t.op, *[self.mirror(x) if isinstance(x, T) else x for x in t.a])
        return t

    def missing(self, ty, t):
        """A part of t (of type ty) that was not compared."""
        if t in self.pairs:
            return None
        tt = self.p.types[ty]
        while tt['k'] == 'ref':
            tt = self.p.types[tt['t']]
        if tt['k'] == 'tuple' and tt['a']:
            return self.fields(enumerate(tt['a']), t, None, tt['s'])
        if tt['k'] == 'tuple':
            return None
        if tt['k'] != 'adt':
            return 'a %s' % tt['s']
        return self.adt(tt['n'], t)

    def adt(self, n, t):
        if t in self.pairs:
            return None
        a = self.p.adts.get(n)
        if n == 'core::option::Option' or a is not None and a['local'] and a['kind'] == 'enum':
            d = mk('discr', t)
            fa, fb = self.f.st.facts.get(d), self.f.st.facts.get(self.mirror(d))
            same = d in self.pairs
            if not same and not (fa is not None and fa == fb and fa[0] == '+' and len(fa[1]) == 1):
                return 'the variant of %s' % show(t)
            if a is None:
                return None if fa == ('+', frozenset({0})) else 'the content of %s' % show(t)
            for i, v in enumerate(a['v']):
                if fa is not None and (int(v['d']) in fa[1]) != (fa[0] == '+'):
                    continue
                if fb is not None and (int(v['d']) in fb[1]) != (fb[0] == '+'):
                    continue
                r = self.fields([(j, f[1]) for j, f in enumerate(v['f'])], t, i, n)
                if r:
                    return r
            return None
        if a is not None and a['local']:
            return self.fields([(j, f[1]) for j, f in enumerate(a['v'][0]['f'])], t, None, n)
        return '%s (a %s)' % (show(t), n)

    def fields(self, fs, t, v, n):
        for j, ty in fs:
            r = self.missing(ty, mk('proj', t, v, j))
            if r:
                return r
        return None


def identical(E):
    def o(n, cargs, res):
        if n.endswith(('::ptr_eq', '::eq')) and len(cargs) == 2 and cargs[0] is cargs[1]:
            return k(1)
    E.oracle = o


def run(p, C):
    rs = c13.roots(p)
    T_ = c13.Types(p)
    for n in rs:
        T_.adt({'n': n, 'a': []}, (n.rsplit('::', 1)[-1],))
    types = set(T_.seen) | {n for n, a in p.adts.items() if a['local'] and n.startswith(DYN) and eq_fn(n) in p.fn_by_name and '::serde' not in n and '::text' not in n}
    me, you = mk('me'), mk('you')
    n = paths = nc = 0
    for t in sorted(types):
        a = p.adts.get(t)
        if a is None or not a['local'] or '::types::' in t:
            continue
        f = eq_fn(t)
        if f in p.fn_by_name:
            n += 1
            E = Engine(p)
            E.exact_paths = True
            fs = E.run(f, args={0: me, 1: you})
            C.inlined(E)
            yes = 0
            for x in fs:
                e = Eqs(p, x, me, you)
                if e.never:
                    continue
                yes += 1
                paths += 1
                why = e.adt(t, me)
                C.ob(why is None, 'all:%s:%s' % (t, why), '%s says equal without comparing %s' % (f, why), G_ALL)
            C.ob(yes > 0, 'all:%s' % t, '%s never says equal' % f, G_ALL)
            E = Engine(p)
            identical(E)
            for x in E.run(f, args={0: me, 1: me}):
                C.ob(isk(x.ret) and kv(x.ret) in (1, True) or pair(x.ret) is not None and pair(x.ret)[0] is pair(x.ret)[1], 'self:%s' % t,
                     '%s of an operand and itself gives %s' % (f, show(x.ret)[:100]), G_SELF)
            ne = '<%s as core::cmp::PartialEq>::ne' % t
            C.ob(ne not in p.fn_by_name or not p.bodies[p.fn_by_name[ne][0]['key']].local, 'ne:%s' % t, '%s defines ne by itself' % t, G_ALL)
        f = '<%s as core::clone::Clone>::clone' % t
        if f in p.fn_by_name:
            nc += 1
            c13.clone(p, C, t, a, f)
    for w in ('descriptor::FieldDescriptor', 'descriptor::MessageDescriptor', 'descriptor::ExtensionDescriptor', 'descriptor::DescriptorPool', 'dynamic::Value',
              'dynamic::MapKey', 'dynamic::DynamicMessage', 'dynamic::unknown::UnknownField'):
        C.ob(eq_fn('prost_reflect::' + w) in p.fn_by_name, 'impl:' + w, 'no equality for %s' % w, G_ALL)
    C.floor('equality functions', n, 16)
    C.floor('paths that say equal', paths, 40)
    C.floor('clone functions', nc, 25)
