"""A model of the map from field numbers to stored values: a few named slots (the field asked for, other members of its
oneof, ...), each absent or holding one of the variants of the stored entry, tracked strongly. Every map operation acts on the
slot its key denotes, so what a function of DynamicMessage does to the message is read off the final slots."""
from .serde import *
from .engine import some, ok, err, NONE_OPT, Frame

BM = 'alloc::collections::btree::map::BTreeMap::'
ENT = 'alloc::collections::btree::map::entry::Entry'
OE = 'alloc::collections::btree::map::entry::OccupiedEntry'
VE = 'alloc::collections::btree::map::entry::VacantEntry'


def entry_type(p):
    """(name of the stored entry type, index of the variant with a Value, index of the variant with unknown fields, unit variants)"""
    for name, ad in p.adts.items():
        if not (ad.get('local') and ad['kind'] == 'enum'):
            continue
        val = [i for i, v in enumerate(ad['v']) if len(v['f']) == 1 and p.types[v['f'][0][1]].get('n') == VAL]
        unk = [i for i, v in enumerate(ad['v']) if len(v['f']) == 1 and (p.types[v['f'][0][1]].get('n') or '').startswith(DYN + 'unknown::')]
        if len(val) == 1 and len(unk) == 1:
            return name, val[0], unk[0], [i for i, v in enumerate(ad['v']) if not v['f']]
    from .program import Broken
    raise Broken('the stored entry type was not found')


class Slots:
    def __init__(self, p, init, rolefn, watch=None, opaque=(), **kw):
        """init: role -> 'absent' | 'value' | 'unknown' | 'taken'; rolefn(engine, state, key term) -> role"""
        self.p = p
        self.entry, self.iv, self.iu, self.units = entry_type(p)
        self.init = init
        self.flagterms = set()
        self.rolefn = rolefn
        eqs = [n for n in p.fn_by_name if n == '<%s as core::cmp::PartialEq>::eq' % VAL]
        E = self.E = Engine(p, opaque=list(opaque_api(p)) + eqs + list(opaque), watch=watch, **kw)
        E.slots = self
        E.muts = 0
        self.install(E)

    def slot(self, role):
        return mk('slot', role)

    def flag(self, role):
        return mk('slotp', role)

    def content(self, role, s):
        if s == 'value':
            return agg(self.entry, self.iv, mk('stored', role))
        if s == 'unknown':
            return agg(self.entry, self.iu, mk('storedunk', role))
        if s == 'taken':
            return agg(self.entry, self.units[0]) if self.units else None
        return mk('nothing', role)

    def setup(self, st, vals):
        for role, s in self.init.items():
            st.mem[self.flag(role)] = k(int(s != 'absent'))
            c = self.content(role, s)
            if c is not None:
                st.mem[self.slot(role)] = c

    def final(self, f, role):
        """('absent',) | ('value', term) | ('unknown', term) | ('taken',) | ('?', …)"""
        fl = f.st.mem.get(self.flag(role))
        d = f.st.facts.get(fl)
        if fl is not None and not isk(fl) and d and d[0] == '+' and len(d[1]) == 1:
            fl = k(next(iter(d[1])))
        if fl is None or not isk(fl):
            return ('?',)
        if kv(fl) == 0:
            return ('absent',)
        c = f.st.mem.get(self.slot(role))
        c = self.E.canon(f.st, c) if c is not None else None
        if c is None or c.op != 'agg' or c.a[0] != self.entry:
            return ('?', c)
        if c.a[1] == self.iv:
            return ('value', self.E.canon(f.st, c.a[2]))
        if c.a[1] == self.iu:
            return ('unknown', self.E.canon(f.st, c.a[2]))
        return ('taken',)

    def run(self, name, args=None):
        return self.E.run(name, args=args, setup=self.setup)

    def keyof(self, st, t):
        key = self.E.canon(st, t, True)
        return key, self.rolefn(self.E, st, key)

    def cases(self, E, st, role):
        """[(state, present)]"""
        fl = st.mem.get(self.flag(role), self.flag(role))
        if not isk(fl):
            self.flagterms.add(fl)
        return [(s, bool(x)) for s, x in E.fork_bool(st, fl)]

    def install(self, E):
        S = self

        def u32map(c):
            return bool(c.get('a')) and E.p.types[c['a'][0]]['s'] == 'u32'

        def reg(*names):
            def d(f):
                for n in names:
                    prev = E.models.get(n)

                    def g(E_, st, fr, b, c, args, tys, dt, prev=prev):
                        if not u32map(c):
                            return prev(E_, st, fr, b, c, args, tys, dt) if prev else None
                        return f(st, fr, b, c, args)
                    E.models[n] = g
                return f
            return d

        @reg(BM + 'get', BM + 'get_mut')
        def get(st, fr, b, c, args):
            key, role = S.keyof(st, args[1])
            if role is None:
                return [(st, mk('lost', key))]
            return [(s, some(S.slot(role)) if x else NONE_OPT) for s, x in S.cases(E, st, role)]

        @reg(BM + 'contains_key')
        def has(st, fr, b, c, args):
            key, role = S.keyof(st, args[1])
            if role is None:
                return [(st, mk('lost', key))]
            return [(s, k(int(x))) for s, x in S.cases(E, st, role)]

        @reg(BM + 'remove')
        def remove(st, fr, b, c, args):
            key, role = S.keyof(st, args[1])
            E.event(st, 'remove', k(role or '?'), key)
            if role is None:
                return [(st, mk('lost', key))]
            out = []
            for s, x in S.cases(E, st, role):
                v = E.canon(s, s.mem.get(S.slot(role), S.slot(role)))
                s.mem[S.flag(role)] = k(0)
                out.append((s, some(v) if x else NONE_OPT))
            return out

        @reg(BM + 'insert')
        def insert(st, fr, b, c, args):
            key, role = S.keyof(st, args[1])
            E.event(st, 'insert', k(role or '?'), key)
            if role is None:
                return [(st, mk('lost', key))]
            out = []
            for s, x in S.cases(E, st, role):
                v = E.canon(s, s.mem.get(S.slot(role), S.slot(role)))
                s.mem[S.flag(role)] = k(1)
                s.mem[S.slot(role)] = args[2]
                out.append((s, some(v) if x else NONE_OPT))
            return out

        @reg(BM + 'clear')
        def clear(st, fr, b, c, args):
            E.event(st, 'clear')
            for role in S.init:
                st.mem[S.flag(role)] = k(0)
            return [(st, tup())]

        @reg(BM + 'entry')
        def entry(st, fr, b, c, args):
            key, role = S.keyof(st, args[1])
            if role is None:
                return [(st, mk('lost', key))]
            return [(s, agg(ENT, 1 if x else 0, agg(OE if x else VE, 0, k(role)))) for s, x in S.cases(E, st, role)]

        def ent(st, v):
            v = E.canon(st, v, True)
            if v.op == 'agg' and v.a[0] == ENT:
                v = v.a[2]
            if v.op == 'agg' and v.a[0] in (OE, VE):
                return kv(v.a[2]), v.a[0] == OE
            return None, None

        def onent(*names):
            def d(f):
                for n in names:
                    def g(E_, st, fr, b, c, args, tys, dt):
                        role, occ = ent(st, args[0])
                        if role is None:
                            return None
                        return f(st, fr, b, role, occ, args)
                    E.models[n] = g
                return f
            return d

        @onent(OE + '::into_mut', OE + '::get_mut', OE + '::get')
        def oref(st, fr, b, role, occ, args):
            return [(st, S.slot(role))]

        @onent(OE + '::insert')
        def oins(st, fr, b, role, occ, args):
            old = E.canon(st, st.mem.get(S.slot(role), S.slot(role)))
            st.mem[S.slot(role)] = args[1]
            E.event(st, 'insert', k(role))
            return [(st, old)]

        @onent(OE + '::remove')
        def orem(st, fr, b, role, occ, args):
            old = E.canon(st, st.mem.get(S.slot(role), S.slot(role)))
            st.mem[S.flag(role)] = k(0)
            E.event(st, 'remove', k(role))
            return [(st, old)]

        @onent(VE + '::insert')
        def vins(st, fr, b, role, occ, args):
            st.mem[S.slot(role)] = args[1]
            st.mem[S.flag(role)] = k(1)
            E.event(st, 'insert', k(role))
            return [(st, S.slot(role))]

        @onent(ENT + '::or_insert')
        def orins(st, fr, b, role, occ, args):
            if not occ:
                return vins.__wrapped__(st, fr, b, role, occ, args) if hasattr(vins, '__wrapped__') else vins(st, fr, b, role, occ, args)
            return [(st, S.slot(role))]

        @onent(ENT + '::or_insert_with')
        def orinsw(st, fr, b, role, occ, args):
            if occ:
                return [(st, S.slot(role))]
            out = []
            for s, v in E.call_value(st, fr, b, args[1], None, [], []):
                out += vins(s, fr, b, role, occ, [args[0], v])
            return out

        @onent(ENT + '::and_modify')
        def andmod(st, fr, b, role, occ, args):
            if not occ:
                return [(st, args[0])]
            return [(s, args[0]) for s, _ in E.call_value(st, fr, b, args[1], None, [S.slot(role)], [])]


def yields(E, f, it=None, limit=200):
    """[(state, element)] of the iterator a function returned; (None marks the end)."""
    body = E.p.body_of(E.last_run) if False else None
    it = f.ret if it is None else it
    fr = Frame(E.run_body, 0, 0)
    return E.iter_next(E, f.st.copy(), fr, 0, it)
