"""The text-format parser run on a given sequence of tokens over the slot model of the message, from its public entry point.
Only the lexer is replaced: it yields the given tokens, each with a span of its own, then the end of the input."""
from .msgapi import *
from .kinds import *

TEXT = DYN + 'text_format::'
OTHER, THIRD = mk('othermember'), mk('third')
LEXERS = 'logos::lexer::Lexer'


def token_type(p):
    """The enum the lexer of the text format yields."""
    got = [n for n, a in p.adts.items() if a.get('local') and a['kind'] == 'enum' and n.startswith(TEXT)
           and {'Ident', 'StringLiteral', 'Colon'} <= {v['n'] for v in a['v']}]
    if len(got) != 1:
        raise Broken('the token type of the text format: %s' % got)
    return got[0]


def ground(t):
    return isk(t) or (t.op == 'agg' and all(not isinstance(x, T) or ground(x) for x in t.a))


def contains(E, st, fr, b, c, args, tys, dt):
    """Exact for lists and elements that are known entirely."""
    a, x = E.canon(st, args[0], True), E.canon(st, args[1], True)
    if a.op == 'agg' and a.a[0] == 'array' and ground(a) and ground(x):
        return [(st, k(int(x in a.a[2:])))]
    return None


class Tokens:
    def __init__(self, p):
        self.p = p
        self.T = token_type(p)
        self.ix = vidx(p, self.T)
        v = {x['n']: x for x in p.adts[self.T]['v']}
        self.int = p.types[v['IntLiteral']['f'][0][1]].get('n')

    def __call__(self, name, *a):
        return agg(self.T, self.ix[name], *a)

    def ident(self, t):
        return self('Ident', t)

    def int_(self, text=mk('digits'), radix=10):
        fs = [f[0] for f in self.p.adts[self.int]['v'][0]['f']]
        return self('IntLiteral', agg(self.int, 0, *[k(radix) if f == 'radix' else text for f in fs]))


class Parse:
    """One run over `script`. name -> what a field lookup gives; answers(name, args) -> oracle for the field."""

    def __init__(self, p, script, own='absent', other='absent', oneof=0, lookup=None, answers=None, extra=None, roles=None, slots=None, opaque=(), unroll=0, members=None, stored=None, anydesc=0, fresh=(), stop_at=None):
        self.p, self.script, self.reached = p, script, False
        pos = mk('ghost', 'tokens read')

        def rolefn(E, st, key):
            if roles:
                r = roles(key)
                if r:
                    return r
            if key.op == 'app' and key.a[0].endswith('Descriptor::number'):
                if key.a[2] is TARGET:
                    return 'own'
                if key.a[2] is OTHER:
                    return 'other'
                if key.a[2].op == 'third':
                    return 'third'
            return None
        init = {'own': own, 'other': other}
        init.update(slots or {})
        api = only_existing(p, [ONEOF + 'fields']) + only_existing(p, [VAL + '::is_valid_for_field', VAL + '::is_valid_for_extension']) + list(opaque)
        api += only_existing(p, [DESC + 'MessageDescriptor::get_extension_by_full_name'])
        S = self.S = Slots(p, init, rolefn, opaque=api)
        E = self.E = S.E
        if stored:
            content = S.content
            S.content = lambda role, s: agg(S.entry, S.iv, stored[role]) if s == 'value' and role in stored else content(role, s)
        if members is not None:
            E.opaque = set(E.opaque) - {ONEOF + 'fields'}

            def fields(E_, st, fr, b, c, args, tys, dt):
                it = mk('finite', mk('members', E.canon(st, args[0], True)), *members)
                st.mem.pop(mk('ghost', 'finite', it), None)
                return [(st, it)]
            E.models[ONEOF + 'fields'] = fields
        E.unroll = unroll or len(script) + 4
        E.known_lists = True
        E.rec_limit = len(script)
        E.stack_limit = max(60, 8 * len(script))

        def cur(st):
            v = st.mem.get(pos)
            return 0 if v is None else kv(v)
        self.cur = cur

        def is_lexer(tys):
            return bool(tys) and LEXERS in str(tys[0])
        prev = E.models.get('core::iter::traits::iterator::Iterator::next')

        def nxt(E_, st, fr, b, c, args, tys, dt):
            v = E.canon(st, args[0], True)
            if not (v.op == 'lexer' or any(x.op == 'lexer' for x in walk(v))):
                return prev(E_, st, fr, b, c, args, tys, dt) if prev else None
            i = cur(st)
            if stop_at is not None and i >= stop_at:
                self.reached = True
                return []
            st.mem[pos] = k(i + 1)
            return [(st, some(ok(script[i])) if i < len(script) else NONE_OPT)]
        E.models['core::iter::traits::iterator::Iterator::next'] = nxt
        E.models['logos::Logos::lexer'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('lexer'))]
        # a new message has no fields; at most one message with the roles in `fresh` is alive in a script
        bt = '<alloc::collections::btree::map::BTreeMap<K, V> as core::default::Default>::default'
        for nm in (bt, BM + 'new'):
            def new(E_, st, fr, b, c, args, tys, dt, prev=E.models.get(nm)):
                for role in fresh:
                    st.mem[S.flag(role)] = k(0)
                return prev(E_, st, fr, b, c, args, tys, dt) if prev else [(st, mk('app', nm, None))]
            E.models[nm] = new

        def hset(E_, st, fr, b, c, args, tys, dt):
            base, path = E.pointee(args[0])
            key, val = E.canon(st, args[1], True), E.canon(st, args[2], True)
            E.write(st, base, path, mk('app', 'mapset', None, key, val, E.read(st, base, path)))
            s2 = st.copy()
            return [(st, NONE_OPT), (s2, some(mk('replaced', key)))]
        E.models['std::collections::hash::map::HashMap::insert'] = hset
        E.models['<[T]>::contains'] = contains
        E.models[LEXERS + '::span'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('span', cur(st) - 1))]

        def oracle(n, a, res):
            last = n.rsplit('::', 1)[1]
            if extra:
                r = extra(n, last, a, res)
                if r is not None:
                    return r
            if a and a[0] is TARGET:
                if last in answers:
                    return answers[last]
                if last == 'containing_oneof':
                    return some(mk('oneof')) if oneof else NONE_OPT
                if last == 'supports_presence':
                    return k(1)
            if n.startswith(DESC) and last in lookup and (anydesc or show(a[0]).startswith('self')):
                return lookup[last](a[1])
            if last == 'supports_presence' and n.startswith(DESC):
                return k(1)
            return None
        E.oracle = oracle
        self.name = DM + 'merge_text_format'
        p.find(self.name)
        self.r = S.run(self.name, args={1: mk('input')})
