"""Kind tables shared by several checks."""
from .wire import *

DYN = 'prost_reflect::dynamic::'
PARSER = DYN + 'text_format::parse::Parser::'
KINDIDX = DESC + 'KindIndex'


def kindterm(p, kd, x=None):
    i = vidx(p, KIND)[kd]
    return agg(KIND, i, x or mk('desc')) if kd in ('Message', 'Enum') else agg(KIND, i)


def oks(finals):
    """The payloads of the Ok results (an undetermined result counts as one)."""
    out = []
    for f in finals:
        r = f.ret
        if r.op == 'agg' and r.a[0] == 'core::result::Result':
            if r.a[1] == 0:
                out.append((f, r.a[2]))
        else:
            out.append((f, mk('okof', r)))
    return out


def only_existing(p, names):
    return [n for n in names if n in p.fn_by_name]


def variant_of(p, t, adt=VAL):
    VI = vidx(p, adt)
    if t.op == 'agg' and t.a[0] == adt:
        for n, i in VI.items():
            if i == t.a[1]:
                return n
    return None


def token_engine(p, script, watch=None, api=None):
    """Engine whose text-format token source yields the given tokens (None ends the input)."""
    E = Engine(p, opaque=opaque_api(p) if api is None else api, watch=watch)
    pos = mk('ghost', 'pos')
    for nm in ('peek', 'bump', 'unexpected_token'):
        p.find(PARSER + nm)

    def cur(st):
        v = st.mem.get(pos)
        return 0 if v is None else kv(v)

    def peek(E, st, fr, b, c, args, tys, dt):
        i = cur(st)
        from .engine import some, ok, NONE_OPT
        if i < len(script):
            return [(st, ok(some(tup(script[i], mk('span', i)))))]
        return [(st, ok(NONE_OPT))]

    def bump(E, st, fr, b, c, args, tys, dt):
        st.mem[pos] = k(cur(st) + 1)
        return [(st, mk('span', cur(st)))]

    def unexpected(E, st, fr, b, c, args, tys, dt):
        from .engine import err
        return [(st, err(mk('unexpected')))]
    E.models[PARSER + 'peek'] = peek
    E.models[PARSER + 'bump'] = bump
    E.models[PARSER + 'unexpected_token'] = unexpected
    E.tokpos = cur
    return E
