"""Interned terms: the Herbrand part of the abstract domain."""


class T:
    __slots__ = ('op', 'a', 'id', '_s')

    def __repr__(self):
        return show(self)


_table = {}
_list = []


def mk(op, *a):
    key = (op, a)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = len(_list)
        t._s = None
        _table[key] = t
        _list.append(t)
    return t


def k(v):
    # python bools, ints and strings would collide as dict keys across types
    if isinstance(v, bool):
        v = int(v)
    return mk('k', type(v).__name__, v)


def isk(t):
    return t.op == 'k'


def kv(t):
    return t.a[1]


UNIT = mk('agg', 'tuple', 0)


def agg(kind, variant, *fields):
    return mk('agg', kind, variant, *fields)


def tup(*f):
    return mk('agg', 'tuple', 0, *f)


def short(name):
    """Drops generic noise from a path."""
    return name


def show(t, depth=0):
    if not isinstance(t, T):
        return repr(t)
    if t._s is not None:
        return t._s
    if depth > 12:
        return '..'
    op, a = t.op, t.a
    sh = lambda x: show(x, depth + 1) if isinstance(x, T) else str(x)
    if op == 'k':
        r = repr(a[1]) if a[0] != 'int' else str(a[1])
    elif op == 'agg':
        kind = a[0].split('::')[-1] if not a[0].startswith('closure') else 'closure'
        if kind == 'tuple':
            r = '(' + ', '.join(sh(x) for x in a[2:]) + ')'
        else:
            r = '%s#%s(%s)' % (kind, a[1], ', '.join(sh(x) for x in a[2:]))
    elif op == 'arg':
        r = a[1]
    elif op == 'proj':
        v = '' if a[1] is None else '@%s' % a[1]
        r = '%s%s.%s' % (sh(a[0]), v, sh(a[2]))
    elif op == 'idx':
        r = '%s[%s]' % (sh(a[0]), sh(a[1]))
    elif op == 'app':
        r = '%s(%s)' % (a[0].split('::')[-1] if not a[0].startswith('<') else a[0], ', '.join(sh(x) for x in a[2:]))
    elif op == 'ref':
        r = '&%s%s' % (a[0] if not isinstance(a[0], T) else sh(a[0]), ''.join(str(x) for x in a[1]))
    elif op == 'bin':
        r = '(%s %s %s)' % (sh(a[1]), a[0], sh(a[2]))
    elif op == 'un':
        r = '%s(%s)' % (a[0], sh(a[1]))
    elif op == 'cast':
        r = '(%s as %s)' % (sh(a[1]), a[0])
    elif op == 'discr':
        r = 'discr(%s)' % sh(a[0])
    elif op == 'ev':
        r = '%s(%s)' % (a[0], ', '.join(sh(x) for x in a[1:]))
    else:
        r = '%s(%s)' % (op, ', '.join(sh(x) for x in a))
    if depth == 0:
        t._s = r if len(r) < 4000 else r[:4000]
    return r


def walk(t, seen=None):
    """All distinct subterms."""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
            elif isinstance(y, tuple):
                for z in y:
                    if isinstance(z, T):
                        st.append(z)
                    elif isinstance(z, tuple):
                        st.extend(w for w in z if isinstance(w, T))


def subst(t, f, memo=None):
    """Bottom-up rewriting: f(term) -> term or None."""
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, f, memo) for x in t)
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    na = tuple(subst(x, f, memo) for x in t.a)
    nt = t if na == t.a else mk(t.op, *na)
    r = f(nt)
    if r is None:
        r = nt
    memo[t.id] = r
    return r
