"""Lookups and listings of descriptors against what is put into the pool.

(1) prv.visit.analyse: the walk visits each element once; the index given to a file, message, enum, service or extension counts the
    elements of that kind from the length the pool's list has at the start; the record of each element is pushed once per visit, so
    its index is its position.
(2) The visitors that fill the pool run on a generic element of every kind of position (prv.tables.World); every change of a
    collection of the pool on every successful path is one of those the lookups rely on, and happens once.
(3) Every lookup is evaluated: it reads the collection with the key it was given, and reports nothing only when the collection has
    no such key.  The keys put into that collection are what the accessor of that name returns for the element.
(4) Every listing runs over the collection that holds one entry for each element of the owner."""
from prv import visit as V
from prv.tables import *
from prv.checks.c22w import literal
from prv.checks.c24 import IS0, IS1, flat, part, at

LEVEL = 'proof'
Q = mk('query')
GET = ('std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get')
POOLED = {'message': 'MessageDescriptor', 'enum': 'EnumDescriptor', 'extension': 'ExtensionDescriptor', 'service': 'ServiceDescriptor'}
CHILD = {'message': ['field', 'oneof'], 'enum': ['enum_value'], 'service': ['method']}


def short(W, t):
    return show(W.norm(t)).replace(D, '')[:180]


def children(W, key, kind):
    return [x for x in W.ELEMS if W.ELEMS[x][2] == key and W.ELEMS[x][0] == kind]


def held(W, key, fn):
    """The place of a collection in the record of an element."""
    rec = W.recs[key]
    a = W.p.adts[rec.a[0]]
    return W.recplace[key] + (us(W.index(key)), [f[0] for f in a['v'][0]['f']].index(fn))


def same(W, a, b):
    return len(a) == len(b) and all(x == y if isinstance(x, int) or isinstance(y, int) else W.pos(W.norm(x)) is W.pos(W.norm(y)) for x, y in zip(a, b))


def some_of(t):
    return t.a[2] if t.op == 'agg' and t.a[0] == 'core::option::Option' and t.a[1] == 1 else None


def is_none(t):
    return t.op == 'agg' and t.a[0] == 'core::option::Option' and t.a[1] == 0


def desc(t, adt):
    """(owner, index) of a descriptor value"""
    if t.op == 'agg' and t.a[0] == D + adt and len(t.a) == 4:
        return t.a[2], t.a[3]
    return None


def inspected(W, f):
    """The facts of a path, in normal form."""
    return {W.norm(t): d for t, d in f.facts.items()}


class Effects:
    """Changes of the pool's collections, each to be claimed by a reason."""

    def __init__(self, W):
        self.W = W
        self.left = {}
        for (key, ty), finals in W.effects.items():
            for q, (f, evs) in enumerate(finals):
                self.left[key, ty, q] = [e for e in evs if e[1] not in ('entry',)]

    def claim(self, C, key, what, test, every=True, looped=False):
        """On every successful path of the visitor that makes such changes, exactly one passes the test. Returns the changes."""
        tys = {}
        for (k2, ty, q), evs in self.left.items():
            if k2 == key:
                hit = [e for e in evs if e[0] == looped and test(e)]
                tys.setdefault(ty, []).append((q, hit))
        out = []
        doing = {ty for ty, x in tys.items() if any(h for _, h in x)}
        C.ob(len(doing) == 1, 'effect:%s:%s' % (key, what), '%s: %s by %d visitors' % (key, what, len(doing)), 'each element is entered once')
        for ty in doing:
            for q, hit in tys[ty]:
                ok = len(hit) == 1 or not every and not hit
                C.ob(ok, 'effect:%s:%s:once' % (key, what), '%s: %s %d times on some path' % (key, what, len(hit)), 'each element is entered once')
                f = self.W.effects[key, ty][q][0]
                for h in hit:
                    self.left[key, ty, q].remove(h)
                    out.append((f, h))
        return out

    def rest(self, C):
        for (key, ty, q), evs in self.left.items():
            for e in evs:
                where = [x if isinstance(x, int) else short(self.W, x) for x in e[2]]
                C.ob(False, 'effect:%s:extra:%s' % (key, e[1]), '%s: unexpected change %s of %s by %s' % (key, e[1], where, [short(self.W, x) for x in e[3]]),
                     'the pool gets no other entries')
        C.ob(True, 'effect:rest', '', 'the pool gets no other entries')


def run(p, C):
    bad, n, ghosts = V.analyse(p)
    C.obligations += n - len(bad)
    C.discharged += n - len(bad)
    for key, msg in bad.items():
        C.ob(False, 'walk:' + ':'.join(str(x) for x in key), msg, 'the walk visits each element once in its place')
    C.groups.setdefault('the walk visits each element once in its place', [0, 0])
    C.groups['the walk visits each element once in its place'][0] += n
    C.groups['the walk visits each element once in its place'][1] += n - len(bad)
    C.floor('obligations of the walk', n, 100)
    W = World(p)
    W.build(W.scenario(packed='no options'))
    for key, msg in W.bad.items():
        C.ob(False, 'record:' + ':'.join(str(x) for x in key), msg, 'each element is recorded once')
    C.ob(not W.bad, 'record:all', 'records', 'each element is recorded once')
    if any(k2 not in getattr(W, 'recs', {}) for k2 in W.ELEMS):
        return
    positions(C, W, ghosts)
    eff = Effects(W)
    for key in W.ELEMS:
        eff.claim(C, key, 'recorded', lambda e: e[1] == 'push' and e[2] == W.recplace[key])
    C.floor('ways to visit an element followed', len(eff.left), 60)
    names(C, W, eff)
    nl = keyed(C, W, eff)
    nl += extensions(C, W, eff)
    nl += oneofs(C, W, eff)
    nl += listings(C, W)
    dependencies(C, W, eff)
    eff.rest(C)
    C.floor('lookups and listings evaluated', nl, 60)


# ---- positions
def positions(C, W, ghosts):
    """The first index of a new file is the number of elements the pool has."""
    p = W.p
    offs = [n for n, b in p.fn_by_name.items() if n.startswith(D + 'build::') and '{' not in n and
            len(b) == 1 and b[0]['key'] in p.bodies and starts(p, p.bodies[b[0]['key']], ghosts)]
    C.ob(len(offs) == 1, 'positions:start', '%d functions compute where the elements of a new file start' % len(offs), 'indices start at the number of elements')
    for fn in offs:
        E = Engine(p)
        pool = mk('somepool')
        fs = E.run(fn, args={0: pool})
        C.inlined(E)
        for kind, path in sorted(ghosts.items()):
            key = kind
            if key not in W.recplace:
                continue
            for f in fs:
                t = f.ret
                for x in path:
                    t = E.get1(f, t, ('f', None, x))
                want = mk('app', 'len', None, W.proj(pool, W.recplace[key][0]))
                got = t
                while got.op == 'cast':
                    got = got.a[1]
                C.ob(got is want, 'positions:start:' + kind, 'the first %s of a new file gets index %s' % (kind, show(got)[:120]),
                     'indices start at the number of elements')


def starts(p, b, ghosts):
    """A function from a pool to the structure of the counters."""
    if b.argc != 1:
        return False
    want = max((x[0] for x in ghosts.values()), default=0)
    rt = p.ts(b.locals[0])
    a = p.adts.get(rt)
    return a is not None and a['kind'] == 'struct' and len(a['v'][0]['f']) > want and all(p.ts(f[1]) in ('u32', 'usize') for f in a['v'][0]['f']) and \
        p.ts(b.locals[1]).startswith('&') and 'DescriptorPoolInner' in p.ts(b.locals[1])


# ---- full names
def names(C, W, eff):
    p = W.p
    n = 0
    variants = {}
    for kind, ty in POOLED.items():
        for key, method in (('pool', 'get_%s_by_name' % kind),):
            fs = W.get(key, method, args=[Q])
            C.ob(fs is not None, 'lookup:%s' % method, '%s is missing' % method, 'lookups by full name')
            for f in fs or []:
                n += 1
                v = some_of(f.ret)
                d = desc(v, ty) if v is not None else None
                fc = dict(f.facts)
                got = [t for t in walk(mk('facts', *fc)) if t.op == 'app' and t.a[0].rsplit('::', 1)[-1] in ('get', 'map_get') and len(t.a) == 4]
                keyarg = {t.a[3] for t in got}
                colls = {t.a[2] for t in got}
                stripped = [t.a[0] for t in fc if t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0].endswith('strip_prefix') and t.a[0].a[2] is Q]
                okkey = keyarg and all(x is Q and all(fc.get(mk('discr', s)) == IS0 for s in stripped) or
                                       x.op == 'proj' and x.a[0] in stripped and x.a[0].a[3] in (k(46), k('.')) and fc.get(mk('discr', x.a[0])) == IS1 for x in keyarg)
                C.ob(bool(okkey) and len(colls) == 1 or v is None and not got, 'lookup:%s:key' % method, '%s looks for %s' % (method, [short(W, x) for x in keyarg]), 'lookups by full name')
                other = [t for t in fc if not (t.op == 'discr' and (t.a[0] in got or t.a[0] in stripped or t.a[0].op == 'proj' and any(x in got for x in walk(t.a[0]))))]
                C.ob(not other, 'lookup:%s:condition' % method, '%s depends on %s' % (method, [short(W, t) for t in other]), 'lookups by full name')
                g = got[0] if got else None
                if v is not None:
                    ok = d is not None and d[0] is W.pool and d[1].op == 'proj' and g is not None and fc.get(mk('discr', g)) == IS1
                    C.ob(ok, 'lookup:%s:result' % method, '%s returns %s' % (method, short(W, f.ret)), 'lookups by full name')
                    if ok:
                        # Definition.kind@V.0
                        variants.setdefault(kind, set()).add((d[1].a[1], d[1].a[2]))
                        kd = [dd for t, dd in fc.items() if t is mk('discr', d[1].a[0])]
                        C.ob(kd == [('+', frozenset({d[1].a[1]}))], 'lookup:%s:kind' % method, '%s does not check the kind' % method, 'lookups by full name')
                        variants.setdefault('at', set()).add(d[1].a[0].a[2] if d[1].a[0].op == 'proj' else None)
                else:
                    ok = is_none(f.ret)
                    C.ob(ok, 'lookup:%s:none' % method, '%s returns %s' % (method, short(W, f.ret)), 'lookups by full name')
    C.floor('paths of lookups by full name', n, 12)
    # ends without a result: only when there is no entry or one of another kind
    for kind, ty in POOLED.items():
        vs = variants.get(kind, set())
        C.ob(len(vs) == 1, 'lookup:%s:variant' % kind, 'a %s is recognised by %s' % (kind, sorted(vs)), 'lookups by full name')
        C.ob(all(x[1] == 0 for x in vs), 'lookup:%s:payload' % kind, 'the index of a %s is part %s' % (kind, sorted(vs)), 'lookups by full name')
    none_paths(C, W, variants)
    # entries
    own = {next(iter(v))[0]: kd for kd, v in variants.items() if kd in POOLED and len(v) == 1}
    kidx = next(iter(variants['at'])) if len(variants.get('at', ())) == 1 else None
    C.ob(kidx is not None and len(own) == len(POOLED), 'names:kinds', 'kinds of definitions', 'lookups by full name')
    C.floor('kinds found by full name', len(own), 4)
    mapplace = names_place(W)
    C.ob(mapplace is not None, 'names:map', 'the map of full names', 'lookups by full name')
    for key in W.ELEMS:
        kind = W.ELEMS[key][0]
        if kind == 'file':
            packages(C, W, eff, own, kidx)
            continue
        for f, e in eff.claim(C, key, 'entered under its full name', lambda e: e[1] in ('vacant', 'map') and e[2] == mapplace):
            k2, dfn = e[3][0], e[3][1]
            C.ob(W.norm(k2) is W.norm(W.fullname(key)), 'names:%s:key' % key, 'a %s is entered as %s' % (key, short(W, k2)), 'entered under the full name')
            dk = dfn.a[2 + kidx] if dfn.op == 'agg' and kidx is not None and len(dfn.a) > 2 + kidx else None
            if kind in POOLED:
                ok = dk is not None and dk.op == 'agg' and own.get(dk.a[1]) == kind and len(dk.a) == 3 and W.pos(dk.a[2]) is W.pos(W.index(key))
            else:
                ok = dk is not None and dk.op == 'agg' and dk.a[1] not in own
            C.ob(ok, 'names:%s:definition' % key, 'a %s is entered as %s' % (key, short(W, dk) if dk is not None else None), 'entered as what it is')
            if e[1] == 'map':
                unique(C, W, f, e, 'names:%s' % key)


def none_paths(C, W, variants):
    """With an element of the kind under the name, the lookup finds it; without any entry it finds nothing."""
    p = W.p
    fn = [f[0] for f in p.adts[D + 'Definition']['v'][0]['f']] if D + 'Definition' in p.adts else []
    C.ob(bool(fn), 'lookup:definition', 'the layout of a definition is unknown', 'lookups by full name')
    for kind, ty in POOLED.items():
        vs = variants.get(kind, set())
        kidx = variants.get('at', set())
        if len(vs) != 1 or len(kidx) != 1 or not fn:
            continue
        v0 = next(iter(vs))[0]
        x = mk('sym', 'target')
        vals = [mk('sym', 'definition ' + y) for y in fn]
        vals[next(iter(kidx))] = agg(D + 'DefinitionKind', v0, x)
        for what, ans in (('there', some(agg(D + 'Definition', 0, *vals))), ('absent', NONE_OPT)):
            def prep(E, ans=ans):
                for m in GET:
                    E.models[m] = lambda *a, ans=ans: [(a[1], ans)]
            fs = W.get('pool', 'get_%s_by_name' % kind, args=[Q], prep=prep)
            for f in fs:
                ok = f.ret is some(agg(D + ty, 0, W.pool, x)) if what == 'there' else is_none(f.ret)
                C.ob(ok, 'lookup:get_%s_by_name:%s' % (kind, what), 'get_%s_by_name gives %s when the element is %s' % (kind, short(W, f.ret), what), 'lookups by full name')
            C.ob(bool(fs), 'lookup:get_%s_by_name:ends' % kind, 'no result', 'lookups by full name')


def names_place(W):
    fs = W.get('pool', 'get_message_by_name', args=[Q])
    inner = W.proj(W.pool, 0)
    out = set()
    for f in fs or []:
        for t in walk(f.ret):
            if t.op == 'app' and t.a[0].rsplit('::', 1)[-1] in ('get', 'map_get') and len(t.a) == 4:
                pl = path_in(t.a[2], inner)
                out.add(pl)
    return next(iter(out)) if len(out) == 1 else None


def path_in(t, root):
    out = []
    while t is not root:
        if t.op == 'proj':
            out.append(t.a[2])
        elif t.op == 'idx':
            out.append(t.a[1])
        else:
            return None
        t = t.a[0]
    return tuple(reversed(out))


def packages(C, W, eff, own, kidx):
    """A package and its prefixes are entered as packages, which no lookup finds."""
    for (key, ty, q), evs in eff.left.items():
        if key != 'file':
            continue
        for e in list(evs):
            if e[1] == 'vacant':
                dfn = e[3][1]
                dk = dfn.a[2 + kidx] if dfn.op == 'agg' and kidx is not None and len(dfn.a) > 2 + kidx else None
                C.ob(dk is not None and dk.op == 'agg' and len(dk.a) == 2 and dk.a[1] not in own, 'names:package', 'a package is entered as %s' % short(W, dfn), 'entered as what it is')
                evs.remove(e)


def unique(C, W, f, e, key):
    """The path goes on only if the key was new."""
    hit = []
    for t, d in f.facts.items():
        x = t.a[0] if t.op == 'discr' else t
        if x.op != 'app' or e[3][0] not in x.a:
            continue
        what = x.a[0].rsplit('::', 1)[-1]
        if t.op == 'discr' and (what == 'insert' and e[3][1] in x.a or what in ('get', 'get_mut')) or t.op != 'discr' and what == 'contains_key':
            hit.append(d)
    C.ob(IS0 in hit, key + ':unique', 'an entry may replace an earlier one (%s)' % key, 'no entry replaces another')


# ---- maps of the parts of an element
KEYED = [  # owner kind, lookup, child kind, what the key is, must the visitor refuse a second one
    ('message', 'get_field', 'field', 'number', True), ('message', 'get_field_by_name', 'field', 'name', False),
    ('message', 'get_field_by_json_name', 'field', 'json_name', True), ('enum', 'get_value_by_name', 'enum_value', 'name', False)]


def keyed(C, W, eff):
    n = 0
    for owner in W.ELEMS:
        okind = W.ELEMS[owner][0]
        for ok_, method, ckind, prop, uni in KEYED:
            kids = children(W, owner, ckind)
            if okind != ok_ or not kids:
                continue
            fs = W.get(owner, method, args=[Q])
            C.ob(fs is not None, 'lookup:%s' % method, '%s is missing' % method, 'keyed lookups')
            if fs is None:
                continue
            n += 1
            C.inlined(W.last)
            cname = {'field': 'FieldDescriptor', 'enum_value': 'EnumValueDescriptor'}[ckind]
            coll = None
            for f in fs:
                v = some_of(f.ret)
                fc = f.facts
                gets = [t.a[0] for t in fc if t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0].rsplit('::', 1)[-1] == 'get']
                good = len(fc) == 1 and len(gets) == 1 and gets[0].a[2].op == 'coll' and gets[0].a[2].a[0] == owner and gets[0].a[3] is Q
                if v is not None:
                    d = desc(v, cname)
                    ok = good and d is not None and d[0] is W.selfs(owner) and d[1] is W.proj_some(gets[0]) and fc[mk('discr', gets[0])] == IS1
                    coll = gets[0].a[2].a[1] if good else None
                else:
                    ok = is_none(f.ret) and good and fc[mk('discr', gets[0])] == IS0
                C.ob(ok, 'lookup:%s:%s' % (owner, method), '%s of a %s: %s when %s' % (method, owner, short(W, f.ret), [short(W, t) for t in fc]), 'keyed lookups')
            C.ob(len(fs) == 2 and coll is not None, 'lookup:%s:%s:ways' % (owner, method), '%s of a %s' % (method, owner), 'keyed lookups')
            if coll is None:
                continue
            pl = held(W, owner, coll)
            for kid in kids:
                filled(C, W, eff, kid, pl, prop, method, uni)
        n += searched(C, W, eff, owner)
    return n


def filled(C, W, eff, kid, pl, prop, method, uni):
    acc = W.get(kid, prop)
    want = {W.norm(f.ret) for f in acc}
    for f, e in eff.claim(C, kid, 'entered for %s' % method, lambda e: e[1] == 'map' and same(W, e[2], pl)):
        kx = W.norm(e[3][0])
        if all(x.op == 'varies' for x in want):
            # the record says which, on this path
            kx_ok = kx is recorded(W, kid, prop, f)
        else:
            kx_ok = {kx} == want
        C.ob(kx_ok, 'key:%s:%s' % (kid, method), 'a %s is found by %s under %s' % (kid, method, show(kx)[:160]), 'the key is what the accessor returns')
        C.ob(W.pos(e[3][1]) is W.pos(W.index(kid)), 'value:%s:%s' % (kid, method), '%s finds %s for a %s' % (method, short(W, e[3][1]), kid), 'the entry is the element')
        if uni:
            unique(C, W, f, e, 'key:%s:%s' % (kid, method))


def recorded(W, kid, prop, f):
    """What an accessor of the record pushed on this path returns."""
    for (key, ty), finals in W.effects.items():
        if key != kid:
            continue
        for g, evs in finals:
            if g is not f:
                continue
            for e in evs:
                if e[1] == 'push' and e[2] == W.recplace[kid]:
                    old = dict(W.subst)
                    rec = e[3][0]
                    for t, v in list(W.subst.items()):
                        if v is W.recs[kid]:
                            W.subst[t] = rec
                    try:
                        fs = W.get(kid, prop)
                    finally:
                        W.subst = old
                    if fs and len(fs) == 1:
                        return W.norm(fs[0].ret)
    return None


def searched(C, W, eff, owner):
    """get_value: a binary search in the numbers of the enum."""
    if W.ELEMS[owner][0] != 'enum' or not children(W, owner, 'enum_value'):
        return 0
    fs = W.get(owner, 'get_value', args=[Q])
    C.ob(fs is not None, 'lookup:get_value', 'get_value is missing', 'lookups by number')
    if fs is None:
        return 0
    srch = W.last.searched
    C.ob(len(srch) > 0, 'lookup:%s:get_value:search' % owner, 'get_value of an %s does not search' % owner, 'lookups by number')
    coll = None
    part_ = None
    for c, cmp_, el in srch:
        cmp_ = W.norm(cmp_)
        ok = c.op == 'coll' and c.a[0] == owner and cmp_.op == 'app' and cmp_.a[0].endswith('cmp') and len(cmp_.a) == 4 and cmp_.a[3] is Q and \
            cmp_.a[2].op == 'proj' and cmp_.a[2].a[0] is W.norm(el)
        C.ob(ok, 'lookup:%s:get_value:compare' % owner, 'get_value of an %s compares %s' % (owner, show(cmp_)[:160]), 'lookups by number')
        if ok:
            coll, part_ = c, cmp_.a[2].a[2]
    for f in fs:
        v = some_of(f.ret)
        app = [t.a[0] for t in f.facts if t.op == 'discr' and t.a[0].op == 'app' and 'binary_search' in t.a[0].a[0] and t.a[0].a[2] is coll]
        good = len(f.facts) == 1 and len(app) == 1
        if v is not None:
            d = desc(v, 'EnumValueDescriptor')
            ok = good and d is not None and d[0] is W.selfs(owner) and f.facts[mk('discr', app[0])] == IS0
            ix = d[1] if d else k(0)
            ok = ok and ix.op == 'proj' and ix.a[2] != part_ and ix.a[0].op == 'idx' and ix.a[0].a[0] is coll and ix.a[0].a[1] is mk('proj', app[0], 0, 0)
            other = ix.a[2] if ok else None
        else:
            ok = is_none(f.ret) and good and f.facts[mk('discr', app[0])] == IS1
        C.ob(ok, 'lookup:%s:get_value' % owner, 'get_value of an %s: %s when %s' % (owner, short(W, f.ret), [short(W, t) for t in f.facts]), 'lookups by number')
    if coll is None:
        return 1
    pl = held(W, owner, coll.a[1])
    for kid in children(W, owner, 'enum_value'):
        num = {W.norm(f.ret) for f in W.get(kid, 'number')}
        for f, e in eff.claim(C, kid, 'entered for get_value', lambda e: e[1] == 'insert' and same(W, e[2], pl)):
            pos, pair = e[3][0], e[3][1]
            ok = pair.op == 'agg' and len(pair.a) == 4 and {W.norm(pair.a[2 + part_])} == num and W.pos(pair.a[2 + 1 - part_]) is W.pos(W.index(kid))
            C.ob(ok, 'value:%s:get_value' % kid, 'get_value finds %s for a %s' % (short(W, pair), kid), 'the entry is the element')
            # at the position the search in the same list for the same number gave
            while pos.op == 'proj':
                pos = pos.a[0]
            ok = pos.op == 'app' and 'binary_search' in pos.a[0] and W.in_pool(pos.a[2]) is not None and same(W, W.in_pool(pos.a[2]), pl)
            C.ob(ok, 'order:%s:get_value' % kid, 'a %s is entered at %s' % (kid, short(W, e[3][0])), 'the list searched is kept in order')
        ss = W.searched.get(kid, [])
        ok = False
        for c, cmp_, el in ss:
            cmp_ = W.norm(cmp_)
            ok = cmp_.op == 'app' and cmp_.a[0].endswith('cmp') and len(cmp_.a) == 4 and {cmp_.a[3]} == num and cmp_.a[2].op == 'proj' and \
                cmp_.a[2].a[0] is W.norm(el) and cmp_.a[2].a[2] == part_
            C.ob(ok, 'order:%s:compare' % kid, 'a %s is put in order by %s' % (kid, show(cmp_)[:160]), 'the list searched is kept in order')
        C.ob(ok, 'order:%s:search' % kid, 'the position of a %s is not searched' % kid, 'the list searched is kept in order')
    return 1


# ---- extensions of a message
def extensions(C, W, eff):
    n = 0
    # where an extension is entered: the list of the message its own accessor reports
    for key in W.ELEMS:
        if W.ELEMS[key][0] != 'extension':
            continue
        lists = set()
        fn = scanned(W, 'message')
        for f, e in eff.claim(C, key, 'entered in its message', lambda e: e[1] == 'push' and len(e[2]) == 3 and e[2][0] == W.recplace['message'][0] and
                              e[2] != W.recplace[key] and len(e[3]) == 1):
            C.ob(W.pos(e[3][0]) is W.pos(W.index(key)), 'extension:%s:entry' % key, 'a message gets %s as an extension' % short(W, e[3][0]), 'an extension is entered in the message it extends')
            lists.add(e[2][2])
            owner = extendee(W, key, f)
            ok = owner is not None and W.pos(W.norm(owner)) is W.pos(W.norm(e[2][1]))
            C.ob(ok, 'extension:%s:message' % key, 'an extension of %s is entered in %s' % (short(W, owner) if owner is not None else None, short(W, e[2][1])),
                 'an extension is entered in the message it extends')
        C.ob(lists == {fn}, 'extension:%s:list' % key, 'extensions are entered in part %s and looked for in part %s' % (sorted(lists), fn),
             'an extension is entered in the message it extends')
    for owner in W.ELEMS:
        if W.ELEMS[owner][0] != 'message':
            continue
        for method, prop in (('get_extension', 'number'), ('get_extension_by_full_name', 'full_name'), ('get_extension_by_json_name', 'json_name')):
            fs = W.get(owner, method, args=[Q])
            C.ob(fs is not None, 'lookup:%s' % method, '%s is missing' % method, 'lookups of extensions')
            if fs is None:
                continue
            n += 1
            C.inlined(W.last)
            found = 0
            for f in fs:
                v = some_of(f.ret)
                if v is None:
                    C.ob(is_none(f.ret) and not f.facts, 'lookup:%s:%s:none' % (owner, method), '%s of a %s finds nothing when %s' % (method, owner, [short(W, t) for t in f.facts]), 'lookups of extensions')
                    continue
                found += 1
                d = desc(v, 'ExtensionDescriptor')
                ok = d is not None and d[0] is W.pool and d[1].op == 'elem' and d[1].a[0].op == 'coll' and d[1].a[0].a[0] == owner
                C.ob(ok, 'lookup:%s:%s:result' % (owner, method), '%s of a %s returns %s' % (method, owner, short(W, f.ret)), 'lookups of extensions')
                if not ok:
                    continue
                want = W.of(v, prop)
                fc = list(f.facts.items())
                ok = len(fc) == 1 and fc[0][0].op in ('bin', 'app', 'Eq') and fc[0][1] == IS1
                sides = set()
                if ok:
                    sides = {W.norm(x) for x in fc[0][0].a if isinstance(x, T)}
                ok = ok and is_eq(fc[0][0]) and sides == {Q, W.norm(want)}
                C.ob(ok, 'lookup:%s:%s:match' % (owner, method), '%s of a %s finds an extension when %s' % (method, owner, [(short(W, t), str(x)) for t, x in fc]), 'lookups of extensions')
            C.ob(found > 0, 'lookup:%s:%s:ends' % (owner, method), '%s of a %s never finds one' % (method, owner), 'lookups of extensions')
    return n


def is_eq(t):
    if t.op == 'bin':
        return 'Eq' in [x for x in t.a if isinstance(x, str)]
    return t.op == 'Eq' or t.op == 'app' and t.a[0].rsplit('::', 1)[-1] == 'eq'


def scanned(W, owner):
    r = W.get(owner, 'extensions', yields=True)
    for st, v in (r[1] if r else []):
        d = desc(v, 'ExtensionDescriptor') if v is not None else None
        if d and d[1].op == 'elem' and d[1].a[0].op == 'coll':
            a = W.p.adts[W.recs[owner].a[0]]
            return [f[0] for f in a['v'][0]['f']].index(d[1].a[0].a[1])
    return None


def extendee(W, key, f):
    """The index of the message an extension recorded on this path reports as the one it extends."""
    for (k2, ty), finals in W.effects.items():
        if k2 != key:
            continue
        for g, evs in finals:
            if g is not f:
                continue
            for e in evs:
                if e[1] == 'push' and e[2] == W.recplace[key]:
                    old = dict(W.subst)
                    for t, v in list(W.subst.items()):
                        if v is W.recs[key]:
                            W.subst[t] = e[3][0]
                    try:
                        fs = W.get(key, 'containing_message')
                    finally:
                        W.subst = old
                    d = desc(fs[0].ret, 'MessageDescriptor') if fs and len(fs) == 1 else None
                    return d[1] if d else None
    return None


# ---- oneofs
def oneofs(C, W, eff):
    n = 0
    fkeys = ['field', 'nested field']
    for member in (True, False):
        w2 = World(W.p)
        sc = w2.scenario(packed='no options', oneof=member)
        w2.build(sc, keys=['file', 'message', 'nested', 'oneof', 'nested oneof'])
        w2.build(sc, keys=fkeys, more=True)
        if any(x not in w2.recs for x in fkeys):
            C.ob(False, 'oneof:record', 'fields are not recorded', 'membership of oneofs')
            continue
        e2 = Effects(w2)
        for key in fkeys:
            parent = w2.ELEMS[key][2]
            okey = [x for x in w2.ELEMS if w2.ELEMS[x][2] == parent and w2.ELEMS[x][0] == 'oneof'][0]
            part_ = oneof_list(w2, okey)
            def test(e):
                return e[1] == 'push' and len(e[2]) == len(w2.recplace[okey]) + 2 and same(w2, e[2][:len(w2.recplace[okey])], w2.recplace[okey])
            if member:
                for f, e in e2.claim(C, key, 'entered in its oneof', test):
                    st = W.pos(w2.norm(e[2][-2]))
                    C.ob(st is mk('sym', 'oneof index'), 'oneof:%s:which' % key, 'a %s is entered in oneof %s' % (key, show(st)[:120]), 'membership of oneofs')
                    C.ob(e[2][-1] == part_, 'oneof:%s:list' % key, 'a %s is entered in part %s, members are listed from part %s' % (key, e[2][-1], part_), 'membership of oneofs')
                    C.ob(W.pos(e[3][0]) is W.pos(w2.index(key)), 'oneof:%s:entry' % key, 'a oneof gets member %s' % short(w2, e[3][0]), 'membership of oneofs')
            else:
                hit = [e for (k2, ty, q), evs in e2.left.items() if k2 == key for e in evs if test(e)]
                C.ob(not hit, 'oneof:%s:stray' % key, 'a %s outside of oneofs is entered in one' % key, 'membership of oneofs')
            for f in w2.get(key, 'containing_oneof') or [None]:
                n += 1
                if f is None:
                    C.ob(False, 'lookup:containing_oneof', 'containing_oneof is missing', 'membership of oneofs')
                    continue
                v = some_of(f.ret)
                d = desc(v, 'OneofDescriptor') if v is not None else None
                ok = member and d is not None and d[0] is w2.selfs(parent) and W.pos(d[1]) is mk('sym', 'oneof index') or not member and is_none(f.ret)
                C.ob(ok, 'oneof:%s:containing:%s' % (key, member), 'containing_oneof of a %s %s a oneof is %s' % (key, 'in' if member else 'outside of', short(w2, f.ret)), 'membership of oneofs')
    # in the full world: claim them
    for key in W.ELEMS:
        if W.ELEMS[key][0] == 'field':
            for (k2, ty, q), evs in eff.left.items():
                if k2 == key:
                    for e in list(evs):
                        if e[1] == 'push' and len(e[2]) == 5 and e[2][0] == W.recplace['message'][0] and W.pos(e[3][0]) is W.pos(W.index(key)):
                            evs.remove(e)
    return n


def oneof_list(W, okey):
    r = W.get(okey, 'fields', yields=True)
    for st, v in (r[1] if r else []):
        d = desc(v, 'FieldDescriptor') if v is not None else None
        if d and d[1].op == 'elem' and d[1].a[0].op == 'coll':
            a = W.p.adts[W.recs[okey].a[0]]
            return [f[0] for f in a['v'][0]['f']].index(d[1].a[0].a[1])
    return None


# ---- listings
OVER = {  # (owner kind, listing): (descriptor, where its index comes from)
    'pool': [('files', 'FileDescriptor', 'file'), ('all_messages', 'MessageDescriptor', 'message'), ('all_enums', 'EnumDescriptor', 'enum'),
             ('all_extensions', 'ExtensionDescriptor', 'extension'), ('services', 'ServiceDescriptor', 'service')],
    'message': [('fields', 'FieldDescriptor', 'field'), ('oneofs', 'OneofDescriptor', 'oneof'), ('extensions', 'ExtensionDescriptor', None)],
    'enum': [('values', 'EnumValueDescriptor', 'enum_value')],
    'service': [('methods', 'MethodDescriptor', 'method')],
    'oneof': [('fields', 'FieldDescriptor', None)],
}
SCOPED = {'file': [('messages', 'MessageDescriptor', 'message_type', 1), ('enums', 'EnumDescriptor', 'enum_type', 6),
                   ('extensions', 'ExtensionDescriptor', 'extension', 8), ('services', 'ServiceDescriptor', 'service', 4)],
          'message': [('child_messages', 'MessageDescriptor', 'nested_type', 1), ('child_enums', 'EnumDescriptor', 'enum_type', 6),
                      ('child_extensions', 'ExtensionDescriptor', 'extension', 8)]}
ITER = {'iter:map', 'iter:proj', 'iter:enumerate'}


def bare(t):
    """Nothing that drops, repeats or reorders."""
    return all(x.op != 'agg' or not str(x.a[0]).startswith('iter:') or x.a[0] in ITER for x in walk(t))


def listings(C, W):
    n = 0
    for key in ['pool'] + list(W.ELEMS):
        kind = 'pool' if key == 'pool' else W.ELEMS[key][0]
        for method, adt, child in OVER.get(kind, []):
            if key != 'pool' and child is not None and not children(W, key, child):
                continue
            r = W.get(key, method, yields=True)
            C.ob(r is not None, 'list:%s:%s' % (kind, method), '%s is missing' % method, 'listings')
            if r is None:
                continue
            n += 1
            C.inlined(W.last)
            for f in r[0]:
                C.ob(bare(f.ret) and not f.facts, 'list:%s:%s:order' % (key, method), '%s of a %s reorders or drops elements: %s' % (method, key, short(W, f.ret)), 'listings')
            ys = [(st, v) for st, v in r[1] if v is not None]
            C.ob(len(ys) > 0, 'list:%s:%s:empty' % (key, method), '%s of a %s yields nothing' % (method, key), 'listings')
            for st, v in ys:
                d = desc(v, adt)
                own = W.pool if key == 'pool' or adt in POOLED.values() or adt == 'FileDescriptor' else W.selfs(key) if kind != 'oneof' else W.selfs(W.ELEMS[key][2])
                ok = d is not None and d[0] is own and over(C, W, key, d[1], child)
                C.ob(ok, 'list:%s:%s' % (key, method), '%s of a %s yields %s' % (method, key, short(W, v)), 'listings')
        for method, adt, fname, var in SCOPED.get(kind, []):
            r = W.get(key, method, yields=True)
            C.ob(r is not None, 'list:%s:%s' % (kind, method), '%s is missing' % method, 'listings')
            if r is None:
                continue
            n += 1
            C.inlined(W.last)
            scoped(C, W, key, method, adt, fname, r)
    return n


def over(C, W, key, ix, child):
    """The index runs over all elements of the owner."""
    ix = W.pos(ix)
    if ix.op == 'proj' and ix.a[0].op == 'elem':
        # the index in a pair (key, index)
        c = ix.a[0].a[0]
        return c.op == 'coll' and c.a[0] == key
    if ix.op == 'elem':
        c = ix.a[0]
        if c.op == 'coll':
            return c.a[0] == key
        if c.op == 'agg' and c.a[0].endswith('ops::range::Range'):
            l = W.pos(c.a[3])
            if c.a[2] is not k(0) or not (l.op == 'app' and l.a[0] == 'len'):
                return False
            if key == 'pool':
                return path_in(l.a[2], W.proj(W.pool, 0)) == W.recplace[child]
            kid = children(W, key, child)[0]
            return l.a[2].op == 'coll' and l.a[2].a[0] == key and same(W, held(W, key, l.a[2].a[1]), W.recplace[kid])
    return False


def scoped(C, W, key, method, adt, fname, r):
    """Declarations are found under the full name of the scope and their name."""
    S_el = W.norm(W.elem(W.ELEMS[key][1])[0])
    coll = part(S_el, fname)
    nm = part(mk('each', coll), 'name')
    pkg = part(mk('file'), 'package')
    for f in r[0]:
        C.ob(bare(f.ret), 'list:%s:%s:order' % (key, method), '%s of a %s reorders or drops elements: %s' % (method, key, short(W, f.ret)), 'listings')
    seen = 0
    for st, v in r[1]:
        if v is None:
            continue
        seen += 1
        d = desc(v, adt)
        g = d[1] if d else None
        ok = d is not None and d[0] is W.pool and g.op == 'proj'
        gets = [x for x in walk(g) if x.op == 'app' and x.a[0].rsplit('::', 1)[-1] in ('get', 'map_get') and len(x.a) == 4] if ok else []
        ok = ok and len(gets) == 1
        if ok:
            q = gets[0].a[3]
            while q.op == 'proj' and q.a[0].op == 'app' and q.a[0].a[0].endswith('strip_prefix'):
                q = q.a[0].a[2]
            lit = literal(q)
            lit = flat([W.norm(x) if isinstance(x, T) else x for x in lit]) if lit is not None else [W.norm(q)]
            if W.ELEMS[key][0] == 'file':
                empty = [dd for t, dd in st.facts.items() if t.op == 'app' and t.a[0] == 'len' and W.norm(t.a[2]) is pkg]
                want = [pkg, '.', nm] if empty == [('-', frozenset({0}))] else [nm] if empty == [IS0] else None
            else:
                want = [W.norm(W.fullname(key)), '.', nm]
            ok = want is not None and lit == want
        C.ob(ok, 'list:%s:%s' % (key, method), '%s of a %s yields %s' % (method, key, short(W, v)), 'listings')
    C.ob(seen > 0, 'list:%s:%s:empty' % (key, method), '%s of a %s yields nothing' % (method, key), 'listings')


# ---- files
def dependencies(C, W, eff):
    fs = W.get('pool', 'get_file_by_name', args=[Q])
    C.ob(fs is not None, 'lookup:get_file_by_name', 'get_file_by_name is missing', 'files by name')
    inner = W.proj(W.pool, 0)
    pl = None
    for f in fs or []:
        v = some_of(f.ret)
        gets = [t.a[0] for t in f.facts if t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0].rsplit('::', 1)[-1] == 'get']
        good = len(f.facts) == 1 and len(gets) == 1 and gets[0].a[3] is Q
        if v is not None:
            d = desc(v, 'FileDescriptor')
            ok = good and d is not None and d[0] is W.pool and d[1] is W.proj_some(gets[0])
            pl = path_in(gets[0].a[2], inner) if ok else None
        else:
            ok = good and is_none(f.ret) and f.facts[mk('discr', gets[0])] == IS0
        C.ob(ok, 'lookup:get_file_by_name:result', 'get_file_by_name: %s when %s' % (short(W, f.ret), [short(W, t) for t in f.facts]), 'files by name')
    for f, e in eff.claim(C, 'file', 'entered under its name', lambda e: e[1] == 'map' and e[2] == pl):
        C.ob(W.norm(e[3][0]) is part(mk('file'), 'name') and W.pos(e[3][1]) is W.index('file'), 'key:file', 'a file is entered as %s' % [short(W, x) for x in e[3]], 'files by name')
        unique(C, W, f, e, 'key:file')
    for method in ('dependencies', 'public_dependencies'):
        r = W.get('file', method, yields=True)
        C.ob(r is not None, 'list:file:' + method, '%s is missing' % method, 'dependencies')
        if r is None:
            continue
        for f in r[0]:
            C.ob(bare(f.ret), 'list:file:%s:order' % method, '%s reorders or drops files: %s' % (method, short(W, f.ret)), 'dependencies')
        ys = [v for st, v in r[1] if v is not None]
        C.ob(len(ys) > 0, 'list:file:%s:empty' % method, '%s yields nothing' % method, 'dependencies')
        for v in ys:
            d = desc(v, 'FileDescriptor')
            ok = d is not None and d[0] is W.pool and d[1].op == 'proj' and d[1].a[0].op == 'app' and d[1].a[0].a[0].rsplit('::', 1)[-1] == 'get' and \
                path_in(d[1].a[0].a[2], inner) == pl
            q = W.norm(d[1].a[0].a[3]) if ok else None
            deps = part(mk('file'), 'dependency')
            if method == 'dependencies':
                ok = ok and q is mk('each', deps)
            else:
                ok = ok and q.op == 'at' and q.a[0] is deps and public(W, q.a[1])
            C.ob(ok, 'list:file:' + method, '%s yields %s' % (method, short(W, v)), 'dependencies')
    fs = W.get('enum', 'default_value')
    for f in fs or [None]:
        d = desc(f.ret, 'EnumValueDescriptor') if f is not None else None
        C.ob(d is not None and d[0] is W.selfs('enum') and d[1] is k(0) and not f.facts, 'default:enum', 'the default of an enum is not its first value', 'the first value')
    for method, num in (('map_entry_key_field', 1), ('map_entry_value_field', 2)):
        fs = W.get('message', method)
        C.ob(bool(fs), 'lookup:%s' % method, '%s never returns' % method, 'map entries')
        ref = [some_of(f.ret) for f in W.get('message', 'get_field', args=[k(num)])]
        for f in fs or []:
            C.ob(f.ret in ref, 'lookup:%s:number' % method, '%s is %s' % (method, short(W, f.ret)), 'map entries')
    # the files a file sees
    for (key, ty, q), evs in eff.left.items():
        if key != 'file':
            continue
        for e in list(evs):
            if e[0] and e[1] in ('push', 'insert', 'set', 'extend') and len(e[2]) == 3 and e[2][0] == W.recplace['file'][0]:
                evs.remove(e)


def public(W, t):
    """An entry of the list of public dependencies."""
    t = W.pos(t)
    if t.op == 'elem' and t.a[0].op == 'proj':
        fs = V.struct_fields(W.p, 'prost_types::protobuf::FileDescriptorProto')
        return t.a[0].a[0].op == 'prost' and fs and fs[t.a[0].a[2]] == 'public_dependency'
    t = W.norm(t)
    return t.op == 'each' and t.a[0] is part(mk('file'), 'public_dependency')
