"""Rejected additions: the rollback, and what the stages before it can have changed.

(1) Every public function that adds files is executed symbolically with the stages (the functions that collect, resolve and
    validate, each returning Result<(), DescriptorError>) left opaque.  On every path on which a stage ran and the function
    returns an error, the last things to happen are the restorations: each list of the pool is cut to the length it had on
    entry, the two maps are filtered by a predicate that keeps exactly what points below those lengths (packages: what is the
    package, or a parent package, of a remaining file), and so is the extension list of every remaining message.
(2) Every visitor of the stages runs on a generic element of each kind: everything it changes in the pool, by a call or an
    assignment, with or without reporting an error, is one of the restored collections or belongs to the element's own (new) record.
(3) A file whose name the pool already has is filtered out before the stages see it, so map insertions replace nothing."""
from prv import visit as V
from prv.tables import *
from prv.checks.c24 import changes

LEVEL = 'proof'
RES = 'core::result::Result<(), prost_reflect::descriptor::error::DescriptorError>'
G_UNDO = 'on error, each collection of the pool is cut back to its old entries'
G_PRED = 'the filters keep the old entries and nothing else'
G_STAGE = 'what validation changes in the pool is restored or new'
G_DUP = 'known files never reach validation'


def returning(p):
    out = {}
    for n in p.fn_by_name:
        b = p.bodies.get(p.fn_by_name[n][0]['key'])
        if b is not None and '{' not in n and '::tests::' not in n and p.ts(b.locals[0]) == RES:
            out[n] = b
    return out


def reach(p, key, stop):
    seen, todo = set(), [key]
    while todo:
        x = todo.pop()
        for y in p.callees(x):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    return seen & stop


def find(p):
    """(the public functions that add files to a pool, the stages)"""
    R = returning(p)
    keys = {b.key for b in R.values()}
    pool = 'prost_reflect::descriptor::DescriptorPool'
    api, stages = [], []
    for n, b in R.items():
        args = [p.ts(b.locals[i + 1]) for i in range(b.argc)]
        public = p.fn_by_name[n][0].get('pub')
        if public and args[:1] == ['&mut ' + pool]:
            api.append(n)
        elif not public and any(a in ('&mut ' + pool, '&' + pool, '&mut ' + pool + 'Inner', '&' + pool + 'Inner') for a in args):
            if len(reach(p, b.key, keys) - {b.key}) < 3:
                stages.append(n)
    return sorted(api), sorted(stages)


def uncast(t):
    while t.op == 'cast':
        t = [x for x in t.a if isinstance(x, T)][0]
    return t


def vals(d, universe):
    """The values of a set of facts ('+', in) / ('-', not in)"""
    return {x for x in universe if (x in d[1]) == (d[0] == '+')}


class Relation:
    """How a package name relates to a name: equal, parent (the name, a dot, more), sibling (the name, something else), other."""
    ALL = ('equal', 'parent', 'sibling', 'other')
    WANT = {'equal': 1, 'parent': 1, 'sibling': 0, 'other': 0}

    def __init__(self, name, package):
        self.name, self.package = name, package

    def peel(self, t):
        while t.op == 'app' and t.a[0].endswith(('::as_bytes', '::as_ref', '::as_str', '::deref', '::borrow')) and len(t.a) == 3:
            t = t.a[2]
        return t

    def value(self, t, r):
        """What a term is under a relation: an int, ('byte', set), or None when unknown."""
        t = self.peel(t)
        if isk(t):
            return kv(t)
        if t.op == 'discr':
            v = self.value(t.a[0], r)
            return v[0] if isinstance(v, tuple) and v[0] in (0, 1) else None
        if t.op == 'proj' and t.a[1] == 1:
            v = self.value(t.a[0], r)
            return v[1] if isinstance(v, tuple) and v[0] == 1 else None
        if t.op == 'idx' and isk(t.a[1]) and kv(t.a[1]) == 0:
            v = self.value(t.a[0], r)
            return {'parent': 'dot', 'sibling': 'nodot'}.get(v[1]) if isinstance(v, tuple) and v[0] == 'rest' else None
        if t.op in ('eq', 'ne') or t.op == 'app' and t.a[0].endswith(('::eq', '::ne')):
            a, b = [self.peel(x) for x in t.a if isinstance(x, T)][:2]
            if {a, b} == {self.name, self.package}:
                return int((r == 'equal') == (not (t.op == 'ne' or t.op == 'app' and t.a[0].endswith('::ne'))))
            va, vb = self.value(a, r), self.value(b, r)
            if va == 'dot' or vb == 'dot':
                o = kv(b) if isk(b) else kv(a) if isk(a) else None
                return int(o == 46) if o is not None else None
            return None
        if t.op != 'app':
            return None
        n, args = t.a[0], [self.peel(x) for x in t.a[2:]]
        if n.endswith('::starts_with') and args == [self.package, self.name]:
            return int(r != 'other')
        if n.endswith('::strip_prefix') and args == [self.package, self.name]:
            return (0, None) if r == 'other' else (1, ('rest', r))
        if n.endswith('::get') and args[:1] == [self.package] and self.length(args[1]):
            return {'equal': (0, None), 'parent': (1, 'dot'), 'sibling': (1, 'nodot'), 'other': None}[r]
        v = self.value(args[0], r) if args else None
        if isinstance(v, tuple) and v[0] == 'rest':
            if n.endswith('is_empty'):
                return int(r == 'equal')
            if n.rsplit('::', 1)[-1] == 'len':
                return 0 if r == 'equal' else 'nodot'
            if n.endswith('::starts_with') and isk(args[1]) and kv(args[1]) in ('.', 46):
                return int(r == 'parent')
        return None

    def length(self, t):
        return (t.op == 'len' or t.op == 'app' and t.a[0].rsplit('::', 1)[-1] == 'len') and self.peel([x for x in t.a if isinstance(x, T)][-1]) is self.name

    def admits(self, t, d, r):
        v = self.value(t, r)
        if v is None or isinstance(v, tuple):
            return True
        if v == 'dot':
            return bool(vals(d, {46}))
        if v == 'nodot':
            return d[0] == '-' or bool(d[1] - {46 if t.op == 'idx' or t.op == 'proj' else 0})
        return bool(vals(d, {v}))


class Undo:
    def __init__(self, p, C, W, E, fn, stages, kinds, lists, names, files, ext):
        self.p, self.C, self.W, self.E, self.stages = p, C, W, E, stages
        self.me = fn.rsplit('::', 1)[-1]
        self.sym = mk('self')
        self.nth = {lists[x]: x + 's' for x in ('file', 'message', 'enum', 'extension', 'service')}
        self.nth.update({list(names)[0]: 'names', list(files)[0]: 'file_names'})
        adt = list(kinds.values())[0][2]
        self.kinds = {v: (kinds[v][0], self.nth[kinds[v][1]]) if v in kinds else ('package', None) for v in range(len(p.adts[adt]['v']))}
        C.ob([x for x in self.kinds.values() if x[1] is None] == [('package', None)], 'kinds', 'some kind of definition is never registered', G_PRED)
        self.ext = list(ext)[0]

    def coll(self, t):
        """The pool collection a place is: its name, or ('each', list, field) for a field of an element of a list."""
        if t.op == 'proj' and t.a[1] is None:
            r = t.a[0]
            if self.root(r):
                return self.nth.get(t.a[2])
            if r.op == 'elem':
                c = self.value(r.a[0])
                if c is not None:
                    return ('each', c, t.a[2])
        return None

    def value(self, t):
        """The collection whose current value a term is."""
        if t.op == 'out':
            cs = {self.coll(x) for x in self.E.outof.get(t.a[1], ())}
            if len(cs) == 1:
                return cs.pop()
        return self.coll(t)

    def root(self, t):
        """What the pool's own Arc points to"""
        while t.op == 'proj':
            t = t.a[0]
        if t.op == 'app' and t.a[0].endswith(('Arc::get_mut', 'Arc::make_mut')):
            return self.own(t.a[2])
        return t.op == 'out' and t.a[0] in self.stages

    def own(self, t):
        while t.op in ('proj', 'upd'):
            t = t.a[0]
        return t is self.sym or t.op == 'out' and (t.a[0].endswith('Arc::make_mut') or t.a[0] in self.stages)

    def length(self, t):
        """The list a term is the length of, on entry (or after it was cut)."""
        t = uncast(t)
        if t.op == 'len' or t.op == 'app' and t.a[0].rsplit('::', 1)[-1] == 'len':
            x = [y for y in t.a if isinstance(y, T)][-1]
            if x.op == 'out' and x.a[0].endswith('truncate'):
                return self.value(x)
            if x.op == 'proj' and x.a[1] is None:
                r = x.a[0]
                while r.op == 'proj':
                    r = r.a[0]
                if r is self.sym:
                    return self.nth.get(x.a[2])
        return None

    def truth(self, st, v, cond):
        """Is the boolean v, in the state, exactly `payload < length of the list`?  cond(t) recognises that term."""
        v = self.E.canon(st, v)
        if isk(v):
            for t, d in st.facts.items():
                if cond(t):
                    return vals(d, {0, 1}) == {int(kv(v))}
            return False
        return cond(v)

    def less(self, payload, lst):
        def f(t):
            return t.op == 'lt' and uncast(t.a[0]) is payload and self.length(t.a[1]) == lst
        return f

    def names(self, pl, res):
        C, E = self.C, self.E
        d = mk('each', pl, 1)
        kinds = {}
        for st, v in res:
            for t, f in st.facts.items():
                if t.op == 'discr' and t.a[0].op == 'proj' and t.a[0].a[0] is d:
                    kinds.setdefault(t, []).append((st, v, f))
        if len(kinds) != 1 or len(list(kinds.values())[0]) != len(res):
            return C.ob(False, 'rollback:names:kind', 'the filter of the names does not decide by the kind of definition', G_PRED)
        disc, rows = list(kinds.items())[0]
        for variant, (what, lst) in sorted(self.kinds.items()):
            mine = [(st, v) for st, v, f in rows if vals(f, {variant})]
            if lst is None:
                self.packages(mk('each', pl, 0), mine)
                continue
            payload = mk('proj', disc.a[0], variant, 0)
            ok = len(mine) > 0 and all(self.truth(st, v, self.less(payload, lst)) for st, v in mine)
            C.ob(ok, 'rollback:names:%s' % what, 'the name of a %s is not kept exactly when its index is below the old number of %s' % (what, lst), G_PRED)

    def packages(self, name, rows):
        C, E = self.C, self.E
        rows = [y for st, v in rows for y in self.turns(st, v)]
        pk = set()
        for st, v in rows:
            for t in list(st.facts) + [E.canon(st, v)]:
                for x in walk(t):
                    if x.op == 'app' and x.a[0].endswith('::package') and len(x.a) == 3:
                        pk.add(x)
        ok = len(pk) == 1
        if ok:
            src = list(pk)[0].a[2]
            ok = src.op == 'proj' and src.a[0].op == 'elem' and self.value(src.a[0].a[0]) == 'files' and src.a[0].a[0].op == 'out'
        if not C.ob(ok, 'rollback:names:package:of', 'a package name is not compared with the package of each remaining file', G_PRED):
            return
        R = Relation(name, list(pk)[0])
        for r in R.ALL:
            got = set()
            for st, v in rows:
                v = E.canon(st, v)
                if all(R.admits(t, d, r) for t, d in st.facts.items()):
                    looked = any(list(pk)[0] in walk(t) for t in st.facts) or list(pk)[0] in walk(v)
                    x = R.value(v, r)
                    if isk(v) and kv(v) == 0 and not looked:
                        continue            # no (further) file
                    got.add(x)
            want = {1} if R.WANT[r] else set()
            C.ob(got - {0} == want, 'rollback:names:package:%s' % r, 'a name is %s when the package of a remaining file is %s' % (
                'dropped' if R.WANT[r] else 'kept', {'equal': 'that name', 'parent': 'inside it', 'sibling': 'only a longer word', 'other': 'another'}[r]), G_PRED)

    def turns(self, st, v):
        """A flag that a loop raises: the outcomes of one turn."""
        E = self.E
        v = E.canon(st, v)
        if v.op != 'phi' or not hasattr(st, 'turn'):
            return [(st, v)]
        init, ys = st.turn
        if init is None or not (isk(init) and kv(init) == 0) or any(y is None or isk(y) and kv(y) == 0 for _, y in ys):
            return [(st, v)]
        out = [(st, init)]
        for fc, y in ys:
            s = State()
            s.facts = {t: d for t, d in fc if d[0] in '+-'}
            out.append((s, init if y is v else y))
        return out

    def retain(self, where, pl):
        """The predicate of a filter of collection `where`."""
        C, E = self.C, self.E
        rs = [x for x in E.retained if x[1] is pl]
        if not C.ob(len(rs) > 0, 'rollback:%s:filter' % (where,), 'no predicate for the filter of %s' % (where,), G_PRED):
            return
        for _, _, m, res in rs:
            if where == 'names':
                self.names(pl, res)
            elif where == 'file_names':
                ok = len(res) > 0 and all(self.truth(st, v, self.less(mk('each', pl, 1), 'files')) for st, v in res)
                C.ob(ok, 'rollback:file_names', 'the index of files by name does not keep exactly the old files', G_PRED)
            else:
                ok = len(res) > 0 and all(self.truth(st, v, self.less(mk('each', pl, 0), 'extensions')) for st, v in res)
                C.ob(ok, 'rollback:extensions of messages', 'the extensions of a message are not cut back to the old ones', G_PRED)

    def final(self, f):
        """What happens after the last stage of a path."""
        C = self.C
        tr = list(f.trace)
        ats = [i for i, e in enumerate(tr) if not isinstance(e, tuple) and e.a[0] == 'stage']
        inner = [e for e in tr if isinstance(e, tuple) and any(x.a[0] == 'stage' for _, x in self.W_flat([e]))]
        C.ob(not inner, 'rollback:%s:loop' % self.me, 'a stage runs in a loop', G_UNDO)
        if not ats:
            return 'none'
        if not (f.ret.op == 'agg' and f.ret.a[1] == 1 or f.ret.op == 'agg' and f.ret.a[0][1] == 1):
            return 'ok'
        done, pos = {}, 0
        stage = tr[ats[-1]]
        for i, e in enumerate(tr):
            if isinstance(e, tuple):
                bodies = [[x for x in b if not isinstance(x, tuple)] for _, b in e[1]]
                places = [{x.a[2] for x in b if x.a[0] == 'mut' and kv(x.a[1]) == 'retain'} for b in bodies]
                if i > ats[-1] and places:
                    for pl in set.intersection(*places):
                        c = self.coll(pl)
                        if c is not None:
                            done[c] = (i, pl, ())
                continue
            if e.a[0] != 'mut':
                continue
            lab, pl = kv(e.a[1]), e.a[2]
            c = self.coll(pl)
            if c is None:
                continue
            if i < ats[-1] or lab not in ('truncate', 'retain'):
                C.ob(False, 'rollback:%s:%s:%s' % (self.me, lab, c), '%s changes %s of the pool beside the stages and the rollback' % (self.me, c), G_UNDO)
                continue
            done[c] = (i, pl, e.a[3:] if lab == 'truncate' else ())
        for x in ('files', 'messages', 'enums', 'extensions', 'services'):
            ok = x in done and done[x][2] and self.length(done[x][2][0]) == x
            C.ob(bool(ok), 'rollback:%s:%s' % (self.me, x), 'when %s fails, %s leaves %s as validation left them' % (self.stage_of(f, stage), self.me, x), G_UNDO)
        for x in ('names', 'file_names', ('each', 'messages', self.ext)):
            lab = x if isinstance(x, str) else 'extensions of messages'
            if C.ob(x in done, 'rollback:%s:%s' % (self.me, lab), 'when %s fails, %s leaves the %s as validation left them' % (self.stage_of(f, stage), self.me, lab), G_UNDO):
                self.retain(lab if not isinstance(x, str) else x, done[x][1])
        if all(x in done for x in ('files', 'names')):
            C.ob(done['files'][0] < done['names'][0], 'rollback:%s:order' % self.me, 'packages are compared before the files are cut', G_UNDO)
        return 'err'

    def given(self, made, fs):
        """(3) The files the stages get are those whose name the pool does not have."""
        C, E = self.C, self.E
        seen = set()
        for f in fs:
            for e in self.W_flat(f.trace):
                e = e[1]
                if e.a[0] != 'stage':
                    continue
                for x in e.a[2:]:
                    while x.op in ('deref', 'slice'):
                        x = x.a[0]
                    if x.op == 'app' and x.a[0] == 'collect' and x in made and any(self.known(t) for s, _ in made[x] for t in s.facts):
                        seen.add(x)
        if not seen:
            return self.pushed(fs)
        C.ob(len(seen) > 0, 'known files:%s' % self.me, 'the files given to the stages are not a list of those new to the pool', G_DUP)
        for x in seen:
            rows = made.get(x, [])
            ok = len(rows) > 0
            for s, el in rows:
                ok = ok and any(self.unknown(t, d, el) for t, d in s.facts.items())
            C.ob(ok, 'known files:%s' % self.me, '%s gives files the pool already has to the stages' % self.me, G_DUP)

    def pushed(self, fs):
        """The list is filled in a loop, or filtered in place."""
        C, E = self.C, self.E
        n = 0
        for f in fs:
            tr = list(f.trace)
            first = min([i for i, e in enumerate(tr) if not isinstance(e, tuple) and e.a[0] == 'stage'], default=None)
            if first is None:
                continue
            n += 1
            ok = False
            for e in tr[:first]:
                if isinstance(e, tuple):
                    rows = [(fc, b) for fc, b in e[1] if any(not isinstance(x, tuple) and x.a[0] == 'mut' and kv(x.a[1]) == 'push' and x.a[2].op == 'local' for x in b)]
                    ok = ok or len(rows) > 0 and all(any(self.unknown(t, d, None) for t, d in fc) for fc, b in rows)
                elif e.a[0] == 'mut' and kv(e.a[1]) == 'retain' and e.a[2].op == 'local':
                    for _, pl, m, res in E.retained:
                        if pl is e.a[2]:
                            ok = len(res) > 0
                            for s, v in res:
                                v = E.canon(s, v)
                                if isk(v):
                                    ok = ok and (not kv(v) or any(self.unknown(t, d, None) for t, d in s.facts.items()))
                                else:
                                    x, d = v, ('+', frozenset([1]))
                                    while x.op.lower() == 'not' or x.op == 'un' or x.op == 'app' and x.a[0] in ('Not', 'not'):
                                        x, d = [y for y in x.a if isinstance(y, T)][-1], ('+', frozenset([1 - list(d[1])[0]]))
                                    ok = ok and self.unknown(x, d, None)
            C.ob(ok, 'known files:%s' % self.me, 'the files given to the stages are not those new to the pool', G_DUP)
        C.ob(n > 0, 'known files:%s:none' % self.me, 'no stage runs', G_DUP)

    def known(self, t):
        return self.unknown(t, ('+', frozenset([0])), None)

    def unknown(self, t, d, el):
        if t.op == 'discr':
            t = t.a[0]
        if t.op != 'app' or len(t.a) < 4 or not t.a[0].endswith(('::contains_key', '::get')):
            return False
        c = t.a[2]
        r = c
        while r.op == 'proj':
            r = r.a[0]
        if r is not self.sym or c.op != 'proj' or self.nth.get(c.a[2]) != 'file_names':
            return False
        key = t.a[3]
        return vals(d, {0, 1}) == {0} and any(y.op == 'app' and y.a[0].endswith('::name') for y in walk(key))

    def W_flat(self, tr):
        out = []
        self.W.flat(tr, out)
        return out

    def stage_of(self, f, ev):
        for t in walk(f.ret):
            if t.op == 'app' and t.a[0] in self.stages:
                return t.a[0].rsplit('::', 1)[-1]
        return 'a stage'


def model(W):
    """From what the visitors register: the lists {key kind: number}, the maps, the kinds of definition, the extension list."""
    lists = {key: W.recplace[key][0] for key in W.recplace if len(W.recplace[key]) == 1}
    names, files, kinds = set(), set(), {}
    for (key, ty), fs in W.effects.items():
        for f, evs in fs:
            for looped, op, pl, args in evs:
                if op == 'vacant' and len(pl) == 1 and pl[0] not in ('carried', 'elsewhere'):
                    names.add(pl[0])
                    for x in args[1:]:
                        for y in walk(W.norm(x)):
                            if y.op == 'agg' and len(y.a) == 3 and y.a[1] is not None and y.a[2].op in ('sym', 'cast') and \
                                    W.p.adts.get(y.a[0], {}).get('kind') == 'enum':
                                for k2 in lists:
                                    if y.a[2] is W.index(k2):
                                        kinds[y.a[1]] = (key, lists[k2], y.a[0])
                elif op == 'map' and len(pl) == 1:
                    files.add(pl[0])
    return lists, names, files, kinds


def inside(W, r, vis, pf, own):
    """What a function found, given only parts of the element's own record (or nothing of the visitor's)"""
    for x in r.a[2:]:
        if not isinstance(x, T):
            continue
        if W.rooted(x, vis):
            pl = W.norm_place(x, vis, pf)
            if pl is None or len(pl) < 2 or not isinstance(pl[1], T) or W.norm(pl[1]) not in own:
                return False
            continue
        b = x
        while b.op in ('proj', 'idx', 'sub'):
            b = b.a[0]
        if b.op == 'app':
            if not inside(W, b, vis, pf, own):
                return False
        elif vis in walk(b):
            return False
    return True


def touched(C, W, lists, names, files):
    """(2) What the visitors change."""
    own = {W.norm(us(W.index(key))) for key in W.ELEMS} | {W.norm(W.index(key)) for key in W.ELEMS}
    ext, n = set(), 0
    for key in W.ELEMS:
        kind = W.ELEMS[key][0]
        for ty in sorted(W.visitors):
            if not W.visitors[ty].get(kind):
                continue
            n += 1
            pf = W.visitor_pool(ty)
            vis = mk('visitor')
            for f, failed, evs in W.visit(ty, kind, W.visit_args(key), V.concrete, ('find_file_field_proto_mut',)):
                what = [(op, pl, args) for _, op, pl, args in evs]
                for a in f.st.mem:
                    if not isinstance(a, T) or f.st.mem[a] is a:
                        continue
                    if not W.rooted(a, vis):
                        r = a
                        while r.op in ('proj', 'idx', 'sub'):
                            r = r.a[0]
                        C.ob(r.op != 'app' or inside(W, r, vis, pf, own), 'change:%s:%s' % (key, r.a[0] if r.op == 'app' else r.op),
                             'visiting a %s changes what %s found' % (key, r.a[0]), G_STAGE)
                        continue
                    for pl, v in changes(f.st.mem[a], a, W.last):
                        if v.op == 'out':
                            continue            # left by a call, reported as such
                        q = W.norm_place(pl, vis, pf)
                        if q is not None and q not in {x[1] for x in what if x[0] != 'assign'}:
                            what.append(('assign', q, (v,)))
                for op, pl, args in what:
                    pl = tuple(W.norm(x) if isinstance(x, T) else x for x in pl)
                    lab = 'change:%s:%s' % (key, '.'.join(str(x) if not isinstance(x, T) else '*' for x in pl))
                    if op == 'unknown':
                        C.ob(False, lab, 'visiting a %s fills an entry of an unknown map' % key, G_STAGE)
                    elif pl and pl[0] in ('carried', 'elsewhere'):
                        pass
                    elif len(pl) == 1 and pl[0] in set(lists.values()):
                        C.ob(op == 'push', lab, 'visiting a %s changes a list of the pool by %s' % (key, op), G_STAGE)
                    elif len(pl) == 1 and pl[0] in names | files:
                        C.ob(op in ('entry', 'vacant', 'map'), lab, 'visiting a %s changes a map of the pool by %s' % (key, op), G_STAGE)
                    elif len(pl) >= 2 and pl[0] in set(lists.values()) and isinstance(pl[1], T) and pl[1] in own:
                        C.ob(True, lab, '', G_STAGE)
                    elif len(pl) == 3 and pl[0] == lists.get('message') and op == 'push' and args and W.norm(args[0]) is W.norm(W.index(key)) and kind == 'extension':
                        ext.add(pl[2])
                        C.ob(True, lab, '', G_STAGE)
                    else:
                        C.ob(False, lab, 'visiting a %s changes %s of the pool, which may be older than the addition, by %s' % (
                            key, '.'.join(show(x)[:60] if isinstance(x, T) else str(x) for x in pl), op), G_STAGE)
    return ext, n


def beside(C, W, p, stages, lists):
    """What the stages change in the pool beside the visitors: parts of files they were told about."""
    walkers = [n for n in p.fn_by_name if n.endswith('build::visit::visit')]
    n = 0
    for s in stages:
        b = p.bodies[p.fn_by_name[s][0]['key']]
        if not p.ts(b.locals[1]).startswith('&mut'):
            continue
        n += 1
        E = engine(p)
        E.opaque |= set(walkers) | {x for x in p.fn_by_name if x.endswith('::set_file_option')}
        me = s.rsplit('::', 1)[-1]
        for f in E.run(s, args={0: mk('me'), 1: mk('offsets'), 2: mk('files')}):
            evs = []
            W.flat(f.trace, evs)
            places = [e.a[2] for _, e in evs if e.a[0] == 'mut']
            for a in f.st.mem:
                if isinstance(a, T) and f.st.mem[a] is not a:
                    places += [pl for pl, v in changes(f.st.mem[a], a, E) if v.op != 'out']
            for pl in places:
                t, inner, pool = pl, [], False
                while t.op in ('proj', 'idx', 'sub', 'elem') or t.op == 'app' and t.a[0].endswith(('Arc::get_mut', 'Arc::make_mut')) or \
                        t.op == 'upd':
                    inner.append(t)
                    t = t.a[2] if t.op == 'app' else t.a[0]
                if not (t.op == 'me' or t.op == 'out' and t.a[0] in walkers):
                    continue
                ok = False
                for x in inner:
                    if x.op == 'idx':
                        c = x.a[0]
                        while c.op == 'upd':
                            c = c.a[0]
                        ok = ok or c.op == 'proj' and c.a[2] == lists['file'] and any(y.op == 'elem' for y in walk(x.a[1]))
                C.ob(ok, 'stage:%s' % me, '%s changes %s of the pool' % (me, show(pl)[:120]), G_STAGE)
        C.inlined(E)
    C.floor('stages that change the pool', n, 3)


def run(p, C):
    api, stages = find(p)
    C.floor('functions that add files', len(api), 5)
    C.floor('stages', len(stages), 4)
    W = World(p)
    W.build(W.scenario())
    lists, names, files, kinds = model(W)
    C.floor('kinds of definition', len(kinds), 8)
    if not C.ob(len(names) == 1 and len(files) == 1 and not names & files, 'maps', 'the maps of names and of files are not found', G_STAGE):
        return
    ext, n = touched(C, W, lists, names, files)
    C.floor('visits', n, 30)
    if not C.ob(len(ext) == 1, 'extension list', 'the extension list of messages is not found', G_STAGE):
        return
    beside(C, W, p, stages, lists)
    for fn in api:
        E = engine(p)
        E.watch = {s: 'stage' for s in stages}
        E.opaque |= set(stages)
        given = collecting(E)
        fs = E.run(fn, args={0: mk('self'), 1: mk('files')})
        C.inlined(E)
        U = Undo(p, C, W, E, fn, stages, kinds, lists, names, files, ext)
        got = [U.final(f) for f in fs]
        C.floor('%s: ways to fail in a stage' % U.me, got.count('err'), 4)
        C.ob(got.count('ok') > 0, 'ends:%s' % U.me, '%s never succeeds' % U.me, G_UNDO)
        U.given(given, fs)


def collecting(E):
    """Lists made by collect, with the states in which each element got in."""
    out = {}
    for nm in ('core::iter::traits::iterator::Iterator::collect',):
        old = E.models[nm]

        def f(E_, st, fr, b, c, args, tys, dt, old=old):
            rows = E.iter_next(E, st.copy(), fr, b, args[0])
            r = old(E_, st, fr, b, c, args, tys, dt)
            for s, t in r or []:
                out.setdefault(t, []).extend((s2, E.canon(s2, e)) for s2, e in rows if e is not None)
            return r
        E.models[nm] = f
    return out
