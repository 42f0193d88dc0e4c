"""What the visitors put into a pool for each element of a file, and a small world of elements to evaluate accessors in."""
from .terms import *
from .engine import Engine, State, some, NONE_OPT, Limit
from . import visit as V

D = 'prost_reflect::descriptor::'
MUT = {'alloc::vec::Vec::push': 'push', 'alloc::vec::Vec::insert': 'insert', 'std::collections::hash::map::HashMap::insert': 'map',
       'alloc::collections::btree::map::BTreeMap::insert': 'map', 'std::collections::hash::set::HashSet::insert': 'set',
       'std::collections::hash::map::HashMap::entry': 'entry', 'std::collections::hash::map::VacantEntry::insert': 'vacant',
       'std::collections::hash::map::entry::VacantEntry::insert': 'vacant', 'std::collections::hash::map::Entry::or_insert': 'or_insert',
       'alloc::vec::Vec::extend': 'extend', 'core::iter::traits::collect::Extend::extend': 'extend', 'alloc::vec::Vec::truncate': 'truncate',
       'alloc::vec::Vec::retain': 'retain', 'alloc::collections::btree::map::BTreeMap::retain': 'retain', 'alloc::vec::Vec::drain': 'drain',
       'std::collections::hash::set::HashSet::retain': 'retain', 'alloc::vec::Vec::split_off': 'split_off', 'alloc::vec::Vec::dedup': 'dedup',
       'std::collections::hash::map::HashMap::clear': 'clear', 'alloc::collections::btree::map::BTreeMap::clear': 'clear',
       'alloc::vec::Vec::clear': 'clear', 'std::collections::hash::map::HashMap::retain': 'retain', 'alloc::vec::Vec::remove': 'remove',
       'alloc::vec::Vec::pop': 'pop', 'std::collections::hash::map::HashMap::remove': 'remove',
       'alloc::collections::btree::map::BTreeMap::remove': 'remove', 'alloc::vec::Vec::swap_remove': 'remove'}
for _m in ('std::collections::hash::map::OccupiedEntry', 'std::collections::hash::map::entry::OccupiedEntry',
           'alloc::collections::btree::map::entry::OccupiedEntry'):
    for _f in ('get_mut', 'into_mut', 'insert', 'remove', 'remove_entry'):
        MUT[_m + '::' + _f] = 'occupied'
for _m in ('std::collections::hash::map::HashMap', 'alloc::collections::btree::map::BTreeMap'):
    for _f in ('values_mut', 'iter_mut', 'get_mut'):
        MUT.setdefault(_m + '::' + _f, 'alter')
ENTRY = ('vacant', 'occupied')
# searches and checks that only report errors; what they do is the subject of other properties
SEARCH = ('resolve_name', 'parse_field_default_value', 'check_field_number', 'check_enum_number', 'find_file_field_proto_mut',
          'check_message_field_camel_case_names', 'to_json_name')

f_, i_, j_, l_ = mk('sym', 'file'), mk('sym', 'i'), mk('sym', 'j'), mk('sym', 'l')


def arr(*x):
    return mk('agg', 'array', 0, *[k(y) if isinstance(y, int) else y for y in x])


def us(x):
    return mk('cast', 'usize', x, 'u32')


def place(E, st, ref):
    base, path = E.pointee(ref)
    t = base if isinstance(base, T) else mk('local', str(base))
    for el in path:
        if el[0] == 'f':
            t = mk('proj', t, el[1], el[2])
        elif el[0] == 'i':
            t = mk('idx', t, el[1])
        else:
            t = mk('sub', t, *[x if isinstance(x, T) else k(str(x)) for x in el[1:]])
    return t


def named(p, names):
    return [n for n in p.fn_by_name if n.rsplit('::', 1)[-1] in names and not n.startswith(V.TYPES)]


def engine(p, keep=(), getters=True):
    """An engine that reports changes of collections with the place of the collection."""
    search = named(p, [x for x in SEARCH if x not in keep])
    def finder(n):
        b = p.bodies.get(p.fn_by_name[n][0]['key'])
        return b is not None and p.ts(b.locals[0]).startswith('core::option::Option<&') and p.ts(b.locals[0]).endswith(D + 'Definition>')
    search = [n for n in search if '::tests::' not in n and '{' not in n and n not in keep and not finder(n)]
    protos = [n for n in p.fn_by_name if n.startswith(V.TYPES) and not n.rsplit('::', 1)[-1].startswith('set_')]
    labels = [n for n in p.fn_by_name if n.startswith(D + 'error::Label')]
    E = Engine(p, opaque=protos + labels, max_steps=4000000)
    V.strings(E)
    searching(E)
    E.searches = search
    E.finders = [n for n in p.fn_by_name if n.startswith(D + 'build::') and '{' not in n and finder(n)]
    E.exact_paths = True
    E.retained = []
    E.outof = {}

    def quiet(n):
        def f(E_, st, fr, b, c, args, tys, dt):
            return [(st, mk('app', n, None, *[E.canon(st, a, i < len(tys) and E.is_ref(tys[i])) for i, a in enumerate(args)
                                              if not (i < len(tys) and E.is_mutref(tys[i]))]))]
        return f
    for n in search:
        E.models[n] = quiet(n)
    for m, lab in MUT.items():
        old = E.models.get(m)

        def f(E_, st, fr, b, c, args, tys, dt, m=m, old=old, lab=lab):
            is_ref = args and (args[0].op == 'ref' or tys and E.is_mutref(tys[0]))
            if lab in ENTRY:
                E.event(st, 'mut', k(lab), E.canon(st, args[0]), *[E.canon(st, a) for a in args[1:]])
            elif is_ref:
                E.outof.setdefault(E.site(fr, b), set()).add(place(E, st, args[0]))
                if lab == 'retain':
                    # what the predicate says about one entry
                    pl = place(E, st, args[0])
                    els = [mk('each', pl, j) for j in range(2 if 'Map' in m else 1)]
                    res = E.call_value(st.copy(), fr, b, args[1], None, els, [])
                    for s_, v_ in res:
                        if v_ is not None and v_.op == 'phi' and v_ in E.phi_in:
                            s_.turn = E.phi_in[v_]
                    E.retained.append((len(st.trace), pl, m, res))
                E.event(st, 'mut', k(lab), place(E, st, args[0]),
                        *[E.canon(st, a, i + 1 < len(tys) and E.is_ref(tys[i + 1])) for i, a in enumerate(args[1:])])
            return old(E_, st, fr, b, c, args, tys, dt) if old else None
        E.models[m] = f
    return E


def searching(E):
    """Binary searches record what their comparison computes for an element of the searched list."""
    for nm in ('<[T]>::binary_search_by', '<[T]>::partition_point', '<[T]>::binary_search_by_key'):
        def f(E_, st, fr, b, c, args, tys, dt, nm=nm):
            coll = E.canon(st, args[0], True)
            el = mk('each', coll)
            clos = args[-1]
            if nm.endswith('by_key'):
                res = [(s, mk('app', 'cmp', None, v, E.canon(s, args[1], True))) for s, v in E.call_value(st.copy(), fr, b, clos, None, [el], [])]
            else:
                res = E.call_value(st.copy(), fr, b, clos, None, [el], [])
            for s, v in res:
                E.searched.append((coll, E.canon(s, v), el))
            return None
        E.models[nm] = f
    E.searched = []


VEC = {'file': 'File', 'message': 'Message', 'enum': 'Enum', 'service': 'Service', 'extension': 'Extension'}


class World:
    """Elements at every kind of place of a file, and what the pool holds for them."""

    def __init__(self, p):
        self.p = p
        self.bad = {}
        self.n = 0
        self.sch = V.schema()
        self.E0 = Engine(p)
        self.st0 = State()
        self.layout()
        self.visitors = self.find_visitors()
        files, _ = self.syntax_at
        fa = p.adts[D + 'FileDescriptorInner'] if D + 'FileDescriptorInner' in p.adts else None
        raws = [i for i, f in enumerate(fa['v'][0]['f']) if p.ts(f[1]) == V.TYPES + 'FileDescriptorProto'] if fa else []
        # the file proto as the visitors see it in the pool
        self.rawplaces = {self.proj(mk('visitor'), self.visitor_pool(ty), files, us(f_), r) for ty in self.visitors for r in raws}

    # ---- discovery
    def find_visitors(self):
        out = {}
        for n in self.p.fn_by_name:
            if ' as ' + V.VISITOR[:-2] + '>::visit_' in n:
                ty = n[1:].split(' as ')[0]
                a = self.p.adts.get(ty.split('<')[0])
                if a is None:
                    self.bad['visitor', ty] = 'the layout of a visitor is unknown'
                elif not any(self.mut_pool(f[1]) for f in a['v'][0]['f']):
                    continue
                out.setdefault(ty, {})[n.rsplit('visit_', 1)[1]] = n
        return out

    def mut_pool(self, ty):
        t = self.p.types[ty]
        return t['k'] == 'ref' and t.get('m') and self.pool_adt in t['s']

    def layout(self):
        """The fields of the pool, of the visitors and of the protos."""
        p = self.p
        self.pool_adt = None
        for n, a in p.adts.items():
            if n == D + 'DescriptorPool':
                t = a['v'][0]['f'][0][1]
                s = p.ts(t)
                self.pool_adt = s[s.index('<') + 1:-1] if '<' in s else s
        a = p.adts.get(self.pool_adt)
        if a is None:
            raise Limit('the pool has no known layout')
        for q, f in enumerate(a['v'][0]['f']):
            if 'FileDescriptorInner' in p.ts(f[1]) and p.ts(f[1]).startswith('alloc::vec::Vec<'):
                fa = p.adts[p.ts(f[1])[16:-1]]
                for r, g in enumerate(fa['v'][0]['f']):
                    if p.ts(g[1]).endswith('Syntax'):
                        self.syntax_at = (q, r)
                        self.syntax_adt = p.ts(g[1])
        self.pool_fields = [(f[0], p.ts(f[1])) for f in a['v'][0]['f']]

    def proj(self, t, *path):
        for x in path:
            t = self.E0.get1(self.st0, t, ('f', None, x) if isinstance(x, int) else ('i', x))
        return t

    def visitor_pool(self, ty):
        """Which field of a visitor is the pool."""
        a = self.p.adts.get(ty.split('<')[0])
        for i, f in enumerate(a['v'][0]['f']):
            if self.pool_adt in self.p.ts(f[1]):
                return i
        return None

    # ---- protos
    def fidx(self, adt, name):
        fs = V.struct_fields(self.p, adt)
        return fs.index(name) if fs and name in fs else None

    def elem(self, path, root=None, pre=None):
        """The element at a path of numbers below a file proto, as (term, proto name)."""
        pre = pre or V.TYPES
        root = root or mk('raw')
        t, name = root, 'FileDescriptorProto'
        for num, pos in path:
            fname = [f for f, n in self.sch[name].items() if n == num][0]
            i = self.fidx(pre + name, fname)
            t = self.proj(t, i, mk('cast', 'usize', pos, 'i32'))
            name = {('FileDescriptorProto', 'message_type'): 'DescriptorProto', ('FileDescriptorProto', 'enum_type'): 'EnumDescriptorProto',
                    ('FileDescriptorProto', 'service'): 'ServiceDescriptorProto', ('FileDescriptorProto', 'extension'): 'FieldDescriptorProto',
                    ('DescriptorProto', 'nested_type'): 'DescriptorProto', ('DescriptorProto', 'enum_type'): 'EnumDescriptorProto',
                    ('DescriptorProto', 'extension'): 'FieldDescriptorProto', ('DescriptorProto', 'field'): 'FieldDescriptorProto',
                    ('DescriptorProto', 'oneof_decl'): 'OneofDescriptorProto', ('EnumDescriptorProto', 'value'): 'EnumValueDescriptorProto',
                    ('ServiceDescriptorProto', 'method'): 'MethodDescriptorProto'}[name, fname]
        return t, name

    # ---- running the visitors
    def visit(self, ty, kind, args, assume=None, keep=()):
        """Final states without an error, with the changes each made: [(final, [(op, place, args)])]."""
        fn = self.visitors[ty].get(kind)
        if fn is None:
            return []
        E = engine(self.p, keep)
        if assume:
            assume(E)
        vis = mk('visitor')
        if kind in ('field', 'extension'):
            E.subst = dict(E.subst or {})
            for x, v in getattr(E, 'elemfix', {}).items():
                E.subst[self.proj(args[-1], x)] = v
        fs = E.run(fn, args=dict(enumerate([vis] + list(args))))
        pf = self.visitor_pool(ty)
        out = []
        for f in fs:
            evs = []
            failed = False
            for ev in self.flat(f.trace, evs):
                pass
            res = []
            for looped, ev in evs:
                if ev.a[0] != 'mut':
                    continue
                lab, where, vals = kv(ev.a[1]), ev.a[2], ev.a[3:]
                if lab in ENTRY:
                    # an entry known to be vacant: the map and the key come from the entry
                    e = where
                    while e.op == 'proj':
                        e = e.a[0]
                    if e.op != 'app' or not e.a[0].endswith('::entry') or len(e.a) < 4:
                        res.append((looped, 'unknown', (), (where,) + vals))
                        continue
                    pl = self.norm_place(e.a[2], vis, pf)
                    if pl is None and e.a[2].op == 'phi' and looped:
                        pl = ('carried',)
                    res.append((looped, lab, pl if pl is not None else ('elsewhere',), (e.a[3],) + vals))
                    continue
                pl = self.norm_place(where, vis, pf)
                if pl is None:
                    if self.rooted(ev.a[2], vis) and not looped:
                        failed = True
                    continue
                res.append((looped, kv(ev.a[1]), pl, ev.a[3:]))
            out.append((f, failed, res))
        self.n += len(out)
        self.last = E
        return out

    def flat(self, tr, out, looped=False):
        for ev in tr:
            if isinstance(ev, tuple):
                for _, e in ev[1]:
                    self.flat(e, out, True)
            else:
                out.append((looped, ev))
        return ()

    def rooted(self, t, vis):
        while t.op in ('proj', 'idx', 'sub'):
            t = t.a[0]
        return t is vis

    def norm_place(self, t, vis, pf):
        """A place in the pool as a tuple of field numbers and index terms."""
        out = []
        if t.op == 'app' and t.a[0].endswith('entry'):
            return None
        while t.op in ('proj', 'idx'):
            out.append(t.a[2] if t.op == 'proj' else t.a[1])
            t = t.a[0]
        out.reverse()
        if t is not vis or not out or out[0] != pf:
            return None
        return tuple(out[1:])

    # ---- the world
    ELEMS = {
        # key: (kind, path, key of the parent)
        'file': ('file', (), None),
        'message': ('message', ((4, i_),), None),
        'nested': ('message', ((4, i_), (3, j_)), 'message'),
        'enum': ('enum', ((5, i_),), None),
        'nested enum': ('enum', ((4, i_), (4, j_)), 'message'),
        'service': ('service', ((6, i_),), None),
        'extension': ('extension', ((7, i_),), None),
        'nested extension': ('extension', ((4, i_), (6, j_)), 'message'),
        'oneof': ('oneof', ((4, i_), (8, mk('sym', '#oneof'))), 'message'),
        'field': ('field', ((4, i_), (2, mk('sym', '#field'))), 'message'),
        'nested field': ('field', ((4, i_), (3, j_), (2, mk('sym', '#nested field'))), 'nested'),
        'nested oneof': ('oneof', ((4, i_), (3, j_), (8, mk('sym', '#nested oneof'))), 'nested'),
        'enum value': ('enum_value', ((5, i_), (2, mk('sym', '#enum value'))), 'enum'),
        'nested enum value': ('enum_value', ((4, i_), (4, j_), (2, mk('sym', '#nested enum value'))), 'nested enum'),
        'deep': ('message', ((4, i_), (3, j_), (3, l_)), 'nested'),
        'deep enum': ('enum', ((4, i_), (3, j_), (4, l_)), 'nested'),
        'deep extension': ('extension', ((4, i_), (3, j_), (6, l_)), 'nested'),
        'deep field': ('field', ((4, i_), (3, j_), (3, l_), (2, mk('sym', '#deep field'))), 'deep'),
        'deep enum value': ('enum_value', ((4, i_), (3, j_), (4, l_), (2, mk('sym', '#deep enum value'))), 'deep enum'),
        'method': ('method', ((6, i_), (2, mk('sym', '#method'))), 'service'),
    }
    COLL = ('alloc::vec::Vec<', 'std::collections::hash::map::HashMap<', 'alloc::collections::btree::map::BTreeMap<',
            'std::collections::hash::set::HashSet<')

    def index(self, key):
        if key == 'file':
            return f_
        kind = self.ELEMS[key][0]
        if kind in V.GLOBAL:
            return mk('sym', '#' + key)
        # the position in the parent
        return mk('cast', 'u32', mk('sym', '#' + key), 'usize')

    def fullname(self, key):
        kind, path, parent = self.ELEMS[key]
        el, pn = self.elem(path)
        return mk('agg', 'str', 0, mk('sym', 'scope of ' + key), k('.'), mk('app', V.TYPES + pn + '::name', None, el))

    def visit_args(self, key):
        kind, path, parent = self.ELEMS[key]
        el, pn = self.elem(path)
        pth = arr(*[x for step in path for x in step])
        if kind == 'file':
            return [pth, f_, el]
        a = [pth, self.fullname(key), f_]
        if kind in ('message', 'enum', 'extension'):
            a.append(some(self.index(parent)) if parent else NONE_OPT)
        elif kind != 'service':
            a.append(self.index(parent))
        return a + [self.index(key), el]

    def build(self, assume=None, keys=None, keep=(), more=False):
        self.pool = mk('pool')
        inner = self.proj(self.pool, 0)
        if not more:
            self.searched = {}
            self.subst = {}
            self.effects = {}
            self.records = {}
        for key in keys or self.ELEMS:
            kind, path, parent = self.ELEMS[key]
            for ty in sorted(self.visitors):
                for f, failed, evs in self.visit(ty, kind, self.visit_args(key), assume, keep):
                    if failed:
                        continue
                    self.effects.setdefault((key, ty), []).append((f, evs))
                if self.visitors[ty].get(kind):
                    self.searched.setdefault(key, []).extend(self.last.searched)
        # records: what is pushed to the vector elements of the kind live in
        for key in keys or self.ELEMS:
            kind, path, parent = self.ELEMS[key]
            recs = {}
            for (k2, ty), finals in self.effects.items():
                if k2 != key:
                    continue
                for f, evs in finals:
                    for looped, op, pl, args in evs:
                        if op == 'push' and args and args[0].op == 'agg' and args[0].a[0].startswith(D) and \
                                args[0].a[0] in self.p.adts and self.p.adts[args[0].a[0]]['kind'] == 'struct':
                            recs.setdefault((ty, pl), []).append((f, args[0]))
            self.records[key] = recs
            if len(recs) != 1:
                self.bad['record', key] = '%s: elements are recorded in %d places' % (key, len(recs))
                continue
            (ty, pl), rs = list(recs.items())[0]
            n = len(self.effects[key, ty])
            if len(rs) != n:
                self.bad['record-once', key] = '%s: recorded %d times in %d ways to visit it' % (key, len(rs), n)
            rec = rs[0][1]
            a = self.p.adts[rec.a[0]]
            vals = []
            for q, (x, (fn, fty, _)) in enumerate(zip(rec.a[2:], a['v'][0]['f'])):
                if any(r.a[2 + q] is not x for _, r in rs):
                    x = mk('varies', key, fn)
                if self.p.ts(fty).startswith(self.COLL):
                    if not (x.op == 'agg' and x.a[0] == 'array' and len(x.a) == 2 or x.op == 'app' and
                            x.a[0].rsplit('::', 1)[-1] in ('new', 'with_capacity') or x.op == 'app' and x.a[0].startswith('default:')):
                        self.bad['record-empty', key, fn] = '%s: %s does not start empty' % (key, fn)
                    x = mk('coll', key, fn)
                elif kind == 'file' and fn in ('raw', 'prost'):
                    x = mk('raw') if fn == 'raw' else mk('prost')
                vals.append(x)
            self.recs = getattr(self, 'recs', {})
            self.recs[key] = agg(rec.a[0], rec.a[1], *vals)
            self.recplace = getattr(self, 'recplace', {})
            self.recplace[key] = pl
            # where it is found afterwards
            t = inner
            for x in pl:
                t = self.lookup(self.proj(t, x))
            ix = self.index(key)
            self.subst[self.proj(t, us(ix))] = self.recs[key]
            if ix.op == 'cast':
                self.subst[self.proj(t, mk('sym', '#' + key))] = self.recs[key]

    def lookup(self, t):
        r = self.subst.get(t)
        if r is not None:
            return r
        if t.op == 'proj' and t.a[0].op == 'agg':
            return t.a[0].a[2 + t.a[2]]
        return t

    def selfs(self, key):
        """The descriptor value of an element."""
        kind, path, parent = self.ELEMS[key]
        t = {'file': 'FileDescriptor', 'message': 'MessageDescriptor', 'enum': 'EnumDescriptor', 'service': 'ServiceDescriptor',
             'extension': 'ExtensionDescriptor', 'field': 'FieldDescriptor', 'oneof': 'OneofDescriptor', 'method': 'MethodDescriptor',
             'enum_value': 'EnumValueDescriptor'}[kind]
        up = self.pool if kind in V.GLOBAL else self.selfs(parent)
        return agg(D + t, 0, up, self.index(key))

    def get(self, key, method, args=(), opaque=(), yields=False, prep=None):
        s = self.selfs(key) if key != 'pool' else self.pool
        fn = (s.a[0] if key != 'pool' else D + 'DescriptorPool') + '::' + method
        if fn not in self.p.fn_by_name:
            return None
        protos = [n for n in self.p.fn_by_name if n.startswith(V.TYPES)]
        E = Engine(self.p, opaque=protos + list(opaque), max_steps=4000000)
        V.strings(E)
        V.concrete(E)
        searching(E)
        E.subst = self.subst
        if prep:
            prep(E)
        fs = E.run(fn, args=dict(enumerate([s] + list(args))))
        self.last = E
        self.n += 1
        if yields:
            from .slots import yields as Y
            out = []
            for f in fs:
                for st, v in Y(E, f):
                    out.append((st, None if v is None else E.canon(st, v)))
            return fs, out
        return fs

    # ---- reading results
    def typed(self, t):
        """A place in a file proto as (normal term, type)."""
        if t.op == 'raw' or t in self.rawplaces:
            return mk('file'), V.TYPES + 'FileDescriptorProto'
        if t.op == 'prost':
            return mk('file'), 'prost_types::protobuf::FileDescriptorProto'
        if t.op == 'idx':
            r = self.typed(t.a[0])
            if r and r[1].startswith('alloc::vec::Vec<'):
                return mk('at', r[0], self.pos(t.a[1])), r[1][16:-1]
        if t.op == 'elem':
            r = self.typed(t.a[0])
            if r and r[1].startswith('alloc::vec::Vec<'):
                return mk('each', r[0]), r[1][16:-1]
        if t.op == 'proj':
            r = self.typed(t.a[0])
            if r:
                if r[1].startswith('core::option::Option<'):
                    return r[0], r[1][21:-1]
                name = r[1].split('<')[0]
                a = self.p.adts.get(name)
                if a and t.a[2] < len(a['v'][0]['f']):
                    fn, ft, _ = a['v'][0]['f'][t.a[2]]
                    ts = self.p.ts(ft)
                    if name.endswith('types::Options'):
                        ts = ts if ts.startswith('alloc') else r[1][len(name) + 1:-1]
                    return mk('part', r[0], fn), ts
        if t.op == 'app' and '::' in t.a[0] and len(t.a) == 3:
            r = self.typed(t.a[2])
            own = t.a[0].rsplit('::', 1)
            if r and r[1].rsplit('::', 1)[-1].split('<')[0] == own[0].rsplit('::', 1)[-1].split('<')[0]:
                return mk('part', r[0], own[1].replace('r#', '')), 'value'
        return None

    def pos(self, t):
        while t.op == 'cast':
            t = t.a[1]
        return t

    def norm(self, t, memo=None):
        memo = {} if memo is None else memo
        if t in memo:
            return memo[t]
        r = self.typed(t)
        if r is not None:
            memo[t] = r[0]
            return r[0]
        if t.op == 'app' and t.a[0].rsplit('::', 1)[-1] in ('index', 'slice') and len(t.a) >= 4 and t.a[2].op == 'agg' and t.a[2].a[0] == 'str':
            rg = t.a[3]
            if rg.op == 'agg' and rg.a[0].endswith('RangeFrom'):
                l = V.lin(rg.a[2])
                ps = t.a[2].a[2:]
                for q in range(len(ps) + 1):
                    if l is not None and V.lin(mk('app', 'len', None, mk('agg', 'str', 0, *ps[:q]))) == l:
                        rest = ps[q:]
                        v = rest[0] if len(rest) == 1 else mk('agg', 'str', 0, *rest)
                        memo[t] = self.norm(v, memo)
                        return memo[t]
        out = mk(t.op, *[self.norm(x, memo) if isinstance(x, T) else x for x in t.a])
        memo[t] = out
        return out

    # ---- scenarios
    def scenario(self, label='Optional', ty='Int32', refers=None, proto3_optional=None, oneof=None, packed=None, syntax=None,
                 json_name=None, default=None):
        """Fixes what a field proto says; what stays None is left open."""
        p = self.p
        fd = 'prost_types::protobuf::field_descriptor_proto::'

        def variant(adt, name):
            for v in p.adts[adt]['v']:
                if v['n'] == name:
                    return agg(adt, p.adts[adt]['v'].index(v))
            raise Limit('no %s::%s' % (adt, name))

        def const(v):
            return lambda E_, st, fr, b, c, args, tys, dt: [(st, v)]

        def assume(E):
            F = V.TYPES + 'FieldDescriptorProto::'
            for getter, v in (('label', variant(fd + 'Label', label)), ('type', variant(fd + 'Type', ty)),
                              ('type_name', k('') if refers is None else mk('sym', 'type name'))):
                E.models[F + getter] = const(v)
                E.opaque.discard(F + getter)
            if proto3_optional is not None:
                E.models[F + 'proto3_optional'] = const(k(int(proto3_optional)))
                E.opaque.discard(F + 'proto3_optional')
            if refers is not None:
                E.models['<str>::is_empty'] = self.nonempty(E, E.models['<str>::is_empty'])
            adt = V.TYPES + 'FieldDescriptorProto'
            ix = {x: self.fidx(adt, x) for x in ('options', 'oneof_index', 'json_name', 'default_value')}
            kinds = {v['n']: n for n, v in enumerate(p.adts[D + 'DefinitionKind']['v'])}

            E.elemfix = fix = {}
            if oneof is not None:
                fix[ix['oneof_index']] = some(mk('sym', 'oneof index')) if oneof else NONE_OPT
            if json_name is not None:
                fix[ix['json_name']] = some(mk('sym', 'json name')) if json_name else NONE_OPT
            if default is not None:
                fix[ix['default_value']] = some(mk('sym', 'default')) if default else NONE_OPT
            if packed is not None:
                fix[ix['options']] = NONE_OPT if packed == 'no options' else some(mk('sym', 'options'))
            E.packed = packed
            # the value of the packed option
            if packed is not None and packed != 'no options':
                oa = 'prost_types::protobuf::FieldOptions'
                pi = self.fidx(oa, 'packed')
                ui = self.fidx(oa, 'uninterpreted_option')
                vi = self.fidx(V.TYPES + 'Options', 'value')
                val = self.proj(mk('sym', 'options'), vi)
                E.subst = dict(E.subst or {})
                E.subst[self.proj(val, pi)] = {'unset': NONE_OPT, 'true': some(k(1)), 'false': some(k(0))}[packed]
                E.subst[self.proj(val, ui)] = arr()
            if refers is not None:
                df = [f[0] for f in p.adts[D + 'Definition']['v'][0]['f']]
                vals = [mk('sym', 'definition ' + x) for x in df]
                vals[df.index('kind')] = agg(D + 'DefinitionKind', kinds[refers], mk('sym', 'target'))
                d = agg(D + 'Definition', 0, *vals)
                def found(E_, st, fr, b, c, args, tys, dt):
                    named = [E_.canon(st, a, i < len(tys) and E_.is_ref(tys[i])) for i, a in enumerate(args) if not (i < len(tys) and E_.is_mutref(tys[i]))]
                    return [(st, some(d))] if mk('sym', 'type name') in named else None
                for n in E.finders:
                    E.models[n] = found
            if syntax is not None:
                for vty in self.visitors:
                    files, si = self.syntax_at
                    base = self.proj(mk('visitor'), self.visitor_pool(vty), files, us(f_), si)
                    E.subst = dict(E.subst or {})
                    E.subst[base] = variant('prost_reflect::Syntax' if 'prost_reflect::Syntax' in p.adts else self.syntax_adt, syntax)
        return assume

    def nonempty(self, E, old):
        def f(E_, st, fr, b, c, args, tys, dt):
            v = args[0]
            while v.op == 'ref':
                v = E.read(st, v.a[0], v.a[1])
            if v is mk('sym', 'type name'):
                return [(st, k(0))]
            return old(E_, st, fr, b, c, args, tys, dt)
        return f

    # ---- small helpers of the checks
    def proj_some(self, opt):
        return mk('proj', opt, 1, 0)

    def in_pool(self, t):
        """The place of a collection seen through a visitor or the pool."""
        out = []
        while t.op in ('proj', 'idx'):
            out.append(t.a[2] if t.op == 'proj' else t.a[1])
            t = t.a[0]
        out.reverse()
        if t.op == 'visitor':
            pfs = {self.visitor_pool(ty) for ty in self.visitors}
            return tuple(out[1:]) if out and out[0] in pfs else None
        return tuple(out[1:]) if t is self.pool and out[:1] == [0] else None

    def of(self, desc, method):
        """What an accessor returns for a given descriptor value."""
        fn = desc.a[0] + '::' + method
        E = Engine(self.p, opaque=[n for n in self.p.fn_by_name if n.startswith(V.TYPES)], max_steps=4000000)
        V.strings(E)
        E.subst = self.subst
        fs = E.run(fn, args={0: desc})
        self.n += 1
        return fs[0].ret if len(fs) == 1 else mk('several')
