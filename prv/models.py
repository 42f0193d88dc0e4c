"""Transfer functions for the foreign functions the crate uses."""
import re
from .terms import T, mk, k, isk, kv, agg, tup, walk, UNIT
from .engine import NEVER, NONE_OPT, some, ok, err

IT = 'core::iter::traits::iterator::Iterator::'

ID_PTR = [
    'core::ops::deref::Deref::deref', 'core::ops::deref::DerefMut::deref_mut',
    'alloc::vec::Vec::as_slice', 'alloc::vec::Vec::as_mut_slice', 'alloc::string::String::as_str', 'alloc::string::String::as_bytes', '<str>::as_bytes',
    'core::convert::AsRef::as_ref', 'core::convert::AsMut::as_mut', 'core::borrow::Borrow::borrow', 'core::borrow::BorrowMut::borrow_mut',
    'core::hint::must_use', 'alloc::vec::Vec::into_boxed_slice', 'alloc::boxed::Box::new', 'alloc::rcs::arc::Arc::new',
    'alloc::sync::Arc::new', 'core::iter::traits::iterator::Iterator::by_ref', 'core::str::<impl str>::as_ref',
    'alloc::string::String::into_bytes', 'alloc::string::String::into_boxed_str', 'core::hint::black_box',
    'alloc::borrow::ToOwned::to_owned_id', 'core::convert::identity', 'alloc::vec::Vec::leak', '<[T]>::as_ref', '<[T]>::to_vec_id',
    'core::pin::Pin::new', 'alloc::boxed::Box::leak',
]





class Seq(list):
    """What an iteration over known elements yielded, in order."""


def install(E):
    M = E.models

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    def content(E, st, v):
        while v.op == 'ref':
            v = E.read(st, v.a[0], v.a[1])
        if v in st.mem:
            return st.mem[v]
        return v

    def value(E, st, v, ty=None):
        return E.canon(st, v, True)

    @reg(*ID_PTR)
    def ident(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies:
            return None
        return [(st, args[0])]

    @reg('core::clone::Clone::clone', 'alloc::borrow::ToOwned::to_owned', '<[T]>::to_vec', 'alloc::slice::<impl [T]>::to_vec',
         'alloc::str::<impl str>::to_owned', '<[T]>::into_vec')
    def clone(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies and E.p.bodies[c['key']].local:
            # derived clones of local types are identities on the value as well
            pass
        v = args[0]
        if v.op == 'ref':
            v = E.read(st, v.a[0], v.a[1])
        elif v in st.mem:
            v = st.mem[v]
        return [(st, v)]

    @reg('alloc::string::ToString::to_string')
    def to_string(E, st, fr, b, c, args, tys, dt):
        t = E.p.types[c['a'][0]] if c['a'] else None
        while t and t['k'] == 'ref':
            t = E.p.types[t['t']]
        if t and (t['k'] == 'str' or t.get('n') == 'alloc::string::String' or (t.get('n') == 'alloc::borrow::Cow')):
            return [(st, value(E, st, args[0]))]
        return [(st, mk('app', 'to_string', None, value(E, st, args[0])))]

    @reg('core::convert::From::from', 'core::convert::Into::into')
    def from_(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies:
            return None
        r = c.get('r', '')
        if re.search(r'(String|Box<str>|Box<\[T\]>|Vec<u8>|Vec<T>|Rc<|Arc<|Cow<|Bytes|Box<T>)', r.split(' as ')[0]):
            v = args[0]
            if len(tys) and E.is_ref(tys[0]):
                v = value(E, st, v)
            return [(st, v)]
        src = E.p.ts(tys[0]) if tys else ''
        dst = E.p.ts(dt) if dt is not None else ''
        if (src == 'u8' and dst == 'char') or src in ('u8', 'u16', 'u32', 'u64', 'i8', 'i16', 'i32', 'i64', 'bool', 'char', 'f32') and dst in ('u8', 'u16', 'u32', 'u64', 'i16', 'i32', 'i64', 'f64', 'f32', 'usize', 'i128', 'u128'):
            ck = 'IntToInt'
            if dst.startswith('f'):
                ck = 'FloatToFloat' if src.startswith('f') else 'IntToFloat'
            return [(st, E.cast(st, args[0], src, dst, ck))]
        return None

    @reg('<str>::parse')
    def parse(E, st, fr, b, c, args, tys, dt):
        t = E.p.ts(c['a'][0]) if c['a'] else '?'
        return [(st, mk('app', '<%s as core::str::traits::FromStr>::from_str' % t, None, value(E, st, args[0])))]

    # ---- character classes of known characters
    from .trans import ASCII, MAPS

    def charclass(nm):
        def f(E, st, fr, b, c, args, tys, dt):
            v = value(E, st, args[0])
            if v is None or not isk(v):
                return None
            v = kv(v)
            if isinstance(v, str) and len(v) == 1:
                v = ord(v)
            if not isinstance(v, int) or isinstance(v, bool):
                return None
            if nm in ASCII:
                return [(st, k(int(ASCII[nm](v))))]
            return [(st, k(MAPS[nm](v)))]
        return f
    for nm in list(ASCII) + ['to_ascii_uppercase', 'to_ascii_lowercase']:
        for t in ('<u8>', '<char>'):
            M[t + '::' + nm] = charclass(nm)

    # ---- comparisons
    def eqv(E, st, fr, b, c, args, tys):
        x, y = E.canon(st, args[0], True), E.canon(st, args[1], True)
        t = E.p.types[c['a'][0]] if c['a'] else None
        while t and t['k'] in ('ref', 'ptr'):
            t = E.p.types[t['t']]
        return x, y, t

    @reg('core::cmp::PartialEq::eq')
    def eq(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies:
            return None
        x, y, t = eqv(E, st, fr, b, c, args, tys)
        if t and t['k'] == 'adt' and t['n'] in E.p.adts and E.p.adts[t['n']]['kind'] == 'enum':
            ad = E.p.adts[t['n']]
            if all(not v['f'] for v in ad['v']) and ad['v']:
                ty = c['a'][0]
                while E.p.types[ty]['k'] in ('ref', 'ptr'):
                    ty = E.p.types[ty]['t']
                return [(st, E.cmp(st, 'Eq', E.discr(st, x, ty), E.discr(st, y, ty), 'isize'))]
            name = '<%s as core::cmp::PartialEq>::eq' % t['s']
            f = E.p.fn_by_name.get(name)
            if f and f[0]['key'] in E.p.bodies and f[0]['key'] not in E.stack:
                return E.inline(st, fr, b, E.p.bodies[f[0]['key']], [x, y])
        return [(st, E.cmp(st, 'Eq', x, y, t['s'] if t else None))]

    @reg('core::cmp::PartialEq::ne')
    def ne(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies:
            return None
        return [(s, E.unop(s, 'Not', v, 'bool')) for s, v in eq(E, st, fr, b, dict(c, key=None), args, tys, dt)]

    @reg('<str>::is_empty', 'alloc::vec::Vec::is_empty', '<[T]>::is_empty', 'alloc::string::String::is_empty')
    def is_empty(E, st, fr, b, c, args, tys, dt):
        return [(st, E.cmp(st, 'Eq', E.length(st, args[0]), k(0), 'usize'))]

    @reg('<str>::len', 'alloc::vec::Vec::len', '<[T]>::len', 'alloc::string::String::len', 'bytes::bytes::Bytes::len')
    def length(E, st, fr, b, c, args, tys, dt):
        return [(st, E.length(st, args[0]))]

    @reg('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
    def pord(E, st, fr, b, c, args, tys, dt):
        x, y, t = eqv(E, st, fr, b, c, args, tys)
        if t and t['k'] in ('int', 'uint', 'float', 'char', 'bool'):
            op = c['n'].split('::')[-1].capitalize()
            return [(st, E.cmp(st, op, x, y, t['s']))]
        return None

    # ---- ranges
    @reg('core::ops::range::RangeInclusive::new')
    def rin(E, st, fr, b, c, args, tys, dt):
        return [(st, agg('core::ops::range::RangeInclusive', 0, args[0], args[1], k(0)))]

    def rng(E, st, v):
        v = content(E, st, v)
        if v.op == 'agg' and v.a[0].startswith('core::ops::range::'):
            return v
        return None

    @reg('core::ops::range::RangeInclusive::contains', 'core::ops::range::Range::contains', 'core::ops::range::RangeFrom::contains',
         'core::ops::range::RangeTo::contains', 'core::ops::range::RangeToInclusive::contains', 'core::ops::range::RangeBounds::contains')
    def contains(E, st, fr, b, c, args, tys, dt):
        r = content(E, st, args[0])
        x = E.canon(st, args[1], True)
        t = None
        for a in c['a']:
            if E.p.types[a]['k'] in ('int', 'uint', 'char', 'float'):
                t = E.p.types[a]['s']
        kind = None
        name = c.get('r', c['n'])
        m = re.search(r'range::(Range\w*)', name)
        kind = m.group(1) if m else None
        if r.op == 'agg' and r.a[0].startswith('core::ops::range::'):
            kind = r.a[0].split('::')[-1]
        g = lambda i: E.get1(st, r, ('f', None if r.op != 'agg' else 0, i))
        if kind == 'RangeInclusive':
            p = E.binop(st, 'BitAnd', E.cmp(st, 'Le', g(0), x, t), E.cmp(st, 'Le', x, g(1), t), 'bool')
        elif kind == 'Range':
            p = E.binop(st, 'BitAnd', E.cmp(st, 'Le', g(0), x, t), E.cmp(st, 'Lt', x, g(1), t), 'bool')
        elif kind == 'RangeFrom':
            p = E.cmp(st, 'Le', g(0), x, t)
        elif kind == 'RangeTo':
            p = E.cmp(st, 'Lt', x, g(0), t)
        elif kind == 'RangeToInclusive':
            p = E.cmp(st, 'Le', x, g(0), t)
        else:
            return None
        return [(st, p)]

    @reg('core::ops::range::RangeInclusive::start')
    def rstart(E, st, fr, b, c, args, tys, dt):
        r = content(E, st, args[0])
        return [(st, E.get1(st, r, ('f', None, 0)))]

    @reg('core::ops::range::RangeInclusive::end')
    def rend(E, st, fr, b, c, args, tys, dt):
        r = content(E, st, args[0])
        return [(st, E.get1(st, r, ('f', None, 1)))]

    # ---- memory
    @reg('core::mem::replace')
    def replace(E, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        old = E.read(st, base, path)
        E.write(st, base, path, args[1])
        return [(st, old)]

    @reg('core::mem::take')
    def take(E, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        old = E.read(st, base, path)
        E.write(st, base, path, mk('app', 'default', None))
        return [(st, old)]

    @reg('core::mem::swap')
    def swap(E, st, fr, b, c, args, tys, dt):
        b1, p1 = E.pointee(args[0])
        b2, p2 = E.pointee(args[1])
        v1, v2 = E.read(st, b1, p1), E.read(st, b2, p2)
        E.write(st, b1, p1, v2)
        E.write(st, b2, p2, v1)
        return [(st, UNIT)]

    @reg('core::mem::drop', 'core::mem::forget')
    def drop(E, st, fr, b, c, args, tys, dt):
        return [(st, UNIT)]

    @reg('alloc::boxed::Box::new_uninit')
    def new_uninit(E, st, fr, b, c, args, tys, dt):
        base = ('L', fr.depth, 'box%d' % E.site(fr, b))
        st.mem[base] = mk('uninit', 0)
        return [(st, mk('ref', base, ()))]

    def find_arr(E, st, v, d=0):
        if v.op == 'ref':
            return find_arr(E, st, E.read(st, v.a[0], v.a[1]), d + 1)
        if v.op == 'agg' and v.a[0] == 'array':
            return v
        if d > 6:
            return None
        if v.op == 'upd':
            for _, x in v.a[1]:
                r = find_arr(E, st, x, d + 1)
                if r is not None:
                    return r
        if v.op == 'agg':
            for x in v.a[2:]:
                if isinstance(x, T):
                    r = find_arr(E, st, x, d + 1)
                    if r is not None:
                        return r
        return None

    @reg('alloc::boxed::box_assume_init_into_vec_unsafe')
    def into_vec(E, st, fr, b, c, args, tys, dt):
        r = find_arr(E, st, args[0])
        return [(st, r if r is not None else mk('app', 'vec', E.site(fr, b)))]

    @reg('alloc::vec::Vec::new', 'alloc::vec::Vec::with_capacity', 'alloc::string::String::new', 'alloc::string::String::with_capacity',
         'core::default::Default::default')
    def newvec(E, st, fr, b, c, args, tys, dt):
        n = c['n']
        t = E.p.types[dt] if dt is not None else {'k': '?'}
        if t.get('n') == 'alloc::string::String':
            return [(st, k(''))]
        if t.get('n') == 'alloc::vec::Vec':
            return [(st, agg('array', 0))]
        if c.get('key') in E.p.bodies:
            return None
        if t['k'] in ('int', 'uint', 'bool', 'char'):
            return [(st, k(0))]
        if t['k'] == 'float':
            return [(st, mk('k', 'float', 0.0))]
        if t['k'] == 'ref' and E.p.types[t['t']]['k'] == 'str':
            return [(st, k(''))]
        if t['k'] == 'tuple' and not t.get('a'):
            return [(st, UNIT)]
        if t.get('n') == 'core::option::Option':
            return [(st, NONE_OPT)]
        return [(st, mk('app', 'default:' + t.get('s', '?'), None))]

    @reg('alloc::vec::Vec::push', 'alloc::string::String::push', 'alloc::string::String::push_str', 'alloc::vec::Vec::extend_from_slice')
    def push(E, st, fr, b, c, args, tys, dt):
        base, path = E.pointee(args[0])
        cur = E.read(st, base, path)
        x = E.canon(st, args[1], len(tys) > 1 and E.is_ref(tys[1]))
        nm = 'push' if c['n'].endswith('push') else 'extend'
        if isk(x):
            E.pushed.add(x)
        if nm == 'push' and cur.op == 'agg' and cur.a[0] == 'array' and len(cur.a) < 10:
            E.write(st, base, path, mk('agg', *(cur.a + (x,))))
        else:
            E.write(st, base, path, mk('app', nm, E.site(fr, b), x, cur))
        return [(st, UNIT)]

    # ---- indexing
    @reg('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
    def index(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies:
            return None
        it = E.p.types[c['a'][1]] if len(c['a']) > 1 else None
        hook = getattr(E, 'on_index', None)
        if hook is not None:
            hook(E, fr, b, st, c, args, tys, it)
        if it and it['s'] == 'usize':
            base, path = E.pointee(args[0])
            v = E.read(st, base, path)
            if v.op == 'ref':
                base, path = v.a
            i = args[1]
            if i.op == 'elem' and i.a[0].op == 'agg' and i.a[0].a[0].endswith('range::Range') and i.a[0].a[2] is k(0):
                coll = E.canon(st, args[0], True)
                hi = i.a[0].a[3]
                if hi.op == 'app' and hi.a[0] == 'len' and hi.a[2] is coll:
                    # for i in 0..c.len() { c[i] }
                    return [(st, mk('elem', coll, *i.a[1:]))]
            return [(st, E.mkref(base, path + (('i', args[1]),)) if not (isinstance(base, T) and not path and base not in st.mem and c['n'].endswith('index')) else mk('idx', base, args[1]))]
        if it and it['k'] == 'adt' and it['n'].endswith('range::RangeFull'):
            src = E.p.types[c['a'][0]]
            if src['k'] == 'array' and src.get('len') is not None:
                E.arrlen[E.canon(st, args[0], True)] = int(src['len'])
            return [(st, args[0])]
        if it and it['k'] == 'adt' and 'range::' in it['n']:
            return [(st, mk('app', 'slice', None, E.canon(st, args[0], True), E.canon(st, args[1])))]
        return [(st, mk('app', 'map_index', None, E.canon(st, args[0], True), E.canon(st, args[1], True)))]

    @reg('<[T]>::get_mut')
    def slice_get_mut(E, st, fr, b, c, args, tys, dt):
        it = E.p.types[c['a'][1]] if len(c['a']) > 1 else None
        if not it or it['s'] != 'usize':
            return None
        base, path = E.pointee(args[0])
        v = E.read(st, base, path)
        if v.op == 'ref':
            base, path = v.a
        t = mk('lt', args[1], mk('app', 'len', None, E.canon(st, args[0], True)), 'usize')
        out = []
        for val in (1, 0):
            s = st.copy()
            if E.assume(s, t, val) is False:
                continue
            out.append((s, some(E.mkref(base, path + (('i', args[1]),))) if val else NONE_OPT))
        return out

    # ---- iterators
    for nm in ('map', 'filter', 'filter_map', 'flat_map', 'take_while', 'skip_while', 'map_while', 'inspect'):
        def mkad(nm):
            def f(E, st, fr, b, c, args, tys, dt):
                return [(st, agg('iter:' + nm, 0, args[0], args[1]))]
            return f
        M[IT + nm] = mkad(nm)
    for nm in ('enumerate', 'rev', 'copied', 'cloned', 'peekable', 'fuse', 'flatten', 'skip', 'take', 'step_by', 'cycle'):
        def mkad(nm):
            def f(E, st, fr, b, c, args, tys, dt):
                return [(st, agg('iter:' + nm, 0, *args))]
            return f
        M[IT + nm] = mkad(nm)

    @reg(IT + 'chain', IT + 'zip')
    def chain(E, st, fr, b, c, args, tys, dt):
        nm = c['n'].split('::')[-1]
        return [(st, agg('iter:' + nm, 0, args[0], to_iter(E, st, args[1])))]

    def to_iter(E, st, v):
        x = content(E, st, v)
        if x.op == 'agg' and (x.a[0].startswith('iter:')):
            return x
        if x.op == 'agg' and x.a[0] == 'core::option::Option':
            return agg('iter:option', 0, x)
        if x.op in ('iter', 'finite'):
            return x
        if E.known_lists and x.op == 'agg' and x.a[0] == 'array':
            it = mk('finite', mk('list', x), *x.a[2:])
            st.mem.pop(mk('ghost', 'finite', it), None)
            return it
        return mk('iter', x)

    @reg('core::iter::traits::collect::IntoIterator::into_iter')
    def into_iter(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies and E.p.bodies[c['key']].local:
            return None
        r = c.get('r', '')
        if r.startswith('<I as '):
            return [(st, args[0])]
        if 'option::Option' in r:
            v = args[0]
            return [(st, agg('iter:option', 0, content(E, st, v)))]
        v = args[0]
        if v.op == 'finite':
            return [(st, v)]
        if v.op != 'ref' and v not in st.mem and v.op != 'agg':
            return [(st, mk('iter', v))]
        return [(st, to_iter(E, st, v))]

    @reg('<[T]>::iter', '<[T]>::iter_mut', 'std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::values',
         'std::collections::hash::map::HashMap::keys', 'alloc::collections::btree::map::BTreeMap::iter',
         'alloc::collections::btree::map::BTreeMap::iter_mut', 'alloc::collections::btree::map::BTreeMap::values',
         'alloc::collections::btree::map::BTreeMap::values_mut', 'alloc::collections::btree::map::BTreeMap::keys',
         'std::collections::hash::map::HashMap::iter_mut', 'std::collections::hash::map::HashMap::values_mut',
         'std::collections::hash::set::HashSet::iter', 'alloc::collections::btree::map::BTreeMap::into_values',
         'alloc::collections::btree::map::BTreeMap::into_keys', 'alloc::collections::btree::set::BTreeSet::iter')
    def it_iter(E, st, fr, b, c, args, tys, dt):
        nm = c['n'].split('::')[-1]
        v = to_iter(E, st, args[0])
        if v.op == 'iter' and nm in ('values', 'values_mut', 'into_values'):
            return [(st, agg('iter:proj', 0, v, k(1)))]
        if v.op == 'iter' and nm in ('keys', 'into_keys'):
            return [(st, agg('iter:proj', 0, v, k(0)))]
        return [(st, v)]

    @reg('std::sync::once_lock::OnceLock::get_or_init', 'core::cell::once::OnceCell::get_or_init')
    def get_or_init(E, st, fr, b, c, args, tys, dt):
        cell = E.canon(st, args[0], True)
        if not any(x.op == 'static' for x in walk(cell)):
            return None
        if E.inits is not None:
            E.inits.setdefault(cell, set()).update(E.canon(s, v) for s, v in E.call_value(st.copy(), fr, b, args[1], None, [], []))
        return [(st, mk('app', 'static:init', None, cell))]

    @reg('core::iter::sources::once::once')
    def once(E, st, fr, b, c, args, tys, dt):
        return [(st, agg('iter:once', 0, args[0]))]

    @reg('core::iter::sources::empty::empty')
    def empty(E, st, fr, b, c, args, tys, dt):
        return [(st, agg('iter:empty', 0))]

    def option_cases(E, st, v):
        """[(state, None|payload)]"""
        while v.op == 'ref':
            v = E.read(st, v.a[0], v.a[1])
        if v.op == 'agg' and v.a[0] == 'core::option::Option':
            return [(st, None if v.a[1] == 0 else v.a[2])]
        d = mk('discr', v)
        E.domain.setdefault(d, frozenset((0, 1)))
        out = []
        for val in (0, 1):
            s2 = st.copy()
            if E.restrict(s2, d, frozenset((val,)), True):
                out.append((s2, None if val == 0 else mk('proj', v, 1, 0)))
        return out
    E.option_cases = option_cases

    def partial(kind, e, *how):
        """An element of an iteration that leaves out, repeats or reorders elements."""
        if isk(e):
            return e
        if e.op == 'agg':
            return agg(e.a[0], e.a[1], *[partial(kind, x, *how) for x in e.a[2:]])
        return mk('partial', kind, e, *how)

    def exhausted(E, st, coll):
        st = st.copy()
        if E.track_exhaust:
            if coll.op == 'agg' and coll.a[0].endswith('range::Range') and coll.a[2] is k(0) and coll.a[3].op == 'app' and coll.a[3].a[0] == 'len':
                coll = coll.a[3].a[2]
            st.facts[mk('exhausted', coll)] = ('+', frozenset([1]))
        return st, None

    def finite(E, st, it):
        """Whether this iterates over a list of known elements."""
        while it.op == 'ref':
            it = E.read(st, it.a[0], it.a[1])
        if it.op == 'agg' and it.a[0].startswith('iter:') and len(it.a) > 2:
            return finite(E, st, it.a[2])
        return it.op == 'finite'

    def nxt(E, st, fr, b, it, depth=0):
        """[(state, None | element)]"""
        while it.op == 'ref':
            it = E.read(st, it.a[0], it.a[1])
        if it.op == 'finite':
            pos = mk('ghost', 'finite', it)
            i = kv(st.mem.get(pos, k(0)))
            if i + 1 >= len(it.a):
                return [exhausted(E, st, it)]
            st = st.copy()
            st.mem[pos] = k(i + 1)
            return [(st, it.a[i + 1])]
        if it.op == 'agg' and it.a[0].startswith('iter:'):
            kind = it.a[0][5:]
            if kind == 'map':
                out = []
                for s, e in nxt(E, st, fr, b, it.a[2], depth + 1):
                    if e is None:
                        out.append((s, None))
                    else:
                        out += E.call_value(s, fr, b, it.a[3], None, [e], [])
                return out
            if kind in ('filter', 'take_while', 'skip_while', 'inspect'):
                out = []
                for s, e in nxt(E, st, fr, b, it.a[2], depth + 1):
                    if e is None:
                        out.append((s, None))
                        continue
                    for s2, v in E.call_value(s, fr, b, it.a[3], None, [e], []):
                        if kind == 'inspect' or kind == 'skip_while':
                            out.append((s2, e if kind == 'inspect' else partial(kind, e)))
                            continue
                        for s3, x in E.fork_bool(s2, v):
                            if x:
                                out.append((s3, e if kind == 'filter' else partial(kind, e)))
                            elif kind == 'filter' and finite(E, st, it):
                                out += nxt(E, s3, fr, b, it, depth)
                            elif s3.trace != st.trace:
                                out.append((s3, None))
                return out
            if kind in ('filter_map', 'map_while'):
                out = []
                for s, e in nxt(E, st, fr, b, it.a[2], depth + 1):
                    if e is None:
                        out.append((s, None))
                        continue
                    for s2, v in E.call_value(s, fr, b, it.a[3], None, [e], []):
                        for s3, x in option_cases(E, s2, v):
                            if x is not None:
                                out.append((s3, x))
                            elif kind == 'filter_map' and finite(E, st, it):
                                out += nxt(E, s3, fr, b, it, depth)
                            elif s3.trace != st.trace:
                                out.append((s3, None))
                return out
            if kind == 'proj':
                return [(s, None if e is None else E.get1(s, e, ('f', None, kv(it.a[3])))) for s, e in nxt(E, st, fr, b, it.a[2], depth + 1)]
            if kind == 'enumerate':
                return [(s, None if e is None else tup(mk('app', 'enum_idx', None, it.a[2]), e)) for s, e in nxt(E, st, fr, b, it.a[2], depth + 1)]
            if kind == 'chain':
                s2 = st.copy()
                return [(s, e) for s, e in nxt(E, st, fr, b, it.a[2], depth + 1) if e is not None] + nxt(E, s2, fr, b, it.a[3], depth + 1)
            if kind == 'zip':
                out = []
                for s, e in nxt(E, st, fr, b, it.a[2], depth + 1):
                    if e is None:
                        out.append((s, None))
                        continue
                    for s2, e2 in nxt(E, s, fr, b, it.a[3], depth + 1):
                        out.append((s2, None if e2 is None else tup(e, e2)))
                return out
            if kind in ('copied', 'cloned'):
                return [(s, None if e is None else E.canon(s, e, True)) for s, e in nxt(E, st, fr, b, it.a[2], depth + 1)]
            if kind in ('peekable', 'fuse'):
                return nxt(E, st, fr, b, it.a[2], depth + 1)
            if kind in ('rev', 'skip', 'take', 'step_by', 'cycle'):
                return [(s, None if e is None else partial(kind, e, *it.a[3:])) for s, e in nxt(E, st, fr, b, it.a[2], depth + 1)]
            if kind in ('flat_map', 'flatten'):
                out = []
                for s, e in nxt(E, st, fr, b, it.a[2], depth + 1):
                    if e is None:
                        out.append((s, None))
                        continue
                    subs = [(s, e)] if kind == 'flatten' else E.call_value(s, fr, b, it.a[3], None, [e], [])
                    for s2, v in subs:
                        out += [(s3, x) for s3, x in nxt(E, s2, fr, b, to_iter(E, s2, v), depth + 1) if x is not None]
                return out
            if kind == 'once':
                return [(st.copy(), None), (st, it.a[2])]
            if kind == 'empty':
                return [(st, None)]
            if kind == 'option':
                out = [(st.copy(), None)]
                for s, e in option_cases(E, st, it.a[2]):
                    if e is not None:
                        out.append((s, e))
                return out
        if it.op == 'iter':
            coll = it.a[0]
            if coll.op == 'agg' and coll.a[0] == 'array':
                els = list(dict.fromkeys(coll.a[2:]))
                return [(st.copy(), None)] + [(st.copy(), e) for e in els]
            if coll.op == 'agg' and coll.a[0] == 'core::option::Option':
                return nxt(E, st, fr, b, agg('iter:option', 0, coll), depth)
            return [exhausted(E, st, coll), (st, mk('elem', coll, E.site(fr, b), depth))]
        if it.op == 'agg' and it.a[0] == 'core::ops::range::Range':
            e = mk('elem', it, E.site(fr, b), depth)
            s2 = st.copy()
            return [exhausted(E, st, it), (s2, e)]
        return [exhausted(E, st, it), (st, mk('elem', it, E.site(fr, b), depth))]
    E.iter_next = nxt

    @reg(IT + 'next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back')
    def it_next(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies and E.p.bodies[c['key']].local:
            return None
        return [(s, NONE_OPT if e is None else some(e)) for s, e in nxt(E, st, fr, b, args[0])]

    @reg('core::iter::adapters::peekable::Peekable::peek', 'core::iter::adapters::peekable::Peekable::next_if')
    def peek(E, st, fr, b, c, args, tys, dt):
        return [(s, NONE_OPT if e is None else some(e)) for s, e in nxt(E, st, fr, b, args[0])]

    def consume(E, st, fr, b, it, f):
        """Iterates; f(state, elem) -> [(state, verdict, value)], verdict 'go' continues,
        'stop' ends with value.  Returns (end_states, stops, yields)."""
        sid = E.site(fr, b)
        if finite(E, st, it):
            ends, stops, ys, todo = [], [], Seq(), [st]
            while todo:
                nexts = []
                for s0 in todo:
                    for s, e in nxt(E, s0, fr, b, it):
                        if e is None:
                            ends.append(s)
                            continue
                        for s2, verdict, val in f(s, e):
                            if verdict == 'go':
                                nexts.append(s2)
                                if val is not None:
                                    ys.append((frozenset(), val))
                            else:
                                stops.append((s2, val))
                todo = nexts
            if ends:
                end = ends[0]
                for s in ends[1:]:
                    end = E.join(end, s, sid)
                return end, stops, ys
            # no end: every path stopped; an end nobody reaches
            end = st.copy()
            end.facts[NEVER] = ('+', frozenset([1]))
            return end, stops, ys
        etrace = st.trace
        cur = st.copy()
        cur.trace = ()
        for rnd in range(10):
            gos, stops = [], []
            for s, e in nxt(E, cur.copy(), fr, b, it):
                if e is None:
                    continue
                for s2, verdict, val in f(s, e):
                    (gos if verdict == 'go' else stops).append((s2, val))
            j = cur.copy()
            for s2, _ in gos:
                s3 = s2.copy()
                s3.trace = ()
                j = E.join(j, s3, sid)
            if E.same(j, cur):
                break
            cur = j
        else:
            from .engine import Limit
            raise Limit('iteration')
        bodies = frozenset((E.newfacts(cur, s2), s2.trace) for s2, _ in gos)
        E.record_phis(st, cur, [s2 for s2, _ in gos])
        pre = etrace
        if any(t for _, t in bodies):
            pre = etrace + (('loop', bodies),)
        yields = frozenset((E.newfacts(cur, s2), v) for s2, v in gos if v is not None)
        end = cur.copy()
        end.trace = pre
        if E.track_exhaust:
            for s, e in nxt(E, cur.copy(), fr, b, it):
                if e is None:
                    end.facts.update({t: d for t, d in s.facts.items() if t.op == 'exhausted'})
        for s2, _ in stops:
            s2.trace = pre + s2.trace
        return end, stops, yields
    E.consume = consume

    def ylist(yields):
        if isinstance(yields, Seq):
            return tuple(v for _, v in yields)
        return tuple(sorted({v for _, v in yields}, key=lambda t: t.id))

    @reg(IT + 'sum')
    def isum(E, st, fr, b, c, args, tys, dt):
        end, _, ys = consume(E, st, fr, b, args[0], lambda s, e: [(s, 'go', e)])
        return [(end, mk('sum', ys))]

    @reg(IT + 'count')
    def icount(E, st, fr, b, c, args, tys, dt):
        end, _, ys = consume(E, st, fr, b, args[0], lambda s, e: [(s, 'go', e)])
        return [(end, mk('app', 'count', None, *ylist(ys)))]

    @reg(IT + 'collect', 'core::iter::traits::collect::FromIterator::from_iter')
    def icollect(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies and E.p.bodies[c['key']].local:
            return None
        end, _, ys = consume(E, st, fr, b, to_iter(E, st, args[0]) if c['n'].endswith('from_iter') else args[0], lambda s, e: [(s, 'go', E.canon(s, e))])
        t = E.p.ts(dt) if dt is not None else '?'
        return [(end, mk('app', 'collect', None, *ylist(ys)))]

    @reg('core::iter::traits::collect::Extend::extend')
    def iextend(E, st, fr, b, c, args, tys, dt):
        if c.get('key') in E.p.bodies and E.p.bodies[c['key']].local:
            return None
        end, _, ys = consume(E, st, fr, b, to_iter(E, st, args[1]), lambda s, e: [(s, 'go', E.canon(s, e))])
        base, path = E.pointee(args[0])
        if isinstance(ys, Seq):
            cur = E.read(end, base, path)
            for _, v in ys:
                cur = mk('agg', *(cur.a + (v,))) if cur.op == 'agg' and cur.a[0] == 'array' else mk('app', 'push', E.site(fr, b), v, cur)
            E.write(end, base, path, cur)
            return [(end, UNIT)]
        E.write(end, base, path, mk('app', 'extended', E.site(fr, b), *ylist(ys)))
        return [(end, UNIT)]

    @reg(IT + 'for_each')
    def foreach(E, st, fr, b, c, args, tys, dt):
        f = lambda s, e: [(s2, 'go', None) for s2, v in E.call_value(s, fr, b, args[1], None, [e], [])]
        end, _, _ = consume(E, st, fr, b, args[0], f)
        return [(end, UNIT)]

    @reg(IT + 'try_for_each')
    def tryforeach(E, st, fr, b, c, args, tys, dt):
        def f(s, e):
            out = []
            for s2, v in E.call_value(s, fr, b, args[1], None, [e], []):
                for s3, good, val in result_cases(E, s2, v):
                    out.append((s3, 'go' if good else 'stop', val if not good else None))
            return out
        end, stops, _ = consume(E, st, fr, b, args[0], f)
        return [(end, ok(UNIT))] + [(s, err(v)) for s, v in stops]

    def result_cases(E, st, v):
        if v.op == 'agg' and v.a[0] == 'core::result::Result':
            return [(st, v.a[1] == 0, v.a[2])]
        d = mk('discr', v)
        E.domain.setdefault(d, frozenset((0, 1)))
        out = []
        for val in (0, 1):
            s2 = st.copy()
            if E.restrict(s2, d, frozenset((val,)), True):
                out.append((s2, val == 0, mk('proj', v, val, 0)))
        return out
    E.result_cases = result_cases

    def boolstep(E, fr, b, f, stopon, byref=False):
        def g(s, e):
            out = []
            for s2, v in E.call_value(s, fr, b, f, None, [e], []):
                for s3, x in E.fork_bool(s2, v):
                    out.append((s3, 'stop' if x == stopon else 'go', e))
            return out
        return g

    @reg(IT + 'any')
    def iany(E, st, fr, b, c, args, tys, dt):
        end, stops, _ = consume(E, st, fr, b, args[0], boolstep(E, fr, b, args[1], 1))
        return [(end, k(0))] + [(s, k(1)) for s, _ in stops]

    @reg(IT + 'all')
    def iall(E, st, fr, b, c, args, tys, dt):
        end, stops, _ = consume(E, st, fr, b, args[0], boolstep(E, fr, b, args[1], 0))
        return [(end, k(1))] + [(s, k(0)) for s, _ in stops]

    @reg(IT + 'find')
    def ifind(E, st, fr, b, c, args, tys, dt):
        end, stops, _ = consume(E, st, fr, b, args[0], boolstep(E, fr, b, args[1], 1))
        return [(end, NONE_OPT)] + [(s, some(e)) for s, e in stops]

    @reg(IT + 'find_map')
    def ifindmap(E, st, fr, b, c, args, tys, dt):
        def g(s, e):
            out = []
            for s2, v in E.call_value(s, fr, b, args[1], None, [e], []):
                for s3, x in option_cases(E, s2, v):
                    out.append((s3, 'go' if x is None else 'stop', x))
            return out
        end, stops, _ = consume(E, st, fr, b, args[0], g)
        return [(end, NONE_OPT)] + [(s, some(e)) for s, e in stops]

    @reg(IT + 'position')
    def iposition(E, st, fr, b, c, args, tys, dt):
        end, stops, _ = consume(E, st, fr, b, args[0], boolstep(E, fr, b, args[1], 1))
        return [(end, NONE_OPT)] + [(s, some(mk('app', 'position', None, e))) for s, e in stops]

    @reg(IT + 'fold')
    def ifold(E, st, fr, b, c, args, tys, dt):
        acc = mk('phi', ('fold', E.site(fr, b)))

        def g(s, e):
            return [(s2, 'go', v) for s2, v in E.call_value(s, fr, b, args[2], None, [acc, e], [])]
        end, _, ys = consume(E, st, fr, b, args[0], g)
        E.phi_in[acc] = (args[1], ys)
        return [(end, acc)]
    E.phi_in = {}

    @reg('prost::encoding::merge_loop')
    def merge_loop(E, st, fr, b, c, args, tys, dt):
        # decodes a length, then calls the closure with (value, buf, ctx) until the length is consumed
        cargs = [E.canon(st, a, i < len(tys) and E.is_ref(tys[i])) for i, a in enumerate(args[:3])]
        base, path = E.pointee(args[1])
        E.write(st, base, path, mk('out', 'prost::encoding::merge_loop', E.site(fr, b), 1))
        rs = E.loop_generic(st, fr, b, lambda s: E.call_value(s, fr, b, args[3], None, [args[0], args[1], args[2]], []))
        out = []
        for s, _ in rs:
            s2 = s.copy()
            out.append((s, ok(UNIT)))
            out.append((s2, err(mk('app', 'prost::encoding::merge_loop', E.site(fr, b), *cargs))))
        return out
