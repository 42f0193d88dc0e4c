"""Sharing and snapshots, decided on the type-checked program.

(1) The types of descriptors, pools, messages and values are walked to their leaves: no cell, lock, atomic, raw pointer, reference
    count other than Arc, trait object or unknown foreign type occurs, so behind a shared reference (and so behind an Arc) nothing
    can change; the compiler's trait solver says they are Send and Sync. No hand-written unsafe code or unsafe impl exists, so these
    types mean what they say.
(2) Nothing a descriptor answers comes from process-wide state: the mutable statics are reachable, in the call graph, only from the
    functions of the global pool and from the descriptor functions of generated types.
(3) Cloning copies: every Clone impl of the types of (1) is executed symbolically; each part of the result is the same part of the
    original. So what copy-on-write leaves behind, and what it hands to the writer, are the data as they were.
(4) Copy-on-write comes first: every public function that adds files is executed symbolically with the stages opaque; on every
    path the first access to the shared data is Arc::make_mut, on the pool of the caller; and no error a stage returns can hold
    a pool, so the data stay uniquely owned."""
from prv.kinds import *
from prv.checks import c12

LEVEL = 'proof'
POOL = 'prost_reflect::descriptor::DescriptorPool'
G_TYPE = 'shared data have no interior mutability'
G_AUTO = 'Send and Sync'
G_UNSAFE = 'no unsafe code'
G_STATIC = 'no process-wide state but the global pool'
G_CLONE = 'a clone has every part of the original'
G_COW = 'shared data are copied before they are changed'
STD_DENY = ('core::cell::', 'core::sync::', 'std::sync::', 'alloc::rc::', 'alloc::task::', 'std::thread::', 'std::cell::', 'core::ptr::', 'std::io::',
            'std::fs::', 'std::net::', 'std::process::', 'core::any::', 'std::os::', 'std::sys', 'core::mem::maybe_uninit')
KNOWN = {'bytes::bytes::Bytes', 'bytes::bytes_mut::BytesMut'}


class Types:
    def __init__(self, p):
        self.p = p
        self.seen = {}
        self.bad = {}

    def flag(self, what, path):
        self.bad.setdefault(what, path)

    def visit(self, i, path=()):
        t = self.p.types[i]
        k = t['k']
        if k in ('ref', 'array', 'slice'):
            if k == 'ref' and t.get('m'):
                self.flag('a mutable reference (%s)' % t['s'][:60], path)
            return self.visit(t['t'], path)
        if k == 'tuple':
            for x in t['a']:
                self.visit(x, path)
        elif k == 'adt':
            self.adt(t, path)
        elif k in ('ptr', 'fnptr', 'dyn', 'alias', 'closure', 'fndef'):
            self.flag('a %s (%s)' % ({'ptr': 'raw pointer', 'dyn': 'trait object'}.get(k, k), t['s'][:80]), path)

    def adt(self, t, path):
        n = t['n']
        for x in t['a']:
            self.visit(x, path)
        if n in self.seen:
            return
        self.seen[n] = path
        a = self.p.adts.get(n)
        crate = n.split('::', 1)[0]
        if a is not None and (a['local'] or crate in ('prost', 'prost_types')) and a['kind'] != 'opaque':
            for v in a['v']:
                for f in v['f']:
                    self.visit(f[1], path + ('%s.%s' % (n.rsplit('::', 1)[-1], f[0]),))
            return
        if crate in ('core', 'alloc', 'std'):
            if n.startswith(STD_DENY) and n not in ('core::ptr::non_null::NonNull',) or n.endswith(('::Weak', '::Rc')):
                if n not in ('alloc::sync::Arc',):
                    self.flag(n, path)
            return
        if n not in KNOWN:
            self.flag('foreign type %s' % n, path)


def roots(p):
    """The exported types that are, hold or describe shared descriptor data or message content."""
    out = []
    for n, a in sorted(p.adts.items()):
        if not a.get('pub'):
            continue
        T_ = Types(p)
        for v in a['v']:
            for f in v['f']:
                T_.visit(f[1])
        if n == POOL or POOL in T_.seen:
            out.append(n)
    return out


def holds_pool(p, n):
    T_ = Types(p)
    T_.adt({'n': n, 'a': []}, ())
    return POOL in T_.seen, T_


def run(p, C):
    rs = roots(p)
    C.floor('types that hold descriptor data', len(rs), 12)
    # 1
    T_ = Types(p)
    for n in rs:
        a = p.adts[n]
        T_.adt({'n': n, 'a': []}, (n.rsplit('::', 1)[-1],))
        for tr in ('send', 'sync'):
            C.ob(a.get(tr) is True, 'auto:%s:%s' % (tr, n), '%s is not %s' % (n, tr.capitalize()), G_AUTO)
    for n, path in sorted(T_.seen.items()):
        C.ob(n not in T_.bad, 'type:' + n, '%s at %s' % (n, ' -> '.join(path)), G_TYPE)
    for w, path in sorted(T_.bad.items()):
        if w not in T_.seen:
            C.ob(False, 'type:%s:%s' % (path[-1] if path else '', w), '%s at %s' % (w, ' -> '.join(path)), G_TYPE)
    C.sample('types walked: %s' % sorted(T_.seen))
    C.floor('types walked', len(T_.seen), 40)
    ad = {im['file'] for im in p.impls}
    C.floor('impls looked at', len(p.impls), 100)
    for f in sorted(set(p.unsafe)):
        C.ob(False, 'unsafe:' + f, 'unsafe block in %s' % f, G_UNSAFE)
    for im in p.impls:
        if im['unsafe'] and im['trait'] != 'core::clone::TrivialClone':
            C.ob(False, 'unsafe impl:%s' % im['traits'], 'unsafe impl of %s' % im['traits'], G_UNSAFE)
    C.ob(not p.unsafe, 'unsafe', '', G_UNSAFE)
    # 2
    shared_state(p, C)
    # 3
    n = 0
    for t in sorted(T_.seen):
        a = p.adts.get(t)
        f = '<%s as core::clone::Clone>::clone' % t
        if a is None or not a['local'] or f not in p.fn_by_name:
            continue
        n += 1
        clone(p, C, t, a, f)
    C.floor('clone functions', n, 25)
    # 4
    cow(p, C)


def mutable_statics(p):
    out = []
    for s in p.statics:
        T_ = Types(p)
        T_.visit(s['t'])
        if s['mut'] or T_.bad and not constant(p, s, T_):
            out.append(s['n'])
    return sorted(out)


def constant(p, s, T_):
    """A lazily made constant: a once-cell over immutable data, only ever filled by initialisers that capture nothing."""
    t = p.types[s['t']]
    if t['k'] != 'adt' or not t['n'].endswith(('::OnceLock', '::LazyLock')):
        return False
    I = Types(p)
    I.visit(t['a'][0])
    if I.bad:
        return False
    if t['n'].endswith('LazyLock'):
        return True
    for b in p.bodies.values():
        text = b.d['blocks']
        if not uses_static(text, s['n']):
            continue
        got = 0
        for blk in text:
            c = (blk or {}).get('t')
            if not c or c[0] != 'call' or c[1][0] != 'const':
                continue
            cc = p.types[c[1][1]['t']].get('c') or {}
            if not cc.get('n', '').startswith('std::sync::once_lock::OnceLock::'):
                continue
            if not cc['n'].endswith(('::get_or_init', '::get')):
                return False
            for a in cc['a']:
                if p.types[a]['k'] == 'closure' and captures(b, a):
                    return False
            got += 1
        if got != 1:
            return False
    return True


def uses_static(x, n):
    if isinstance(x, dict):
        return x.get('c') == 'static' and x.get('v') == n or any(uses_static(v, n) for v in x.values() if isinstance(v, (list, dict)))
    return isinstance(x, list) and any(uses_static(v, n) for v in x if isinstance(v, (list, dict)))


def captures(b, ty):
    for blk in b.d['blocks']:
        for st in (blk or {}).get('s', ()):
            if st[0] == '=' and isinstance(st[2], list) and st[2][0] == 'agg' and st[2][1] == ['closure', ty]:
                return bool(st[2][2])
    return False


def graph(p):
    """Call graph over bodies: called, referenced and created functions and closures; statics used."""
    import json
    nxt, stat = {}, {}
    bykey = p.bodies
    names = {}
    for k, b in bykey.items():
        names.setdefault(b.name, set()).add(k)
    for k, b in bykey.items():
        out, st = set(), set()

        def walk_(x):
            if isinstance(x, dict):
                if x.get('c') == 'static':
                    st.add(x.get('v'))
                if 't' in x and isinstance(x['t'], int):
                    ty(x['t'])
                for v in x.values():
                    if isinstance(v, (list, dict)):
                        walk_(v)
            elif isinstance(x, list):
                if len(x) == 2 and x[0] == 'closure' and isinstance(x[1], int):
                    ty(x[1])
                for v in x:
                    if isinstance(v, (list, dict)):
                        walk_(v)

        def ty(i):
            t = p.types[i] if 0 <= i < len(p.types) else None
            if not t:
                return
            if t['k'] == 'fndef':
                c = t.get('c') or {}
                out.update(x for x in (c.get('key'), c.get('r'), c.get('n')) if x)
            elif t['k'] == 'closure':
                out.add(t['key'])
                out.add(t['n'])
            elif t['k'] == 'ref':
                ty(t['t'])
        walk_(b.d['blocks'])
        for pr in b.d.get('promoted', []) or []:
            walk_(pr)
        keys = set()
        for o in out:
            if o in bykey:
                keys.add(o)
            elif o in names:
                keys |= names[o]
        nxt[k], stat[k] = keys, st
    return nxt, stat


def reaching(nxt, targets):
    """Bodies from which a target can be reached."""
    rev = {}
    for a, bs in nxt.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen, todo = set(targets), list(targets)
    while todo:
        for a in rev.get(todo.pop(), ()):
            if a not in seen:
                seen.add(a)
                todo.append(a)
    return seen


def allowed(p, n):
    """Functions whose contract is to use the global pool."""
    return n in {POOL + '::' + x for x in ('global', 'decode_global_file_descriptor_set', 'add_global_file_descriptor_proto')} or \
        n.startswith('<') and n.endswith(' as prost_reflect::reflect::ReflectMessage>::descriptor')


def shared_state(p, C):
    ms = mutable_statics(p)
    C.ob(len(ms) == 1, 'statics', 'the statics that can change are %s' % ms, G_STATIC)
    nxt, stat = graph(p)
    users = {k for k, s in stat.items() if s & set(ms)}
    C.floor('functions that use the global static', len(users), 1)
    # what the functions of the global pool and generated types do is theirs: stop there
    pub = {f['key']: f for f in p.fns}
    stop = {k for k, b in p.bodies.items() if allowed(p, b.name)}
    cut = {k: (set() if k in stop else v) for k, v in nxt.items()}
    for k in stop:
        C.ob(True, 'uses:' + p.bodies[k].name, '', G_STATIC)
    R = reaching(cut, users | {k for k in stop if k in reaching(nxt, users)})
    helpers = set()
    for k in sorted(R):
        b = p.bodies[k]
        f = pub.get(k)
        if k in stop or not b.local:
            continue
        base = b.name.split('::{closure')[0]
        # a private helper may be called from the functions of the global pool only
        callers = {p.bodies[x].name.split('::{closure')[0] for x in nxt if k in nxt[x]} - {base}
        reach_api = f is not None and f.get('pub') or b.name.startswith('<')
        helpers.add(base)
        C.ob(not reach_api and (callers or '{closure' in b.name) and all(allowed(p, x) or helper(p, nxt, x) for x in callers),
             'static:' + base, '%s depends on the global pool' % base, G_STATIC)
    C.floor('functions examined for statics', len(nxt), 1000)


def helper(p, nxt, name, depth=0):
    """A private function all of whose callers are functions of the global pool."""
    fs = p.fn_by_name.get(name)
    if not fs or fs[0].get('pub') or name.startswith('<') or depth > 5:
        return False
    keys = {k for k, b in p.bodies.items() if b.name == name}
    callers = {p.bodies[x].name.split('::{closure')[0] for x in nxt if nxt[x] & keys} - {name}
    return bool(callers) and all(allowed(p, x) or helper(p, nxt, x, depth + 1) for x in callers)


def clone(p, C, t, a, f):
    E = Engine(p)
    me = mk('me')
    fs = E.run(f, args={0: me})
    C.inlined(E)
    C.ob(bool(fs), 'clone:%s:returns' % t, '%s does not return' % f, G_CLONE)
    done = set()
    for x in fs:
        r = x.ret
        if r is me:
            C.ob(True, 'clone:' + t, '', G_CLONE)
            done |= set(range(len(a['v'])))
            continue
        if not C.ob(r.op == 'agg' and r.a[0] == t, 'clone:%s:type' % t, 'a clone is %s' % show(r)[:120], G_CLONE):
            continue
        v = r.a[1]
        done.add(v)
        if a['kind'] == 'enum':
            C.ob(x.st.facts.get(mk('discr', me)) == ('+', frozenset({int(a['v'][v]['d'])})), 'clone:%s:%s' % (t, a['v'][v]['n']),
                 'a clone becomes %s' % a['v'][v]['n'], G_CLONE)
        for i, fd in enumerate(a['v'][v]['f']):
            got = r.a[2 + i]
            want = mk('proj', mk('down', me, v) if a['kind'] == 'enum' else me, i)
            C.ob(same(got, me, v if a['kind'] == 'enum' else None, i), 'clone:%s:%s.%s' % (t, a['v'][v]['n'], fd[0]),
                 'the %s of a clone is %s' % (fd[0], show(got)[:120]), G_CLONE)
    C.ob(len(done) == len(a['v']), 'clone:%s:all' % t, 'a clone is never one of %s' % [v['n'] for i, v in enumerate(a['v']) if i not in done], G_CLONE)


def same(t, me, v, i):
    """The i-th part (of variant v) of `me`, possibly through the clone of a shared pointer."""
    while t.op == 'app' and t.a[0].endswith(' as core::clone::Clone>::clone'):
        t = t.a[2]
    return t.op == 'proj' and t.a[0] is me and t.a[2] == i and (v is None or t.a[1] == v)


def cow(p, C):
    api, stages = c12.find(p)
    C.floor('functions that add files', len(api), 5)
    C.floor('stages', len(stages), 4)
    takes = {}
    for s in stages:
        b = p.bodies[p.fn_by_name[s][0]['key']]
        takes[s] = [i for i in range(b.argc) if p.ts(b.locals[i + 1]).startswith('&mut ') and POOL in p.ts(b.locals[i + 1])]
    for fn in api:
        me = fn.rsplit('::', 1)[-1]
        E = c12.engine(p)
        w = {s: '%s:%s' % ('change' if takes[s] else 'read', s) for s in stages}
        E.watch = lambda n, r, c, w=w: w.get(r) or w.get(n) or ('make:' if n.endswith('::Arc::make_mut') else 'get:' if n.endswith('::Arc::get_mut') else None)
        E.opaque |= set(stages)
        fs = E.run(fn, args={0: mk('self'), 1: mk('files')})
        C.inlined(E)
        n = 0
        for f in fs:
            evs = [e for e in f.trace if isinstance(e, T)]
            made = False
            for e in evs:
                lab = e.a[0]
                if not isinstance(lab, str):
                    continue
                if lab.startswith('make:'):
                    made = True
                    n += 1
                    C.ob(any(x.op == 'self' for x in walk(e.a[1])), 'cow:%s:whose' % me, '%s copies %s' % (me, show(e.a[1])[:120]), G_COW)
                elif lab.startswith(('get:', 'change:')):
                    C.ob(made, 'cow:%s:%s' % (me, lab), '%s reaches %s before the shared data are copied' % (me, lab), G_COW)
        C.floor('%s: paths that copy' % me, n, 1)
    # errors hold no pool
    b = p.bodies[p.fn_by_name[api[0]][0]['key']] if api else None
    errs = {n for n, a in p.adts.items() if a['local'] and n.startswith('prost_reflect::descriptor::error::')}
    C.floor('error types', len(errs), 2)
    for n in sorted(errs):
        h, _ = holds_pool(p, n)
        C.ob(not h, 'error:' + n, '%s can hold a pool' % n, G_COW)
