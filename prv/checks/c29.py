"""The global pool as one locked object.

(1) Each of the functions of the global pool is executed symbolically, down to the pool operation it performs: on every path the
    lock of the one static pool is taken exactly once, the pool operation works on what that lock protects (or on a copy made under
    it, when nothing is written back), and success is reported exactly when the operation succeeded.
(2) In the call graph, nothing that runs while the lock is held, and no initialiser of a static, can take the lock again.
(3) No exported function hands the guard, or a reference into the locked pool, to its caller.
With (1)-(3) each operation takes effect at one point between its call and its return: histories are linearizable."""
import re
from prv.kinds import *
from prv.checks import c13

LEVEL = 'proof'
POOL = c13.POOL
OPS = {'global': None, 'decode_global_file_descriptor_set': 'decode_file_descriptor_set', 'add_global_file_descriptor_proto': 'add_file_descriptor_proto'}
G_LOCK = 'the lock is taken exactly once'
G_OWN = 'the operation works on the locked pool'
G_AGAIN = 'the lock is not taken while it is held'
G_LEAK = 'the guard stays inside'


LOCKS = re.compile(r'^(std|core)::sync::.*(Mutex|RwLock|ReentrantLock|Atomic\w*|Condvar)(<.*>)?::(lock|try_lock|read|write|try_read|try_write|load|store|swap|update|fetch_\w+|compare_\w+)$')


def locks(n):
    return LOCKS.match(n) is not None


def run(p, C):
    ms = c13.mutable_statics(p)
    C.ob(len(ms) == 1, 'statics', 'the statics that can change are %s' % ms, G_OWN)
    nxt, stat = c13.graph(p)
    users = {k for k, s in stat.items() if s & set(ms)}
    C.floor('functions that use the global static', len(users), 1)
    R = c13.reaching(nxt, users)
    ret = lambda n: p.bodies[p.fn_by_name[n][0]['key']]
    mkp = [n for n in p.fn_by_name if n.startswith('prost_reflect::reflect::') and p.fn_by_name[n][0]['key'] in p.bodies
           and 'DescriptorPool,' in p.ts(ret(n).locals[0])]
    cl = ['<%s as core::clone::Clone>::clone' % POOL]
    n = 0
    # every public operation that may touch the static, named or new
    ops = sorted({p.bodies[k].name for k in R if p.fn_by_name.get(p.bodies[k].name) and p.fn_by_name[p.bodies[k].name][0].get('pub')
                  and p.bodies[k].name.startswith(POOL + '::')})
    for w in OPS:
        C.ob(POOL + '::' + w in ops, 'op:' + w, '%s does not use the global pool' % w, G_OWN)
    pools = {f['n'] for f in p.fns if f['key'] in p.bodies and p.bodies[f['key']].argc and p.ts(p.bodies[f['key']].locals[1]) in ('&mut ' + POOL, '&' + POOL, POOL)
             and (f.get('pub') or f['n'] in cl)}
    held = set()
    for f in ops:
        me = f.rsplit('::', 1)[-1]
        E = Engine(p, opaque=set(mkp) | pools | set(cl))
        E.watch = lambda nm, r, c: 'lock' if locks(nm) or locks(r or '') else 'op:' + r if r in pools else 'op:' + nm if nm in pools else None
        for x in E.run(f):
            n += 1
            evs = [e for e in x.trace if isinstance(e, T)]
            C.ob(all(isinstance(e, T) for e in x.trace), 'lock:%s:loop' % me, '%s works on the global pool in a loop' % me, G_LOCK)
            lk = [e for e in evs if e.a[0] == 'lock']
            C.ob(len(lk) == 1 and any(y is mk('static', ms[0]) for y in walk(lk[0])) if ms else False, 'lock:%s' % me,
                 '%s takes the lock %d times on a path' % (me, len(lk)), G_LOCK)
            done = [e for e in evs if isinstance(e.a[0], str) and e.a[0].startswith('op:')]
            inner = OPS.get(me)
            for e in done:
                held.add(e.a[0][3:])
                C.ob(any(y.op == 'app' and locks(y.a[0]) for y in walk(e.a[1])), 'own:%s:%s' % (me, e.a[0]),
                     '%s works on %s' % (e.a[0][3:], show(e.a[1])[:160]), G_OWN)
            if me in OPS:
                want = POOL + '::' + inner if inner else cl[0]
                C.ob([e.a[0][3:] for e in done] == [want], 'own:%s' % me, '%s does %s' % (me, [e.a[0][3:] for e in done]), G_OWN)
                if inner and done:
                    okr = x.ret.op == 'agg' and x.ret.a[0] == 'core::result::Result'
                    fc = [d for t, d in x.st.facts.items() if t.op == 'discr' and t.a[0].op == 'app' and t.a[0].a[0] == want]
                    same = x.ret.op == 'app' and x.ret.a[0] == want
                    C.ob(same or okr and fc == [('+', frozenset({x.ret.a[1]}))], 'result:%s' % me, '%s returns %s when the operation gives %s' % (me, show(x.ret)[:80], fc), G_OWN)
                elif done:
                    C.ob(x.ret.op == 'app' and x.ret.a[0] == cl[0], 'result:%s' % me, 'global() returns %s' % show(x.ret)[:120], G_OWN)
        C.inlined(E)
    C.floor('paths of global operations', n, 3)
    # 2
    names = {}
    for k, b in p.bodies.items():
        names.setdefault(b.name, set()).add(k)
    for o in sorted(held):
        for k in names.get(o, ()):
            C.ob(k not in R, 'again:' + o, '%s, which runs with the lock held, can take it again through %s' % (o, chain(p, nxt, k, users)), G_AGAIN)
    ini = 0
    for k, b in p.bodies.items():
        if b.local and stat[k]:
            for y in nxt[k]:
                if '{closure' in p.bodies[y].name:
                    ini += 1
                    C.ob(y not in R, 'init:' + p.bodies[y].name, 'the initialiser in %s can take the lock through %s' % (b.name, chain(p, nxt, y, users)), G_AGAIN)
    C.floor('operations run under the lock', len(held), 2)
    C.sample('run under the lock: %s; call graph of %d functions' % (sorted(held), len(nxt)))
    # 3
    m = 0
    for f in p.fns:
        if f.get('pub'):
            m += 1
            s = p.ts(f['out']) if isinstance(f.get('out'), int) else ''
            C.ob('MutexGuard' not in s and 'RwLock' not in s and "&'static mut" not in s and 'Mutex<' not in s, 'leak:' + f['n'],
                 '%s returns %s' % (f['n'], s[:120]), G_LEAK)
    C.floor('exported functions', m, 200)


def chain(p, nxt, k, users):
    prev, todo = {k: None}, [k]
    while todo:
        x = todo.pop(0)
        if x in users:
            out = []
            while x is not None:
                out.append(p.bodies[x].name.rsplit('::', 1)[-1])
                x = prev[x]
            return ' <- '.join(out[:8])
        for y in nxt[x]:
            if y not in prev:
                prev[y] = x
                todo.append(y)
    return '?'
