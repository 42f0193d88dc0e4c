"""Recursion whose depth the input chooses is cut.

Text format: the parser is evaluated from its public entry on documents of DEEP nested message values of every form (also after a
sibling that has been closed, and through all forms in turn), which it must refuse; SHALLOW ones and many siblings it must accept.
Writer: payloads that are decoded again while they are written nest at most BOUND times.
Wire: the decode context is handed on unchanged on every path, none is created below a function that has one, and every cycle of
functions that have one passes through a function of prost that spends the budget.
Pool: every cycle of local functions descends into an owned tree, into a budgeted decoder or into a lexer's input; names of options
with too many parts are refused before they are followed."""
import itertools
import re
import sys
import threading

from prv.textparse import *
from prv.checks import c19
from prv.checks.c25 import both, extra, field_facts, result, DPOOL
from prv import text as txt
from prv.engine import err, ok, some

LEVEL = 'proof'
OK = txt.OK
G1 = 'text: deeply nested values are refused'
G2 = 'text: values that are not deeply nested are accepted'
G3 = 'writer: nested payloads are expanded to a bounded depth'
G4 = 'wire: the decode context is handed on'
G5 = 'wire: every cycle spends the budget'
G6 = 'calls: every cycle descends into a finite tree or is budgeted'
G8 = 'JSON: nested payloads are serialized to a bounded depth'
G7 = 'options: names with many parts are refused'
DEEP, SHALLOW, MANY, BOUND = 112, 30, 130, 130
CTX = 'prost::encoding::DecodeContext'
KEYF, VALF = mk('keyfield'), mk('valuefield')


def forms(T):
    """form -> (tokens before and after the nested value in the message of level i, facts of the field, needs)"""
    LB, RB, CM, CO, B0, B1 = T('LeftBracket'), T('RightBracket'), T('Comma'), T('Colon'), T('LeftBrace'), T('RightBrace')
    A0, A1 = T('LeftAngleBracket'), T('RightAngleBracket')
    f = {
        'braces': (lambda n, e: [T.ident(n), B0], [B1], {}),
        'angles': (lambda n, e: [T.ident(n), CO, A0], [A1], {}),
        'group': (lambda n, e: [T.ident(mk('grp', n)), B0], [B1], {'is_group': k(1)}),
        'extension': (lambda n, e: [LB, T.ident(e), RB, B0], [B1], {}),
        'list': (lambda n, e: [T.ident(n), B0], [B1], {'is_list': k(1)}),
        'list element': (lambda n, e: [T.ident(n), CO, LB, B0], [B1, RB], {'is_list': k(1)}),
        'later element': (lambda n, e: [T.ident(n), CO, LB, B0, B1, CM, A0], [A1, RB], {'is_list': k(1)}),
        'map value': (lambda n, e: [T.ident(n), B0, T.ident(k('value')), B0], [B1, B1], {'is_map': k(1)}),
        'map entry': (lambda n, e: [T.ident(n), CO, LB, A0, T.ident(k('value')), CO, B0], [B1, A1, RB], {'is_map': k(1)}),
        'Any': (lambda n, e: [LB, T.ident(mk('domain')), T('ForwardSlash'), T.ident(mk('anyname')), RB, B0], [B1], None),
    }
    return f


def text_run(p, T, levels, deep=False):
    """levels: [(form, children before)] outermost first -> outcomes"""
    fs = forms(T)
    names, exts, flds = ([mk(x, i) for i in range(len(levels))] for x in ('levelname', 'levelext', 'levelfield'))
    sibs = {mk('sibname', i): mk('sibfield', i) for i in range(len(levels))}
    byname = {n: i for i, n in enumerate(names)}
    byext = {n: i for i, n in enumerate(exts)}
    num = {f: 100 + i for i, f in enumerate(flds)}
    num.update({f: 5000 + i for i, f in enumerate(sibs.values())})
    num.update({KEYF: 1, VALF: 2})
    VI = vidx(p, VAL)
    facts, groups, pre, post = {f: dict(kind=kindterm(p, 'Message'), is_list=k(1), default_value=agg(VAL, VI['List'], mk('emptylist'))) for f in sibs.values()}, set(), [], []
    facts[KEYF], facts[VALF] = dict(kind=kindterm(p, 'String')), dict(kind=kindterm(p, 'Message'))
    for i, (form, sib) in enumerate(levels):
        a, b, ff = fs[form]
        for s in range(sib):
            pre += [T.ident(mk('sibname', i)), T('LeftBrace'), T('RightBrace')]
        pre += a(names[i], exts[i])
        post = b + post
        if ff is not None:
            kt = kindterm(p, 'Message')
            facts[flds[i]] = dict(ff, kind=agg(kt.a[0], kt.a[1], mk('desc', i)))
            if 'is_list' in ff or 'is_map' in ff:
                facts[flds[i]]['default_value'] = agg(VAL, VI['List' if 'is_list' in ff else 'Map'], mk('emptylist'))
            if 'is_group' in ff:
                groups.add(names[i])

    def name(a):
        if a in byname and a not in groups:
            return some(flds[byname[a]])
        if a in sibs:
            return some(sibs[a])
        if isk(a):
            return {'key': some(KEYF), 'value': some(VALF), 'type_url': some(KEYF)}.get(kv(a), NONE_OPT)
        if a.op != 'grp' and groups:
            for x in walk(a):
                if x.op == 'grp':
                    return some(flds[byname[x.a[0]]])
        return NONE_OPT

    def ext(a):
        for x in walk(a):
            if x in byext:
                return some(flds[byext[x]])
        return NONE_OPT

    def numbers(n, last, a, res):
        if last == 'number' and n.startswith(DESC) and a and a[0] in num:
            return k(num[a[0]])
        if last == 'get_message_by_name':
            return some(mk('desc'))
        if last == 'name' and a and a[0].op == 'desc' and a[0].a and names[a[0].a[0]] in groups:
            return mk('grp', names[a[0].a[0]])
        if last == 'full_name':
            return k('google.protobuf.Any')
        if last == 'eq' and VAL in n and any(x.op == 'app' and x.a[0].endswith('::default_value') for x in a):
            return k(0)
        if last in ('is_valid_for_field', 'is_valid_for_extension'):
            return k(1)
        return None
    look = {'get_field_by_name': name, 'get_extension_by_full_name': ext,
            'get_field': lambda a: {1: some(KEYF), 2: some(VALF)}.get(kv(a), NONE_OPT) if isk(a) else NONE_OPT}
    slots = {'r%d' % i: 'absent' for i in num.values() if i > 2}
    slots['third'] = 'absent'
    P = Parse(p, pre + post, 'absent', 'absent', 0, look, {}, extra=both(numbers, field_facts(facts), extra(p)),
              roles=lambda key: ('r%d' % kv(key)) if isk(key) and 'r%d' % kv(key) in slots else None,
              slots=slots, members=(), anydesc=1, stop_at=len(pre) + 2 if deep else None, opaque=[DPOOL + 'get_message_by_name'] + only_existing(p, [DESC + 'MessageDescriptor::name']))
    return ({'read'} if P.reached else set()) | {result(f) for f in P.r}, P.E.inlined, P.E.steps, P.E.callsites


def cases(T):
    fs = list(forms(T))
    for f in fs:
        yield 'deep:' + f, [(f, 0)] * DEEP, 'err'
        yield 'shallow:' + f, [(f, 0)] * (2 if f in ('map value', 'map entry', 'Any') else SHALLOW), 'ok'
    for f in ('braces', 'angles', 'list'):
        yield 'sibling:' + f, [(f, 1)] * DEEP, 'err'
    yield 'turns', [(fs[i % len(fs)], 0) for i in range(DEEP)], 'err'
    yield 'many', [('braces', MANY)], 'ok'


STATE = {}


def work(i):
    out = []

    def go():
        try:
            key, levels, want = STATE['cases'][i]
            out.append((key, want, len(levels)) + text_run(STATE['p'], STATE['T'], levels, want == 'err'))
        except BaseException as e:      # reported by the parent
            out.append((STATE['cases'][i][0], 'error', 0, repr(e)[:300]))
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    return out[0]


def spread(order, width):
    """work() on every case, in processes of their own."""
    import os
    import pickle
    kids, got = [], []
    for w in range(width):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                with os.fdopen(wr, 'wb') as f:
                    pickle.dump([work(i) for i in order[w::width]], f)
            finally:
                os._exit(0)
        os.close(wr)
        kids.append((pid, r))
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            raise Broken('text: a process that analysed documents ended early')
        got += pickle.loads(data)
    return got


def text(p, C):
    T = Tokens(p)
    STATE.update(p=p, T=T, cases=list(cases(T)))
    order = sorted(range(len(STATE['cases'])), key=lambda i: -len(STATE['cases'][i][1]))
    got = spread(order, 8)
    n = 0
    for r in sorted(got, key=lambda x: x[0]):
        if r[1] == 'error':
            raise Broken('text: %s: %s' % (r[0], r[3]))
        key, want, depth, res, fns, steps, sites = r
        n += 1
        s = C.cov.setdefault('_fns', set())
        s |= fns
        C.cov['abstract_steps'] = C.cov.get('abstract_steps', 0) + steps
        C.cov['call_sites_evaluated'] = C.cov.get('call_sites_evaluated', 0) + sites
        if want == 'err':
            C.ob(res == {'err'}, 'text:' + key, 'a document with %d nested values (%s) is read by a recursion of that depth' % (depth, key), G1)
        else:
            C.ob('ok' in res, 'text:' + key, 'a document that is not deeply nested (%s) is refused' % key, G2)
    return n


def writer(p, C):
    W = txt.Writer(p)
    VAD = [a for a, d in p.adts.items() if a.startswith(DYN) and d['kind'] == 'enum' and {v['n'] for v in d['v']} >= {'Field', 'Extension', 'Unknown'}]
    UFV = [a for a, d in p.adts.items() if a.startswith(DYN) and d['kind'] == 'enum' and {v['n'] for v in d['v']} >= {'LengthDelimited', 'Group', 'Varint'}]
    if len(VAD) != 1 or len(UFV) != 1:
        raise Broken('fields of messages or values of unknown fields not found: %s, %s' % (VAD, UFV))
    VAD, UFV = VAD[0], UFV[0]
    UF, UFS = DYN + 'unknown::UnknownField', DYN + 'unknown::UnknownFieldSet'
    entry = DM + 'to_text_format_with_options'
    p.find(entry)
    n = 0
    for what, pretty in itertools.product(('any', 'unknown', 'both'), (0, 1)):
        options = agg(txt.FO, 0, *[k(int(f == 'expand_any' or f == 'pretty' and pretty)) for f in txt.fnames(p, txt.FO)])
        E = Engine(p, opaque=opaque_api(p))
        E.rec_limit, E.stack_limit, E.unroll, E.known_lists = 2 * BOUND, 40 * BOUND, 6, True
        count, most = mk('ghost', 'payloads'), [0]

        def tick(st):
            v = st.mem.get(count)
            i = 0 if v is None else kv(v)
            st.mem[count] = k(i + 1)
            most[0] = max(most[0], i + 1)
            return i

        def ok_(E_, st, fr, b, c, args, tys, dt):
            return [(st, OK)]
        for nm in ('write_char', 'write_str', 'write_fmt'):
            E.models['core::fmt::Write::' + nm] = ok_
            E.models['core::fmt::Formatter::' + nm] = ok_
            E.models["<core::fmt::Formatter<'_> as core::fmt::Write>::" + nm] = ok_
        for w in txt.CUTS:
            for nm in W.fn[w]:
                if w == 'string':
                    E.models[nm] = ok_
        for nm in W.fn['any']:
            def any_(E_, st, fr, b, c, args, tys, dt, what=what):
                if what == 'unknown':
                    return [(st, NONE_OPT)]
                i = tick(st)
                if i > BOUND or what == 'both' and i % 2:
                    return [(st, NONE_OPT)]
                return [(st, some(agg('tuple', None, mk('url', i), mk('body', i))))]
            E.models[nm] = any_

        def finite(st, *items):
            it = mk('finite', mk('items', len(items)), *items)
            st.mem.pop(mk('ghost', 'finite', it), None)
            return [(st, it)]
        for nm in W.fn['iter']:
            def iter_(E_, st, fr, b, c, args, tys, dt):
                return finite(st, agg(VAD, vidx(p, VAD)['Unknown'], mk('unknownfield')))
            E.models[nm] = iter_
        E.models[UFS + '::iter'] = lambda E_, st, fr, b, c, args, tys, dt: finite(st, mk('unknownfield'))
        E.models[UF + '::value'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, agg(UFV, vidx(p, UFV)['LengthDelimited'], mk('payload')))]
        E.models[UF + '::number'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, k(77))]

        def redecode(E_, st, fr, b, c, args, tys, dt):
            return [(st, err(mk('toodeep')) if tick(st) > BOUND else ok(mk('unknownset')))]
        E.models[UFS + '::decode'] = redecode
        E.models['prost::message::Message::decode'] = redecode
        E.models['<%s as prost::message::Message>::decode' % UFS] = redecode
        E.models[UFS + '::is_empty'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, k(0))]

        def oracle(nm, a, res):
            if nm.endswith('::is_empty'):
                return k(0)
            return None
        E.oracle = oracle
        r = E.run(entry, args={1: options})
        C.inlined(E)
        n += 1
        C.ob(bool(r) and most[0] >= 3, 'writer:%s:%d:reached' % (what, pretty), 'no payload is expanded', G3)
        C.ob(most[0] <= BOUND, 'writer:%s:%d' % (what, pretty), 'payloads that contain payloads (%s) are written by a recursion of unbounded depth' % what, G3)
    return n


SPENDS = ('prost::encoding::message::merge', 'prost::encoding::group::merge', 'prost::encoding::skip_field')


def calls(p, b):
    """(block, callee, arguments, argument types, destination) of the calls of a body; callee is {} for a call of a value."""
    for i, bl in enumerate(b.d['blocks']):
        t = bl and bl['t']
        if not t or t[0] != 'call':
            continue
        f = t[1]
        c = {}
        if f[0] == 'const' and isinstance(f[1].get('t'), int):
            ft = p.types[f[1]['t']]
            if ft['k'] == 'fndef':
                c = ft.get('c') or {'n': ft.get('n', '')}
        yield i, c, t[2], t[3]


def lty(p, b, i):
    x = b.locals[i]
    return p.ts(x['t'] if isinstance(x, dict) else x)


def wire(p, C):
    n = 0
    withctx, fresh, prost, edges = set(), {}, {}, {}
    names = {}
    for key, b in p.bodies.items():
        names.setdefault(b.name, set()).add(key)
    bad = []
    for key, b in p.bodies.items():
        cl = [i for i in range(len(b.locals)) if lty(p, b, i) == CTX]
        if any(1 <= i <= b.argc for i in cl):
            withctx.add(key)
        defs = {}
        for bl in filter(None, b.d['blocks']):
            for st in bl['s']:
                if st[0] == '=' and len(st[1]) == 1:
                    defs.setdefault(st[1][0], []).append(st[2])
        out = set()
        for i, c, args, dest in calls(p, b):
            if len(dest) == 1 and c:
                defs.setdefault(dest[0], []).append(['call', c.get('n', ''), args])
            nm = c.get('n', '')
            for o in (c.get('key'), c.get('r'), nm):
                if o in p.bodies:
                    out.add(o)
                    break
                if o in names:
                    out |= names[o]
                    break
        for bl in filter(None, b.d['blocks']):
            for st in bl['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure':
                    x = st[2][1][1]
                    x = p.types[x]['key'] if isinstance(x, int) else x
                    out |= {x} & set(p.bodies)
        edges[key] = out

        def origin(o, seen=()):
            """Whether an operand is the decode context this function was given."""
            if o[0] not in ('copy', 'move'):
                return False
            pl = o[1]
            if 1 <= pl[0] <= b.argc:
                return True
            if pl[0] in seen:
                return True
            ds = defs.get(pl[0], [])
            if not ds:
                return any(isinstance(x, str) or x for x in pl[1:])
            for d in ds:
                if d[0] == 'use':
                    r = origin(d[1], seen + (pl[0],))
                elif d[0] == 'ref':
                    r = origin(['copy', d[2]], seen + (pl[0],))
                elif d[0] == 'call':
                    r = d[1].rsplit('::', 1)[-1] in ('clone', 'enter_recursion') and bool(d[2]) and origin(d[2][0], seen + (pl[0],))
                else:
                    r = False
                if not r:
                    return False
            return True
        for i, c, args, dest in calls(p, b):
            nm = c.get('n', '')
            at = [lty(p, b, o[1][0]) if o[0] in ('copy', 'move') and len(o[1]) == 1 else '' for o in args]
            for o, t in zip(args, at):
                if t != CTX:
                    continue
                if key in withctx and nm.rsplit('::', 1)[-1] not in ('drop',):
                    n += 1
                    C.ob(origin(o), 'ctx:%s:%s' % (b.name, nm.rsplit('::', 2)[-2:]), '%s hands on a decode context that is not the one it was given' % b.name, G4)
                elif not origin(o):
                    fresh.setdefault(key, []).append(nm)
            if CTX not in at and nm.startswith('prost::') and nm.rsplit('::', 1)[-1].startswith(('decode', 'merge')) and nm.startswith('prost::message::'):
                fresh.setdefault(key, []).append(nm)
    C.floor('functions with a decode context', len(withctx), 4)
    # nothing below a function with a context starts anew
    below, todo = set(withctx), list(withctx)
    while todo:
        for y in edges.get(todo.pop(), ()):
            if y not in below:
                below.add(y)
                todo.append(y)
    for key in sorted(below):
        n += 1
        C.ob(key not in fresh, 'fresh:' + p.bodies[key].name, '%s, which is reached while a message is decoded, starts decoding with a new budget (%s)' % (
            p.bodies[key].name, fresh.get(key, [''])[0]), G4)
    # cycles of functions with a context
    for s in sccs({x: edges[x] & withctx for x in withctx}):
        nm = sorted({p.bodies[x].name for x in s})
        n += 1
        # lists of values and entries of maps nest once each (map entries are validated); messages nest as the input says
        mess = [x for x in s if any(y in lty(p, p.bodies[x], i) for i in range(1, p.bodies[x].argc + 1) for y in (DYN + 'DynamicMessage', DYN + 'unknown::UnknownFieldSet'))]
        C.ob(not mess, 'cycle:%s' % nm[0], '%s call each other while a message is decoded without spending the budget' % ', '.join(nm), G5)
    C.ob(True, 'cycles', '', G5)
    return n


def sccs(nxt):
    """Strongly connected components with a cycle."""
    idx, low, st, on, out = {}, {}, [], set(), []
    for root in sorted(nxt):
        if root in idx:
            continue
        work_ = [(root, iter(sorted(nxt[root])))]
        idx[root] = low[root] = len(idx)
        st.append(root)
        on.add(root)
        while work_:
            v, it = work_[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = len(idx)
                    st.append(w)
                    on.add(w)
                    work_.append((w, iter(sorted(nxt.get(w, ())))))
                    break
                if w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work_.pop()
                if work_:
                    low[work_[-1][0]] = min(low[work_[-1][0]], low[v])
                if low[v] == idx[v]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == v:
                            break
                    if len(comp) > 1 or v in nxt.get(v, ()):
                        out.append(comp)
    return out


def json_writer(p, C):
    """Payloads that are decoded and serialized again: the options handed on carry a count that ends the expansion; no function
    hands on a smaller count."""
    sc = c19.Scope(p)
    SER = c19.SER
    fs = p.adts[SER]['v'][0]['f']
    state = [i for i, f in enumerate(fs) if p.ts(c19.ft(f)[1]) != 'bool']
    n = deep = 0

    def options(v):
        return agg(SER, 0, *[k(v) if i in state else mk('choice', i) for i in range(len(fs))])

    def decoded(x):
        return any(w.op in ('app', 'out') and w.a[0].rsplit('::', 1)[-1] in ('merge', 'decode') for w in walk(x) if w.a and isinstance(w.a[0], str))

    def handed(fn, v):
        """(whether a decoded payload goes with them, options) of the calls that are handed options"""
        o = options(v)
        E = Engine(p, opaque=opaque_api(p) + [DESC + 'MessageDescriptor::parent_pool'] + [x for x in sc.fns if x != fn], watch=sc.label)
        E.opaque |= {DM + 'transcode_from', DM + 'transcode_to', DM + 'new', DM + 'decode'} & set(p.fn_by_name)
        r = E.run(fn, args=sc.args(fn, o))
        C.inlined(E)
        out = set()
        for f in r:
            for e, _ in c19.events(f.trace):
                os_ = {y for x in e.a[1:] for y in walk(x) if y.op == 'agg' and y.a[0] == SER}
                out |= {(any(decoded(x) for x in e.a[1:]), y) for y in os_}
        return out
    for fn in sorted(sc.fns):
        if SER not in [a if a in sc.opt else '' for a in sc.fns[fn].values()] and not any(
                SER in p.ts(c19.ft(p.adts[a]['v'][0]['f'][j])[1]) for a in sc.fns[fn].values() if a in sc.carr for j in sc.carr[a]):
            continue
        short = fn.replace(DYN + 'serde::', '')
        try:
            got = handed(fn, 7)
        except Limit as e:
            C.ob(False, 'json:%s:limit' % short, 'too many cases: %s' % e, G8)
            continue
        n += 1
        for i in state:
            low = [y for _, y in got if not (isk(y.a[2 + i]) and isinstance(kv(y.a[2 + i]), int) and kv(y.a[2 + i]) >= 7)]
            C.ob(not low, 'json:%s:kept' % short, '%s hands on options whose count of expanded payloads is not at least its own' % short, G8)
        pay = [y for d, y in got if d]
        if not pay:
            continue
        deep += 1
        v, ends = 0, False
        for _ in range(BOUND):
            nxt = [y for d, y in handed(fn, v) if d]
            if not nxt:
                ends = True
                break
            vs = [kv(y.a[2 + i]) for y in nxt for i in state if isk(y.a[2 + i])]
            if not vs or min(vs) <= v:
                break
            v = min(vs)
        C.ob(ends, 'json:%s' % short, '%s decodes a payload and serializes it without a bound on how deeply payloads nest' % short, G8)
    C.floor('serializers of decoded payloads', deep, 1)
    return n


def owned(p):
    """Types that own values of their own type: recursion over one ends with the value."""
    inner = {}
    for a, d in p.adts.items():
        if not d.get('local'):
            continue
        out = set()
        for v in d['v']:
            for f in v['f']:
                t = p.ts(c19.ft(f)[1])
                if '&' in t or 'Arc<' in t or '*' in t:
                    continue
                out |= {b for b in re.findall(r'prost_reflect::[\w:]+', t) if b in p.adts}
        inner[a] = out
    tree = set()
    for a in inner:
        seen, todo = set(), list(inner[a])
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += inner.get(x, ())
        if a in seen:
            tree.add(a)
    return tree


def cycles(p, C):
    names, edges = {}, {}
    for key, b in p.bodies.items():
        names.setdefault(b.name, set()).add(key)
    for key, b in p.bodies.items():
        out = set()
        for i, c, args, dest in calls(p, b):
            for o in (c.get('key'), c.get('r'), c.get('n', '')):
                if o in p.bodies:
                    out.add(o)
                    break
                if o in names:
                    out |= names[o]
                    break
        for bl in filter(None, b.d['blocks']):
            for st in bl['s']:
                if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure':
                    x = st[2][1][1]
                    x = p.types[x]['key'] if isinstance(x, int) else x
                    out |= {x} & set(p.bodies)
        edges[key] = out
    tree = owned(p)
    for a in (DYN + 'Value', DESC + 'types::DescriptorProto'):
        C.ob(a in tree, 'tree:' + a, '%s is not a finite tree' % a, G6)

    def over(x):
        b = p.bodies[x]
        return any(re.search(r'(?<![\w:])%s(?![\w:])' % re.escape(a), re.sub(r'<.*', '', lty(p, b, i).lstrip('&').replace('mut ', '')) if not lty(p, b, i).startswith('&[') else lty(p, b, i))
                   for i in range(1, b.argc + 1) for a in tree)
    n = 0
    lexers = set()
    for s in sccs(edges):
        n += 1
        nm = sorted({p.bodies[x].name for x in s})
        lex = [x for x in nm if ' as logos::Logos' in x]
        if lex:
            lexers |= {x.split(' as logos::Logos')[0].lstrip('<').split('<')[0] for x in lex}
            continue
        rest = {x for x in s if not over(x)}
        left = sccs({x: edges[x] & rest for x in rest})
        for t in left:
            nm = sorted({p.bodies[x].name for x in t})
            C.ob(False, 'call:' + nm[0], '%s call each other and descend into nothing finite' % ', '.join(nm), G6)
        if not left:
            C.ob(True, 'call:' + nm[0], '', G6)
    for x in sorted(lexers):
        C.ob(False, 'lexer:' + x, 'the generated lexer of %s calls itself once per character or skipped text; only an optimising compiler turns that into a loop' % x, G6)
    return n


def options(p, C):
    """The function that sets an option is evaluated on a name of many parts: it is refused before a part is followed."""
    uo = [n for n in p.adts if n.endswith('::UninterpretedOption')]
    if len(uo) != 1:
        raise Broken('options that are not interpreted: %s' % uo)
    UO = uo[0]
    fns = [n for n in p.fn_by_name if (lambda s: s and any(t == '&mut ' + DM[:-2] for t in s[1]) and '&' + UO in s[1])(txt.sig(p, n))]
    C.floor('functions that set an option', len(fns), 1)
    ft = [p.ts(c19.ft(f)[1]) for f in p.adts[UO]['v'][0]['f'] if c19.ft(f)[0] == 'name']
    np = [n for n in p.adts if ft and re.search(r'<%s>' % re.escape(n), ft[0])]
    if len(np) != 1:
        raise Broken('parts of option names not found: %s' % np)
    for fn in fns:
        s = txt.sig(p, fn)
        at = {t: i for i, t in enumerate(s[1])}
        for size, what in ((400, 'refused'), (4, 'followed')):
            for isext in (0, 1):
                part = lambda i: agg(np[0], 0, *[k(isext) if 'extension' in c19.ft(f)[0] else mk('part', i) for f in p.adts[np[0]]['v'][0]['f']])
                parts = agg('array', None, *[part(i) for i in range(size)])
                opt = agg(UO, 0, *[parts if c19.ft(f)[0] == 'name' else mk('optfield', c19.ft(f)[0]) for f in p.adts[UO]['v'][0]['f']])
                steps = mk('ghost', 'followed')
                E = Engine(p, opaque=opaque_api(p) + [n for n in p.fn_by_name if n.startswith(DESC) and n != fn and '::build::options::' in n])
                E.known_lists, E.unroll = True, size + 4
                most = [0]

                def follow(E_, st, fr, b, c, args, tys, dt):
                    v = st.mem.get(steps)
                    i = 0 if v is None else kv(v)
                    st.mem[steps] = k(i + 1)
                    most[0] = max(most[0], i + 1)
                    if i > 2 * BOUND:
                        return []
                    return [(st, mk('ref', mk('slot', i), ()))]
                for m in ('get_field_mut', 'get_extension_mut'):
                    E.models[DM + m] = follow
                E.run(fn, args={at['&' + UO]: opt})
                C.inlined(E)
                key = 'option:%d:%d' % (size, isext)
                if what == 'refused':
                    C.ob(most[0] <= BOUND, key, '%s follows the parts of an option name, however many they are' % fn, G7)
                else:
                    C.ob(most[0] >= 1, key, '%s does not follow the parts of an option name' % fn, G7)
    return len(fns)


def run(p, C):
    C.floor('documents', text(p, C), 25)
    C.floor('writer runs', writer(p, C), 6)
    C.floor('JSON serializers', json_writer(p, C), 20)
    C.floor('cycles of calls', cycles(p, C), 8)
    options(p, C)
    C.floor('uses of decode contexts', wire(p, C), 10)
