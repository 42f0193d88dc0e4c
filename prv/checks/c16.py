"""Protos and option bytes through the pool.

(1) Each conversion between a public proto type and the internal one is executed on a symbolic value: every field of the result
    is the field of the same name of the argument, unchanged or converted element by element by the conversion of its own type,
    and both types have the same fields.
(2) The wire codec of each internal type (encode_raw, merge_field): under the number descriptor.proto gives the field, with the
    codec of its type, and no number is left out.
(3) Options keep their bytes: what is decoded is copied (key, then the field as it is skipped) to `encoded`, what is encoded is
    `encoded`, and conversion encodes the value once.
(4) A file is recorded as given, its public form is computed from the recorded one after resolution, for every new file.
(5) All that resolution changes in the recorded file: the references of an element (its own, to the name found), the type of a
    field whose type is named (message or enum as found), and a JSON name that was absent."""
import json
import os
from prv import visit as V
from prv.tables import *
from prv.checks.c24 import changes
from prv.checks import c12
from prv.checks.c22w import literal

LEVEL = 'proof'
T_ = 'prost_reflect::descriptor::types::'
P_ = 'prost_types::protobuf::'
G1 = 'each field is converted to the field of its name'
G2 = 'each field is coded under its number with the codec of its type'
G3 = 'options keep their bytes'
G4 = 'the recorded file is the one given, the public one is made from it'
G5 = 'resolution changes references, implied types and absent JSON names only'
CODEC = {1: 'double', 2: 'float', 3: 'int64', 4: 'uint64', 5: 'int32', 8: 'bool', 9: 'string', 11: 'message', 12: 'bytes', 13: 'uint32', 14: 'int32'}


def simple(s):
    """The proto message a type path is for: DescriptorProto.ExtensionRange"""
    for pre in (T_, P_):
        if s.startswith(pre):
            s = s[len(pre):]
            break
    else:
        return None
    parts = s.split('<')[0].split('::')
    return '.'.join([''.join(w.capitalize() for w in x.split('_')) for x in parts[:-1]] + parts[-1:])


def descriptor_messages():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', '..', 'oracle', 'wkt.json')
    out = {}

    def rec(pre, m):
        out[pre + m['name']] = {f['name']: f for f in m.get('field', [])}
        for x in m.get('nested_type', []):
            rec(pre + m['name'] + '.', x)
    for f in json.load(open(path))['file']:
        if f['name'] == 'google/protobuf/descriptor.proto':
            for m in f['message_type']:
                rec('', m)
    return out


def plain(name):
    return name[2:] if name.startswith('r#') else name.rstrip('_') if name.endswith('_') else name


def fields(p, adt):
    return [plain(f[0]) for f in p.adts[adt]['v'][0]['f']]


def conversions(p):
    """{function: (from ADT, to ADT)} between the public and the internal form of a proto."""
    out = {}
    for n in p.fn_by_name:
        b = p.bodies.get(p.fn_by_name[n][0]['key'])
        if b is None or not n.startswith(T_) or b.argc != 1 or '{' in n:
            continue
        a, r = p.ts(b.locals[1]).lstrip('&'), p.ts(b.locals[0])
        if simple(a) and simple(a) == simple(r) and a != r and a in p.adts and r in p.adts:
            out[n] = (a, r)
    return out


def conversion(p, C, n, conv):
    a, r = conv[n]
    fa, fr = fields(p, a), fields(p, r)
    lab = '%s -> %s' % (a.split('::')[-1] + (' (internal)' if a.startswith(T_) else ''), 'internal' if r.startswith(T_) else 'public')
    C.ob(sorted(fa) == sorted(fr), 'fields:%s' % lab, 'the fields differ: %s' % sorted(set(fa) ^ set(fr)), G1)
    opt = [x for x in p.fn_by_name if x.startswith(T_ + 'Options::')]
    E = Engine(p, opaque=[x for x in conv if x != n] + opt)
    x = mk('x')
    fs = E.run(n, args={0: x})
    C.inlined(E)
    C.ob(len(fs) > 0, 'convert:%s:ends' % lab, '%s never returns' % n, G1)
    cnt = 0
    for f in fs:
        if not (f.ret.op == 'agg' and len(f.ret.a) == len(fr) + 2):
            C.ob(False, 'convert:%s' % lab, '%s returns %s' % (n, show(f.ret)[:80]), G1)
            continue
        for i, name in enumerate(fr):
            if name not in fa:
                continue
            src = E.get1(f.st, x, ('f', None, fa.index(name)))
            got = f.ret.a[2 + i]
            cnt += 1
            C.ob(same(E, f, got, src, conv, a, r, name), 'convert:%s:%s' % (lab, name), 'field %s of the converted %s is %s' % (name, a, show(got)[:100]), G1)
    return cnt


def same(E, f, got, src, conv, a, r, name):
    if got is src:
        return True
    p = E.p

    def conv_of(t, el):
        """conv(el), by the conversion in the same direction"""
        if t.op != 'app' or t.a[-1] is not el:
            return False
        fn = t.a[0]
        if fn in conv:
            return conv[fn][0].startswith(T_) == a.startswith(T_)
        return fn.startswith(T_ + 'Options::') and fn.endswith('to_prost' if a.startswith(T_) else 'from_prost')
    if got.op == 'app' and got.a[0] == 'collect' and len(got.a) == 3:
        y = got.a[2]
        el = y.a[-1] if y.op == 'app' else None
        return el is not None and el.op == 'elem' and el.a[0] is src and conv_of(y, el)
    for t, d in f.facts.items():
        if t.op == 'discr' and t.a[0] is src:
            if d == ('+', frozenset([0])):
                return got is NONE_OPT
            if d == ('+', frozenset([1])) and got.op == 'agg' and got.a[1] == 1 and len(got.a) == 3:
                inner = mk('proj', src, 1, 0)
                return got.a[2] is inner or conv_of(got.a[2], inner)
    return False


def codec(p, C, adt, spec):
    """encode_raw and merge_field of an internal type"""
    names = fields(p, adt)
    me = simple(adt)
    n = 0
    fn = '<%s as prost::message::Message>::encode_raw' % adt
    if fn in p.fn_by_name:
        E = Engine(p)
        calls = set()

        def oracle(nm, ca, res):
            if nm.startswith('prost::encoding::') and len(ca) >= 2 and isk(ca[0]):
                calls.add((nm, kv(ca[0]), ca[1]))
        E.oracle = oracle
        E.run(fn, args={0: mk('x')})
        C.inlined(E)
        got = {}
        for nm, tag, arg in calls:
            t = arg
            while t.op == 'proj' and not t.a[0].op == 'x' or t.op in ('elem',):
                t = t.a[0]
            if t.op == 'proj' and t.a[0].op == 'x':
                got.setdefault(names[t.a[2]], set()).add((nm[len('prost::encoding::'):], tag))
        for name in names:
            s = spec.get(name)
            if not C.ob(s is not None, 'codec:%s:%s:known' % (me, name), '%s has no field %s' % (me, name), G2):
                continue
            rep = s['label'] == 3
            want = {(CODEC[s['type']] + '::' + e, s['number']) for e in (('encode_repeated',) if rep else ('encode',))}
            alt = {('message::encode', s['number'])} if rep and s['type'] == 11 else want
            n += 1
            C.ob(got.get(name) in (want, alt), 'encode:%s:%s' % (me, name), 'field %s of %s is encoded by %s' % (name, me, sorted(got.get(name, ()))), G2)
    fn = '<%s as prost::message::Message>::merge_field' % adt
    if fn in p.fn_by_name:
        E = Engine(p)
        x = mk('x')
        rows = {}
        for f in E.run(fn, args={0: x, 1: mk('tag')}):
            d = f.facts.get(mk('tag'))
            if d is None or d[0] != '+' or len(d[1]) != 1:
                continue
            chg = {}
            for pl, v in changes(f.st.mem.get(x, x), x, E):
                q = pl
                while q.op == 'proj' and q.a[0] is not x:
                    q = q.a[0]
                nm = names[q.a[2]] if q.op == 'proj' and q.a[0] is x else '?'
                ops = {t.a[0] for t in walk(v) if t.op == 'out' and str(t.a[0]).startswith('prost::encoding::')}
                chg.setdefault(nm, set()).update(ops)
            rows.setdefault(list(d[1])[0], []).append(chg)
        C.inlined(E)
        for name in names:
            s = spec.get(name)
            if s is None:
                continue
            c = CODEC[s['type']]
            want = {'prost::encoding::%s::%s' % (c, 'merge_repeated' if s['label'] == 3 else 'merge')}
            n += 1
            got = rows.get(s['number'], [])
            C.ob(len(got) > 0 and all(g == {name: want} for g in got), 'decode:%s:%s' % (me, name), 'number %d of %s is merged into %s' % (
                s['number'], me, sorted({(q, tuple(sorted(w))) for g in got for q, w in g.items()})[:2]), G2)
        extra = set(rows) - {spec[x]['number'] for x in names if x in spec}
        C.ob(not extra, 'decode:%s:extra' % me, 'numbers %s of %s are merged' % (sorted(extra), me), G2)
        C.inlined(E)
    return n


def options(p, C):
    """Options<T>: (encoded bytes, value)"""
    adt = T_ + 'Options'
    fs = fields(p, adt) if adt in p.adts else []
    if not C.ob(len(fs) == 2, 'options:type', 'the options type is not a pair of bytes and value', G3):
        return
    ie = [i for i, f in enumerate(p.adts[adt]['v'][0]['f']) if 'Vec<u8' in p.ts(f[1])]
    if not C.ob(len(ie) == 1, 'options:bytes', 'the options type has no bytes', G3):
        return
    ie, iv = ie[0], 1 - ie[0]
    x = mk('x')
    enc, val = mk('proj', x, None, ie), mk('proj', x, None, iv)
    pre = '<%sOptions<T> as prost::message::Message>::' % T_
    n = 0

    def run(fn, watch=None, **kw):
        E = Engine(p)
        E.watch = watch or (lambda n_, r, c: 'c' if (r or n_).startswith('prost::') or (r or n_).rsplit('::', 1)[-1] in ('put', 'put_slice', 'extend_from_slice') else None)
        E.pure = set(E.pure)
        fs_ = E.run(fn, args={0: x})
        C.inlined(E)
        return E, fs_

    # encoding
    E, rs = run(pre + 'encode_raw')
    for f in rs:
        ev = [e for e in f.trace]
        ok = len(ev) == 1 and not isinstance(ev[0], tuple) and ev[0].a[-1] is enc
        n += 1
        C.ob(ok, 'options:encode', 'options are encoded as %s' % [show(e)[:80] for e in ev if not isinstance(e, tuple)][:3], G3)
    E, rs = run(pre + 'encoded_len')
    for f in rs:
        n += 1
        C.ob(f.ret.op == 'app' and f.ret.a[0] == 'len' and f.ret.a[-1] is enc, 'options:length', 'the length of options is %s' % show(f.ret)[:80], G3)
    # conversion
    for fn in (T_ + 'Options::from_prost', T_ + 'Options::to_prost'):
        if fn not in p.fn_by_name:
            C.ob(False, 'options:%s' % fn.rsplit('::', 1)[-1], 'no conversion', G3)
            continue
        E, rs = run(fn)
        for f in rs:
            n += 1
            if fn.endswith('from_prost'):
                ok = f.ret.op == 'agg' and len(f.ret.a) == 4 and f.ret.a[2 + iv] is x and f.ret.a[2 + ie].op == 'app' and \
                    f.ret.a[2 + ie].a[0].endswith('::encode_to_vec') and f.ret.a[2 + ie].a[-1] is x
            else:
                ok = f.ret is val
            C.ob(ok, 'options:%s' % fn.rsplit('::', 1)[-1], 'converted options are %s' % show(f.ret)[:100], G3)
    # decoding
    E, rs = run(pre + 'merge_field')
    good = 0
    for f in rs:
        good += merged(p, C, E, f, enc, val)
    C.ob(good > 0, 'options:merge:ends', 'merging options never succeeds', G3)
    # the copying reader
    n += copying(p, C)
    C.floor('obligations of the options type', n, 7)


def merged(p, C, E, f, enc, val):
    ok_ret = f.ret.op == 'agg' and f.ret.a[1] == 0
    ev = [e for e in f.trace if not isinstance(e, tuple)]
    key = [i for i, e in enumerate(ev) if e.a[-1] is enc and len(e.a) == 4]
    copy = [i for i, e in enumerate(ev) if any(isinstance(y, T) and y.op == 'agg' and any(isinstance(z, T) and z.op == 'out' for z in y.a[2:]) for y in e.a[1:])]
    C.ob(len(ev) == len(f.trace), 'options:merge:loop', 'merging options loops', G3)
    if not ok_ret:
        return 0
    names = [show(e.a[1])[:20] for e in ev]
    val_ = [i for i, e in enumerate(ev) if any(y is val for y in e.a)]
    ok = len(key) == 1 and len(copy) == 1 and len(val_) == 1 and key[0] < copy[0] < val_[0] and len(ev) == 3
    if ok:
        k_, c_, v_ = ev[key[0]], ev[copy[0]], ev[val_[0]]
        tag, wt = k_.a[1], k_.a[2]
        ok = {show(tag), show(wt)} <= {show(y) for y in c_.a[1:] if isinstance(y, T)} and {show(tag), show(wt)} <= {show(y) for y in v_.a[1:] if isinstance(y, T)}
        sl = [y for y in v_.a[1:] if isinstance(y, T) and y.op == 'app' and y.a[0] == 'slice']
        ok = ok and len(sl) == 1
        if ok:
            base, rng = sl[0].a[2:4]
            ok = rng.op == 'agg' and rng.a[0].endswith('::RangeFrom') and rng.a[2].op == 'app' and rng.a[2].a[0] == 'len' and \
                is_out(rng.a[2].a[-1], 'encode_key') and is_out(base, 'skip_field')
    C.ob(ok, 'options:merge', 'merging a field into options does %s' % names, G3)
    return 1


def is_out(t, fn):
    return t.op == 'out' and str(t.a[0]).endswith('::' + fn)


def copying(p, C):
    """The reader that skips a field: advance copies what it passes over; chunk and remaining are those of the source."""
    fns = {}
    for n in p.fn_by_name:
        if n.startswith('<') and T_ in n and ' as bytes::buf::buf_impl::Buf>::' in n:
            fns[n.rsplit('::', 1)[-1]] = n
    if not C.ob({'advance', 'chunk', 'remaining'} <= set(fns), 'options:reader', 'the copying reader is not found', G3):
        return 0
    x = mk('x')
    cnt = 0
    for m in ('advance', 'chunk', 'remaining'):
        E = Engine(p)
        E.watch = lambda n_, r, c: 'c' if 'Buf' in (r or n_) else None
        for f in E.run(fns[m], args={0: x, 1: mk('cnt')} if m == 'advance' else {0: x}):
            cnt += 1
            if m == 'advance':
                ev = [e for e in f.trace if not isinstance(e, tuple)]
                put = [e for e in ev if any(isinstance(y, T) and any(z is mk('cnt') for z in walk(y)) for y in e.a[1:])]
                last = ev[-1] if ev else None
                ok = last is not None and len(f.trace) == len(ev)
                if ok:
                    d = [y for y in last.a[1:] if isinstance(y, T)]
                    ok = len(d) == 2 and d[0].op == 'proj' and d[0].a[0] is x and any(z is mk('cnt') for z in walk(d[1])) and \
                        any(z.op == 'proj' and z.a[0] is x and z.a[2] != d[0].a[2] for z in walk(d[1])) and \
                        any(z.op == 'app' and z.a[0].endswith('::take') for z in walk(d[1]))
                C.ob(ok, 'options:reader:advance', 'advancing the reader does not copy what it passes over', G3)
            else:
                r = f.ret
                ok = r.op == 'app' and r.a[0].endswith('::' + m) and r.a[-1].op == 'proj' and r.a[-1].a[0] is x
                C.ob(ok, 'options:reader:%s' % m, '%s of the reader is %s' % (m, show(r)[:80]), G3)
        C.inlined(E)
    return cnt


def run(p, C):
    spec = descriptor_messages()
    conv = conversions(p)
    C.floor('conversions', len(conv), 18)
    C.floor('fields converted', sum(conversion(p, C, n, conv) for n in sorted(conv)), 120)
    adts = sorted({x for ab in conv.values() for x in ab if x.startswith(T_)})
    adts += [T_ + 'FileDescriptorSet'] if T_ + 'FileDescriptorSet' in p.adts else []
    n = 0
    for adt in adts:
        s = spec.get(simple(adt))
        if C.ob(s is not None, 'spec:%s' % simple(adt), '%s is no message of descriptor.proto' % adt, G2):
            n += codec(p, C, adt, s)
    C.floor('fields coded', n, 110)
    options(p, C)
    W = World(p)
    recorded(p, C, W)
    writes(p, C, W)
    resolved_options(p, C, W)


PROTO = T_ + 'FileDescriptorProto'


def record(p, W):
    """(type of the record of a file, index of the internal proto, index of the public one)"""
    for n, a in p.adts.items():
        if n.startswith('prost_reflect::descriptor::') and len(a['v']) == 1:
            tys = [p.ts(f[1]) for f in a['v'][0]['f']]
            if PROTO in tys and P_ + 'FileDescriptorProto' in tys:
                return n, tys.index(PROTO), tys.index(P_ + 'FileDescriptorProto')
    return None


def flat(tr):
    """Events of a trace: [(loops around it, event)]"""
    out = []

    def rec(t, d):
        for e in t:
            if isinstance(e, tuple):
                for _, b in e[1]:
                    rec(b, d + 1)
            else:
                out.append((d, e))
    rec(tr, 0)
    return out


def recorded(p, C, W):
    r = record(p, W)
    if not C.ob(r is not None, 'record:type', 'no record of a file holds both forms of its proto', G4):
        return
    adt, iraw, ipub = r
    # what the visitor of files records
    n = 0
    for ty in W.visitors:
        for f, failed, evs in W.visit(ty, 'file', W.visit_args('file'), V.concrete):
            for _, e in flat(f.trace):
                if e.a[0] == 'mut' and kv(e.a[1]) == 'push':
                    for x in e.a[3:]:
                        if isinstance(x, T) and x.op == 'agg' and x.a[0] == adt:
                            n += 1
                            C.ob(x.a[2 + iraw] is mk('raw'), 'record:given', 'a file is recorded as %s' % show(x.a[2 + iraw])[:80], G4)
    C.floor('records of files', n, 3)
    # what the functions that add files do
    api, stages = c12.find(p)
    conv = conversions(p)
    back = {x for x, (a, b) in conv.items() if a == PROTO}
    to = {x for x, (a, b) in conv.items() if b == PROTO}
    ifiles = [x for x in W.lists.items()] if hasattr(W, 'lists') else None
    for fn in api:
        me = fn.rsplit('::', 1)[-1]
        E = engine(p)
        E.opaque |= set(stages) | back | to
        E.watch = {x: 'stage' for x in stages}
        E.watch.update({x: 'public' for x in back})
        log = set()
        old = E.write

        def write(st, base, path, v, old=old, log=log):
            if isinstance(base, T):
                pl = place(E, st, mk('ref', base, tuple(path)))
                if v.op == 'app' and v.a[0] in back or pl.op == 'proj' and pl.a[2] in (iraw, ipub) and file_of(pl.a[0]) is not None:
                    log.add((pl, v))
            return old(st, base, path, v)
        E.write = write
        fs = E.run(fn, args={0: mk('self'), 1: mk('given')})
        C.inlined(E)
        done = 0
        given = set()
        for f in fs:
            ev = flat(f.trace)
            built = {}
            for d, e in ev:
                if e.a[0] == 'mut' and kv(e.a[1]) == 'push' and e.a[2].op == 'local' and len(e.a) == 4:
                    built.setdefault(e.a[2].a[0], []).append(e.a[3])
                if e.a[0] == 'stage':
                    for x in e.a[2:]:
                        # a list filled by a loop before
                        if x.op == 'out' and x.a[0].endswith('::retain') and len(E.before.get(x, ())) == 1:
                            x = list(E.before[x])[0]
                        xs = built.get(str(x.a[0][1]), []) if x.op == 'phi' and isinstance(x.a[0], tuple) and len(x.a[0]) > 1 else [x]
                        given |= {y for y in xs if len(xs) > 1 or x.op == 'phi' or any(z is mk('given') for z in walk(y))}
            if f.ret.op == 'agg' and f.ret.a[1] == 0 and any(e.a[0] == 'stage' for d, e in ev):
                done += 1
                last = max(i for i, (d, e) in enumerate(ev) if e.a[0] == 'stage')
                pub = [i for i, (d, e) in enumerate(ev) if e.a[0] == 'public']
                C.ob(len(pub) == 1 and pub[0] > last and ev[pub[0]][0] == 1, 'public:%s' % me,
                     'after validation in %s the public form of the new files is not computed' % fn, G4)
        C.ob(done > 0, 'public:%s:ends' % me, '%s never succeeds' % fn, G4)
        C.ob(len(log) > 0, 'public:%s:stored' % me, 'the public form of a file is never stored in %s' % fn, G4)
        for pl, v in sorted(log, key=show):
            src = file_of(pl.a[0]) if pl.op == 'proj' else None
            ok = src is not None and pl.a[2] == ipub and v.op == 'app' and v.a[0] in back and v.a[-1] is mk('proj', pl.a[0], pl.a[1], iraw)
            C.ob(ok, 'public:%s:value' % me, '%s is set to %s' % (show(pl)[:120], show(v)[:120]), G4)
            if src is not None:
                C.ob(src == 'all' or from_old(W, src), 'public:%s:files' % me, 'the public form is computed for %s' % show(pl.a[0])[:160], G4)
        C.ob(len(given) > 0, 'given:%s' % me, 'nothing given to %s is validated' % fn, G4)
        for x in sorted(given, key=show):
            C.ob(is_given(x, to), 'given:%s:files' % me, 'validated are the files %s' % show(x)[:160], G4)
    encoders(p, C, W, adt, iraw)


def file_of(t):
    """Where the files a loop is over begin ('all': with the first); None when it is no loop over the list"""
    def lst(c):
        return c.op == 'proj'
    if t.op == 'partial' and t.a[0] == 'skip' and len(t.a) == 3 and t.a[1].op == 'elem' and lst(t.a[1].a[0]):
        return t.a[2]
    if t.op == 'elem' and t.a[0].op == 'app' and t.a[0].a[0] == 'slice' and lst(t.a[0].a[2]):
        r = t.a[0].a[3]
        return r.a[2] if r.op == 'agg' and r.a[0].endswith('::RangeFrom') else r
    if t.op == 'idx' and lst(t.a[0]):
        i = uncast(t.a[1])
        r = i.a[0] if i.op == 'elem' else None
        if r is not None and r.op == 'agg' and r.a[0].endswith('::Range') and len(r.a) == 4:
            to = uncast(r.a[3])
            if to.op == 'app' and to.a[0] == 'len' and to.a[-1] is t.a[0]:
                return uncast(r.a[2])
    return 'all' if t.op == 'elem' and lst(t.a[0]) else None


def from_old(W, t):
    """The number of files there were"""
    t = uncast(t)
    if not (t.op == 'app' and t.a[0] == 'len'):
        return False
    t = t.a[-1]
    return t.op == 'proj' and any(x is mk('self') for x in walk(t))


def is_given(x, to):
    """The files collected from the argument (its `file`, decoded or converted)"""
    if x.op == 'app' and x.a[0] == 'collect':
        x = x.a[-1]
    if x.op == 'app' and x.a[0] in to:
        x = x.a[-1]
    if x.op == 'elem':
        x = x.a[0]
    while x.op == 'proj' and x is not mk('given'):
        x = x.a[0]
    if x.op == 'app' and x.a[0].endswith('::decode'):
        x = x.a[-1]
    return x is mk('given')


def encoders(p, C, W, adt, iraw):
    """Encoding a pool or a file writes the recorded protos."""
    pool = 'prost_reflect::descriptor::DescriptorPool'
    filed = 'prost_reflect::descriptor::api::FileDescriptor' if 'prost_reflect::descriptor::api::FileDescriptor' in p.adts else 'prost_reflect::descriptor::FileDescriptor'
    for own, nm in ((pool, 'pool'), (filed, 'file')):
        n = own + '::encode'
        if not C.ob(n in p.fn_by_name, 'encode:%s' % nm, '%s has no encode' % own, G4):
            continue
        E = engine(p)
        E.watch = lambda n_, r, c: 'c' if (r or n_).rsplit('::', 1)[-1].startswith('encode') else None
        fs = E.run(n, args={0: mk('x'), 1: mk('buf')})
        C.inlined(E)
        C.ob(len(fs) > 0, 'encode:%s:ends' % nm, '%s never returns' % n, G4)
        wrappers = set()
        for f in fs:
            ev = flat(f.trace)
            ok = len(ev) == 1 and ev[0][0] == 0
            what = ev[0][1].a[1] if ok else None
            if ok and nm == 'file':
                ok = what.op == 'proj' and what.a[2] == iraw and what.a[0].op == 'idx' and uncast(what.a[0].a[1]) is mk('proj', mk('x'), None, 1) or \
                    what.op == 'proj' and what.a[2] == iraw and what.a[0].op == 'idx' and index_of(what.a[0].a[1])
            elif ok:
                ok = what.op == 'agg' and len(what.a) == 3 and what.a[2].op == 'proj'
                wrappers.add(what.a[0] if ok else None)
            C.ob(ok, 'encode:%s:what' % nm, '%s encodes %s' % (n, show(what)[:120] if what is not None else 'nothing'), G4)
        for w in wrappers - {None}:
            wrapper(p, C, w, iraw)
        vec = [x for x in p.fn_by_name if x == own + '::encode_to_vec']
        for x in vec:
            E = engine(p)
            E.opaque.add(n)
            E.watch = {n: 'c'}
            for f in E.run(x, args={0: mk('x')}):
                ev = flat(f.trace)
                C.ob(len(ev) == 1 and ev[0][1].a[1] is mk('x') and f.ret.op == 'out', 'encode:%s:vec' % nm, '%s does not return what is encoded' % x, G4)
    n = pool + '::file_descriptor_protos'
    if C.ob(n in p.fn_by_name, 'protos', 'a pool does not list its protos', G4):
        E = engine(p)
        its = [f.ret for f in E.run(n, args={0: mk('x')})]
        C.ob(len(its) > 0, 'protos:ends', 'listing protos never ends', G4)


def index_of(t):
    t = uncast(t)
    return t.op == 'proj' and t.a[0].op == 'x'


def uncast(t):
    while t.op == 'cast':
        t = [x for x in t.a if isinstance(x, T)][0]
    return t


def wrapper(p, C, w, iraw):
    """A set of files encoded in place: field 1, the recorded proto of each file, and its length."""
    fns = [n for n in p.fn_by_name if n.endswith('as prost::message::Message>::encode_raw') and w.rsplit('::', 1)[-1] in n.split(' as ')[0] and not n.startswith('<' + T_)]
    C.ob(len(fns) == 1, 'encode:set', '%d encoders of a set of files' % len(fns), G4)
    for n in fns:
        E = engine(p)
        E.watch = lambda n_, r, c: 'c' if (r or n_).startswith('prost::encoding::') else None
        for f in E.run(n, args={0: mk('x')}):
            ev = flat(f.trace)
            ok = len(ev) == 1 and ev[0][0] == 1
            if ok:
                e = ev[0][1]
                ok = isk(e.a[1]) and kv(e.a[1]) == 1 and e.a[2].op == 'proj' and e.a[2].a[2] == iraw and e.a[2].a[0].op == 'elem' and \
                    e.a[2].a[0].a[0].op == 'proj' and e.a[2].a[0].a[0].a[0] is mk('x')
            C.ob(ok, 'encode:set:files', 'a set of files is encoded as %s' % [show(e)[:120] for d, e in ev][:3], G4)
        ln = n.replace('::encode_raw', '::encoded_len')
        E = engine(p)
        E.opaque |= {m for m in p.fn_by_name if m.startswith('<' + T_) and m.endswith('::encoded_len')}
        for f in E.run(ln, args={0: mk('x')}):
            C.ob(set_length(f.ret, iraw), 'encode:set:length', 'the length of a set of files is %s' % show(f.ret)[:200], G4)
        C.inlined(E)


def set_length(t, iraw):
    """key_len(1) * files + sum(len + varint(len)), in one sum or two"""
    x = mk('x')

    def terms(t):
        if t.op == 'bin' or t.op in ('Add', 'add'):
            a = [y for y in t.a if isinstance(y, T)]
            if 'Add' in [y for y in t.a if isinstance(y, str)] or t.op in ('Add', 'add'):
                return terms(a[0]) + terms(a[1])
        return [t]
    ts = terms(t)
    keys = lens = vars_ = 0

    def single(y):
        nonlocal keys, lens, vars_
        for z in terms(y):
            if z.op == 'app' and z.a[0].endswith('key_len') and kv(z.a[-1]) == 1:
                keys += 1
            elif raw_len(z):
                lens += 1
            elif z.op == 'app' and z.a[0].endswith('encoded_len_varint') and raw_len(uncast(z.a[-1])):
                vars_ += 1
            else:
                return False
        return True

    def raw_len(z):
        return z.op == 'app' and z.a[0].endswith('::encoded_len') and z.a[-1].op == 'proj' and z.a[-1].a[2] == iraw and z.a[-1].a[0].op == 'elem'
    for y in ts:
        if y.op == 'bin' and 'Mul' in y.a:
            a = [z for z in y.a if isinstance(z, T)]
            kl = [z for z in a if z.op == 'app' and z.a[0].endswith('key_len') and kv(z.a[-1]) == 1]
            nf = [z for z in a if z.op == 'app' and z.a[0] == 'len']
            if len(kl) == 1 and len(nf) == 1:
                keys += 1
                continue
            return False
        if y.op == 'sum':
            alts = [v for s in y.a if isinstance(s, frozenset) for _, v in s]
            if len(alts) != 1 or not single(alts[0]):
                return False
            continue
        return False
    return (keys, lens, vars_) == (1, 1, 1)


# ---- (5)
REFS = {'field': {'type_name'}, 'extension': {'type_name', 'extendee'}, 'method': {'input_type', 'output_type'}}
ALSO = {'field': {'type', 'json_name'}, 'extension': {'type', 'json_name'}, 'method': set()}


def writes(p, C, W):
    n = 0
    stored = {}
    for key in W.ELEMS:
        kind = W.ELEMS[key][0]
        for ty in W.visitors:
            log = {}

            def assume(E, log=log, kind=kind):
                if kind in REFS:
                    E.rec_limit = 5
                V.concrete(E)
                old = E.write

                def write(st, base, path, v):
                    if isinstance(base, T):
                        pl = W.norm(place(E, st, mk('ref', base, tuple(path))))
                        if in_file(pl):
                            log.setdefault((pl, v), []).append(dict(st.facts))
                    return old(st, base, path, v)
                E.write = write
            for f, failed, evs in W.visit(ty, kind, W.visit_args(key), assume, keep=('find_file_field_proto_mut',)):
                n += 1
                for a in f.st.mem:
                    if not isinstance(a, T):
                        continue
                    for pl, v in changes(f.st.mem[a], a, W.last):
                        q = W.norm(pl)
                        if in_file(q):
                            C.ob(any(q is x for x, _ in log), 'change:%s' % key, 'visiting a %s changes %s of the recorded file' % (key, show(q)[:120]), G5)
                        elif files_list(W, pl, ty) and kind != 'file':
                            C.ob(False, 'change:%s:file' % key, 'visiting a %s changes the file record: %s' % (key, show(pl)[:120]), G5)
            C.inlined(W.last)
            for (pl, v), facts in log.items():
                name = pl.a[-1] if pl.op == 'part' else None
                own = pl.op == 'part' and pl.a[0] is mine(W, key)
                allowed = REFS.get(kind, set()) | ALSO.get(kind, set())
                if not C.ob(own and name in allowed, 'write:%s:%s' % (key, name), 'resolving a %s sets %s' % (key, show(pl)[:120]), G5):
                    continue
                stored.setdefault(key, set()).add(name)
                for fc in facts:
                    ok, why = value_ok(W, kind, pl.a[0], name, v, fc)
                    C.ob(ok, 'value:%s:%s' % (key, name), 'resolving a %s sets its %s to %s%s' % (key, name, show(W.norm(v))[:140], why), G5)
    for key in W.ELEMS:
        kind = W.ELEMS[key][0]
        for name in sorted(REFS.get(kind, ())):
            C.ob(name in stored.get(key, ()), 'refers:%s:%s' % (key, name), 'the %s of a %s is not set to what was found' % (name, key), G5)
    C.floor('ends of visits', n, 900)


def in_file(pl):
    return pl.op in ('part', 'at') and any(x is mk('file') for x in walk(pl))


def files_list(W, pl, ty):
    """A place inside a record of the files list of the pool (not the list itself)"""
    t = pl
    while t.op in ('proj', 'idx', 'sub'):
        if t.op == 'idx' and t.a[0] is mk('proj', mk('proj', mk('visitor'), None, W.visitor_pool(ty)), None, W.syntax_at[0]):
            return True
        t = t.a[0]
    return False


def mine(W, key):
    return W.norm(W.elem(W.ELEMS[key][1])[0])


def value_ok(W, kind, el, name, v, facts):
    if not (v.op == 'agg' and v.a[1] == 1 and len(v.a) == 3):
        return False, ''
    x = v.a[2]
    if name == 'type':
        if not isk(x) or kv(x) not in (11, 14):
            return False, ''
        msg = None
        grp = False
        for t, d in facts.items():
            if t.op == 'discr' and any(y.op == 'app' and y.a[0].endswith('resolve_name') and reads(W, y, el, 'type_name') for y in walk(t)) and \
                    t.a[0].op == 'proj':
                msg = d
            if d[0] == '+' and 10 not in d[1] and len(d[1]) > 1 and any(str(y.a[0]).endswith('FieldDescriptorProto::type') for y in walk(t) if y.op == 'app') or \
                    d[0] == '-' and 10 in d[1]:
                grp = True
        i = [v['n'] for v in W.p.adts[D + 'DefinitionKind']['v']].index('Message')
        if msg is None:
            return False, ' without looking at what was found'
        has = vals(msg, set(range(16)))
        if kv(x) == 11:
            return has == {i} and grp, ' for %s' % sorted(has) if has != {i} else ' though it may be a group'
        return i not in has and grp, ' for a message' if i in has else ' though it may be a group'
    if name == 'json_name':
        a = x.op == 'app' and x.a[0].endswith('to_json_name') and own_name(W, x.a[-1], el)
        absent = any(t.op == 'discr' and d == ('+', frozenset([0])) and own_json(W, t.a[0], el) for t, d in facts.items())
        return a and absent, '' if absent else ' though it may have one'
    # a reference: a dot and the name found
    y = dotted(x)
    if y is None:
        return False, ''
    q = y
    while q.op == 'app' and q.a[0].rsplit('::', 1)[-1] in ('as_ref', 'deref', 'borrow', 'as_str', 'into_owned', 'to_string'):
        q = q.a[-1]
    if not (q.op == 'proj' and q.a[0].op == 'proj' or q.op == 'proj'):
        return False, ''
    r = q
    while r.op == 'proj':
        r = r.a[0]
    ok = r.op == 'app' and r.a[0].endswith('resolve_name') and reads(W, r, el, name)
    return ok and q.a[2] == 0, ''


def vals(d, universe):
    return {x for x in universe if (x in d[1]) == (d[0] == '+')}


def reads(W, call, el, name):
    return any(W.norm(a) is part_(el, name) for a in call.a[2:] if isinstance(a, T))


def part_(el, name):
    return mk('part', el, name)


def own_name(W, t, el):
    return W.norm(unupd(t)) is mk('part', el, 'name')


def own_json(W, t, el):
    return W.norm(unupd(t)) is mk('part', el, 'json_name')


def unupd(t, keep=()):
    """Parts that were not changed are read from the original."""
    if t.op == 'upd':
        return unupd(t.a[0])
    return mk(t.op, *[unupd(x) if isinstance(x, T) else x for x in t.a])


def dotted(x):
    """'.' + y -> y"""
    if x.op == 'agg' and x.a[0] == 'str':
        l = list(x.a[2:])
    else:
        l = literal(x)
    l = [kv(y) if isinstance(y, T) and isk(y) else y for y in l or ()]
    return l[1] if len(l) == 2 and l[0] == '.' and isinstance(l[1], T) else None


def resolved_options(p, C, W):
    """The options message that is stored again: the decoded one, with the uninterpreted options set and then cleared."""
    from prv.checks.c24 import visitors_of_options, dynamics
    num = {f for m in descriptor_messages().values() for x, f in ((y['name'], y['number']) for y in m.values()) if x == 'uninterpreted_option'}
    C.ob(num == {999}, 'options:uninterpreted', 'uninterpreted options have numbers %s' % num, G3)
    n = 0
    seen = set()
    for ty, fns in visitors_of_options(W).items():
        for key in W.ELEMS:
            fn = fns.get(W.ELEMS[key][0])
            if fn is None or fn in seen:
                continue
            seen.add(fn)
            E = engine(p)
            E.opaque |= set(dynamics(p))
            for m in p.fn_by_name:
                if m.endswith('>::set_option') or m.endswith('::set_option') and m.startswith(ty.split('<')[0]):
                    E.opaque.add(m)
                if m.endswith('build::join_path'):
                    E.opaque.add(m)
            E.max_steps = 8000000
            V.concrete(E)
            dyn = 'prost_reflect::dynamic::DynamicMessage'

            def watch(n_, r, c, p=p):
                for x in (r, n_):
                    if x in p.fn_by_name:
                        b = p.bodies.get(p.fn_by_name[x][0]['key'])
                        if b is not None and any(p.ts(b.locals[i + 1]).replace("'_ ", '') == '&mut ' + dyn for i in range(b.argc)):
                            return 'touch:' + x.rsplit('::', 1)[-1]
                return None
            E.watch = watch
            for f in E.run(fn, args=dict(enumerate([mk('visitor')] + W.visit_args(key)))):
                for d, e in flat(f.trace):
                    if str(e.a[0]).startswith('touch:'):
                        n += 1
                        what = e.a[0][6:]
                        ok = what == 'set_option' or what.startswith('clear_field') and kv(e.a[-1]) == 999 if isk(e.a[-1]) else what == 'set_option'
                        C.ob(ok, 'options:resolve:%s' % key, 'resolving the options of a %s does %s to them' % (key, show(e)[:160]), G3)
            C.inlined(E)
    C.floor('changes of an options message', n, 20)
