"""C22, generated code: the build helper is evaluated over the dumped prost-reflect-build; the derive macro is judged on the type-checked
program it generates for a witness crate (every attribute form), evaluated by the abstract interpreter."""
import hashlib, os, shutil
from prv import program as PR
from prv.kinds import *
from prv.program import Program, Broken
from prv.terms import UNIT

CFG = 'prost_build::config::Config::'
BLD = 'prost_reflect_build::Builder::'
POOLN = 'prost_reflect::descriptor::DescriptorPool::'

WITNESS = r'''
#![allow(dead_code, unused_imports, clippy::all)]
pub static POOL: std::sync::OnceLock<prost_reflect::DescriptorPool> = std::sync::OnceLock::new();
pub fn pool_one() -> prost_reflect::DescriptorPool { POOL.get().unwrap().clone() }
pub fn pool_two() -> &'static prost_reflect::DescriptorPool { POOL.get().unwrap() }
pub const BYTES_ONE: &[u8] = b"one";
pub const BYTES_TWO: &[u8] = b"two";
pub fn bytes_three() -> &'static [u8] { b"three" }

#[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "w.One")]
#[prost_reflect(descriptor_pool = "crate::pool_one()")]
pub struct One {}

#[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]
#[prost_reflect(descriptor_pool = "crate::pool_two()", message_name = "w.Two")]
pub struct Two {}

#[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]
#[prost_reflect(file_descriptor_set_bytes = "crate::BYTES_ONE", message_name = "w.Three")]
pub struct Three {}

#[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]
#[prost_reflect(file_descriptor_set_bytes = "crate::BYTES_TWO")]
#[prost_reflect(message_name = "w.Four.Nested")]
pub struct Four {}

#[derive(Clone, PartialEq, ::prost::Message)]
#[derive(::prost_reflect::ReflectMessage)]
#[prost_reflect(message_name = "w.Five", file_descriptor_set_bytes = "crate::bytes_three()")]
pub struct Five {
    #[prost(string, tag = "1")]
    pub x: ::prost::alloc::string::String,
    #[prost(oneof = "five::K", tags = "2, 3")]
    pub k: ::core::option::Option<five::K>,
}
pub mod five {
    #[derive(Clone, PartialEq, ::prost::Message, ::prost_reflect::ReflectMessage)]
    #[prost_reflect(message_name = "w.Five.One")]
    #[prost_reflect(descriptor_pool = "crate::pool_one()")]
    pub struct One {}
    #[derive(Clone, PartialEq, ::prost::Oneof)]
    pub enum K {
        #[prost(string, tag = "2")]
        A(::prost::alloc::string::String),
        #[prost(message, tag = "3")]
        B(One),
    }
}
'''
# type -> (message name, pool function or None, expected bytes)
WANT = {'One': ('w.One', 'pool_one', None), 'Two': ('w.Two', 'pool_two', None), 'Three': ('w.Three', None, b'one'),
        'Four': ('w.Four.Nested', None, b'two'), 'Five': ('w.Five', None, 'bytes_three'), 'five::One': ('w.Five.One', 'pool_one', None)}


def witness():
    """Dump of the witness crate against the current tree."""
    main = PR.dump()
    h = hashlib.sha256((WITNESS + os.path.basename(main)).encode()).hexdigest()[:20]
    out = os.path.join(PR.CACHE, 'wit-' + h)
    if os.path.exists(os.path.join(out, 'prv_witness.json')):
        return out
    for d in os.listdir(PR.CACHE):
        if d.startswith('wit-'):
            shutil.rmtree(os.path.join(PR.CACHE, d), ignore_errors=True)
    src = os.path.join(PR.CACHE, 'witness-src')
    shutil.rmtree(src, ignore_errors=True)
    os.makedirs(os.path.join(src, 'src'))
    open(os.path.join(src, 'src', 'lib.rs'), 'w').write(WITNESS)
    open(os.path.join(src, 'Cargo.toml'), 'w').write(
        '[package]\nname = "prv_witness"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\nprost = "0.14"\n'
        'prost-reflect = { path = "%s", features = ["derive"] }\n' % os.path.join(PR.REPO, 'prost-reflect'))
    shutil.copy(os.path.join(PR.REPO, 'Cargo.lock'), os.path.join(src, 'Cargo.lock'))
    tmp = out + '.tmp'
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    e = PR.base_env()
    sr = PR.sysroot()
    tgt = os.path.join(PR.CACHE, 'target-w')
    fp = os.path.join(tgt, 'debug', '.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith('prost-reflect') or d.startswith('prv_witness'):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    e.update(RUSTUP_TOOLCHAIN='1.82.0', RUSTC=sr + '/bin/rustc', LD_LIBRARY_PATH=sr + '/lib', PRV_CRATES='prv_witness', PRV_OUT=tmp,
             RUSTC_WORKSPACE_WRAPPER=PR.build_driver(), CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0')
    rc, log = PR._sh(['cargo', 'check', '--offline'], env=e, cwd=src)
    if rc or not os.path.exists(os.path.join(tmp, 'prv_witness.json')):
        raise Broken('a program using the derive macro as documented does not compile:\n' + log[-3000:])
    os.rename(tmp, out)
    return out


def literal(t):
    """The pieces of a format string: list of str / argument terms; None when the encoding is not understood."""
    if isk(t):
        return [kv(t)] if isinstance(kv(t), str) else None
    if not (t.op == 'app' and t.a[0].split('::')[-1] in ('format', 'must_use', 'from', 'to_string', 'to_owned', 'into')):
        return None
    x = t.a[2]
    if not (x.op == 'app' and x.a[0].split('::')[-1] in ('new', 'from_str', 'from_str_nonconst', 'new_const')):
        return literal(x)
    b = x.a[2]
    if not isk(b):
        return None
    b = kv(b)
    if isinstance(b, str):
        return [b]
    args = []
    if len(x.a) > 3:
        for y in x.a[3].a[2:]:
            while y.op in ('ref',) or (y.op == 'app' and y.a[0].split('::')[-1] == 'new_display'):
                y = y.a[2] if y.op == 'app' else y.a[0]
            args.append(y)
    out, i, j = [], 0, 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            break
        if c < 0x80:
            out.append(b[i:i + c].decode('utf8', 'replace'))
            i += c
        elif c == 0xc0 and j < len(args):
            out.append(args[j])
            j += 1
        else:
            return None
    return out


def strip_ref(x):
    while x.op == 'ref' and not x.a[1] and isinstance(x.a[0], T):
        x = x.a[0]
    return x


def builder(C):
    p = Program(crate='prost_reflect_build')
    setters = {}
    for nm in ('descriptor_pool', 'file_descriptor_set_bytes', 'file_descriptor_set_path'):
        E = Engine(p)
        o = mk('builder')
        n = len(p.adts['prost_reflect_build::Builder']['v'][0]['f'])
        before = agg('prost_reflect_build::Builder', 0, *[mk('old', i) for i in range(n)])

        def setup(st, vals):
            st.mem[o] = before
        fs = E.run(BLD + nm, args={0: mk('ref', o, ()), 1: mk('expr')}, setup=setup)
        C.inlined(E)
        ch = set()
        for f in fs:
            v = f.st.mem.get(o)
            ch |= {(i, x) for i, x in enumerate(v.a[2:]) if x is not mk('old', i)}
        good = len(ch) == 1 and all(mk('expr') in walk(x) for _, x in ch)
        if nm != 'file_descriptor_set_path':
            good = good and all(x.op == 'agg' and x.a[1] == 1 for _, x in ch)
        C.ob(good, 'setter:' + nm, 'Builder::%s stores %s' % (nm, [(i, show(x)) for i, x in ch]), 'builder setters')
        setters[nm] = next(iter(ch))[0] if ch else None
    C.ob(len(set(setters.values())) == 3, 'setters distinct', 'builder setters share a field: %s' % setters, 'builder setters')

    watch = {CFG + 'type_attribute': 'ta', CFG + 'compile_protos': 'cp'}
    E = Engine(p, watch=watch)
    E.exact_paths = True
    fs = E.run(BLD + 'configure', args={0: mk('self'), 1: mk('config'), 2: mk('protos'), 3: mk('includes')})
    C.inlined(E)
    seen = {}
    for f in fs:
        if not (f.ret.op == 'agg' and f.ret.a[1] == 0):
            continue
        loops = [t for t in f.trace if isinstance(t, tuple)]
        cps = [t for t in f.trace if isinstance(t, T) and t.a[0] == 'cp']
        C.ob(len(cps) >= 1 and all(t.a[2:4] == (mk('protos'), mk('includes')) for t in cps), 'configure:protos',
             'compile_protos is called with %s' % [show(t) for t in cps], 'build helper')
        good = None
        for l in loops:
            for facts, evs in l[1]:
                got = set()
                keys = set()
                for e in evs:
                    if isinstance(e, T) and e.a[0] == 'ta':
                        keys.add(e.a[2])
                        got.add(e.a[3])
                if not keys:
                    continue
                kk = next(iter(keys))
                nm = kk.op == 'app' and kk.a[0] == 'prost_reflect::descriptor::MessageDescriptor::full_name'
                el = strip_ref(kk.a[2]) if nm else None
                src = el.a[0] if el is not None and el.op == 'elem' else None
                whole = src is not None and src.op == 'app' and src.a[0] == POOLN + 'all_messages'
                C.ob(len(keys) == 1 and nm and whole, 'configure:every message', 'attributes are attached to %s' % [show(x)[:160] for x in keys], 'build helper')
                lits = [literal(x) for x in got]
                if any(x is None for x in lits):
                    C.ob(False, 'configure:attributes', 'an attribute is not a constant template: %s' % [show(x)[:120] for x in got], 'build helper')
                    continue
                flat = [tuple(x) for x in lits]
                pool = None
                C.ob(('#[derive(::prost_reflect::ReflectMessage)]',) in flat, 'configure:derive', 'the derive is not attached: %s' % flat, 'build helper')
                names = [x for x in flat if isinstance(x[0], str) and 'message_name' in x[0]]
                C.ob(len(names) == 1 and names[0][0] == '#[prost_reflect(message_name = "' and names[0][1] is kk and names[0][2:] == ('")]',),
                     'configure:message_name', 'message_name is %s' % [str(x) for x in names], 'build helper')
                pools = [x for x in flat if isinstance(x[0], str) and x[0].startswith('#[prost_reflect(') and 'message_name' not in x[0]]
                okp = False
                if len(pools) == 1 and len(pools[0]) == 3:
                    for nm2 in ('descriptor_pool', 'file_descriptor_set_bytes'):
                        if pools[0][0] == '#[prost_reflect(%s = "' % nm2 and pools[0][2] == '")]':
                            fld = mk('proj', mk('proj', mk('self'), None, setters[nm2]), 1, 0)
                            okp = show(pools[0][1]) == show(fld)
                            pool = nm2
                C.ob(okp, 'configure:pool', 'the pool attribute is %s' % [tuple(map(str, x)) for x in pools], 'build helper')
                good = pool
        seen[good] = seen.get(good, 0) + 1
    C.ob('descriptor_pool' in seen and 'file_descriptor_set_bytes' in seen and None not in seen, 'configure:both forms', 'successful paths attach %s' % seen, 'build helper')
    E = Engine(p, opaque={BLD + 'configure'}, watch={BLD + 'configure': 'configure', CFG + 'compile_protos': 'cp'})
    fs = E.run(BLD + 'compile_protos_with_config', args={0: mk('self'), 1: mk('config'), 2: mk('protos'), 3: mk('includes')})
    C.inlined(E)
    tr = [[t for t in f.trace if isinstance(t, T)] for f in fs]
    full = [t for t in tr if [x.a[0] for x in t] == ['configure', 'cp']]
    C.ob(bool(full) and all(t[0].a[0] == 'configure' and t[0].a[1] is mk('self') and t[0].a[3:5] == (mk('protos'), mk('includes')) for t in tr)
         and all(t[1].a[2:4] == (mk('protos'), mk('includes')) for t in full), 'compile_protos_with_config',
         'calls %s' % [[show(x)[:200] for x in t] for t in tr], 'build helper')
    C.sample('prost-reflect-build configure(): for each element of all_messages(), derive + message_name = full_name() + pool expression set by the caller')


def derive(C):
    p = Program(path=witness(), crate='prv_witness')
    n = 0
    once_of = {}
    for ty, (name, pool, bs) in WANT.items():
        cand = [x for x in p.fn_by_name if x.startswith('<') and x.endswith('::descriptor') and 'ReflectMessage' in x and x[1:].split(' as ')[0].endswith('prv_witness::' + ty)
                or x == '<%s as prost_reflect::reflect::ReflectMessage>::descriptor' % ty]
        if not C.ob(len(cand) == 1, 'derive:%s:impl' % ty, 'no implementation is generated: %s' % [x for x in p.fn_by_name if 'Reflect' in x][:6], 'derive macro'):
            continue
        dec = POOLN + 'decode_global_file_descriptor_set'
        E = Engine(p, opaque={'prv_witness::pool_one', 'prv_witness::pool_two', 'prv_witness::bytes_three'},
                   watch={dec: 'decode', POOLN + 'global': 'global'})
        flags = set()

        def once(E, st, fr, b, c, args, tys, dt):
            flags.add(args[0])
            return [(s2, UNIT) for s2, v in E.call_value(st, fr, b, args[1], None, [], [])]
        for nm in ('std::sync::once::Once::call_once', 'std::sync::poison::once::Once::call_once'):
            E.models[nm] = once

        def init(E, st, fr, b, c, args, tys, dt):
            flags.add(args[0])
            return E.call_value(st, fr, b, args[1], None, [], [])
        for nm in ('std::sync::once_lock::OnceLock<T>::get_or_init', 'once_cell::sync::OnceCell<T>::get_or_init'):
            E.models[nm] = init
        fs = E.run(cand[0])
        C.inlined(E)
        n += 1
        for f in fs:
            r = f.ret
            if r.op == 'proj' and r.a[1] == 1:
                r = r.a[0]
            okn = r.op == 'app' and r.a[0] == POOLN + 'get_message_by_name' and isk(r.a[3]) and kv(r.a[3]) == name
            C.ob(okn, 'derive:%s:name' % ty, 'descriptor() is %s' % show(r)[:200], 'derive macro')
            if r.op != 'app':
                continue
            pt = strip_ref(r.a[2])
            if pool:
                C.ob(pt.op == 'app' and pt.a[0] == 'prv_witness::' + pool, 'derive:%s:pool' % ty, 'the pool is %s' % show(pt)[:200], 'derive macro')
            else:
                C.ob(pt.op == 'app' and pt.a[0] == POOLN + 'global', 'derive:%s:pool' % ty, 'the pool is %s' % show(pt)[:200], 'derive macro')
        if not pool:
            # whatever runs before the lookup must decode this type's own bytes into the global pool
            def val(e):
                x = strip_ref(e.a[1])
                return kv(x) if isk(x) else (x.a[0].split('::')[-1] if x.op == 'app' else show(x)[:80])
            for f in fs:
                tr = [e for e in f.trace if isinstance(e, T)]
                labs = [e.a[0] for e in tr]
                C.ob({val(e) for e in tr if e.a[0] == 'decode'} == {bs}, 'derive:%s:bytes' % ty,
                     'bytes decoded into the global pool: %s, expected %r' % ([show(e)[:120] for e in tr if e.a[0] == 'decode'], bs), 'derive macro')
                C.ob('decode' in labs and 'global' in labs and labs.index('decode') < len(labs) - 1 - labs[::-1].index('global'), 'derive:%s:registered' % ty,
                     'the lookup is not preceded by the registration', 'derive macro')
            for x in flags:
                C.ob(x not in once_of, 'derive:%s:own flag' % ty, 'the run-once flag %s is shared with %s' % (show(x), once_of.get(x)), 'derive macro')
                once_of[x] = ty
    C.floor('derived types', n, 6)


def run(p, C):
    builder(C)
    derive(C)
