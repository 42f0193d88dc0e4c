"""Scenarios for the wire-format functions: one abstract run per (kind, shape), with the field
attributes fixed through the public descriptor accessors, and a canonical form of what is written."""
import re
from .terms import T, mk, k, isk, kv, agg, tup, walk, show, subst
from .engine import Engine, some, NONE_OPT
from .program import Broken

DESC = 'prost_reflect::descriptor::'
KIND = DESC + 'Kind'
VAL = 'prost_reflect::dynamic::Value'
MK = 'prost_reflect::dynamic::MapKey'
MSG = '<prost_reflect::dynamic::DynamicMessage as prost::message::Message>::'
WT = 'prost::encoding::wire_type::WireType'
WTN = ['Varint', 'SixtyFourBit', 'LengthDelimited', 'StartGroup', 'EndGroup', 'ThirtyTwoBit']

# kind -> (value variant, codec, wire type)
KINDS = {
    'Double': ('F64', 'double', 'SixtyFourBit'), 'Float': ('F32', 'float', 'ThirtyTwoBit'),
    'Int32': ('I32', 'int32', 'Varint'), 'Int64': ('I64', 'int64', 'Varint'),
    'Uint32': ('U32', 'uint32', 'Varint'), 'Uint64': ('U64', 'uint64', 'Varint'),
    'Sint32': ('I32', 'sint32', 'Varint'), 'Sint64': ('I64', 'sint64', 'Varint'),
    'Fixed32': ('U32', 'fixed32', 'ThirtyTwoBit'), 'Fixed64': ('U64', 'fixed64', 'SixtyFourBit'),
    'Sfixed32': ('I32', 'sfixed32', 'ThirtyTwoBit'), 'Sfixed64': ('I64', 'sfixed64', 'SixtyFourBit'),
    'Bool': ('Bool', 'bool', 'Varint'), 'String': ('String', 'string', 'LengthDelimited'),
    'Bytes': ('Bytes', 'bytes', 'LengthDelimited'), 'Message': ('Message', 'message', 'LengthDelimited'),
    'Enum': ('EnumNumber', 'int32', 'Varint'),
}
KEYKINDS = ['Int32', 'Int64', 'Uint32', 'Uint64', 'Sint32', 'Sint64', 'Fixed32', 'Fixed64', 'Sfixed32', 'Sfixed64', 'Bool', 'String']
PACKABLE = [x for x in KINDS if x not in ('String', 'Bytes', 'Message')]

FD = [DESC + t + '::' for t in ('FieldDescriptor', 'ExtensionDescriptor')]
ATTRS = ['kind', 'is_list', 'is_map', 'is_group', 'is_packed', 'is_packable', 'number', 'supports_presence', 'cardinality',
         'default_value', 'containing_oneof']
MD = ['map_entry_key_field', 'map_entry_value_field', 'get_field', 'get_extension', 'get_field_by_name', 'fields', 'extensions',
      'fields_in_index_order', 'oneofs', 'full_name', 'is_map_entry']


def opaque_api(p):
    """The public descriptor API is the boundary of the analysis; a missing accessor breaks the anchor."""
    out = []
    for pre in FD:
        for a in ATTRS:
            n = pre + a
            if n in p.fn_by_name:
                out.append(n)
            elif a not in ('is_packable', 'containing_oneof'):
                raise Broken('public accessor %s not found' % n)
    for a in MD:
        n = DESC + 'MessageDescriptor::' + a
        if n in p.fn_by_name:
            out.append(n)
        elif a in ('get_field', 'get_extension', 'fields'):
            raise Broken('public accessor %s not found' % n)
    return out


def vidx(p, adt):
    ad = p.adts.get(adt)
    if ad is None:
        raise Broken('type %s not found' % adt)
    return {v['n']: i for i, v in enumerate(ad['v'])}


class Scenario:
    def __init__(self, p, kind, shape, key=None, watch=None, extra_flags=None, **kw):
        self.p = p
        self.kind, self.shape, self.key = kind, shape, key
        self.KI, self.VI, self.MI = vidx(p, KIND), vidx(p, VAL), vidx(p, MK)
        for n in KINDS:
            if n not in self.KI:
                raise Broken('Kind::%s not found' % n)
        lst = shape in ('list', 'packed', 'group_list')
        self.flags = {
            'field': dict(is_list=lst, is_map=shape == 'map', is_group=shape in ('group', 'group_list'),
                          is_packed=shape == 'packed', is_packable=kind in PACKABLE and shape != 'map'),
            'key': dict(is_list=0, is_map=0, is_group=0, is_packed=0, is_packable=(key in PACKABLE)),
            'value': dict(is_list=0, is_map=0, is_group=0, is_packed=0, is_packable=kind in PACKABLE),
        }
        for r, f in (extra_flags or {}).items():
            self.flags[r].update(f)
        self.variant = {'field': 'List' if lst else 'Map' if shape == 'map' else KINDS[kind][0], 'elem': KINDS[kind][0],
                        'value': KINDS[kind][0]}
        E = Engine(p, opaque=opaque_api(p), **kw)
        self.E = E
        E.rec_limit = 2
        E.oracle = self.oracle
        E.discr_hook = self.dhook
        E.watch = watch or self.watch

    # the attributes of the descriptor, by role
    def role(self, d):
        if d.op == 'role':
            return d.a[0]
        return 'field'

    def kindterm(self, kn, res):
        i = self.KI[kn]
        if kn in ('Message', 'Enum'):
            return agg(KIND, i, mk('kindof', res))
        return agg(KIND, i)

    def oracle(self, n, a, res):
        pre, _, s = n.rpartition('::')
        if not pre.startswith(DESC):
            return None
        if pre.endswith('MessageDescriptor'):
            base = a[0]
            if base.op == 'kindof':
                if s == 'map_entry_key_field':
                    return mk('role', 'key')
                if s == 'map_entry_value_field':
                    return mk('role', 'value')
                if s in ('get_field', 'get_field_by_name') and isk(a[1]):
                    r = {1: 'key', 2: 'value', 'key': 'key', 'value': 'value'}.get(kv(a[1]))
                    return some(mk('role', r)) if r else NONE_OPT
                if s == 'is_map_entry':
                    return k(self.shape == 'map')
            return None
        if not (pre.endswith('FieldDescriptor') or pre.endswith('ExtensionDescriptor')) or not a:
            return None
        r = self.role(a[0])
        if s == 'kind':
            kn = {'field': 'Message' if self.shape == 'map' else self.kind, 'key': self.key, 'value': self.kind}[r]
            return self.kindterm(kn, res)
        if s == 'number' and r != 'field':
            return k(1 if r == 'key' else 2)
        if s in self.flags[r]:
            return k(int(self.flags[r][s]))
        if s == 'containing_oneof' and r != 'field':
            return NONE_OPT
        return None

    def vrole(self, v):
        """The role of a value term: the field's own value, a list element, a map value."""
        inner = None
        for x in walk(v):
            if x.op == 'proj' and x.a[0] is not v and x is not v:
                if x.a[1] == self.VI['List']:
                    inner = 'elem'
                if x.a[1] == self.VI['Map'] and inner is None:
                    inner = 'value'
            if x.op == 'role':
                if x.a[0] == 'value':
                    return 'value'
        return inner or 'field'

    def dhook(self, v, adt):
        if adt == VAL:
            return self.VI[self.variant[self.vrole(v)]]
        if adt == MK and self.key:
            return self.MI[KINDS[self.key][0]]
        return None

    @staticmethod
    def watch(n, r, c):
        if r.startswith('prost::encoding::'):
            return r[len('prost::encoding::'):]
        if n.startswith('bytes::buf::buf_mut::BufMut::put'):
            return n.rsplit('::', 1)[1]
        if n == 'prost::message::Message::encode_raw' and 'key' not in c:
            return 'encode_raw'
        return None

    def run(self, name, **kw):
        return self.E.run(name, **kw)


ENC = 'prost::encoding::'


def wtterm(name):
    return agg(WT, WTN.index(name))


def varlen(x):
    return ('varlen', x)


CODECS = {'double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64',
          'bool', 'string', 'bytes', 'message', 'group'}
SRC = {'double': 'f64', 'float': 'f32', 'int32': 'i32', 'int64': 'i64', 'uint32': 'u32', 'uint64': 'u64', 'sint32': 'i32', 'sint64': 'i64',
       'fixed32': 'u32', 'fixed64': 'u64', 'sfixed32': 'i32', 'sfixed64': 'i64', 'bool': 'bool'}


def cast(x, s, t):
    if s == t:
        return x
    if isk(x) and isinstance(kv(x), int):
        from .engine import wrap
        return k(wrap(kv(x), t))
    return mk('cast', t, x, s)


def zigzag(codec, x):
    w = 'i32' if codec == 'sint32' else 'i64'
    u = 'u' + w[1:]
    n = 31 if w == 'i32' else 63
    return cast(cast(mk('zz', x, k(n)), w, u), u, 'u64')


def norm_zz(t):
    """((x << 1) ^ (x >> 31)) is zig-zag, in whatever order it is written."""
    def f(x):
        if x.op == 'bin' and x.a[0] == 'BitXor':
            a, b = x.a[1], x.a[2]
            for p, q in ((a, b), (b, a)):
                if p.op == 'bin' and p.a[0] == 'Shl' and q.op == 'bin' and q.a[0] == 'Shr' and p.a[1] is q.a[1] and p.a[2] is k(1):
                    return mk('zz', p.a[1], q.a[2])
        return None
    return subst(t, f)


def payload_varint(codec, x):
    if codec in ('sint32', 'sint64'):
        return zigzag(codec, x)
    return cast(x, SRC[codec], 'u64')


def lenterm(m):
    return mk('app', MSG_LEN, None, m)


MSG_LEN = 'encoded_len'


def seq_of_codec(codec, n, x):
    """What prost's codec writes for one field, as primitive writes."""
    if codec == 'message':
        return [('key', n, 'LengthDelimited'), ('varint', mk('msglen', x)), ('raw', x)]
    if codec == 'group':
        return [('key', n, 'StartGroup'), ('raw', x), ('key', n, 'EndGroup')]
    if codec in ('string', 'bytes'):
        return [('key', n, 'LengthDelimited'), ('varint', cast(mk('app', 'len', None, x), 'usize', 'u64')), ('bytes', x)]
    if codec in ('double', 'fixed64', 'sfixed64'):
        return [('key', n, 'SixtyFourBit'), ('fix', 8, x)]
    if codec in ('float', 'fixed32', 'sfixed32'):
        return [('key', n, 'ThirtyTwoBit'), ('fix', 4, x)]
    return [('key', n, 'Varint'), ('varint', payload_varint(codec, x))]


PUTS = {'put_u32_le': 4, 'put_i32_le': 4, 'put_f32_le': 4, 'put_u64_le': 8, 'put_i64_le': 8, 'put_f64_le': 8}


def short(lab):
    return lab.split('::')


def strip_bits(x):
    """A cast between integers of one width keeps the bytes."""
    from .engine import int_range
    while x.op == 'cast':
        a, b = int_range(x.a[0]), int_range(x.a[2])
        if not a or not b or a[1] - a[0] != b[1] - b[0]:
            break
        x = x.a[1]
    return x


def canon_seq(tr, bad=None):
    """The canonical sequence of writes of a trace."""
    out = []
    for e in tr:
        if isinstance(e, tuple):
            bodies = frozenset((c, tuple(canon_seq(b, bad))) for c, b in e[1])
            bodies = frozenset((c, b) for c, b in bodies)
            out.append(('loop', bodies))
            continue
        lab = e.a[0]
        args = [norm_zz(x) for x in e.a[1:]]
        parts = lab.split('::')
        last = parts[-1]
        mod = parts[-2] if len(parts) > 1 else ''
        if last == 'encode' and mod in CODECS:
            out += seq_of_codec(mod, args[0], args[1])
        elif last in ('encode_repeated', 'encode_packed') and mod in CODECS:
            out.append((last, mod) + tuple(args[:-1]))
        elif last == 'encode_key':
            w = args[1]
            out.append(('key', args[0], WTN[w.a[1]] if w.op == 'agg' and w.a[0] == WT else show(w)))
        elif last == 'encode_varint':
            out.append(('varint', args[0]))
        elif last in PUTS:
            out.append(('fix', PUTS[last], strip_bits(args[1])))
        elif last in ('put_slice', 'put'):
            x = args[1]
            m = re.fullmatch(r'<[iuf](16|32|64)>::to_le_bytes', x.a[0]) if x.op == 'app' else None
            if m:
                # writing the little-endian bytes of a number
                out.append(('fix', int(m.group(1)) // 8, strip_bits(x.a[-1])))
            else:
                out.append(('bytes', x))
        elif last == 'put_u8':
            out.append(('fix', 1, args[1]))
        elif last == 'encode_raw':
            out.append(('raw', args[0]))
        elif last in ('encoded_len', 'encoded_len_varint', 'key_len', 'encoded_len_repeated', 'encoded_len_packed'):
            pass
        elif lab == 'recursion':
            out.append(('recursion', args[0]))
        else:
            out.append(('?', lab) + tuple(args))
    return out


def show_seq(s, ind=0):
    o = []
    for e in s:
        if e[0] == 'loop':
            o.append(' ' * ind + 'loop:')
            for c, b in e[1]:
                o.append(' ' * ind + '  if %s' % {show(a)[:60]: d for a, d in c})
                o.append(show_seq(b, ind + 4))
        else:
            o.append(' ' * ind + ' '.join(str(show(x))[:200] if isinstance(x, T) else str(x) for x in e))
    return '\n'.join(o)


# ---- lengths: linear forms over length atoms
def add(d, key, c):
    if c:
        n = d.get(key, 0) + c
        if n:
            d[key] = n
        else:
            d.pop(key, None)


def varlen_const(v):
    v &= (1 << 64) - 1
    return max(1, (v.bit_length() + 6) // 7)


def strip_sites(t):
    """elem(collection, site, depth) -> elem(collection); call sites of impure calls are dropped."""
    def f(x):
        if x.op == 'elem' and len(x.a) > 1:
            return mk('elem', x.a[0])
        if x.op == 'hofarg':
            return mk('hofarg', x.a[0], *x.a[2:])
        if x.op == 'bin' and x.a[0] in ('Eq', 'Add', 'Mul', 'BitAnd', 'BitOr', 'BitXor'):
            a, b = x.a[1], x.a[2]
            if show(b) < show(a):
                return mk('bin', x.a[0], b, a)
        return None
    return norm_zz(subst(t, f, _ss))


_ss = {}


def norm_facts(fs):
    out = set()
    for t, d in fs:
        if t.op == 'exhausted':
            continue
        if t.op == 'ovf' or d[0] == 'iv':
            continue
        out.add((strip_sites(t), d))
    return frozenset(out)


class Lens:
    def __init__(self, E):
        self.E = E
        self.unknown = set()
        self.stack = set()

    def lin(self, t):
        d = {}
        self.acc(d, t, 1)
        return frozenset(d.items())

    def varlen(self, d, x, c):
        l = self.lin(x)
        if all(kx == 1 for kx, _ in l):
            add(d, 1, c * varlen_const(dict(l).get(1, 0)))
        else:
            add(d, ('varlen', l), c)

    def keylen(self, d, n, c):
        if isk(n):
            add(d, 1, c * varlen_const(kv(n) << 3))
        else:
            add(d, ('keylen', strip_sites(n)), c)

    def seq(self, s):
        d = {}
        for e in s:
            self.acc_ev(d, e, 1)
        return frozenset(d.items())

    def acc_ev(self, d, e, c):
        if e[0] == 'key':
            self.keylen(d, e[1], c)
        elif e[0] == 'varint':
            self.varlen(d, e[1], c)
        elif e[0] == 'fix':
            add(d, 1, c * e[1])
        elif e[0] == 'bytes':
            if e[1] in self.E.arrlen:
                add(d, 1, c * self.E.arrlen[e[1]])
            else:
                add(d, ('t', mk('app', 'len', None, strip_sites(e[1]))), c)
        elif e[0] == 'raw':
            add(d, ('msglen', strip_sites(e[1])), c)
        elif e[0] == 'loop':
            self.add_sum(d, frozenset((norm_facts(cd), self.seq(b)) for cd, b in e[1]), c)
        else:
            add(d, ('?',) + tuple(strip_sites(x) if isinstance(x, T) else x for x in e), c)

    def add_sum(self, d, bodies, c):
        bodies = frozenset((f, l) for f, l in bodies if l)
        if bodies:
            # a sum whose bodies are again exactly one unconditional sum is kept nested
            add(d, ('sum', bodies), c)

    def acc(self, d, t, c):
        if isk(t) and isinstance(kv(t), int):
            add(d, 1, c * kv(t))
            return
        if t.op == 'cast':
            from .engine import int_range
            rs, rt = int_range(t.a[2]), int_range(t.a[0])
            if t.a[0] in ('usize', 'u64') and t.a[2] in ('usize', 'u64'):
                self.acc(d, t.a[1], c)
                return
        if t.op == 'bin' and t.a[0] == 'Add':
            self.acc(d, t.a[1], c)
            self.acc(d, t.a[2], c)
            return
        if t.op == 'bin' and t.a[0] == 'Mul' and isk(t.a[2]):
            self.acc(d, t.a[1], c * kv(t.a[2]))
            return
        if t.op == 'sum':
            self.add_sum(d, frozenset((norm_facts(f), self.lin(v)) for f, v in t.a[0]), c)
            return
        if t.op == 'phi' and t in self.E.phi_in and t not in self.stack:
            self.stack.add(t)
            entry, ys = self.E.phi_in[t]
            bodies = set()
            okk = entry is not None
            for f, v in ys:
                if v is None:
                    okk = False
                    break
                l = dict(self.lin(v))
                if l.get(('t', t)) != 1:
                    okk = False
                    break
                del l[('t', t)]
                bodies.add((norm_facts(f), frozenset(l.items())))
            self.stack.discard(t)
            if okk:
                self.acc(d, entry, c)
                self.add_sum(d, frozenset(bodies), c)
                return
        if t.op == 'msglen':
            add(d, ('msglen', strip_sites(t.a[0])), c)
            return
        if t.op == 'app':
            n = t.a[0]
            parts = n.split('::')
            last = parts[-1]
            args = t.a[2:]
            if n.startswith(ENC):
                mod = parts[-2]
                if last == 'encoded_len' and mod in CODECS:
                    for e in seq_of_codec(mod, args[0], args[1]):
                        self.acc_ev(d, e, c)
                    return
                if last == 'key_len':
                    self.keylen(d, args[0], c)
                    return
                if last == 'encoded_len_varint':
                    self.varlen(d, args[0], c)
                    return
            if last == 'encoded_len' and len(args) == 1:
                add(d, ('msglen', strip_sites(args[0])), c)
                return
        add(d, ('t', strip_sites(t)), c)


def show_len(l):
    out = []
    for kx, c in sorted(l, key=repr):
        if kx == 1:
            out.append(str(c))
            continue
        if kx[0] == 'sum':
            s = 'Σ{%s}' % '; '.join(('[%s] ' % ', '.join('%s∈%s%s' % (show(t)[-60:], d[0], sorted(d[1], key=repr)) for t, d in f) if f else '') + show_len(b) for f, b in kx[1])
        elif kx[0] == 'varlen':
            s = 'varlen(%s)' % show_len(kx[1])
        elif kx[0] in ('t', 'msglen', 'keylen'):
            s = '%s(%s)' % (kx[0], show(kx[1])[-90:])
        else:
            s = repr(kx)[:80]
        out.append(s if c == 1 else '%d*%s' % (c, s))
    return ' + '.join(out) or '0'
