"""The text-format writer: its functions (found by signature), an engine in which writing never fails, and the characters written."""
from .serde import *

FO = DYN + 'text_format::FormatOptions'
CUTS = ('message', 'value', 'unknown', 'string')
OK = agg('core::result::Result', 0, agg('tuple', 0))
ATTRS_ = ('name', 'full_name', 'is_group', 'kind')


def fnames(p, adt):
    return [f['n'] if isinstance(f, dict) else f[0] for f in p.adts[adt]['v'][0]['f']]


def sig(p, n):
    """(result type, argument types) of a function with a body"""
    b = p.bodies.get(p.fn_by_name[n][0]['key'])
    if b is None:
        return None
    ts = [p.ts(x['t'] if isinstance(x, dict) else x) for x in b.locals[:b.argc + 1]]
    return ts[0], ts[1:]


class Writer:
    """The writer type and its functions."""

    def __init__(self, p):
        self.p = p
        if FO not in p.adts:
            raise Broken('text-format options not found')
        ws = [a for a, d in p.adts.items() if '::text_format::' in a and a != FO and any(
            p.ts(f['t'] if isinstance(f, dict) else f[1]) in (FO, '&' + FO) for v in d['v'] for f in v['f'])]
        if len(ws) != 1:
            raise Broken('text-format writer not found: %s' % ws)
        self.adt = ws[0]
        self.opts = fnames(p, FO)
        self.fields = fnames(p, self.adt)
        self.fn = {}
        me = {}
        for n in p.fn_by_name:
            if not n.startswith(DYN):
                continue
            s = sig(p, n)
            if s is None:
                continue
            out, a = s
            if a and a[0].startswith('&mut ' + self.adt):
                me[n] = a
            elif '[u8]' in ''.join(a) and a[-1] == '&[u8]' and len(a) == 2 and a[0].startswith('&mut ') and 'fmt::Error' in out:
                self.fn.setdefault('string', []).append(n)
            elif a == ['&' + DYN + 'DynamicMessage'] and out.startswith('core::option::Option<(') and 'DynamicMessage)' in out:
                self.fn.setdefault('any', []).append(n)
            elif len(a) == 4 and a[2:] == ['bool', 'bool'] and a[0].startswith('&') and a[1] == '&' + DESC + 'MessageDescriptor':
                self.fn.setdefault('iter', []).append(n)
        self.methods = me
        val = [n for n, a in me.items() if len(a) == 3 and a[1] == '&' + VAL and 'Kind>' in a[2]]
        called = self.callees('<%s as core::fmt::Display>::fmt' % VAL)
        self.fn['value'] = [n for n in val if n in called]
        called = self.callees('<%sDynamicMessage as core::fmt::Display>::fmt' % DYN)
        self.fn['message'] = [n for n, a in me.items() if a[1:] == ['&' + DYN + 'DynamicMessage'] and n in called]
        self.fn['unknown'] = [n for n, a in me.items() if len(a) == 2 and a[1] == '&' + DYN + 'unknown::UnknownField']
        for w in CUTS + ('any', 'iter'):
            if not self.fn.get(w):
                raise Broken('text-format writer: function for %s not found' % w)
            self.fn[w] = sorted(self.fn[w], key=len)
        for w in ('message', 'value'):
            if len(self.fn[w]) != 1:
                raise Broken('text-format writer: functions for %s: %s' % (w, self.fn[w]))
        self.label = {n: w for w, ns in self.fn.items() for n in ns}

    def callees(self, n):
        if n not in self.p.fn_by_name:
            raise Broken('%s not found' % n)
        return self.p.callees(self.p.fn_by_name[n][0]['key'])

    def term(self, **o):
        fo = agg(FO, 0, *[k(o[x]) if x in o else mk('opt', x) for x in self.opts])
        return agg(self.adt, 0, *[fo if f == self.options_field() else mk('w', f) for f in self.fields])

    def run(self, E, fn, writer, args=None):
        """Evaluate a writer function on a writer stored in memory (so that assignments to its fields are seen)."""
        o = mk('writer')

        def setup(st, vals):
            st.mem[o] = writer
        return E.run(fn, args={**(args or {}), 0: mk('ref', o, ())}, setup=setup)

    def after(self, f):
        """The writer when the function returns"""
        return f.st.mem.get(mk('writer'))

    def options_field(self):
        for f in self.p.adts[self.adt]['v'][0]['f']:
            nm, t = (f['n'], f['t']) if isinstance(f, dict) else (f[0], f[1])
            if self.p.ts(t) in (FO, '&' + FO):
                return nm

    def engine(self, what=None):
        """Engine for the function of kind `what`: calls of any of the functions, also recursive ones, are events."""
        p = self.p
        cut = {n for w, ns in self.fn.items() for n in ns}

        def watch(n, r, c):
            for x in (n, r):
                if x in cut:
                    return self.label[x]
            if n.startswith('core::fmt::Write::'):
                return n.rsplit('::', 1)[1]
            return None
        E = Engine(p, opaque=opaque_api(p) + sorted(n for n in cut if self.label[n] not in CUTS), watch=watch)
        for d in ('FieldDescriptor', 'ExtensionDescriptor', 'MessageDescriptor', 'EnumDescriptor', 'EnumValueDescriptor'):
            E.opaque |= {DESC + d + '::' + a for a in ATTRS_ if DESC + d + '::' + a in p.fn_by_name}

        # writing never fails and never changes what is formatted
        def ok_(E, st, fr, b, c, args, tys, dt):
            return [(st, OK)]
        for n in ('write_char', 'write_str', 'write_fmt'):
            E.models['core::fmt::Write::' + n] = ok_
        for n in cut:
            if self.label[n] in CUTS:
                E.models[n] = ok_
        return E


def template(b):
    """Pieces of an encoded format template: str literals and (index or None, flags, width, precision)."""
    out, i = [], 0
    while i < len(b):
        c = b[i]
        i += 1
        if c == 0:
            return out if i == len(b) else None
        if c < 0x80:
            out.append(b[i:i + c].decode('utf8', 'replace'))
            i += c
        elif c == 0x80:
            n = b[i] | b[i + 1] << 8
            out.append(b[i + 2:i + 2 + n].decode('utf8', 'replace'))
            i += 2 + n
        elif c >= 0xc0:
            fl = wd = pr = ix = None
            if c & 1:
                fl = int.from_bytes(b[i:i + 4], 'little')
                i += 4
            if c & 2:
                wd = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if c & 4:
                pr = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if c & 8:
                ix = int.from_bytes(b[i:i + 2], 'little')
                i += 2
            if c & 0x30:
                return None
            out.append((ix, fl, wd, pr))
        else:
            return None
    return out


def pieces(t):
    """What a fmt::Arguments term prints: str literals and ('show', how, term, spec); None when not understood."""
    while t.op == 'ref':
        t = t.a[0]
    if not (t.op == 'app' and t.a[0].split('::')[-1] in ('new', 'from_str', 'from_str_nonconst', 'new_const')):
        return None
    b = t.a[2]
    if not isk(b):
        return None
    b = kv(b)
    if isinstance(b, str):
        return [b]
    args = t.a[3].a[2:] if len(t.a) > 3 else []
    tp = template(b)
    if tp is None:
        return None
    out, j = [], 0
    for x in tp:
        if isinstance(x, str):
            out.append(x)
            continue
        ix, fl, wd, pr = x
        if ix is None:
            ix = j
        j = ix + 1
        if ix >= len(args):
            return None
        a = args[ix]
        if not (a.op == 'app' and a.a[0].split('::')[-1].startswith('new_')):
            return None
        v = a.a[2]
        while v.op == 'ref' and not v.a[1] and isinstance(v.a[0], T):
            v = v.a[0]
        out.append(('show', a.a[0].split('::')[-1][4:], v, spec(fl, wd, pr)))
    return out


def spec(fl, wd, pr):
    """(zero padded, width, precision, other) of a placeholder"""
    if fl is None:
        return (False, wd, pr, '')
    other = ''
    if fl & (1 << 21):
        other += '+'
    if fl & (1 << 23):
        other += '#'
    if fl & 0x1fffff != 32:
        other += 'fill'
    if (fl >> 29) & 3 != 3:
        other += 'align'
    return (bool(fl & (1 << 24)), wd if fl & (1 << 27) else None, pr if fl & (1 << 28) else None, other)


def written(e):
    """The pieces an event writes: str, ('str', term), ('show', ...), ('call', label, args...); [] for other events; None when unknown."""
    lab = e.a[0]
    if lab == 'write_char':
        c = e.a[2]
        return [chr(kv(c))] if isk(c) else [('char', c)]
    if lab == 'write_str':
        s = e.a[2]
        return [kv(s)] if isk(s) and isinstance(kv(s), str) else [('str', s)]
    if lab == 'write_fmt':
        return pieces(e.a[2])
    if lab == 'string':
        return [('call', 'string', e.a[-1])]
    if lab in CUTS:
        return [('call', lab) + tuple(e.a[2:])]
    return []


def flat_text(evs):
    """Adjacent literals joined. Nested loops become ('loop', [(facts, pieces)])."""
    out = []
    for e in evs:
        if isinstance(e, tuple):
            it = [(fc, flat_text(b)) for fc, b in e[1]]
            out.append(('loop', it))
            continue
        w = written(e)
        if w is None:
            out.append(('unknown', e))
            continue
        for x in w:
            if isinstance(x, str) and out and isinstance(out[-1], str):
                out[-1] += x
            elif x != '':
                out.append(x)
    # loops that write only blanks are blanks
    res = []
    for x in out:
        if isinstance(x, tuple) and x[0] == 'loop' and all(all(isinstance(y, str) and not y.strip() for y in b) for fc, b in x[1]):
            if not any(b for fc, b in x[1]):
                continue
            x = ' '
        if isinstance(x, str) and res and isinstance(res[-1], str):
            res[-1] += x
        else:
            res.append(x)
    return res
