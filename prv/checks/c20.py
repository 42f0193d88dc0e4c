"""What the text-format writer writes is in the language the parser reads. Bytes: the text written for every byte, alone and before
every class of following byte, is divided by the automaton of the string lexer (read from its patterns), its callbacks and the
function that collects the pieces are evaluated on it, and the byte comes back. Numbers and names: everything a placeholder can
show is a token of the expected type, by inclusion of regular languages, and no character that can follow it extends the token.
Structure: every rendering the writer has for fields, values, lists, maps, extensions and Any, in every option setting, is turned
into tokens and the parser is run on them from its public entry: it accepts them and stores a value of the same type."""
import itertools

from prv.lexer import *
from prv.lexer import OTHER as NONASCII
from prv.program import REPO
from prv.text import *
from prv.textparse import *
from prv.textparse import OTHER as OTHERF
from prv.checks import c25

LEVEL = 'proof'
G1 = 'every byte of a string comes back'
G2 = 'numbers and names are tokens of the expected type'
G3 = 'nothing that follows a token becomes part of it'
G4 = 'renderings are accepted with the same type'
G5 = 'callbacks of the lexer keep the text'
LX = 'logos::lexer::Lexer::'
SIGNED = ('I32', 'I64', 'EnumNumber')
KEYKIND = {'Bool': 'Bool', 'I32': 'Int32', 'I64': 'Int64', 'U32': 'Uint32', 'U64': 'Uint64', 'String': 'String'}
IDENT = '[A-Za-z_][A-Za-z0-9_]*'
UINT = '0|[1-9][0-9]*'


def logos_types(p):
    return sorted({n.split(' as logos::Logos<')[0][1:].split('<')[0] for n in p.fn_by_name if ' as logos::Logos<' in n and n.endswith('>::lex')
                   and n.startswith('<' + DYN)})


# ---------------------------------------------------------------------------------------------- bytes
def barr(s):
    b = s.encode('utf8') if isinstance(s, str) else bytes(s)
    return agg('array', None, *[k(x) for x in b])


def ground_bytes(t):
    """The bytes of a term built from pushes and extensions with known ones; None otherwise."""
    while t.op == 'ref' and isinstance(t.a[0], T) and not t.a[1]:
        t = t.a[0]
    if isk(t):
        v = kv(t)
        return list(v.encode('utf8')) if isinstance(v, str) else list(v) if isinstance(v, bytes) else None
    if t.op == 'agg' and t.a[0] == 'array':
        return [kv(x) for x in t.a[2:]] if all(isk(x) and isinstance(kv(x), int) for x in t.a[2:]) else None
    if t.op == 'app':
        n = t.a[0].split('::')[-1]
        if n == 'push' and isk(t.a[2]):
            r = ground_bytes(t.a[3])
            return None if r is None else r + [kv(t.a[2])]
        if n == 'extend':
            a, r = ground_bytes(t.a[2]), ground_bytes(t.a[3])
            return None if a is None or r is None else r + a
        if n == 'encode_utf8' and isk(t.a[2]):
            return list(chr(kv(t.a[2])).encode('utf8'))
    return None


def ground_models(E):
    """Slices of known bytes and numbers parsed from them."""
    def bytes_of(v):
        return ground_bytes(v) if v.op == 'agg' or isk(v) else None
    prev = E.models['core::ops::index::Index::index']

    def index(E_, st, fr, b, c, args, tys, dt):
        v, r = E.canon(st, args[0], True), E.canon(st, args[1], True)
        bs = bytes_of(v)
        if bs is not None and r.op == 'agg' and 'range::' in r.a[0]:
            xs = [kv(x) for x in r.a[2:] if isk(x)]
            nm = r.a[0].split('::')[-1]
            lo, hi = {'RangeFrom': lambda: (xs[0], len(bs)), 'Range': lambda: (xs[0], xs[1]), 'RangeTo': lambda: (0, xs[0]), 'RangeFull': lambda: (0, len(bs))}.get(nm, lambda: (None, 0))()
            if lo is not None and len(xs) == len(r.a) - 2 and lo <= hi <= len(bs):
                return [(st, barr(bs[lo:hi]))]
        return prev(E_, st, fr, b, c, args, tys, dt)
    E.models['core::ops::index::Index::index'] = index

    def elements(chars):
        def m(E_, st, fr, b, c, args, tys, dt):
            v = E.canon(st, args[0], True)
            bs = bytes_of(v)
            if bs is None:
                return None
            xs = [ord(x) for x in bytes(bs).decode('utf8', 'replace')] if chars else bs
            it = mk('finite', mk('list', v), *[k(x) for x in xs])
            st.mem.pop(mk('ghost', 'finite', it), None)
            return [(st, it)]
        return m
    E.models['<str>::bytes'] = elements(0)
    E.models['<str>::chars'] = elements(1)

    def oracle(n, a, res):
        last = n.rsplit('::', 1)[-1]
        if last == 'from_str_radix' and isk(a[1]):
            bs = bytes_of(a[0])
            if bs is not None:
                try:
                    return ok(k(int(bytes(bs).decode('ascii'), kv(a[1]))))
                except ValueError:
                    return None
        if last == 'from_u32' and 'char' in n and isk(a[0]):
            v = kv(a[0])
            return some(k(v)) if v < 0xd800 or 0xe000 <= v < 0x110000 else NONE_OPT
        return None
    E.oracle = oracle


class Strings:
    """The reading of string literals: pieces by the automaton, their meaning by the callbacks, their collection by the function itself."""

    def __init__(self, p, C):
        self.p, self.C = p, C
        tok = token_type(p)
        self.T = Lexer(REPO + '/prost-reflect/src/dynamic', tok.split('::')[-1])
        rules = [(i, r) for i, r in enumerate(self.T.rules) if r[0] == 'StringLiteral']
        self.fn = {}
        self.mod = tok.rsplit('::', 1)[0] + '::'
        for i, (v, cb, text, w) in rules:
            self.fn[i] = self.callback(cb, self.mod)
        others = [x for x in logos_types(p) if x != tok]
        if len(others) != 1:
            raise Broken('the lexer of string literals: %s' % others)
        self.adt = others[0]
        self.L = Lexer(REPO + '/prost-reflect/src/dynamic', self.adt.split('::')[-1])
        self.ix = vidx(p, self.adt)
        self.seen, self.got = {}, {}

    def callback(self, cb, scope):
        """The function a callback names."""
        ws = [x[1] for x in cb if x[0] == 'i']
        if not cb or any(x[0] == 'p' and x[1] not in ':' for x in cb):
            raise Broken('callback %s' % (cb,))
        last = '::'.join(w for w in ws if w not in ('self', 'crate', 'super'))
        while True:
            if scope + last in self.p.fn_by_name:
                return scope + last
            if '::' not in scope.rstrip(':'):
                raise Broken('callback %s not found' % last)
            scope = scope.rstrip(':').rsplit('::', 1)[0] + '::'

    def piece(self, rule, text):
        """The value the lexer yields for a piece; None when it is refused or not understood."""
        key = (rule, text)
        if key not in self.seen:
            v, cb, pat, w = self.L.rules[rule]
            if not cb:
                fs = [x for x in self.p.adts[self.adt]['v'] if x['n'] == v][0]['f']
                self.seen[key] = agg(self.adt, self.ix[v], *([barr(text)] if fs else []))
            else:
                E = Engine(self.p)
                E.known_lists = True
                ground_models(E)
                E.models[LX + 'slice'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, barr(text))]
                r = E.run(self.callback(cb, self.adt.rsplit('::', 1)[0] + '::'))
                self.C.inlined(E)
                vals = {f.ret for f in r}
                x = vals.pop() if len(vals) == 1 else None
                if x is not None and x.op == 'agg' and x.a[0] in ('core::result::Result', 'core::option::Option'):
                    x = x.a[2] if x.a[1] == (0 if x.a[0].endswith('Result') else 1) else None
                self.seen[key] = agg(self.adt, self.ix[v], x) if x is not None and isk(x) else None
        return self.seen[key]

    def read(self, text):
        """The bytes of the string literal `text` starts with, and its length; None when it is refused or not understood."""
        r, e, S = self.T.next(text, 0)
        if r not in self.fn or self.T.rules[r][0] != 'StringLiteral':
            return None
        pieces, script = self.L.lex(text[e:]), []
        at = 0
        for rule, t in pieces:
            v = self.piece(rule, t) if rule is not None else None
            n = len(t.encode('utf8'))
            if v is None:
                script.append((None, at, at + n))
                break
            script.append((v, at, at + n))
            at += n
        key = (r, text[:e], tuple(script))
        if key not in self.got:
            self.got[key] = self.collect(r, text[:e], script)
        return self.got[key]

    def collect(self, rule, quote, script):
        p = self.p
        E = Engine(p)
        E.known_lists = True
        E.unroll = len(script) + 3
        ground_models(E)
        pos = mk('ghost', 'pieces read')

        def cur(st):
            v = st.mem.get(pos)
            return 0 if v is None else kv(v)

        def inner(E_, st, args):
            v = E_.canon(st, args[0], True)
            return v.op == 'piecelexer' or any(x.op == 'piecelexer' for x in walk(v))
        prev = E.models.get('core::iter::traits::iterator::Iterator::next')

        def nxt(E_, st, fr, b, c, args, tys, dt):
            if not inner(E_, st, args):
                return prev(E_, st, fr, b, c, args, tys, dt) if prev else None
            i = cur(st)
            st.mem[pos] = k(i + 1)
            if i >= len(script):
                return [(st, NONE_OPT)]
            v = script[i][0]
            return [(st, some(ok(v) if v is not None else agg('core::result::Result', 1, agg('tuple', 0))))]
        E.models['core::iter::traits::iterator::Iterator::next'] = nxt
        E.models['logos::Logos::lexer'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('piecelexer'))]

        def span(E_, st, fr, b, c, args, tys, dt):
            if inner(E_, st, args):
                i = cur(st)
                lo, hi = script[i - 1][1:] if 0 < i <= len(script) else (script[-1][2],) * 2 if script else (0, 0)
                return [(st, agg('core::ops::range::Range', 0, k(lo), k(hi)))]
            return [(st, agg('core::ops::range::Range', 0, mk('start'), mk('end')))]
        E.models[LX + 'span'] = span
        E.models[LX + 'slice'] = lambda E_, st, fr, b, c, args, tys, dt: None if inner(E_, st, args) else [(st, barr(quote))]
        E.watch = lambda n, r, c: 'bump' if n == LX + 'bump' else None
        r = E.run(self.fn[rule])
        self.C.inlined(E)
        outs = set()
        for f in r:
            x = f.ret
            if x.op == 'agg' and x.a[0] == 'core::result::Result' and x.a[1] == 1:
                outs.add(None)
                continue
            bumps = [e.a[-1] for e in f.trace if not isinstance(e, tuple) and e.a[0] == 'bump']
            bs = ground_bytes(x.a[2]) if x.op == 'agg' and x.a[0] == 'core::result::Result' else ground_bytes(x)
            if bs is None or len(bumps) != 1 or not isk(bumps[0]):
                outs.add('?')
            else:
                outs.add((tuple(bs), len(quote) + kv(bumps[0])))
        return outs.pop() if len(outs) == 1 else '?'


def render_concrete(x):
    """The characters a piece shows when its value is known."""
    if isinstance(x, str):
        return x
    if x[0] in ('char', 'str') and isk(x[1]):
        v = kv(x[1])
        return chr(v) if isinstance(v, int) else v
    if x[0] == 'show' and isk(x[2]):
        how, v, (zero, wd, pr, oth) = x[1], kv(x[2]), x[3]
        if oth or pr is not None:
            return None
        if how == 'display' and isinstance(v, str):
            s = v
        elif isinstance(v, int):
            f = {'octal': 'o', 'lower_hex': 'x', 'upper_hex': 'X', 'display': 'd', 'binary': 'b'}.get(how)
            if f is None:
                return None
            s = format(v, f)
        else:
            return None
        return s.rjust(wd or 0, '0' if zero else ' ')
    return None


def strings(p, C, W):
    S = Strings(p, C)
    n = 0
    follow = sorted({0x00, 0x01, 0x09, 0x0a, 0x0d, 0x20, 0x22, 0x27, 0x2f, 0x30, 0x37, 0x38, 0x41, 0x46, 0x58, 0x5c, 0x61, 0x66, 0x6e, 0x78, 0x7e, 0x7f, 0x80, 0xc3, 0xff})
    for fn in W.fn['string']:
        def text(bs):
            E = W.engine('string')
            for x in W.fn['string']:
                E.models.pop(x, None)
            E.known_lists = True
            E.unroll = len(bs) + 3
            r = E.run(fn, args={1: mk('ref', barr(bs), ())})
            C.inlined(E)
            outs = set()
            for f in r:
                xs = [render_concrete(x) for x in flat_text(f.trace)]
                outs.add(None if None in xs else ''.join(xs))
            return outs.pop() if len(outs) == 1 else None

        def check(bs, key, what):
            nonlocal n
            n += 1
            t = text(bs)
            got = S.read(t + '~') if t is not None else None
            good = t is not None and got == (tuple(bs), len(t))
            C.ob(good, key, '%s is written as %s, which %s' % (what, t if t is not None else 'a text that is not determined',
                 'is refused' if got is None else 'is read as %s' % (got,)), G1)
            return t
        check([], 'string:empty', 'an empty string')
        for b in range(256):
            t = check([b], 'string:%02x' % b, 'byte %#04x' % b)
            if t is None:
                continue
            for c in follow:
                check([b, c], 'string:%02x,%02x' % (b, c), 'byte %#04x before %#04x' % (b, c))
        for bs in ([0, 0x37, 0x5c], [0x5c, 0x22, 0x27], [0xc3, 0xa9, 0x31], [0x0a, 0x0d, 0x09, 0x30], list(b'a"b\'c\\d')):
            check(bs, 'string:' + ','.join('%02x' % x for x in bs), 'the bytes %s' % bs)
    C.floor('texts of bytes', n, 256 * 26)
    return S


# ---------------------------------------------------------------------------------------------- numbers and names
class Rendering:
    """Renderings as segments: ('lit', text) or ('class', name, pattern, term)."""

    def __init__(self, p, C, S):
        self.p, self.C, self.L, self.T = p, C, S.T, Tokens(p)
        self.strings = S
        self.memo = {}

    def inclusion(self, pat):
        """The variants the words of the pattern are, with the states the lexer can end in: {variant: states}."""
        if pat in self.memo:
            return self.memo[pat]
        N, s, acc = automaton(pat)
        L = self.L
        out, seen, todo = {}, set(), [(s, L.start, 0)]
        bad = None
        while todo:
            a, b, n = todo.pop()
            if n and acc in a:
                i = L.best(b) if b else None
                if i is None:
                    bad = 'some are no token'
                else:
                    out.setdefault(i, set()).add(b)
            for c in range(129):
                x = N.step(a, c)
                if x:
                    y = L.N.step(b, c) if b else b
                    if (x, y) not in seen:
                        seen.add((x, y))
                        todo.append((x, y, 1))
        self.memo[pat] = (out, bad)
        return self.memo[pat]

    def first(self, seg):
        """The characters a segment can start with."""
        if seg is None:
            return set()
        if seg[0] == 'lit':
            return {min(ord(seg[1][0]), NONASCII)}
        if seg[0] == 'string':
            return {34, 39}
        N, s, acc = automaton(seg[2])
        return {c for c in range(129) if N.step(s, c)}

    def tokens(self, segs, key, what):
        """The token scripts of a rendering (several when a class has several types of tokens); None when there are none."""
        C, L, T = self.C, self.L, self.T
        segs = [x for x in segs if x[0] != 'lit' or x[1]]
        joined = []
        for x in segs:
            if x[0] == 'lit' and joined and joined[-1][0] == 'lit':
                joined[-1] = ('lit', joined[-1][1] + x[1])
            else:
                joined.append(x)
        scripts = [[]]
        for i, seg in enumerate(joined):
            nx = joined[i + 1] if i + 1 < len(joined) else None
            follow = self.first(nx)
            if seg[0] == 'string':
                scripts = [s + [T('StringLiteral', seg[1])] for s in scripts]
                continue
            if seg[0] == 'lit':
                text, at, S = seg[1], 0, None
                while at < len(text):
                    r, e, S = L.next(text, at)
                    if r is None:
                        C.ob(False, key + ':lex', '%s contains %r, which is no token' % (what, text[at:]), G2)
                        return None
                    v = L.rules[r][0]
                    if v == 'StringLiteral':
                        C.ob(False, key + ':lex', '%s opens a string with %r' % (what, text[at:]), G2)
                        return None
                    if v is not None:
                        t = text[at:e]
                        tk = T.ident(k(t)) if v == 'Ident' else T.int_(k(t)) if v == 'IntLiteral' else T('FloatLiteral', k(t)) if v == 'FloatLiteral' else T(v)
                        scripts = [s + [tk] for s in scripts]
                    last, at = (r, e), e
                if S:
                    # the last token ends with the text: what follows may not extend it (blanks may follow blanks)
                    bad = []
                    for c in sorted(follow):
                        y = L.N.step(S, c)
                        blank = L.rules[last[0]][0] is None and L.best(y) is not None and L.rules[L.best(y)][0] is None and L.best(L.N.step(L.start, c)) is not None
                        if y and not blank:
                            bad.append(chr(c))
                    C.ob(not bad, key + ':glue', '%s: %s continues %r' % (what, bad, text[-10:]), G3)
                continue
            cls, name, pat, term = seg
            inc, bad = self.inclusion(pat)
            want = {'name': {'Ident'}, 'integer': {'IntLiteral'}, 'float': {'IntLiteral', 'FloatLiteral'}}[name]
            vs = {L.rules[j][0] for j in inc}
            C.ob(not bad and vs <= want and vs, key + ':type', '%s: of the texts of a %s, %s' % (what, name, bad or 'some are read as %s' % sorted(map(str, vs - want))), G2)
            if bad or not vs <= want:
                return None
            bad = sorted({chr(c) for states in inc.values() for st in states for c in follow if L.N.step(st, c)})
            C.ob(not bad, key + ':glue', '%s: %s continues a %s' % (what, bad, name), G3)
            if vs & {'IntLiteral'}:
                # the lexer refuses integers that a letter follows
                C.ob(not any(chr(c).isalnum() or chr(c) == '_' for c in follow if c < 128), key + ':glue', '%s: a letter follows an integer' % what, G3)
            new = []
            for j in sorted(inc):
                v, cb = L.rules[j][:2]
                if v == 'Ident':
                    tk = T.ident(term)
                elif v == 'FloatLiteral':
                    tk = T('FloatLiteral', mk('num', term))
                else:
                    rad = self.radix(j)
                    C.ob(rad == 10, key + ':radix', '%s: some texts of a %s are read as integers of base %s' % (what, name, rad), G2)
                    tk = T.int_(mk('digits', term))
                new += [s + [tk] for s in scripts]
            uniq = []
            for s in new:
                if s not in uniq:
                    uniq.append(s)
            scripts = uniq
        return scripts

    def radix(self, rule):
        """The base of the integers of a rule whose callback keeps the whole text; None when it does not."""
        key = ('radix', rule)
        if key not in self.memo:
            self.memo[key] = self.integer(rule)
        return self.memo[key]

    def integer(self, rule):
        p, cb = self.p, self.L.rules[rule][1]
        toks = [x for x in cb]
        if len(toks) > 3 and toks[0] == ('p', '|'):
            j = toks.index(('p', '|'), 1)
            x, body = toks[1][1], toks[j + 1:]
            if body and body[0] == ('p', '{'):
                body = body[1:-1]
            b = next((i for i, t in enumerate(body) if t == ('p', '(')), None)
            if b is None:
                raise Broken('callback %s' % (cb,))
            fn = self.strings.callback(body[:b], self.strings.mod)
            args = {}
            for i, a in enumerate(split(body[b + 1:-1])):
                if a == [('i', x)]:
                    continue
                if len(a) == 1 and a[0][0] == 'i' and a[0][1].isdigit():
                    args[i] = k(int(a[0][1]))
                else:
                    raise Broken('callback %s' % (cb,))
        else:
            fn, args = self.strings.callback(cb, self.strings.mod), {}
        whole = self.run_callback(fn, args)
        out = set()
        for f in whole:
            x = f.ret
            if x.op == 'agg' and x.a[0] in ('core::result::Result', 'core::option::Option'):
                if x.a[1] != (0 if x.a[0].endswith('Result') else 1):
                    out.add(None)
                    continue
                x = x.a[2]
            if x.op != 'agg' or x.a[0] != self.T.int:
                out.add(None)
                continue
            fs = [f_[0] for f_ in p.adts[self.T.int]['v'][0]['f']]
            got = dict(zip(fs, x.a[2:]))
            rad = [v for f_, v in got.items() if isk(v)]
            txt = [v for f_, v in got.items() if not isk(v)]
            out.add(kv(rad[0]) if len(rad) == 1 and len(txt) == 1 and same_text(txt[0]) else None)
        r = out.pop() if len(out) == 1 else None
        self.C.ob(r is not None, 'integer:%d' % rule, 'the text of an integer is not kept by %s' % fn, G5)
        return r

    def run_callback(self, fn, args, rest='', last=None):
        E = Engine(self.p)
        E.known_lists = True
        E.models[LX + 'slice'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('thetext'))]
        E.models[LX + 'span'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, agg('core::ops::range::Range', 0, mk('start'), mk('end')))]
        E.models[LX + 'source'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('source'))]
        # what follows is never a letter (see tokens)
        E.models[LX + 'remainder'] = lambda E_, st, fr, b, c, args, tys, dt: [(st, mk('rest'))]

        def oracle(n, a, res):
            last = n.rsplit('::', 1)[-1]
            if last in ('is_ascii_alphabetic', 'is_alphabetic', 'is_alphanumeric', 'is_ascii_alphanumeric'):
                return k(0)
            if last == 'eq' and any(isk(x) and kv(x) == ord('_') for x in a):
                return k(0)
            return None
        E.oracle = oracle
        r = E.run(fn, args=args)
        self.C.inlined(E)
        # the character that follows is no underscore
        return [f for f in r if not any(d == ('+', frozenset([95])) for t, d in f.facts.items())]


def same_text(t):
    """The text of the token itself."""
    while t.op == 'ref' and not t.a[1]:
        t = t.a[0]
    if t is mk('thetext'):
        return True
    if t.op == 'app' and t.a[0] == 'slice':
        src, r = t.a[2], t.a[3]
        if src is mk('source') and r.op == 'agg' and r.a[0].endswith('range::Range') and r.a[2:] == (mk('start'), mk('end')):
            return True
        if src is mk('thetext') and r.op == 'agg' and r.a[0].endswith('RangeFrom') and r.a[2] is k(0):
            return True
    return False


# ---------------------------------------------------------------------------------------------- structure
class Renderings:
    """The texts of the writer as alternatives of segments."""

    def __init__(self, p, C, W, S):
        self.p, self.C, self.W = p, C, W
        self.VI, self.KI = vidx(p, VAL), vidx(p, MAPKEY)
        self.VN = {i: v for v, i in self.VI.items()}

    def shown(self, x, types):
        """Alternatives for a placeholder: lists of segments; None when it is not understood."""
        how, v, (zero, wd, pr, oth) = x[1:]
        ty = types(v)
        if ty is None or oth or wd or zero:
            return None
        num = mk('text', v)
        if ty in ('ident', 'dotted', 'url', 'bool') or ty in ('I32', 'I64', 'U32', 'U64', 'EnumNumber'):
            if how not in ('display', 'debug') or pr is not None or (how == 'debug' and ty in ('ident', 'dotted', 'url')):
                return None
        if ty == 'ident':
            return [[('class', 'name', IDENT, num)]]
        if ty == 'dotted':
            d = [('class', 'name', IDENT, mk('part', 0, v)), ('lit', '.'), ('class', 'name', IDENT, mk('part', 1, v))]
            return [[('class', 'name', IDENT, num)], d]
        if ty == 'url':
            return [[('class', 'name', IDENT, mk('domain')), ('lit', '.'), ('class', 'name', IDENT, mk('domain', 1)), ('lit', '/'),
                     ('class', 'name', IDENT, mk('anyname')), ('lit', '.'), ('class', 'name', IDENT, mk('anyname', 1))]]
        if ty == 'Bool':
            return [[('lit', 'true')], [('lit', 'false')]]
        if ty in SIGNED or ty in ('U32', 'U64'):
            a = [('class', 'integer', UINT, num)]
            return [a, [('lit', '-')] + a] if ty in SIGNED else [a]
        if ty in ('F32', 'F64'):
            if pr is not None:
                pat = '(0|[1-9][0-9]*)' + (r'\.' + '[0-9]' * pr if pr else '')
            elif how == 'display':
                pat = r'(0|[1-9][0-9]*)(\.[0-9]+)?'
            elif how == 'debug':
                pat = r'(0|[1-9][0-9]*)\.[0-9]+|[1-9](\.[0-9]+)?e-?[0-9]+'
            elif how in ('lower_exp', 'upper_exp'):
                pat = r'[0-9](\.[0-9]+)?[eE]-?[0-9]+'
            else:
                return None
            a = [('class', 'float', pat, num)]
            return [a, [('lit', '-')] + a, [('lit', 'inf')], [('lit', '-inf')], [('lit', 'NaN')]]
        return None

    def expand(self, xs, types, sub, facts):
        """Alternatives for a list of pieces. Loops: not at all, or one pass of each kind."""
        outs = [[]]
        for x in xs:
            if isinstance(x, str):
                alts = [[('lit', x)]]
            elif x[0] == 'loop':
                alts = [[]]
                for fc, body in x[1]:
                    b = self.expand(body, types, sub, {**facts, **dict(fc)})
                    if b is None:
                        return None
                    alts += b
            elif x[0] == 'call':
                alts = sub(x, facts)
            elif x[0] == 'show':
                alts = self.shown(x, types)
            elif x[0] == 'str':
                alts = self.shown(('show', 'display', x[1], (False, None, None, '')), types)
            else:
                alts = None
            if alts is None:
                self.lost = x
                return None
            outs = [o + a for o in outs for a in alts]
        return outs

    def types(self, v):
        """Classifies what is shown."""
        if v.op == 'pay':
            return v.a[0]
        if v.op == 'app' and v.a[0].startswith(DESC):
            return {'name': 'ident', 'full_name': 'dotted'}.get(v.a[0].rsplit('::', 1)[1])
        if any(x.op == 'app' and self.W.label.get(x.a[0]) == 'any' for x in walk(v)):
            return 'url'
        return None

    def go(self, what, opts, args, models=None, oracle=None, content=((),), cap=99):
        """Alternatives of segments of what a function of the writer writes; None when it is not understood."""
        W = self.W
        E = W.engine(what)
        for x in W.fn[what]:
            E.models[x] = lambda E_, st, fr, b, c, args, tys, dt: [(st, OK)]
        E.models.update(models or {})
        E.opaque = set(E.opaque) - set(models or {})
        if oracle:
            E.oracle = oracle
        E.known_lists = True
        E.unroll = 6
        r = E.run(W.fn[what][0], args={0: W.term(skip_unknown_fields=1, **opts), **args})
        self.C.inlined(E)

        def sub(x, facts):
            if x[1] == 'string':
                return [[('string', mk('bytes', x[2]))]]
            if x[1] == 'message':
                return [list(c) for c in content]
            if x[1] == 'value':
                if any(y.op == 'app' and W.label.get(y.a[0]) == 'any' for y in walk(x[2])):
                    return [[('lit', '{}')]] if x[2].op == 'agg' and x[2].a[1] == self.VI['Message'] else None
                r = self.go('value', opts, {1: x[2], 2: x[3]}, models, oracle, content, cap)
                return r and r[:cap]
            return None
        out = []
        for f in r:
            b = self.expand(flat_text(f.trace), self.types, sub, dict(f.facts))
            if b is None:
                return None
            for x in b:
                if x not in out:
                    out.append(x)
        return out


MAPKEY = DYN + 'MapKey'
KINDSOF = {'Bool': ['Bool'], 'I32': ['Int32', 'Sint32', 'Sfixed32'], 'I64': ['Int64', 'Sint64', 'Sfixed64'], 'U32': ['Uint32', 'Fixed32'],
           'U64': ['Uint64', 'Fixed64'], 'F32': ['Float'], 'F64': ['Double'], 'String': ['String'], 'Bytes': ['Bytes'], 'EnumNumber': ['Enum'], 'Message': ['Message']}
KIND = DESC + 'Kind'
FNAME, GROUP, ENAME, NEST = mk('fname'), mk('groupname'), mk('extname'), mk('nestedname')
FNAME2, GROUP2, ENAME2 = mk('fname2'), mk('groupname2'), mk('extname2')
KEYF, VALF = c25.KEYF, c25.VALF


def run(p, C):
    W = Writer(p)
    S = strings(p, C, W)
    Rd = Rendering(p, C, S)
    n = structure(p, C, W, Rd)
    C.floor('renderings parsed', n, 150)


FD, ED = [mk('fd', 0), mk('fd', 1)], [mk('ed', 0), mk('ed', 1)]
NAMES = {}
for _i in (0, 1):
    NAMES['FieldDescriptor', FD[_i]] = (FNAME, FNAME2)[_i]
    NAMES['ExtensionDescriptor', ED[_i]] = (ENAME, ENAME2)[_i]
    NAMES['MessageDescriptor', FD[_i]] = NAMES['MessageDescriptor', ED[_i]] = (GROUP, GROUP2)[_i]


def rename(segs):
    """Names by what they name."""
    out = []
    for x in segs:
        if x[0] == 'class' and x[1] == 'name':
            v = next((y for y in walk(x[3]) if y.op == 'app' and y.a[0].startswith(DESC)), None)
            if v is not None:
                own, last = v.a[0].rsplit('::', 2)[-2:]
                d = next((y for y in walk(v) if y in FD + ED), None)
                nm = NAMES.get((own, d)) if last == ('full_name' if own == 'ExtensionDescriptor' else 'name') else None
                nm = nm or mk('text', v)
                x = x[:3] + (nm if x[3].op == 'text' else mk('part', x[3].a[0], nm),)
        out.append(x)
    return out


def structure(p, C, W, Rd):
    R = Renderings(p, C, W, Rd.strings)
    VI, KI = R.VI, R.KI
    VAD = [a for a, d in p.adts.items() if a.startswith(DYN) and d['kind'] == 'enum' and {'Field', 'Extension', 'Unknown'} <= {v['n'] for v in d['v']}]
    if len(VAD) != 1:
        raise Broken('the type of a field with its descriptor: %s' % VAD)
    VAD, VADI = VAD[0], vidx(p, VAD[0])
    n = 0

    def has(t, x):
        return any(y is x for y in walk(t))

    def byname(a):
        if a is FNAME:
            return some(TARGET)
        if a is FNAME2:
            return some(OTHERF)
        if a is NEST:
            return some(THIRD)
        if isk(a) and kv(a) in ('key', 'value'):
            return some({'key': KEYF, 'value': VALF}[kv(a)])
        for g, f in ((GROUP, TARGET), (GROUP2, OTHERF)):
            if a is not g and has(a, g):
                return some(f)
        return NONE_OPT
    look = {'get_field_by_name': byname,
            'get_extension_by_full_name': lambda a: some(TARGET) if has(a, ENAME) else some(OTHERF) if has(a, ENAME2) else NONE_OPT,
            'get_message_by_name': lambda a: some(mk('inner')),
            'get_field': lambda a: {1: some(KEYF), 2: some(VALF)}.get(kv(a), NONE_OPT) if isk(a) else NONE_OPT}

    def more(facts, nm, last, a, res):
        if last == 'name' and 'MessageDescriptor' in nm:
            return {mk('type', TARGET): GROUP, mk('type', OTHERF): GROUP2}.get(a[0])
        if last == 'kind' and a and facts.get(a[0], {}).get('kind') is kindterm(p, 'Message'):
            return agg(KIND, vidx(p, KIND)['Message'], mk('type', a[0]))
        if last == 'get_value_by_name' and nm.startswith(DESC):
            return some(mk('enumvalue', a[1]))
        if last == 'from_str_radix' or (last in ('parse', 'from_str') and ('str' in nm or 'FromStr' in nm)):
            return ok(mk('number', a[0]))
        if last == 'from_utf8':
            return ok(a[0])
        if last == 'eq_ignore_ascii_case' and all(isk(x) for x in a[:2]):
            return k(int(kv(a[0]).lower() == kv(a[1]).lower()))
        if last == 'number' and 'EnumValue' in nm and nm.startswith(DESC):
            return mk('number', a[0])
        return None

    def text(segs):
        return ''.join(x[1] if x[0] == 'lit' else '"…"' if x[0] == 'string' else '<%s>' % x[1] for x in segs)

    def parse(segs, key, facts, want):
        """The rendering is accepted, and the fields then hold values of the types given, made of what was written."""
        nonlocal n
        segs = rename(segs)
        what = text(segs)
        scripts = Rd.tokens(segs, key, what)
        for i, script in enumerate(scripts or []):
            n += 1

            P = Parse(p, script, 'absent', 'absent', 0, look, {}, extra=c25.both(lambda *x: more(facts, *x), c25.field_facts(facts), c25.extra(p)),
                      roles=lambda key: c25.ROLE.get(kv(key)) if isk(key) else None,
                      slots={'third': 'absent', 'key': 'absent', 'val': 'absent'}, members=(), anydesc=1, fresh=('key', 'val', 'third'),
                      opaque=only_existing(p, [DESC + 'EnumDescriptor::get_value_by_name', DESC + 'MessageDescriptor::name']))
            C.inlined(P.E)
            res = [c25.result(f) for f in P.r]
            good = [f for f in P.r if c25.result(f) == 'ok']
            used = {t for x in script if isinstance(x, T) for t in walk(x) if t.op in ('digits', 'num', 'bytes')}
            num = any(t.op == 'digits' for t in used)
            C.ob(bool(good) and (num or len(good) == len(res)), '%s:%d:accepted' % (key, i), '%s is %s by the parser' % (what, 'refused' if not good else 'refused in part'), G4)
            held = []
            for f in good:
                for role, v in want.items():
                    st = P.S.final(f, role)
                    t = st[1] if len(st) > 1 else None
                    held.append(t)
                    okk = t is not None and t.op == 'agg' and t.a[0] == VAL and t.a[1] == VI[v]
                    C.ob(okk, '%s:%d:stored' % (key, i), '%s is stored as %s' % (what, show(t)[:100] if t is not None else st[0]), G4)
            if good and KEYF not in facts and not any(has(x, NEST) for x in script):
                lost = [t for t in used if not any(h is not None and has(h, t) for h in held)]
                C.ob(not lost, '%s:%d:kept' % (key, i), '%s loses %s' % (what, [show(t)[:60] for t in lost]), G4)

    COW = 'alloc::borrow::Cow'

    def writer(pretty, items, oracle, content, any_=False, cap=99):
        """The texts of a message with the given fields [(field or extension, value)]."""
        its = [agg(VAD, VADI['Extension' if d in ED else 'Field'], agg(COW, 0, v), d) for d, v in items]
        models = {}
        for nm in W.fn['iter']:
            def fields(E_, st, fr, b, c, args, tys, dt):
                it = mk('finite', mk('fields'), *its)
                st.mem.pop(mk('ghost', 'finite', it), None)
                return [(st, it)]
            models[nm] = fields
        return R.go('message', dict(pretty=pretty, expand_any=int(any_)), {}, models, oracle, content, cap)

    simple = [('class', 'name', IDENT, NEST), ('lit', ':'), ('class', 'integer', UINT, mk('text', mk('nested')))]
    THIRDF = {THIRD: dict(kind=kindterm(p, 'Int32'))}

    def val(variant, i=0):
        return agg(VAL, VI[variant], mk('pay', variant, i))

    def scenario(key, pretty, items, facts, content=((),), cap=99):
        """items: [(descriptor, value, group, kind)] -> every text of theirs is read back."""
        nonlocal n

        def oracle(nm, a, res):
            last = nm.rsplit('::', 1)[-1]
            if nm.startswith(DESC) and a:
                for d, v, g, kd in items:
                    if a[0] is d and last == 'is_group':
                        return k(g)
                    if a[0] is d and last == 'kind':
                        return kindterm(p, kd) if kd != 'Message' else agg(KIND, vidx(p, KIND)['Message'], mk('descriptor of', d))
            return None
        texts = writer(pretty, [(d, v) for d, v, g, kd in items], oracle, content, False, cap)
        C.ob(bool(texts), key + ':text', 'what is written is not understood: %s' % (str(getattr(R, 'lost', ''))[:200],), G4)
        want = {('own', 'other')[i]: R.VN[it[1].a[1]] for i, it in enumerate(items)}
        for j, segs in enumerate(texts or []):
            parse(segs, '%s:%d' % (key, j), {**facts, **THIRDF}, want)
    scalars = [(v, kd) for v, kinds in KINDSOF.items() for kd in kinds if v != 'Message']
    few = [('I32', 'Int32'), ('U64', 'Uint64'), ('F64', 'Double'), ('Bool', 'Bool'), ('String', 'String'), ('EnumNumber', 'Enum'), ('Message', 'Message')]
    contents = ((), tuple(simple))
    elist, emap = agg(VAL, VI['List'], mk('emptylist')), agg(VAL, VI['Map'], mk('emptymap'))
    for pretty in (0, 1):
        scenario('none:%d' % pretty, pretty, [], {})
        for v, kd in scalars:
            scenario('field:%d:%s' % (pretty, kd), pretty, [(FD[0], val(v), 0, kd)], {TARGET: dict(kind=kindterm(p, kd))})
        for v, kd in few[:-1]:
            scenario('ext:%d:%s' % (pretty, kd), pretty, [(ED[0], val(v), 0, kd)], {TARGET: dict(kind=kindterm(p, kd))})
        for d, g, nm in ((FD[0], 0, 'field'), (FD[0], 1, 'group'), (ED[0], 0, 'ext'), (ED[0], 1, 'extgroup')):
            scenario('%s:%d:Message' % (nm, pretty), pretty, [(d, val('Message'), g, 'Message')], {TARGET: dict(kind=kindterm(p, 'Message'), is_group=k(g))}, contents)
        for v, kd in few:
            for cnt in (0, 1, 2, 3):
                lst = agg(VAL, VI['List'], agg('array', None, *[val(v, i) for i in range(cnt)]))
                if v not in ('I32', 'String') and cnt == 3:
                    continue
                for d, nm in ((FD[0], 'field'), (ED[0], 'ext')):
                    if nm == 'ext' and v not in ('I32', 'Message'):
                        continue
                    scenario('list:%d:%s:%s:%d' % (pretty, nm, kd, cnt), pretty, [(d, lst, 0, kd)],
                             {TARGET: dict(kind=kindterm(p, kd), is_list=k(1), default_value=elist)}, contents if cnt == 1 else contents[1:], 99 if cnt == 1 else 2)
        for kt, kk in KEYKIND.items():
            for v, kd in few:
                if v not in ('I32', 'Message') and kt not in ('String', 'I32'):
                    continue
                for cnt in (0, 1, 2):
                    if cnt == 2 and kt != 'String':
                        continue
                    mp = agg(VAL, VI['Map'], agg('array', None, *[agg('tuple', 0, agg(MAPKEY, KI[kt], mk('pay', kt, 'key', i)), val(v, i)) for i in range(cnt)]))
                    scenario('map:%d:%s:%s:%d' % (pretty, kt, kd, cnt), pretty, [(FD[0], mp, 0, 'Message')],
                             {TARGET: dict(kind=kindterm(p, 'Message'), is_map=k(1), default_value=emap), KEYF: dict(kind=kindterm(p, kk)), VALF: dict(kind=kindterm(p, kd))},
                             contents[1:], 99 if cnt == 1 else 2)
        # two fields of any two forms
        two = [('Int32', 'I32', 0, FD), ('String', 'String', 0, FD), ('Message', 'Message', 0, FD), ('Message', 'Message', 1, FD), ('Int32', 'I32', 0, ED),
               ('Message', 'Message', 0, ED), ('Enum', 'EnumNumber', 0, FD), ('Double', 'F64', 0, FD)]
        for (k1, v1, g1, d1), (k2, v2, g2, d2) in itertools.product(two, two):
            facts = {TARGET: dict(kind=kindterm(p, k1), is_group=k(g1)), OTHERF: dict(kind=kindterm(p, k2), is_group=k(g2))}
            scenario('two:%d:%s%d%d,%s%d%d' % (pretty, k1, g1, d1 is ED, k2, g2, d2 is ED), pretty, [(d1[0], val(v1, 0), g1, k1), (d2[1], val(v2, 1), g2, k2)], facts, contents[1:], 2)
        # an expanded Any
        texts = writer(pretty, [], None, ((),), True)
        C.ob(bool(texts), 'any:%d:text' % pretty, 'what is written for an Any is not understood: %s' % (str(getattr(R, 'lost', ''))[:200],), G4)
        texts = [t for t in texts or [] if any(x[0] == 'class' for x in t)]
        C.ob(bool(texts), 'any:%d' % pretty, 'an Any is never expanded', G4)
        for j, segs in enumerate(texts):
            n += anys(p, C, Rd, rename(segs), 'any:%d:%d' % (pretty, j), text(segs), look)
    return n


def anys(p, C, Rd, segs, key, what, look):
    n = 0

    def more(nm, last, a, res):
        if last == 'get_field' and nm.startswith(DESC) and isk(a[1]):
            return {1: some(KEYF), 2: some(VALF)}.get(kv(a[1]), NONE_OPT)
        if last == 'full_name' and nm.startswith(DESC):
            return k('google.protobuf.Any')
        return None
    for i, script in enumerate(Rd.tokens(segs, key, what) or []):
        n += 1
        facts = {KEYF: dict(kind=kindterm(p, 'String'), supports_presence=k(0)), VALF: dict(kind=kindterm(p, 'Bytes'), supports_presence=k(0))}
        P = Parse(p, script, 'absent', 'absent', 0, look, {}, extra=c25.both(c25.field_facts(facts), more, c25.extra(p)),
                  roles=lambda key: c25.ROLE.get(kv(key)) if isk(key) else None, slots={'third': 'absent', 'key': 'absent', 'val': 'absent'}, members=(),
                  anydesc=1, opaque=[c25.DPOOL + 'get_message_by_name'])
        C.inlined(P.E)
        good = [f for f in P.r if c25.result(f) == 'ok']
        C.ob(bool(good), '%s:%d:accepted' % (key, i), '%s is refused by the parser' % what, G4)
        C.ob(all(P.S.final(f, r)[0] == 'value' for f in good for r in ('key', 'val')), '%s:%d:stored' % (key, i), '%s does not set both fields' % what, G4)
    return n
