"""The lexers of the text format, read from the attributes of their token types: every pattern becomes an automaton over ASCII
characters plus one class for all others, and the longest match decides, as in the generated lexer."""
import glob
import os
import re as _re
from .program import Broken

OTHER = 128
ALL = frozenset(range(129))


# ---------------------------------------------------------------------------------------------- rust source
def tokens(src):
    """Rust tokens: ('s', text of a string literal), ('c', char literal), ('i', word) or ('p', punctuation)."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
        elif src.startswith('//', i):
            j = src.find('\n', i)
            i = n if j < 0 else j
        elif src.startswith('/*', i):
            d, i = 1, i + 2
            while d and i < n:
                if src.startswith('/*', i):
                    d, i = d + 1, i + 2
                elif src.startswith('*/', i):
                    d, i = d - 1, i + 2
                else:
                    i += 1
        else:
            m = _re.compile(r'b?r(#*)"').match(src, i)
            if m:
                e = src.index('"' + m.group(1), m.end())
                out.append(('s', src[m.end():e]))
                i = e + 1 + len(m.group(1))
                continue
            m = _re.compile(r'b?"((?:[^"\\]|\\.)*)"', _re.S).match(src, i)
            if m:
                out.append(('s', unescape(m.group(1))))
                i = m.end()
                continue
            m = _re.compile(r"b?'((?:[^'\\]|\\[^u]|\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}))'").match(src, i)
            if m:
                out.append(('c', unescape(m.group(1))))
                i = m.end()
                continue
            m = _re.compile(r"'?[A-Za-z0-9_]+").match(src, i)
            if m:
                out.append(('i', m.group(0)))
                i = m.end()
                continue
            out.append(('p', c))
            i += 1
    return out


def unescape(s):
    def sub(m):
        x = m.group(1)
        if x[0] == 'n':
            return '\n'
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == 'u':
            return chr(int(x[2:-1].replace('_', ''), 16))
        if x[0] == '\n':
            return ''
        return {'t': '\t', 'r': '\r', '0': '\0'}.get(x, x)
    return _re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|\n\s*|.)', sub, s, flags=_re.S)


def group(ts, i):
    """Index after the bracket that closes the one at i."""
    d = 0
    while True:
        if ts[i][0] == 'p' and ts[i][1] in '([{':
            d += 1
        elif ts[i][0] == 'p' and ts[i][1] in ')]}':
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def split(ts):
    """Split at the commas of the outermost level."""
    out, cur, i = [], [], 0
    while i < len(ts):
        if ts[i] == ('p', ','):
            out.append(cur)
            cur = []
            i += 1
        elif ts[i][0] == 'p' and ts[i][1] in '([{':
            j = group(ts, i)
            cur += ts[i:j]
            i = j
        elif ts[i] == ('p', '|') and not cur:
            j = i + 1
            while ts[j] != ('p', '|'):
                j += 1
            cur += ts[i:j + 1]
            i = j + 1
        else:
            cur.append(ts[i])
            i += 1
    return out + [cur] if cur else out


def attributes(ts, i):
    """The attributes that start at i, as (name, arguments), and the index after them."""
    out = []
    while ts[i] == ('p', '#') and ts[i + 1] == ('p', '['):
        j = group(ts, i + 1)
        body = ts[i + 2:j - 1]
        if len(body) > 1 and body[1] == ('p', '('):
            out.append((body[0][1], split(body[2:-1])))
        else:
            out.append((body[0][1], [body[1:]]))
        i = j
    return out, i


def enum_of(root, name):
    """The attributes and variants of the enum `name` that derives Logos: [(attrs, variant)], found in the sources below root."""
    got = []
    for f in sorted(glob.glob(os.path.join(root, '**', '*.rs'), recursive=True)):
        ts = tokens(open(f, encoding='utf8').read())
        i = 0
        while i < len(ts) - 1:
            if ts[i] == ('p', '#') and ts[i + 1] == ('p', '['):
                at, j = attributes(ts, i)
                e = j
                while ts[e][0] == 'i' and ts[e][1] in ('pub', 'crate') or ts[e] == ('p', '('):
                    e = group(ts, e) if ts[e] == ('p', '(') else e + 1
                if ts[e] == ('i', 'enum') and ts[e + 1] == ('i', name) and any(a == 'derive' and any(('i', 'Logos') in x for x in g) for a, g in at):
                    b = e + 2
                    while ts[b] != ('p', '{'):
                        b += 1
                    vs, q, end = [], b + 1, group(ts, b) - 1
                    while q < end:
                        va, q = attributes(ts, q)
                        nm = ts[q][1]
                        q += 1
                        while q < end and ts[q] != ('p', ','):
                            q = group(ts, q) if ts[q][0] == 'p' and ts[q][1] in '([{' else q + 1
                        q += 1
                        vs.append((va, nm))
                    got.append((at, vs))
                    i = end
                else:
                    i = j if j > i else i + 1
            else:
                i += 1
    if len(got) != 1:
        raise Broken('the lexer of %s: %d definitions' % (name, len(got)))
    return got[0]


# ---------------------------------------------------------------------------------------------- patterns
class NFA:
    def __init__(self):
        self.eps, self.tr, self.n = {}, {}, 0

    def new(self):
        self.n += 1
        return self.n - 1

    def e(self, a, b):
        self.eps.setdefault(a, []).append(b)

    def t(self, a, cs, b):
        self.tr.setdefault(a, []).append((cs, b))

    def close(self, S):
        S, todo = set(S), list(S)
        while todo:
            for y in self.eps.get(todo.pop(), ()):
                if y not in S:
                    S.add(y)
                    todo.append(y)
        return frozenset(S)

    def step(self, S, c):
        return self.close({b for a in S for cs, b in self.tr.get(a, ()) if c in cs})


class Regex:
    """Builds the automaton of a pattern; `weight` is the priority the lexer generator gives it."""

    def __init__(self, nfa, text, subs, fold=False):
        self.N, self.s, self.subs, self.i, self.fold = nfa, text, subs, 0, fold
        self.weight = 0

    def build(self):
        r = self.alt()
        if self.i != len(self.s):
            raise Broken('pattern %r' % self.s)
        return r

    def cs(self, c):
        o = ord(c)
        if o >= 128:
            raise Broken('pattern %r' % self.s)
        r = {o}
        if self.fold and c.isalpha():
            r = {ord(c.lower()), ord(c.upper())}
        return frozenset(r)

    def alt(self):
        N, s, t = self.N, self.N.new(), self.N.new()
        ws = []
        while True:
            w0 = self.weight
            self.weight = 0
            a, b = self.seq()
            ws.append(self.weight)
            self.weight = w0
            N.e(s, a)
            N.e(b, t)
            if self.i < len(self.s) and self.s[self.i] == '|':
                self.i += 1
                continue
            self.weight += min(ws)
            return s, t

    def seq(self):
        N = self.N
        s = t = N.new()
        while self.i < len(self.s) and self.s[self.i] not in '|)':
            at, w0 = self.i, self.weight
            a, b = self.atom()
            end = self.i
            w = self.weight - w0
            q = self.s[self.i] if self.i < len(self.s) else ''
            lo, hi = 1, 1
            if q and q in '*+?':
                self.i += 1
                lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[q]
            elif q == '{':
                m = _re.compile(r'\{(\d+)(,?)(\d*)\}').match(self.s, self.i)
                if not m:
                    raise Broken('pattern %r' % self.s)
                self.i = m.end()
                lo = int(m.group(1))
                hi = int(m.group(3)) if m.group(3) else None if m.group(2) else lo
            if self.i < len(self.s) and self.s[self.i] == '?' and (q and q in '*+?{'):
                raise Broken('pattern %r' % self.s)
            after = self.i

            def again():
                self.i = at
                r = self.atom()
                self.i = after
                return r
            copies = [(a, b)]
            while len(copies) < max(lo, hi or 1, 1):
                copies.append(again())
            self.weight = w0 + w * lo
            for j in range(lo):
                N.e(t, copies[j][0])
                t = copies[j][1]
            if hi is None:
                x = copies[lo] if lo < len(copies) else again()
                self.weight = w0 + w * lo
                e = N.new()
                N.e(t, e)
                N.e(t, x[0])
                N.e(x[1], x[0])
                N.e(x[1], e)
                t = e
            elif hi > lo:
                e = N.new()
                N.e(t, e)
                for j in range(lo, hi):
                    N.e(t, copies[j][0])
                    t = copies[j][1]
                    N.e(t, e)
                t = e
        return s, t

    def one(self, cs, w):
        a, b = self.N.new(), self.N.new()
        self.N.t(a, cs, b)
        self.weight += w
        return a, b

    CLASSES = {'d': frozenset(map(ord, '0123456789')), 's': frozenset(map(ord, ' \t\r\n\x0b\x0c')),
               'w': frozenset(o for o in range(128) if chr(o).isalnum() or chr(o) == '_')}

    def escape(self):
        """After a backslash: a character or a class."""
        c = self.s[self.i]
        self.i += 1
        if c == 'x':
            if self.s[self.i] == '{':
                e = self.s.index('}', self.i)
                v = int(self.s[self.i + 1:e], 16)
                self.i = e + 1
            else:
                v = int(self.s[self.i:self.i + 2], 16)
                self.i += 2
            return chr(v)
        if c in 'nrtfva':
            return {'n': '\n', 'r': '\r', 't': '\t', 'f': '\x0c', 'v': '\x0b', 'a': '\x07'}[c]
        if c in self.CLASSES:
            return self.CLASSES[c]
        if c.isalnum():
            raise Broken('pattern %r' % self.s)
        return c

    def atom(self):
        c = self.s[self.i]
        if c == '(':
            if self.s.startswith('(?&', self.i):
                e = self.s.index(')', self.i)
                sub = Regex(self.N, self.subs[self.s[self.i + 3:e]], self.subs, self.fold)
                r = sub.build()
                self.weight += sub.weight
                self.i = e + 1
                return r
            self.i += 1
            if self.s.startswith('?i:', self.i):
                self.i += 3
                old, self.fold = self.fold, True
                r = self.alt()
                self.fold = old
            else:
                if self.s.startswith('?:', self.i):
                    self.i += 2
                elif self.s.startswith('?', self.i):
                    raise Broken('pattern %r' % self.s)
                r = self.alt()
            if self.s[self.i:self.i + 1] != ')':
                raise Broken('pattern %r' % self.s)
            self.i += 1
            return r
        self.i += 1
        if c == '[':
            return self.one(self.set(), 1)
        if c == '.':
            return self.one(ALL - {10}, 1)
        if c == '\\':
            x = self.escape()
            return self.one(self.cs(x), 2) if isinstance(x, str) else self.one(x, 1)
        if c in '*+?{^$':
            raise Broken('pattern %r' % self.s)
        return self.one(self.cs(c), 2)

    def set(self):
        neg = self.s[self.i] == '^'
        self.i += neg
        r, first = set(), True
        while first or self.s[self.i] != ']':
            first = False
            c = self.s[self.i]
            self.i += 1
            if c == '[' or (c == '&' and self.s[self.i] == '&'):
                raise Broken('pattern %r' % self.s)
            if c == '\\':
                c = self.escape()
            if not isinstance(c, str):
                r |= c
                continue
            hi = c
            if self.s[self.i] == '-' and self.s[self.i + 1] != ']':
                self.i += 1
                hi = self.s[self.i]
                self.i += 1
                if hi == '\\':
                    hi = self.escape()
            lo, top = ord(c), ord(hi)
            r |= set(range(lo, min(top, 127) + 1))
            if top > 127:
                r.add(OTHER)
        if self.fold:
            r |= {ord(x) for o in list(r) if o < 128 for x in (chr(o).lower(), chr(o).upper())}
        self.i += 1
        return frozenset(ALL - r if neg else r)


def automaton(text):
    """The automaton of one pattern: (nfa, start set, accepting state)"""
    N = NFA()
    a, b = Regex(N, text, {}).build()
    return N, N.close({a}), b


class Lexer:
    """A generated lexer: rules [(variant or None for skipped text, callback tokens, pattern)]."""

    def __init__(self, p_root, name):
        at, vs = enum_of(p_root, name)
        self.name = name
        self.rules, self.variants = [], [v for a, v in vs]
        self.N = NFA()
        self.acc, starts = {}, []
        subs = {}
        skips = []
        for a, args in at:
            if a != 'logos':
                continue
            for g in args:
                ws = [x for x in g if x[0] != 'p']
                strs = [x[1] for x in g if x[0] == 's']
                if ws and ws[0] == ('i', 'subpattern'):
                    subs[ws[1][1]] = strs[0]
                elif ws and ws[0] == ('i', 'skip'):
                    skips.append(strs[0])
                elif ws and ws[0][1] in ('extras', 'error', 'crate', 'export_dir'):
                    pass
                elif ws:
                    raise Broken('lexer option %s' % (ws[0],))
        # subpatterns may use earlier ones
        for rx in skips:
            self.rule(None, [], rx, subs, starts, True)
        for va, nm in vs:
            for a, args in va:
                if a in ('regex', 'token'):
                    if not args or len(args[0]) != 1 or args[0][0][0] != 's':
                        raise Broken('pattern of %s' % nm)
                    cb, prio, fold = [], None, False
                    for g in args[1:]:
                        if len(g) > 2 and g[0] == ('i', 'priority'):
                            prio = int(g[2][1])
                        elif g[0] == ('i', 'ignore'):
                            fold = True
                        elif len(g) > 1 and g[0] == ('i', 'callback') and g[1] == ('p', '='):
                            cb = g[2:]
                        else:
                            cb = g
                    self.rule(nm, cb, args[0][0][1], subs, starts, a == 'regex', prio, fold)
        self.start = self.N.close(starts)

    def rule(self, variant, cb, text, subs, starts, regex, prio=None, fold=False):
        if regex:
            R = Regex(self.N, text, subs, fold)
            a, b = R.build()
            w = R.weight
        else:
            a = b = self.N.new()
            for c in text:
                x = self.N.new()
                self.N.t(b, frozenset({ord(c)}) if not (fold and c.isalpha()) else frozenset({ord(c.lower()), ord(c.upper())}), x)
                b = x
            w = 2 * len(text)
        self.acc[b] = len(self.rules)
        self.rules.append((variant, cb, text, prio if prio is not None else w))
        starts.append(a)

    def best(self, S):
        got = [self.acc[x] for x in S if x in self.acc]
        return max(got, key=lambda i: self.rules[i][3]) if got else None

    def next(self, text, i):
        """(rule, end) of the longest match at i; (None, ..) for an error. Last item: the states after the match if it ends the text."""
        S, got, end, at = self.start, None, i, None
        j = i
        while j < len(text):
            S = self.N.step(S, min(ord(text[j]), OTHER))
            if not S:
                break
            j += 1
            b = self.best(S)
            if b is not None:
                got, end, at = b, j, S
        return got, end, (S if j == len(text) and S else None)

    def lex(self, text):
        """[(rule, text)], or None in place of the rule where no pattern matches."""
        out, i = [], 0
        while i < len(text):
            r, e, S = self.next(text, i)
            if r is None:
                return out + [(None, text[i:])]
            out.append((r, text[i:e]))
            i = e
        return out
