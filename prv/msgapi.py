"""Every public operation of DynamicMessage on one field, evaluated for every combination of: how the field is named, what is
stored, presence tracking, equality with the default, oneof membership, lookup result and validity of the value."""
from .slots import *
from .program import Broken

ONEOF = DESC + 'OneofDescriptor::'
TARGET = mk('target')
OPS = {
    'has': ['has_field', 'has_field_by_number', 'has_field_by_name', 'has_extension'],
    'get': ['get_field', 'get_field_by_number', 'get_field_by_name', 'get_extension'],
    'get_mut': ['get_field_mut', 'get_field_by_number_mut', 'get_field_by_name_mut', 'get_extension_mut'],
    'set': ['set_field', 'set_field_by_number', 'set_field_by_name', 'set_extension'],
    'try_set': ['try_set_field', 'try_set_field_by_number', 'try_set_field_by_name'],
    'clear': ['clear_field', 'clear_field_by_number', 'clear_field_by_name', 'clear_extension'],
    'take': ['take_field', 'take_field_by_number', 'take_field_by_name', 'take_extension'],
}
STATES = ('absent', 'value', 'unknown', 'taken')


def how_of(fn):
    return 'number' if 'by_number' in fn else 'name' if 'by_name' in fn else 'ext' if 'extension' in fn else 'desc'


def strip(t):
    """The content of a Cow / reference wrapper."""
    while t.op == 'agg' and t.a[0].endswith('borrow::Cow') and len(t.a) == 3:
        t = t.a[2]
    return t


class Case:
    """One abstract run of one operation."""

    def __init__(self, p, fn, s, presence=1, default=0, oneof=0, found=1, valid=1, watch=None, name=None, how=None, ext=0, opaque=()):
        self.p, self.fn, self.s, self.how = p, fn, s, how or how_of(fn)
        self.cfg = dict(s=s, presence=presence, default=default, oneof=oneof, found=found, valid=valid)
        self.adt = 'ExtensionDescriptor' if self.how == 'ext' else 'FieldDescriptor'
        name = name or DM + fn
        p.find(name)

        def rolefn(E, st, key):
            if key.op == 'app' and key.a[0].endswith('Descriptor::number'):
                d = key.a[2]
                if d is TARGET:
                    return 'own'
                if any(y.op == 'elem' for y in walk(d)):
                    return 'other'
            if self.how == 'number' and key is mk('number'):
                return 'own'
            return None
        valids = only_existing(p, [VAL + '::is_valid_for_field', VAL + '::is_valid_for_extension'])
        # by the property itself (assumed of the message before), a member present excludes the others
        self.other0 = 'absent' if s == 'value' and oneof else 'value'
        S = self.S = Slots(p, {'own': s, 'other': self.other0}, rolefn, watch=watch,
                           opaque=only_existing(p, [ONEOF + 'fields']) + valids + list(opaque))
        S.E.track_exhaust = True

        def oracle(n, a, res):
            last = n.rsplit('::', 1)[1]
            if last in ('get_field', 'get_field_by_name') and n.startswith(DESC):
                want = mk('number') if last == 'get_field' else mk('name')
                good = len(a) > 1 and a[1] is want and show(a[0]).startswith('self')
                return (some(TARGET if good else mk('wrongtarget')) if found else NONE_OPT)
            if last == 'get_extension' and n.startswith(DESC):
                good = len(a) > 1 and a[1] is mk('number') and show(a[0]).startswith('self')
                return some(TARGET if good else mk('wrongtarget')) if ext else NONE_OPT
            if last == 'supports_presence' and a[0] is TARGET:
                return k(presence)
            if last == 'containing_oneof' and a[0] is TARGET:
                return some(mk('oneof')) if oneof else NONE_OPT
            if n in valids:
                good = len(a) > 1 and a[0] is mk('value') and a[1] is TARGET and n.endswith('field' if self.how != 'ext' else 'extension')
                return k(valid) if good else None
            if n.endswith('PartialEq>::eq') and VAL in n and any(x.op == 'app' and x.a[0].endswith('Descriptor::default_value') and x.a[2] is TARGET for x in a):
                return k(default)
            return None
        S.E.oracle = oracle
        body = p.body_of(name)
        # by position: 1 = descriptor / number / name, 2 = value
        args = {1: {'number': mk('number'), 'name': mk('name')}.get(self.how, TARGET), 2: mk('value')}
        self.r = S.run(name, args={i: a for i, a in args.items() if i < body.argc})
        self.panics = len(S.E.panics)
        self.default = mk('app', DESC + self.adt + '::default_value', None, TARGET)

    def own(self, f):
        return self.S.final(f, 'own')

    def start(self):
        return {'absent': ('absent',), 'value': ('value', mk('stored', 'own')), 'unknown': ('unknown', mk('storedunk', 'own')), 'taken': ('taken',)}[self.s]

    def key(self):
        return '%s:%s' % (self.fn, ','.join('%s=%s' % x for x in self.cfg.items()))

    def other_kept(self, f):
        return self.S.final(f, 'other') == (('absent',) if self.other0 == 'absent' else ('value', mk('stored', 'other')))

    def oneof_clear(self, f):
        """None when every other member (and nothing else) of the oneof is removed; a reason otherwise."""
        fields = [t for t in f.facts if t.op == 'exhausted' and any(y.op == 'app' and y.a[0] == ONEOF + 'fields' for y in walk(t))]
        if self.S.final(f, 'other') == ('absent',):
            return None
        removed = False
        for e in f.trace:
            if not (isinstance(e, tuple) and e and e[0] == 'loop'):
                continue
            for fc, body in e[1]:
                fc = dict(fc)
                rem = [x for x in body if isinstance(x, T) and x.op == 'ev' and x.a[0] == 'remove']
                elems = {y for x in rem for y in walk(x.a[2]) if y.op == 'elem'}
                same = None
                extra = []
                for t, d in fc.items():
                    if t.op == 'exhausted':
                        continue
                    if is_same(t):
                        same = 1 if d == ('+', frozenset([1])) else 0 if d == ('+', frozenset([0])) else None
                    else:
                        extra.append(t)
                if rem:
                    if any(kv(x.a[1]) != 'other' for x in rem):
                        return 'removes something else'
                    for el in elems:
                        if el.op != 'elem' or any(y.op == 'partial' for y in walk(rem[0].a[2])) or not any(
                                y.op == 'app' and y.a[0] == ONEOF + 'fields' and y.a[2] is mk('oneof') for y in walk(el)):
                            return 'iterates something other than the members of the oneof'
                    removed = True
                elif same != 1 and not any(t in self.S.flagterms and d == ('+', frozenset([0])) for t, d in fc.items()):
                    return 'a member other than the field itself is kept'
        if not removed:
            return 'other members of the oneof are not removed'
        if not fields:
            return 'the iteration over the members may stop early'
        return None


def is_same(t):
    """A comparison between an element of the iteration and the field itself."""
    if not ((t.op == 'bin' and t.a[0] == 'Eq') or (t.op == 'app' and t.a[0].endswith('::eq'))):
        return False
    w = list(walk(t))
    return any(y is TARGET or y is mk('number') for y in w) and any(y.op == 'elem' for y in w)


def stray(f, allowed=('other', 'own')):
    """Map operations on keys other than those of the field and its oneof."""
    out = []
    for e, _ in events(f.trace):
        if e.op == 'ev' and e.a[0] in ('remove', 'insert') and kv(e.a[1]) not in allowed:
            out.append(show(e)[:120])
        if e.op == 'ev' and e.a[0] == 'clear':
            out.append('clear')
    return out


def makers(p):
    """Functions that build a stored entry with a value, or put an entry into the map of a message."""
    ent, iv, iu, units = entry_type(p)
    out = {}
    for b in p.bodies.values():
        if not b.local:
            continue
        for blk in b.blocks:
            if blk is None:
                continue
            for s in blk['s']:
                if s[0] == '=' and s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][1] == ent and s[2][1][2] == iv:
                    out.setdefault(b.name, set()).add('builds a stored value')
            t = blk['t']
            if t[0] == 'call' and t[1][0] == 'const':
                c = p.types[t[1][1]['t']].get('c') or {}
                if 'ctor' in c and list(c['ctor'][:2]) == [ent, iv]:
                    out.setdefault(b.name, set()).add('builds a stored value')
                n = c.get('n', '')
                if n.startswith('alloc::collections::btree::map') and any(ent in p.types[x]['s'] or p.types[x].get('n') == ent for x in c.get('a', []) if isinstance(x, int)) \
                        and n.rsplit('::', 1)[1] in ('insert', 'entry', 'append', 'extend', 'from_iter', 'get_mut', 'or_insert', 'or_insert_with'):
                    out.setdefault(b.name, set()).add(n.rsplit('::', 1)[1])
    return out
