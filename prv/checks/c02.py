"""For each field kind and shape the abstract interpreter derives, from encode_raw, the sequence of primitive
writes as a linear form over length atoms (key lengths, varint lengths, payload lengths, sums over elements), and
from encoded_len the returned linear form; both, with the conditions under which each part is present, must be equal.
Length prefixes written by the encoder are part of the form, so a wrong prefix differs as well."""
from prv.wire import *

LEVEL = 'proof'
SPS = (0, 1)


def scenarios(thorough):
    for kd in KINDS:
        for shape in ('one', 'list') + (('packed',) if kd in PACKABLE else ()):
            yield kd, shape, None
        for key in (KEYKINDS if thorough else ['String'] if kd != 'Int32' else KEYKINDS):
            yield kd, 'map', key
    yield 'Message', 'group', None
    yield 'Message', 'group_list', None


def run(p, C):
    n = 0
    prefixes = 0
    for kd, shape, key in scenarios(C.tier == 'thorough'):
        for sp in SPS:
            fl = {r: dict(supports_presence=sp) for r in ('field', 'key', 'value')}
            name = '%s/%s%s/presence=%d' % (shape, kd, '/key ' + key if key else '', sp)
            S1 = Scenario(p, kd, shape, key, extra_flags=fl)
            e = S1.run(MSG + 'encode_raw')
            S2 = Scenario(p, kd, shape, key, extra_flags=fl)
            l = S2.run(MSG + 'encoded_len')
            C.inlined(S1.E)
            C.inlined(S2.E)
            L1 = {Lens(S1.E).seq(canon_seq(f.trace)) for f in e}
            L2 = {Lens(S2.E).lin(f.ret) for f in l}
            n += 1
            C.ob(bool(L1) and L1 == L2, 'length:%s' % name,
                 'written (encode_raw): %s\nreported (encoded_len): %s' % ('  OR  '.join(map(show_len, L1)), '  OR  '.join(map(show_len, L2))), 'length = bytes')
            if n in (1, 20, 60):
                C.sample('%s: %s' % (name, ' '.join(map(show_len, L2))[:600]))
            # every length prefix equals the length of what follows it
            for f in e:
                prefixes += check_prefix(C, S1, canon_seq(f.trace), name)
    C.floor('scenarios', n, 120)
    C.floor('length prefixes', prefixes, 100)


def check_prefix(C, S, seq, name):
    """key(LengthDelimited), varint(x), rest: x must be the length of rest up to the end of the record."""
    n = 0
    L = Lens(S.E)
    seq = [e for e in seq if not (e[0] == 'loop' and all(not b for _, b in e[1]))]
    for i, e in enumerate(seq):
        if e[0] == 'loop':
            for c, b in e[1]:
                n += check_prefix(C, S, list(b), name)
        if e[0] == 'key' and e[2] == 'LengthDelimited':
            if i + 1 >= len(seq) or seq[i + 1][0] != 'varint':
                C.ob(False, 'prefix:%s' % name, 'length-delimited key is not followed by a length: %s' % show_seq(seq), 'prefix = payload')
                continue
            rest = seq[i + 2:]
            x = dict(L.lin(seq[i + 1][1]))
            n += 1
            # a record inside a record (map entry parts) ends before the next key of the same record
            okk = False
            for j in range(len(rest) + 1):
                if dict(L.seq(rest[:j])) == x:
                    okk = i > 0 or j == len(rest)
                    if okk:
                        break
            C.ob(okk, 'prefix:%s' % name, 'length prefix %s does not match what follows: %s' % (show_len(frozenset(x.items())), show_seq(seq)), 'prefix = payload')
    return n
