#!/usr/bin/env python3
"""Regenerates oracle/wkt.json (the schema of Google's well-known files) with protoc from the installed .proto files.
Not run by any check: the table is committed."""
import json, os, subprocess, sys, tempfile

INC = '/usr/include'
FILES = ['any', 'source_context', 'type', 'api', 'descriptor', 'duration', 'empty', 'field_mask', 'struct', 'timestamp', 'wrappers',
         'compiler/plugin']
# number -> (name, kind) per descriptor message: kind s string, i int, m:<schema> message; trailing * repeated
S = {
    'set': {1: ('file', 'm:file*')},
    'file': {1: ('name', 's'), 2: ('package', 's'), 3: ('dependency', 's*'), 4: ('message_type', 'm:msg*'), 5: ('enum_type', 'm:enum*'),
             6: ('service', 'm:any*'), 7: ('extension', 'm:field*'), 10: ('public_dependency', 'i*'), 11: ('weak_dependency', 'i*'), 12: ('syntax', 's')},
    'msg': {1: ('name', 's'), 2: ('field', 'm:field*'), 3: ('nested_type', 'm:msg*'), 4: ('enum_type', 'm:enum*'), 5: ('extension_range', 'm:range*'),
            6: ('extension', 'm:field*'), 7: ('options', 'm:msgopt'), 8: ('oneof_decl', 'm:oneof*'), 9: ('reserved_range', 'm:range*'), 10: ('reserved_name', 's*')},
    'msgopt': {7: ('map_entry', 'i')},
    'field': {1: ('name', 's'), 2: ('extendee', 's'), 3: ('number', 'i'), 4: ('label', 'i'), 5: ('type', 'i'), 6: ('type_name', 's'),
              7: ('default_value', 's'), 8: ('options', 'm:fopt'), 9: ('oneof_index', 'i'), 10: ('json_name', 's'), 17: ('proto3_optional', 'i')},
    'fopt': {2: ('packed', 'i')},
    'oneof': {1: ('name', 's')},
    'enum': {1: ('name', 's'), 2: ('value', 'm:ev*')},
    'ev': {1: ('name', 's'), 2: ('number', 'i')},
    'range': {1: ('start', 'i'), 2: ('end', 'i')},
    'any': {},
}


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if c < 128:
            return r, i


def decode(b, schema):
    out = {}
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if w == 0:
            v, i = varint(b, i)
            if v >= 1 << 63:
                v -= 1 << 64
        elif w == 2:
            l, i = varint(b, i)
            v = b[i:i + l]
            i += l
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        else:
            v = b[i:i + 4]
            i += 4
        f = S[schema].get(n)
        if f is None:
            continue
        nm, kd = f
        rep = kd.endswith('*')
        kd = kd.rstrip('*')
        if kd == 's':
            v = v.decode()
        elif kd.startswith('m:'):
            v = decode(v, kd[2:])
        if rep:
            out.setdefault(nm, []).append(v)
        else:
            out[nm] = v
    return out


if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory() as d:
        o = os.path.join(d, 'o')
        subprocess.check_call(['protoc', '-I' + INC, '--include_imports', '--descriptor_set_out=' + o] + ['google/protobuf/%s.proto' % f for f in FILES])
        r = decode(open(o, 'rb').read(), 'set')
    json.dump(r, open(os.path.join(here, 'oracle', 'wkt.json'), 'w'), indent=0, sort_keys=True)
    print(len(r['file']))
