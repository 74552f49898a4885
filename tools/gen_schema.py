#!/opt/vp/protoc-venv/bin/python
"""Development tool: turn /verif/protos/*.proto into the committed reference tables.

Emits src/schema_tables.inc (independent schema description used by the reference
codec) and src/access_<proto>.inc (member accessors of the generated C++ messages).
"""
import subprocess, sys, os
from google.protobuf import descriptor_pb2, descriptor_pool
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROTOS = ['vp2', 'vp3', 'vpe']
tmp = '/tmp/fds.binpb'
subprocess.check_call(['/opt/vp/protoc/bin/protoc', '-I', ROOT + '/protos', '--include_imports', '--descriptor_set_out=' + tmp] + [p + '.proto' for p in PROTOS])
fds = descriptor_pb2.FileDescriptorSet.FromString(open(tmp, 'rb').read())
pool = descriptor_pool.DescriptorPool()
fproto = {}
for f in fds.file:
    pool.Add(f) if hasattr(pool, 'Add') else pool.AddSerializedFile(f.SerializeToString())
    fproto[f.name] = f

TYPES = {1: 'DOUBLE', 2: 'FLOAT', 3: 'INT64', 4: 'UINT64', 5: 'INT32', 6: 'FIXED64', 7: 'FIXED32', 8: 'BOOL', 9: 'STRING', 10: 'GROUP',
         11: 'MESSAGE', 12: 'BYTES', 13: 'UINT32', 14: 'ENUM', 15: 'SFIXED32', 16: 'SFIXED64', 17: 'SINT32', 18: 'SINT64'}

def walk(msgs):
    for m in msgs:
        yield m
        yield from walk(m.nested_types)

def utf8(f, fp):
    syn = fproto[f.file.name].syntax
    if f.type != 9: return False
    if syn == 'proto3': return True
    if syn in ('', 'proto2'): return False
    # editions
    return fp.options.features.utf8_validation != 3  # NONE == 3

def msgproto(m):
    p = descriptor_pb2.DescriptorProto(); m.CopyToProto(p); return p

messages, enums = [], []
for p in PROTOS:
    fd = pool.FindFileByName(p + '.proto')
    for m in walk(fd.message_types_by_name.values()):
        messages.append((p, m))
    def en(fd):
        for e in fd.enum_types_by_name.values(): yield e
    for e in en(fd): enums.append(e)
mid = {m.full_name: i for i, (_, m) in enumerate(messages)}
eid = {e.full_name: i for i, e in enumerate(enums)}

def cname(m):
    if m.containing_type is None: return m.file.package + '::' + m.name
    # nested: ns::Outer_::Inner
    parts = []
    c = m.containing_type
    while c is not None:
        parts.insert(0, c.name + '_'); c = c.containing_type
    return m.file.package + '::' + '::'.join(parts) + '::' + m.name

def cstr(b):
    return '"' + ''.join('\\%03o' % c for c in b) + '", %d' % len(b)

def is_map(f):
    return f.message_type is not None and f.message_type.GetOptions().map_entry

def default_of(f):
    """(u, bytes) canonical default of a singular non-message field"""
    import struct
    d = f.default_value
    t = f.type
    if t in (9,): return 0, d.encode() if isinstance(d, str) else d
    if t == 12: return 0, d
    if t == 1: return struct.unpack('<Q', struct.pack('<d', d))[0], b''
    if t == 2: return struct.unpack('<I', struct.pack('<f', d))[0], b''
    if t == 8: return int(d), b''
    return int(d) & 0xFFFFFFFFFFFFFFFF, b''

out = []
out.append('// generated by tools/gen_schema.py - do not edit')
for i, e in enumerate(enums):
    out.append('static const int32_t ev_%d[] = {%s};' % (i, ','.join('INT32_MIN' if v.number == -2**31 else str(v.number) for v in e.values)))
    out.append('static const char *const en_%d[] = {%s};' % (i, ','.join('"%s"' % v.name for v in e.values)))
out.append('static const EnumDesc g_enums[] = {')
for i, e in enumerate(enums):
    out.append('  {"%s", %s, ev_%d, %d, en_%d},' % (e.full_name, 'true' if e.is_closed else 'false', i, len(e.values), i))
out.append('};')
exts = {}
for p in PROTOS:
    fd = pool.FindFileByName(p + '.proto')
    l = list(fd.extensions_by_name.values())
    for _, m in messages:
        if m.file.name == fd.name: l += list(m.extensions)
    for x in l: exts.setdefault(x.containing_type.full_name, []).append(x)

def field_row(f, fp, oneofs):
    closed = f.enum_type is not None and f.enum_type.is_closed
    rep = f.is_repeated
    pres = 'IMPLICIT'
    if f.is_required: pres = 'REQUIRED'
    elif f.has_presence: pres = 'EXPLICIT'
    one = -1
    if f.containing_oneof is not None and not (len(f.containing_oneof.fields) == 1 and f.containing_oneof.name.startswith('_')):
        one = oneofs.index(f.containing_oneof.name)
    kind = 'MAP' if is_map(f) else 'REP' if rep else 'ONE'
    u, b = (0, b'')
    if not rep and f.message_type is None: u, b = default_of(f)
    return '  {"%s", %du, Type::%s, Kind::%s, Presence::%s, %d, %s, %s, %s, %d, %d, %s, %dull, std::string(%s)},' % (
        f.name, f.number, TYPES[f.type], kind, pres, one, str(f.is_packed).lower(), str(closed).lower(), str(utf8(f, fp)).lower(),
        mid[f.message_type.full_name] if f.message_type else -1, eid[f.enum_type.full_name] if f.enum_type else -1,
        str(f.type == 10).lower(), u, cstr(b))
for i, (p, m) in enumerate(messages):
    mp = msgproto(m)
    oneofs = [o.name for o in m.oneofs if not (len(o.fields) == 1 and o.name.startswith('_'))]
    out.append('static const FieldDesc f_%d[] = {' % i)
    for f, fp in zip(m.fields, mp.field): out.append(field_row(f, fp, oneofs))
    out.append('  {}};')
    xs = exts.get(m.full_name, [])
    out.append('static const FieldDesc x_%d[] = {' % i)
    for x in xs:
        xp = descriptor_pb2.FieldDescriptorProto(); x.CopyToProto(xp) if hasattr(x, 'CopyToProto') else None
        out.append(field_row(x, xp, oneofs))
    out.append('  {}};')
out.append('inline const MsgDesc g_msgs[] = {')
for i, (p, m) in enumerate(messages):
    no = len([o for o in m.oneofs if not (len(o.fields) == 1 and o.name.startswith('_'))])
    er = ','.join('{%d,%d}' % (r[0], r[1]) for r in m.extension_ranges)
    out.append('  {%d, "%s", f_%d, %d, %d, %s, x_%d, %d, {%s}},' % (i, m.full_name, i, len(m.fields), no, str(bool(m.GetOptions().map_entry)).lower(), i, len(exts.get(m.full_name, [])), er))
out.append('};')
out.append('const int g_nmsgs = %d;' % len(messages))
open(ROOT + '/src/schema_tables.inc', 'w').write('\n'.join(out) + '\n')

ids = ['// generated by tools/gen_schema.py - do not edit', 'enum MsgId {'] + ['  ID_%s = %d,' % (m.full_name.replace('.', '_'), i) for i, (p, m) in enumerate(messages)] + ['};']
open(ROOT + '/src/schema_ids.inc', 'w').write('\n'.join(ids) + '\n')

for p in PROTOS:
    o = ['// generated by tools/gen_schema.py - do not edit']
    ms = [m for q, m in messages if q == p and not m.GetOptions().map_entry]
    for m in ms:
        o.append('template <class T> VP_CX void acc_get(const %s<T> &m, Msg &r);' % cname(m))
        o.append('template <class T, class A> VP_CX void acc_set(%s<T> &m, const Msg &r, A &a);' % cname(m))
        o.append('template <class T> VP_CX const MsgDesc &acc_desc(const %s<T> *) { return g_msgs[%d]; }' % (cname(m), mid[m.full_name]))
    for m in ms:
        for mode in ('get', 'set'):
            if mode == 'get': o.append('template <class T> VP_CX void acc_get(const %s<T> &m, Msg &r) {' % cname(m))
            else: o.append('template <class T, class A> VP_CX void acc_set(%s<T> &m, const Msg &r, A &a) {' % cname(m))
            x = '' if mode == 'get' else ', a'
            done = set()
            for i, f in enumerate(m.fields):
                co = f.containing_oneof
                if co is not None and not (len(co.fields) == 1 and co.name.startswith('_')):
                    if co.name in done: continue
                    done.add(co.name)
                    if len(co.fields) == 1:
                        o.append('  fld_%s(r, %d, m.%s%s);' % (mode, i, f.name.lower() if f.type == 10 else f.name, x))
                    else:
                        idx = [list(m.fields).index(g) for g in co.fields]
                        o.append('  one_%s(r, std::array<int, %d>{%s}, m.%s%s);' % (mode, len(idx), ','.join(map(str, idx)), co.name, x))
                else:
                    o.append('  fld_%s(r, %d, m.%s%s);' % (mode, i, f.name, x))
            if mode == 'get': o.append('  unk_get(r, m.unknown_fields_);')
            o.append('  (void)m; (void)r;' + (' (void)a;' if mode == 'set' else ''))
            o.append('}')
    o.append('#define MESSAGES_%s(X, T) \\' % p)
    for m in ms:
        o.append('  X(%d, %s<T>) \\' % (mid[m.full_name], cname(m)))
    o.append('')
    open(ROOT + '/src/access_%s.inc' % p, 'w').write('\n'.join(o) + '\n')
print(len(messages), 'messages')
