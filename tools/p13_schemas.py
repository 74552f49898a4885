"""Writes random schema sets with the attributes protobuf's own descriptor pool assigns to them.
usage: p13_schemas.py OUTDIR FIRST COUNT SEED   (run with the python that has protobuf)
Per set: NNN.fds, NNN.tbl, NNN.pay. Also 'verify OUTDIR' checks what the driver wrote back."""
import glob, os, random, struct, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rschema
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory

PROTOC, INC = "/opt/vp/protoc/bin/protoc", "/opt/vp/protoc/include"
T = descriptor_pb2.FieldDescriptorProto


def hx(s):
    return (s if isinstance(s, bytes) else s.encode()).hex() or "-"


denormal = {}  # upb refuses subnormal defaults; they are taken from the text, read with the type's precision


def strip_denormals(scope, m):
    for f in list(m.field) + list(m.extension if hasattr(m, "extension") else []):
        if f.type in (T.TYPE_DOUBLE, T.TYPE_FLOAT) and f.default_value:
            v = float(f.default_value)
            if v == v and 0 < abs(v) < (2.3e-308 if f.type == T.TYPE_DOUBLE else 1.18e-38):
                denormal[scope + "." + f.name] = v
                f.ClearField("default_value")
    for n in m.nested_type:
        strip_denormals(scope + "." + n.name, n)


def dflt(f):
    if f.is_repeated or f.message_type is not None:
        return "none"
    v = denormal.get(("" if "." in f.full_name else ".") + f.full_name, f.default_value)
    if f.type == T.TYPE_STRING:
        return "s:" + hx(v)
    if f.type == T.TYPE_BYTES:
        return "s:" + hx(v)
    if f.type == T.TYPE_DOUBLE:
        return "n:nan" if v != v else "n:%d" % struct.unpack("<Q", struct.pack("<d", v))[0]
    if f.type == T.TYPE_FLOAT:
        return "n:nan" if v != v else "n:%d" % struct.unpack("<I", struct.pack("<f", v))[0]
    return "n:%d" % (int(v) & 0xFFFFFFFFFFFFFFFF)


def fline(k, owner, f):
    feat = f._GetFeatures()
    return "\t".join([k, owner, f.name, str(f.number), str(f.type), "3" if f.is_repeated else "2" if f.is_required else "1", str(int(f.is_packed)), str(int(f.has_presence)),
                      str(int(f.type == T.TYPE_STRING and feat.utf8_validation == descriptor_pb2.FeatureSet.VERIFY)),
                      (f.message_type or f.enum_type).full_name if (f.message_type or f.enum_type) else "-", f.containing_oneof.name if not f.is_extension and f.containing_oneof else "-", dflt(f), hx(f.json_name),
                      f.containing_type.full_name])


def parts(d):
    """every message of the file, parents first"""
    for m in d:
        yield m
        yield from parts(m.nested_types)


class Rand:
    def __init__(self, r):
        self.r = r

    def scalar(self, f):
        r, t = self.r, f.type
        if t == T.TYPE_BOOL: return r.random() < .5
        if t == T.TYPE_STRING: return "".join(r.choice("aZ é漢𝄞\0\n") for _ in range(r.choice([0, 1, 5, 40])))
        if t == T.TYPE_BYTES: return bytes(r.randrange(256) for _ in range(r.choice([0, 1, 5, 40])))
        if t in (T.TYPE_FLOAT, T.TYPE_DOUBLE): return r.choice([0.0, -0.0, 1.5, float("inf"), -float("inf"), 1e-30, 3.0e38, -2.0])
        if t == T.TYPE_ENUM: return r.choice(f.enum_type.values).number
        if t in (T.TYPE_INT32, T.TYPE_SINT32, T.TYPE_SFIXED32): return r.choice([0, 1, -1, 2**31 - 1, -2**31, r.randrange(-1000, 1000)])
        if t in (T.TYPE_UINT32, T.TYPE_FIXED32): return r.choice([0, 1, 2**32 - 1, r.randrange(1000)])
        if t in (T.TYPE_INT64, T.TYPE_SINT64, T.TYPE_SFIXED64): return r.choice([0, 1, -1, 2**63 - 1, -2**63, r.randrange(-10**12, 10**12)])
        return r.choice([0, 1, 2**64 - 1, r.randrange(10**12)])

    def fill(self, m, depth, p):
        r = self.r
        for f in m.DESCRIPTOR.fields:
            need = f.is_required
            if not need and (r.random() > p or depth > 4 and f.message_type):
                continue
            if f.message_type and f.message_type.GetOptions().map_entry:
                kf, vf = f.message_type.fields
                for _ in range(r.randrange(0, 4)):
                    k = self.scalar(kf)
                    if vf.message_type:
                        self.fill(getattr(m, f.name)[k], depth + 1, p / 2)
                    else:
                        getattr(m, f.name)[k] = self.scalar(vf)
            elif f.message_type:
                if f.is_repeated:
                    for _ in range(r.randrange(0, 3)):
                        self.fill(getattr(m, f.name).add(), depth + 1, p / 2)
                else:
                    s = getattr(m, f.name); s.SetInParent(); self.fill(s, depth + 1, p / 2)
            elif f.is_repeated:
                getattr(m, f.name).extend([self.scalar(f) for _ in range(r.choice([0, 1, 2, 9]))])
            else:
                setattr(m, f.name, self.scalar(f))


def load(data):
    s = descriptor_pb2.FileDescriptorSet(); s.ParseFromString(data)
    pool = descriptor_pool.DescriptorPool()
    denormal.clear()
    for f in s.file:
        for m in f.message_type:
            strip_denormals((f.package + "." if f.package else "") + m.name, m)
        for x in f.extension:
            if x.type in (T.TYPE_DOUBLE, T.TYPE_FLOAT) and x.default_value and 0 < abs(float(x.default_value)) < (2.3e-308 if x.type == T.TYPE_DOUBLE else 1.18e-38):
                denormal[f.package + "." + x.name] = float(x.default_value); x.ClearField("default_value")
        pool.Add(f)
    return s, pool


def make(out, first, count, seed):
    r = random.Random(seed * 1000003 + first)
    made = rejected = 0
    for i in range(first, first + count):
        big = i % 17 == 0
        fs = rschema.Gen((seed << 20) + i, hostile=i % 5 == 4, big=big).make()
        d = os.path.join(out, "p%05d" % i)
        for n, t in fs:
            os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
            with open(os.path.join(d, n), "w") as f:
                f.write(t)
        base = os.path.join(out, "%05d" % i)
        extra = ["google/protobuf/" + r.choice(["any", "struct", "wrappers", "timestamp", "descriptor"]) + ".proto"] if i % 23 == 0 else []
        p = subprocess.run([PROTOC, "-I" + d, "-I" + INC, "--include_imports", "-o", base + ".fds"] + (["--include_source_info"] if i % 11 == 0 else []) + [n for n, _ in fs] + extra, capture_output=True, text=True)
        if p.returncode:
            rejected += 1
            if os.path.exists(base + ".fds"): os.unlink(base + ".fds")
            continue
        try:
            with open(base + ".fds", "rb") as f:
                s, pool = load(f.read())
        except TypeError as e:  # protobuf's own pool refuses what protoc accepted
            print("refused:", str(e)[:300])
            rejected += 1
            os.unlink(base + ".fds")
            continue
        L = []
        pay = []
        for fdp in s.file:
            fd = pool.FindFileByName(fdp.name)
            tops = list(fd.message_types_by_name.values())
            L.append("\t".join(["F", fd.name, ",".join(hx(x.name) for x in fd.dependencies) or "-", ",".join(m.full_name for m in tops) or "-", ",".join(sorted(e.full_name for e in fd.enum_types_by_name.values())) or "-",
                                ",".join(sorted(x.name for x in fd.extensions_by_name.values())) or "-"]))
            for x in fd.extensions_by_name.values():
                L.append(fline("X", "/" + fd.name, x))
            enums = list(fd.enum_types_by_name.values())
            for m in parts(tops):
                enums += m.enum_types
                L.append("\t".join(["M", m.full_name, str(int(m.GetOptions().map_entry)), m.containing_type.full_name if m.containing_type else "-", fd.name, ",".join(f.name for f in sorted(m.fields, key=lambda f: f.index)) or "-",
                                    ",".join(n.full_name for n in m.nested_types) or "-", ",".join(e.full_name for e in m.enum_types) or "-", ",".join(x.name for x in m.extensions) or "-"]))
                for f in m.fields:
                    L.append(fline("f", m.full_name, f))
                for o in m.oneofs:
                    L.append("\t".join(["O", m.full_name, o.name, ",".join(f.name for f in o.fields)]))
                for x in m.extensions:
                    L.append(fline("X", m.full_name, x))
                if not m.GetOptions().map_entry:
                    cls = message_factory.GetMessageClass(m)
                    for _ in range(2 if not big else 1):
                        v = cls()
                        Rand(r).fill(v, 0, r.choice([.2, .6, 1.0]))
                        b = v.SerializeToString(deterministic=True)
                        if len(b) < 20000:
                            pay.append("%s\t%s" % (m.full_name, hx(b)))
            for e in enums:
                L.append("\t".join(["E", e.full_name, str(int(e.is_closed)), fd.name, e.containing_type.full_name if e.containing_type else "-", ",".join("%s=%d" % (v.name, v.number) for v in e.values)]))
        with open(base + ".tbl", "w") as f:
            f.write("\n".join(L) + "\n")
        with open(base + ".pay", "w") as f:
            f.write("\n".join(pay) + "\n")
        made += 1
    print("made %d rejected %d" % (made, rejected))


def verify(out, n):
    """what the driver wrote back, compared with what it was given"""
    import collections
    good = 0
    for path in sorted(glob.glob(os.path.join(out, "*.back"))):
        if n is not None and int(os.path.basename(path)[:5]) % n[1] != n[0]:
            continue
        with open(path[:-5] + ".fds", "rb") as f:
            _, pool = load(f.read())
        with open(path) as f:
            for line in f:
                name, a, b = line.rstrip("\n").split("\t")
                cls = message_factory.GetMessageClass(pool.FindMessageTypeByName(name))
                a = bytes.fromhex(a.replace("-", "")); b = bytes.fromhex(b.replace("-", ""))
                try:
                    y = cls.FromString(b).SerializeToString(deterministic=True)
                except Exception as e:
                    print("FAIL\twire\t%s %s: what was written does not parse: %s\n  in  %s\n  out %s" % (os.path.basename(path), name, e, a.hex(), b.hex()))
                    continue
                if a != y or len(b) != len(a):
                    print("FAIL\twire\t%s %s: written message differs\n  in  %s\n  out %s" % (os.path.basename(path), name, a.hex(), b.hex()))
                good += 1
    print("verified %d" % good)


if __name__ == "__main__":
    if sys.argv[1] == "verify":
        verify(sys.argv[2], (int(sys.argv[3]), int(sys.argv[4])))
    else:
        make(sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]))
