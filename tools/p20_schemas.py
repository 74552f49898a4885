"""Random schemas through the code generator (run with the python that has protobuf).
usage: p20_schemas.py make OUTDIR FIRST COUNT SEED PLUGIN   schemas, generated headers, drivers and payloads
       p20_schemas.py desc OUTDIR FIRST COUNT SEED PLUGIN   schemas and drivers for the embedded descriptors
       p20_schemas.py hurt OUTDIR FIRST COUNT SEED PLUGIN   damaged and inconsistent requests
       p20_schemas.py verify OUTDIR SHARD NSHARDS           what the drivers wrote, against protobuf
Prints FAIL<tab>key<tab>detail lines and N<tab>counter<tab>value lines."""
import collections, glob, json, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rschema, p13_schemas as p13
from google.protobuf import descriptor_pb2, message_factory
from google.protobuf.compiler import plugin_pb2

PROTOC, INC = p13.PROTOC, p13.INC
T = p13.T
CPP = set("""NULL alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl const constexpr const_cast continue decltype default delete do double dynamic_cast else enum
explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short
signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq
char8_t char16_t char32_t concept consteval constinit co_await co_return co_yield requires""".split())
N = collections.Counter()
ENV = dict(os.environ)


def fail(key, detail):
    print("FAIL\t%s\t%s" % (key, detail.replace("\n", "\n  ")))


def ident(n):
    return n + "_" if n in CPP else n


def cpp_type(m, prefix=""):
    """C++ template name of a message descriptor"""
    n, s = ident(m.name), m.containing_type
    while s is not None:
        n = ident(s.name) + ("" if s.name in CPP else "_") + "::" + n
        s = s.containing_type
    return "::" + prefix + "".join(ident(c) + "::" for c in m.file.package.split(".") if c) + n


def file_ns(name):
    return "::hpp_proto::file_descriptors::" + "::".join(ident(re.sub("[^A-Za-z0-9_]", "_", c)) for c in name.split("/"))


def run_plugin(plugin, data, cwd=None):
    p = subprocess.run([plugin], input=data, capture_output=True, timeout=120, cwd=cwd)
    return p


def crash(p):
    return p.returncode < 0 or p.returncode == 98 or p.returncode > 100 or b"Sanitizer" in p.stderr or b"runtime error" in p.stderr


def request(s, files, param=""):
    q = plugin_pb2.CodeGeneratorRequest()
    q.file_to_generate.extend(files)
    q.proto_file.extend(s.file)
    q.parameter = param
    q.compiler_version.major = 7
    return q


def schema(i, seed, out, level, big=False, cycles=False):
    fs = rschema.Gen((seed << 20) + i + 7000000, level=level, big=big, tag="", cycles=cycles).make()
    d = os.path.join(out, "p%05d" % i)
    for n, t in fs:
        os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
        with open(os.path.join(d, n), "w") as f:
            f.write(t)
    names = [n for n, _ in fs]
    p = subprocess.run([PROTOC, "-I" + d, "-I" + INC, "--include_imports", "-o", d + "/all.fds"] + (["--include_source_info"] if i % 5 == 0 else []) + names, capture_output=True, text=True)
    if p.returncode:
        N["schemas-not-valid"] += 1
        return None
    s = descriptor_pb2.FileDescriptorSet()
    with open(d + "/all.fds", "rb") as f:
        s.ParseFromString(f.read())
    return d, names, s


def text_of(d, names):
    return "\n".join("// ---- %s\n%s" % (n, open(os.path.join(d, n)).read()) for n in names)


def generate(key, d, names, s, plugin, must, param=""):
    """the generated files, or None"""
    q = request(s, names, param)
    data = q.SerializeToString()
    p = run_plugin(plugin, data)
    N["requests"] += 1
    if crash(p):
        fail(key + ":crash", "exit %d\n%s\n%s" % (p.returncode, p.stderr.decode(errors="replace")[-1500:], text_of(d, names)))
        return None
    try:
        if p.returncode:
            raise ValueError("exit %d: %s" % (p.returncode, p.stderr.decode(errors="replace")[-300:]))
        r = plugin_pb2.CodeGeneratorResponse.FromString(p.stdout)
    except Exception as e:
        fail(key + ":response", "%s\n%s" % (e, text_of(d, names)))
        return None
    if r.error:
        N["refused"] += 1
        if must:
            fail(key + ":refused", "%s\n%s" % (r.error, text_of(d, names)))
        return None
    if run_plugin(plugin, data).stdout != p.stdout:
        fail(key + ":nondeterministic", "two runs differ\n" + text_of(d, names))
    return {f.name: f.content for f in r.file}


def defaults(fd):
    out = []
    for m in p13.parts(fd.message_types_by_name.values()):
        if m.GetOptions().map_entry:
            continue
        for f in m.fields:
            if f.is_repeated or f.message_type is not None or f.containing_oneof is not None and not (len(f.containing_oneof.fields) == 1 and f.containing_oneof.name.startswith("_") and not f.containing_oneof.name.startswith("__")):
                continue
            if f.containing_oneof is not None:
                continue
            out.append((m, f))
    return out


def syntax(s, name):
    return next(f.syntax or "proto2" for f in s.file if f.name == name)


def presence_scopes(r, s, names):
    """names of packages, messages and fields, or none at all"""
    c = ["."]
    for f in s.file:
        if f.name in names and syntax(s, f.name) == "proto2":
            if f.package:
                c.append("." + f.package)
            for n in msgs(f.package, f.message_type):
                c.append("." + n)
            c += ["." + (f.package + "." if f.package else "") + m.name + "." + x.name for m in f.message_type for x in m.field]
    return r.sample(c, min(len(c), r.choice([1, 1, 2, 3]))) if r.random() < .8 else [""]


TRAITS = [("default", "::hpp_proto::default_traits"), ("non_owning", "::hpp_proto::non_owning_traits"), ("stable", "::hpp_proto::stable_traits"), ("pmr", "::hpp_proto::pmr_traits"),
          ("keep", "::hpp_proto::keep_unknown_fields<::hpp_proto::default_traits>")]


def make(out, first, count, seed, plugin):
    r = random.Random(seed * 7919 + first)
    for i in range(first, first + count):
        level = (0, 1, 0, 2)[i % 4]
        # messages that need each other: some such schemas do not compile with clang (a known finding), so those use gcc
        cycles = i // 4 % 2 == 1
        x = schema(i, seed, out, level, i % 16 == 5, cycles)
        if x is None:
            continue
        d, names, s = x
        param, scopes, ns, sub = "", None, "", ""
        if i % 8 == 2:
            scopes = presence_scopes(r, s, names)
            param = ",".join("proto2_explicit_presence=" + x for x in scopes)
            N["option-presence"] += 1
        elif i % 8 == 5 and not any(f.name.startswith("google/") for f in s.file):  # the prefixes apply to every file, so protobuf's own would have to be generated too
            ns, sub = r.choice(["vpx::", "vpx::vpy::"]), r.choice(["sub/", "sub/dir/"])
            param = "namespace_prefix=%s,directory_prefix=%s,preserve_proto_field_names=true" % (ns.replace("::", ".")[:-1], sub[:-1])
            N["option-prefixes"] += 1
        gen = generate("p20", d, names, s, plugin, level < 2, param)
        if gen is None:
            continue
        N["schemas-level-%d" % level] += 1
        own = {f.name: f for f in s.file if f.name in names}
        want = set()
        for n, f in own.items():
            b = n[:-6]
            want |= {b + e for e in (".msg.hpp", ".pb.hpp", ".glz.hpp", ".desc.hpp")} | ({b + ".service.hpp"} if len(f.service) else set())
        if set(gen) != want:
            fail("p20:files", "files %s instead of %s" % (sorted(gen), sorted(want)))
        # a file's code does not depend on which other files are asked for
        if len(names) > 1:
            one = r.choice(names)
            g1 = generate("p20", d, [one], s, plugin, level < 2, param)
            for n in g1 or {}:
                if gen.get(n) != g1[n]:
                    fail("p20:request-dependent", "%s differs when it is generated alone\n%s" % (n, text_of(d, names)))
            N["subsets"] += 1
        for n, c in gen.items():
            p = os.path.join(d, "out", sub + n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "w") as f:
                f.write(c)
        with open(d + "/scopes", "w") as f:
            json.dump(scopes, f)
        try:
            s2, pool = p13.load(s.SerializeToString())
        except TypeError:
            N["schemas-not-loaded"] += 1
            continue
        incs = sorted(n for n in gen if n.endswith((".pb.hpp", ".desc.hpp", ".service.hpp")))
        L = ['#include "%s"' % (sub + n) for n in incs]
        L = L + L[::-1] + ['#include <hpp_proto/binpb.hpp>']
        with open(os.path.join(d, "other.cpp"), "w") as f:
            f.write("\n".join(L) + "\nnamespace vp20 { int other_unit() { return 7; } }\n")
        tabs, defs, pay = [], [], []
        for n in names if level < 2 else []:
            fd = pool.FindFileByName(n)
            for m in p13.parts(fd.message_types_by_name.values()):
                if m.GetOptions().map_entry:
                    continue
                N["messages"] += 1
                for k in [(0, 1, 0, 2, 0, 3, 0, 4)[i // 2 % 8]]:
                    tabs.append('{"%s", "%s", &vp20::trip<%s<%s>>},' % (m.full_name, TRAITS[k][0], cpp_type(m, ns), TRAITS[k][1]))
                cls = message_factory.GetMessageClass(m)
                for k in range(5 if scopes is None else 0):  # fields made implicit drop values equal to their default
                    v = cls()
                    if k:
                        p13.Rand(r).fill(v, 0, r.choice([.2, .6, 1.0]))
                    elif not v.IsInitialized():
                        continue
                    b = v.SerializeToString(deterministic=True)
                    if len(b) < 20000:
                        pay.append("%s\t%s" % (m.full_name, p13.hx(b)))
            for m, f in defaults(fd):
                defs.append('{"%s", [] { return vp20::member_default(%s<%s>{}.%s); }},' % (f.full_name, cpp_type(m, ns), TRAITS[(0, 1, 0, 2, 0, 3, 0, 4)[i // 2 % 8]][1], ident(f.name)))
        with open(os.path.join(d, "pay"), "w") as f:
            f.write("\n".join(pay) + "\n")
        with open(os.path.join(d, "main.cpp"), "w") as f:
            f.write("\n".join(L) + '\n#include "p20.hpp"\nint main(int argc, char **argv) {\n  std::vector<vp20::entry> t{%s};\n  std::vector<vp20::deflt> d{%s};\n  return vp20::run(argc, argv, t, d);\n}\n' % ("\n    ".join(tabs), "\n    ".join(defs)))
        with open(os.path.join(d, "cc"), "w") as f:
            f.write("gcc" if cycles else "clang")


def desc(out, first, count, seed, plugin):
    """drivers which print the embedded descriptor sets; the expected ones are checked by verify"""
    for i in range(first, first + count):
        level = (0, 2, 1)[i % 3]
        x = schema(i, seed + 99, out, level, i % 8 == 5, True)
        if x is None:
            continue
        d, names, s = x
        gen = generate("p21", d, names, s, plugin, must=level < 2)
        if gen is None:
            continue
        N["schemas"] += 1
        N["custom-options"] += "vp_options.proto" in names
        L = ["#include <cstdio>"]
        for n, c in gen.items():
            if n.endswith(".desc.hpp"):
                p = os.path.join(d, "out", n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "w") as f:
                    f.write(c)
                L.append('#include "%s"' % n)
        L.append('#include "p21.hpp"\nint main(int argc, char **argv) {\n  vp21::driver d(argc, argv);')
        for n in names:
            ms = [m for f in s.file if f.name == n for m in msgs(f.package, f.message_type)]
            L.append('  d.file("%s", %s::file_descriptor_, %s::file_descriptor_set(), {%s});' % (n, file_ns(n), file_ns(n), ", ".join('"%s"' % m for m in ms)))
        with open(os.path.join(d, "main.cpp"), "w") as f:
            f.write("\n".join(L) + "\n  return d.done();\n}\n")


def msgs(scope, ms):
    for m in ms:
        if not m.options.map_entry:
            n = (scope + "." if scope else "") + m.name
            yield n
            yield from msgs(n, m.nested_type)


def plain(m):
    """drops values that are set to their default, where presence has no meaning (the generator's own descriptor types do not record it)"""
    for f, v in m.ListFields():
        if f.message_type is not None:
            for x in v if f.is_repeated else [v]:
                plain(x)
        elif not f.is_repeated and not f.is_extension and f.name not in ("oneof_index", "packed") and v == f.default_value:
            m.ClearField(f.name)
    return m


def verify_desc(out, shard, n):
    for path in sorted(glob.glob(os.path.join(out, "*/result"))):
        d = os.path.dirname(path)
        if int(os.path.basename(d)[1:]) % n != shard:
            continue
        s = descriptor_pb2.FileDescriptorSet()
        with open(d + "/all.fds", "rb") as f:
            s.ParseFromString(f.read())
        src = "\n" + "\n".join(open(os.path.join(d, f.name)).read() for f in s.file if os.path.exists(os.path.join(d, f.name)))
        FDP, FDS = descriptor_pb2.FileDescriptorProto, descriptor_pb2.FileDescriptorSet
        if any(f.name == "vp_options.proto" for f in s.file):  # with the custom options known, their order is that of their numbers
            q = p13.load(s.SerializeToString())[1]
            FDP, FDS = (message_factory.GetMessageClass(q.FindMessageTypeByName("google.protobuf.FileDescriptor" + x)) for x in ("Proto", "Set"))
        s = FDS.FromString(s.SerializeToString())
        want = {f.name: f for f in s.file}
        for f in s.file:
            f.ClearField("source_code_info")
            plain(f)
        clo = {}
        for f in s.file:
            clo[f.name] = {f.name}.union(*[clo[x] for x in f.dependency])
        lines = open(path).read().split("\n")
        if "END" not in lines:
            fail("p21:driver", d + ": the driver did not finish" + src)
        for l in lines:
            w = l.split("\t")
            if w[0] in ("F", "S"):  # the file's own descriptor; one entry of its set
                b = bytes.fromhex(w[2].replace("-", ""))
                try:
                    f = FDP.FromString(b)
                except Exception as e:
                    fail("p21:bytes", "%s: the embedded descriptor does not parse: %s%s" % (w[1], e, src))
                    continue
                N["descriptors"] += 1
                f.ClearField("source_code_info")
                plain(f)
                name = w[1] if w[0] == "F" else f.name
                a, y = want.get(name, FDP()).SerializeToString(deterministic=True), f.SerializeToString(deterministic=True)
                if a != y and not f.name.startswith("google/"):  # those headers are part of the library, from its own protobuf version
                    fail("p21:differs", "%s: the embedded descriptor of %s differs\n want %s\n is   %s%s" % (w[1], f.name, a.hex(), y.hex(), src))
                if w[0] == "S":
                    got = clo.setdefault(("got", w[1]), [])
                    got.append(f.name)
            elif w[0] == "E":
                got = clo.get(("got", w[1]), [])
                N["sets"] += 1
                N["dependencies"] += len(got) - 1
                if len(set(got)) != len(got) or set(got) != clo[w[1]]:
                    fail("p21:set", "%s: the set has %s instead of %s%s" % (w[1], got, sorted(clo[w[1]]), src))
            elif w[0] == "X":
                fail("p21:factory", "%s: %s%s" % (w[1], w[2], src))
            elif w[0] == "M":
                N["messages-created"] += int(w[2])


WEIRD_PARAMS = ["", ",", ",,,", "=", "a=b", "directory_prefix", "directory_prefix=", "directory_prefix=a/../../b", "directory_prefix=\"<>\n", "namespace_prefix", "namespace_prefix=", "namespace_prefix=a..b",
                "namespace_prefix=.", "namespace_prefix=1x", "namespace_prefix=class", "namespace_prefix=a.b.c", "namespace_prefix=__x", "namespace_prefix=\xff", "proto2_explicit_presence", "proto2_explicit_presence=",
                "proto2_explicit_presence=.", "proto2_explicit_presence=..", "proto2_explicit_presence=.p.M.f", "preserve_proto_field_names=maybe", "preserve_proto_field_names", "unknown_option=1", "x" * 70000,
                "*/ int x; /*", "a\\\nb", "export_request=/nonexistent/dir/x"]


def hurt(out, first, count, seed, plugin):
    """requests that protoc would not send, odd parameters and odd file names: only the way the plugin ends is checked"""
    r = random.Random(seed * 31 + first)
    for i in range(first, first + count):
        x = schema(i, seed + 7, out, r.choice([0, 1, 2]), i % 8 == 5, True)
        if x is None:
            continue
        d, names, s = x
        for k in range(12):
            q = request(s, names, r.choice(WEIRD_PARAMS) if k < 3 else "")
            how = "parameter"
            if k == 3:
                del q.proto_file[r.randrange(len(q.proto_file))]
                how = "file-missing"
            elif k == 4:
                q.file_to_generate.append(r.choice(["nothere.proto", "", "..", "x"]))
                how = "file-unknown"
            elif k == 5:
                q.proto_file.append(r.choice(list(q.proto_file)))
                how = "file-twice"
            elif k == 6:
                q.file_to_generate.append(names[0])
                how = "asked-twice"
            elif k == 7:
                fs = list(q.proto_file)
                r.shuffle(fs)
                del q.proto_file[:]
                q.proto_file.extend(fs)
                how = "order"
            elif k == 8:
                old, new = r.choice(names), r.choice(["x", "", ".proto", "a.txt", "/abs.proto", "p/.proto", "..", "a b.proto", "\xc3\xa9.proto", "x.proto.proto", "a//b.proto", "__x.proto", "7.proto", "a.proto/"])
                for f in q.proto_file:
                    if f.name == old:
                        f.name = new
                    for j, dep in enumerate(f.dependency):
                        if dep == old:
                            f.dependency[j] = new
                for j, n in enumerate(q.file_to_generate):
                    if n == old:
                        q.file_to_generate[j] = new
                how = "file-name"
            data = q.SerializeToString()
            if k == 9:
                data = data[:r.randrange(len(data))]
                how = "cut"
            elif k == 10:
                b = bytearray(data)
                for _ in range(r.choice([1, 1, 2, 5])):
                    b[r.randrange(len(b))] = r.randrange(256)
                data, how = bytes(b), "bytes"
            elif k == 11:
                how = "fields"
                f = q.proto_file[-1 - r.randrange(len(names))]
                how = "field:" + damage(r, f)
                data = q.SerializeToString()
            p = run_plugin(plugin, data, cwd=out)
            N["damaged:" + how.split(":")[0]] += 1
            if crash(p):
                fail("p20:hurt:" + how, "exit %d: %s\nrequest %s" % (p.returncode, p.stderr.decode(errors="replace")[-3000:], p13.hx(data)))
            else:
                N["ended:%s" % ("refused" if p.returncode else "response")] += 1
        subprocess.run(["rm", "-rf", d])


def damage(r, f):
    """makes one descriptor of the file inconsistent"""
    ms = []

    def walk(m):
        ms.append(m)
        for x in m.nested_type:
            walk(x)
    for m in f.message_type:
        walk(m)
    fs = [x for m in ms for x in m.field] + list(f.extension)
    es = list(f.enum_type) + [e for m in ms for e in m.enum_type]
    k = r.randrange(12)
    if k == 0 and fs:
        r.choice(fs).type_name = r.choice([".no.such", "", "relative", ".", "..", ".p"])
        return "type-name"
    if k == 1 and fs:
        r.choice(fs).oneof_index = r.choice([-1, 0, 1, 5, 2147483647])
        return "oneof-index"
    if k == 2 and fs:
        r.choice(fs).number = r.choice([0, -1, 19000, 536870912, 2147483647, -2147483648])
        return "number"
    if k == 3 and fs:
        r.choice(fs).default_value = r.choice(["", "x", "1e999", "99999999999999999999", "-", "nan", "\\", "\\xzz", "\\777"])
        return "default"
    if k == 4 and ms:
        r.choice(ms).name = r.choice(["", ".", "a.b", "1", "\n", "*/", "class", "\xc3\xa9"])
        return "message-name"
    if k == 5 and fs:
        r.choice(fs).name = r.choice(["", ".", "a.b", "1", "\n", "*/", "class"])
        return "field-name"
    if k == 6 and es:
        del r.choice(es).value[:]
        return "enum-empty"
    if k == 7 and ms:
        r.choice(ms).options.map_entry = True
        return "map-entry"
    if k == 8 and fs:
        r.choice(fs).ClearField(r.choice(["type", "label", "name", "number", "type_name"]))
        return "cleared"
    if k == 9:
        f.package = r.choice([".", "a..b", "1", "a.", "\n", "class"])
        return "package"
    if k == 10:
        f.syntax = r.choice(["", "proto4", "editions"])
        f.ClearField("edition")
        return "syntax"
    if fs:
        r.choice(fs).type = r.choice([1, 9, 10, 11, 14])
        return "type"
    return "nothing"


def verify(out, shard, n):
    for path in sorted(glob.glob(os.path.join(out, "*/result"))):
        d = os.path.dirname(path)
        if int(os.path.basename(d)[1:]) % n != shard:
            continue
        with open(d + "/all.fds", "rb") as f:
            s, pool = p13.load(f.read())
        lines = open(path).read().split("\n")
        if "END" not in lines:
            fail("p20:driver", d + ": the driver did not finish")
        src = lambda: "\n" + "\n".join(open(os.path.join(d, f.name)).read() for f in s.file if os.path.exists(os.path.join(d, f.name)))
        for l in lines:
            w = l.split("\t")
            if w[0] == "D":
                fd = pool.FindFieldByName(w[1])
                N["defaults"] += 1
                want = p13.dflt(fd)
                if want != w[3:][0]:
                    fail("p20:default", "%s is %s, should be %s%s" % (w[1], w[3], want, src()))
                scopes = json.load(open(d + "/scopes"))
                kind = "o" if fd.has_presence and not fd.is_required else "p"
                if scopes is not None and syntax(s, fd.file.name) == "proto2" and kind == "o" and not any(("." + fd.full_name + ".").startswith(x.rstrip(".") + ".") for x in scopes if x):
                    kind = "p"
                    N["presence-removed"] += 1
                if kind != w[2]:
                    fail("p20:presence", "%s is %s, should be %s (scopes %s)%s" % (w[1], w[2], kind, scopes, src()))
            elif w[0] == "T":
                N["round-trips"] += 1
                cls = message_factory.GetMessageClass(pool.FindMessageTypeByName(w[1]))
                a = bytes.fromhex(w[3].replace("-", ""))
                if w[4].startswith("!"):
                    fail("p20:trip", "%s (%s): %s\n in %s%s" % (w[1], w[2], w[4], w[3], src()))
                    continue
                b = bytes.fromhex(w[4].replace("-", ""))
                try:
                    y = cls.FromString(b).SerializeToString(deterministic=True)
                except Exception as e:
                    fail("p20:wire", "%s (%s): what was written does not parse: %s\n in  %s\n out %s%s" % (w[1], w[2], e, w[3], w[4], src()))
                    continue
                if a != y or len(a) != len(b):
                    fail("p20:wire", "%s (%s): written message differs\n in  %s\n out %s%s" % (w[1], w[2], w[3], w[4], src()))
                m = cls()
                if w[5] != "-" and m.IsInitialized():
                    fail("p20:empty", "%s (%s): an empty message is written as %s%s" % (w[1], w[2], w[5], src()))


if __name__ == "__main__":
    a = sys.argv
    if a[1] == "make":
        make(a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
    elif a[1] == "verify":
        verify(a[2], int(a[3]), int(a[4]))
    elif a[1] in ("desc", "hurt"):
        {"desc": desc, "hurt": hurt}[a[1]](a[2], int(a[3]), int(a[4]), int(a[5]), a[6])
    elif a[1] == "verify_desc":
        verify_desc(a[2], int(a[3]), int(a[4]))
    for k, v in N.items():
        print("N\t%s\t%d" % (k, v))
