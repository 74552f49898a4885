"""The checks, one function per property."""
import glob, json, os, re, subprocess, sys, time, traceback
from lib import *

PROTOS = ["vp2.proto", "vp3.proto", "vpe.proto"]
SRC = os.path.join(VERIF, "src")
D, S, P, PS, N = ("default_traits", "stable_traits", "pmr_traits", "pmr_stable_traits", "non_owning_traits")


def K(t):
    return "keep_unknown_fields<hpp_proto::%s>" % t


def short(t):
    return t.replace("keep_unknown_fields<hpp_proto::", "keep_").replace("_traits", "").replace(">", "")


def tu(proto, trait, gen, san, defs=(), name=None, utf8=False):
    fl = list(san) + ([] if utf8 else [NOUTF8]) + ["-I" + REPO + "/include", "-I" + gen, "-I" + SRC]
    fl += ['-DVP_HDR="%s.pb.hpp"' % proto, '-DVP_ACC="access_%s.inc"' % proto, "-DVP_MSGS=MESSAGES_" + proto, "-DVP_TRAITS=hpp_proto::" + trait,
           '-DVP_NAME="%s"' % (name or short(trait)), "-DVP_KEEP=%d" % ("keep_" in trait)] + list(defs)
    return lambda: compile_obj(os.path.join(SRC, "tu.cpp"), fl)


def boxes_driver(ctx, specs, san, defs=(), utf8=False, drv_defs=()):
    """specs: (proto, trait[, extra defs[, name]])"""
    dd = ["-O1"] + list(san)[1:] + ["-I" + SRC] + (["-DVP_UTF8"] if utf8 else []) + list(drv_defs)
    drv = later(lambda: compile_obj(os.path.join(SRC, "drv.cpp"), dd))
    gen = gen_headers(PROTOS)
    ctx.log("generated")
    jobs = [tu(s[0], s[1], gen, san, list(defs) + list(s[2] if len(s) > 2 else []), s[3] if len(s) > 3 else None, utf8) for s in specs]
    objs = parallel(jobs, NCPU if len(jobs) <= NCPU else NCPU - 1) + [drv.result()]
    ctx.log("compiled %d units" % len(objs))
    return link(objs, os.path.join(BUILD, "bin", ctx.pid), san)


def combos(*traits):
    return [(p, t) for t in traits for p in ("vp3", "vp2", "vpe")]


GEN_RULE = "Messages of 61 types of three schema files (proto2, proto3, edition 2023) with random values biased to boundary values, under the listed storage traits; "


def p01(ctx):
    exe = boxes_driver(ctx, combos(D, N, K(PS)), ASAN)
    ctx.run_driver(exe, "p01", 60000 if ctx.thorough else 4000)
    return finish(ctx, "exploration", GEN_RULE + "each is written, read back into a fresh and into a used object and written again; non-trivial: at least one field set; distinct by message type, traits and encoding.",
                  ["seen:map-msg", "seen:one-oneof-msg", "seen:rep-num-packed", "seen:one-group"])


def p02(ctx):
    exe = boxes_driver(ctx, combos(PS, K(D), N), ASAN)
    ctx.run_driver(exe, "p02", 40000 if ctx.thorough else 2500)
    return finish(ctx, "exploration", GEN_RULE + "the bytes written are compared with an independent canonical encoder, and three alternative valid encodings of each value are parsed and compared with an independent decoder; non-trivial: at least one field set.", ["verdict:accept"])


def p03(ctx):
    exe = boxes_driver(ctx, combos(D, N, K(S)), AUBSAN, ["-DVP_READS=5"])
    ctx.run_driver(exe, "p03", 60000 if ctx.thorough else 4000)
    return finish(ctx, "exploration", "Hostile byte strings (random bytes, random records, mutated and truncated valid encodings, lengths far beyond the input, and every prefix of short ones) parsed contiguously (exact-size heap block) and as padded input under AddressSanitizer and UBSan; verdict and value compared with an independent decoder; distinct by type, traits and bytes.",
                  ["inputs:reject", "inputs:accept", "rejected", "accepted", "prefixes"])


def p04(ctx):
    exe = boxes_driver(ctx, combos(PS, N, K(D)), ASAN, ["-DVP_READS=5", "-DVP_CHUNKED"])
    ctx.run_driver(exe, "p04", 30000 if ctx.thorough else 1500)
    return finish(ctx, "exploration", "Valid and hostile byte strings, each parsed contiguously, as padded input and cut into buffers in many ways (every single cut of short ones, all one-byte buffers, random cuts with empty buffers), each buffer an exact-size heap block under AddressSanitizer; distinct by type, traits and bytes.", ["segmentations", "segments"])


def p05(ctx):
    exe = boxes_driver(ctx, combos(D, N), ASAN, ["-DVP_WRITES=0x3ff"])
    ctx.run_driver(exe, "p05", 20000 if ctx.thorough else 1200)
    return finish(ctx, "fault_enumeration", GEN_RULE + "written through every container and sink mode with many chunk-size sequences, including exhausted ones; every chunk is an exact-size heap block under AddressSanitizer.", [])


def p06(ctx):
    exe = boxes_driver(ctx, combos(D, S, PS, N, K(N)) + [("vp3", P), ("vp2", K(P)), ("vpe", P)], ["-O0", "-g1", "-fsanitize=address"])
    ctx.run_driver(exe, "p06", 40000 if ctx.thorough else 3000)
    return finish(ctx, "exploration", "The same valid and hostile bytes parsed under every storage trait; statuses, values and re-encodings compared across traits and with an independent decoder.",
                  ["agreements", "parses:default", "parses:stable", "parses:pmr", "parses:pmr_stable", "parses:non_owning", "parses:keep_pmr", "parses:keep_non_owning"])


def p07(ctx):
    exe = boxes_driver(ctx, combos(K(D), N, K(PS)), ASAN)
    ctx.run_driver(exe, "p07", 40000 if ctx.thorough else 2500)
    return finish(ctx, "exploration", GEN_RULE + "encoded with unknown records (numbers just past, between and far from the known ones, every wire type, nested groups, records of every declared extension) woven in at every level; after parsing and writing, unknown records must come back with their bytes and in order where unknown fields are kept and nowhere where they are not, and known fields must be unaffected. Extensions of every kind are set, read, tested and written through typed descriptors and compared with the independent codec; distinct by type, traits and bytes.",
                  ["kept-root-records", "dropped-root-records", "messages-with-root-unknowns"])


def p08(ctx):
    exe = boxes_driver(ctx, combos(D, N, K(PS)), ASAN, ["-DVP_MERGE"])
    ctx.run_driver(exe, "p08", 40000 if ctx.thorough else 2500)
    return finish(ctx, "exploration", GEN_RULE + "paired with a second random message of the type; merge by copy and by move, onto owning and borrowed destinations, compared with an independent merge of the two values and with parsing the two encodings joined; sources checked unchanged after a copy; distinct by type, traits and the pair.",
                  ["copies", "moves"])


def p09(ctx):
    sel = "-DVP_SELECT(id)=(id==ID_vp2_Node||id==ID_vp3_Node||id==ID_vp3_NodeB||id==ID_vp2_Groups||id==ID_vp3_Oneofs||id==ID_vp3_Maps||id==ID_vpe_Ed||id==ID_vp2_Required||id==ID_vp3_Empty||id==ID_vp2_Leaf)"
    specs = []
    for t in (D, K(N)):
        for p in ("vp3", "vp2", "vpe"):
            specs.append((p, t, [sel]))
            for lim in (1, 3, 40, 300):
                if (lim in (1, 40)) == (t == D):
                    specs.append((p, t, [sel, "-DVP_LIMIT=%d" % lim], "%s@%d" % (short(t), lim)))
    exe = boxes_driver(ctx, specs, ASAN, ["-DVP_CHUNKED"])
    ctx.run_driver(exe, "p09", 20000 if ctx.thorough else 2000)
    return finish(ctx, "exploration", "Encodings of messages, groups and unknown groups nested to depths around the limits 1, 3, 40, 100 and 300 and far beyond, in ten recursive types, parsed contiguously and segmented and written back: accepted exactly when the depth is within the limit, both ways, with no stack exhaustion under AddressSanitizer; distinct by type, limit and depth profile.",
                  ["within-limit", "at-limit", "one-past-limit", "past-limit", "far-too-deep", "unknown-groups", "unknown-groups-below-root"])


def p10(ctx):
    exe = boxes_driver(ctx, combos(D, K(N)), ASAN, ["-DVP_READS=5", "-DVP_CHUNKED"], utf8=True)
    ctx.run_driver(exe, "p10", 40000 if ctx.thorough else 3000)
    return finish(ctx, "exploration", GEN_RULE + "with malformed UTF-8 (truncated, overlong, surrogate, out of range, stray continuation) at the end of every string field of every kind in turn; the library is built with its validator, a reference implementation linked in its place that counts calls; the verdict must be rejection exactly for fields whose schema demands UTF-8, on parsing and on writing; distinct by type, traits and bytes.",
                  ["utf8-validator-calls", "invalid-checked", "invalid-unchecked"])


def p11(ctx):
    exe = boxes_driver(ctx, combos(D, K(N), K(PS)), ASAN, ["-DVP_CHUNKED"])
    ctx.run_driver(exe, "p11", 40000 if ctx.thorough else 4000)
    return finish(ctx, "exploration", GEN_RULE + "with enum values replaced by known, unknown, negative, 64-bit and non-canonical numbers in singular, repeated, packed, oneof and map positions; open enums must keep every number, closed enums must divert unknown ones to the unknown fields (or drop them) and leave presence and other values untouched; distinct by type, traits and bytes.",
                  ["closed-values", "open-values", "open-unknown-values", "unknown-retained"])


def single(ctx, src, san, defs=(), libs=(), extra=(), key=""):
    """A driver that is one translation unit plus objects already built."""
    fl = list(san) + ["-I" + REPO + "/include", "-I" + SRC] + list(defs)
    o = compile_obj(os.path.join(SRC, src), fl)
    ctx.log("compiled " + src)
    return link([o] + list(extra), os.path.join(BUILD, "bin", ctx.pid), san, libs)


def p12(ctx):
    wkt = gen_wkt()
    exe = boxes_driver(ctx, combos(D, N, K(PS)), ASAN, ["-DVP_ANY", "-I" + wkt])
    ctx.run_driver(exe, "p12", 40000 if ctx.thorough else 1500)
    return finish(ctx, "exploration", GEN_RULE + "packed into Any messages of three storage kinds and unpacked, by reference and by value, as the same type, under other traits and as other types, under well-formed and malformed type URLs and with hostile and truncated payloads; URL judged by name equality after the last slash, payload and result by the independent codec; distinct by type, traits and encoding.",
                  ["unpacked:same", "unpacked:same-other-traits", "unpacked:other-prefix", "refused:other-type", "refused:bad-url", "malformed:hostile-payload", "malformed:truncated-payload", "packed:kind0", "packed:kind1", "packed:kind2"])


def dyn_inc():
    """Include directories for the dynamic-message library: generated headers and an export header."""
    d = os.path.join(BUILD, "dyninc")
    os.makedirs(os.path.join(d, "hpp_proto/dynamic_message"), exist_ok=True)
    h = os.path.join(d, "hpp_proto/dynamic_message/export.hpp")
    if not os.path.exists(h):
        with open(h + ".tmp%d" % os.getpid(), "w") as f:
            f.write("#pragma once\n#define HPP_PROTO_DYNAMIC_MESSAGE_EXPORT\n#define HPP_PROTO_DYNAMIC_MESSAGE_NO_EXPORT\n")
        os.replace(h + ".tmp%d" % os.getpid(), h)
    return ["-I" + REPO + "/include", "-I" + d, "-I" + REPO + "/src/dynamic_message", "-I" + SRC]


def dyn_lib(san, wkt):
    """The library's own source files."""
    root = os.path.join(REPO, "src/dynamic_message")
    srcs = sorted(os.path.join(root, f) for f in os.listdir(root) if f.endswith(".cpp"))
    inc = dyn_inc()
    return [lambda s=s: compile_obj(s, list(san) + inc + ["-I" + wkt]) for s in srcs]


def py(*args, **kw):
    return sh(["/opt/vp/protoc-venv/bin/python"] + [str(a) for a in args], **kw)


def p13(ctx):
    total = 3000 if ctx.thorough else 400
    d = os.path.join(ctx.work, "sets")
    os.makedirs(d)
    n = (total + NCPU - 1) // NCPU
    made = later(lambda: parallel([lambda i=i: py(os.path.join(VERIF, "tools/p13_schemas.py"), d, i * n, n, ctx.seed) for i in range(NCPU)]))
    wkt = gen_wkt()
    san = AUBSAN
    jobs = dyn_lib(san, wkt)
    inc = dyn_inc()
    jobs.append(lambda: compile_obj(os.path.join(SRC, "p13.cpp"), san + inc + ["-I" + wkt]))
    objs = parallel(jobs, NCPU)
    ctx.log("compiled %d units" % len(objs))
    exe = link(objs, os.path.join(BUILD, "bin", ctx.pid), san)
    for r in made.result():
        m = re.search(r"made (\d+) rejected (\d+)", r.stdout)
        if r.returncode or not m:
            raise HarnessError("schema generation failed: " + r.stdout[-1500:])
        ctx.count("schema-sets", int(m.group(1))); ctx.count("schema-sets-not-valid", int(m.group(2)))
    ctx.log("schemas made")
    ctx.run_driver(exe, "p13", total, args=["--replay", d])
    for r in parallel([lambda i=i: py(os.path.join(VERIF, "tools/p13_schemas.py"), "verify", d, i, NCPU) for i in range(NCPU)]):
        m = re.search(r"^verified (\d+)", r.stdout, re.M)
        if r.returncode or not m:
            raise HarnessError("verification failed: " + r.stdout[-1500:])
        ctx.count("payloads-verified", int(m.group(1)))
        for f in re.findall(r"^FAIL\t(\S+)\t(.*(?:\n  .*)*)", r.stdout, re.M):
            ctx.violation("p13:" + f[0], f[1])
    return finish(ctx, "exploration", "Random schema sets (one to four files; proto2, proto3, editions 2023 and 2024; features at file, field and enum level; nested and recursive types, groups, maps, oneofs, extensions, defaults), accepted by protoc; the factory is created from the bytes and file by file, in three orders, and every name, attribute and default is compared with what protobuf's own pool assigns; random messages of every type pass through it; missing dependencies, conflicting files and types, truncated and mutated bytes under AddressSanitizer and UBSan; distinct by attribute combination and default, and by damaged bytes.",
                  ["messages", "fields", "extensions", "oneofs", "maps", "delimited", "packed", "utf8", "required", "implicit", "closed-enums", "open-enums", "defaults", "unknown-names", "missing-dependencies", "conflicting-files", "conflicting-types", "damaged-undecodable", "payloads-verified"])


def p14(ctx):
    wkt = gen_wkt()
    set_ = fds(PROTOS)
    san = AUBSAN
    jobs = dyn_lib(san, wkt)
    inc = dyn_inc()
    jobs.append(lambda: compile_obj(os.path.join(SRC, "p14.cpp"), san + inc + ["-I" + wkt, '-DVP_FDS="%s"' % set_]))
    objs = parallel(jobs, NCPU)
    ctx.log("compiled %d units" % len(objs))
    exe = link(objs, os.path.join(BUILD, "bin", ctx.pid), san)
    ctx.run_driver(exe, "p14", 150000 if ctx.thorough else 9000)
    return finish(ctx, "fault_enumeration", "Random operation histories (20 to 100 operations) over three dynamic messages of one of 61 types, addressed at the root or at any nested message, through every access route and with values of fitting and other types; all three are compared with plain value models after every operation; sources of clones live in arenas that are released at once; arena blocks are exact-size heap blocks under AddressSanitizer; allocations fail at random points; distinct by type and history.",
                  ["exceptions-injected", "failures-survived", "refusals", "typed-gets", "out-of-range", "oneofs", "ops:set", "ops:set-wrong-type", "ops:clone", "ops:rebirth", "ops:alias", "ops:adopt", "ops:resize", "ops:emplace", "ops:clear-oneof", "mixed-type-lists", "writes"])


def p15(ctx):
    dd = ["-O1"] + ASAN[1:] + ["-I" + SRC, "-DVP_UTF8", "-DVP_DYN"]
    drv = later(lambda: compile_obj(os.path.join(SRC, "drv.cpp"), dd))
    wkt = gen_wkt()
    gen = gen_headers(PROTOS)
    set_ = fds(PROTOS)
    inc = dyn_inc()
    jobs = dyn_lib(ASAN, wkt) + [lambda: compile_obj(os.path.join(SRC, "dynbox.cpp"), ASAN + inc + ["-I" + wkt, '-DVP_FDS="%s"' % set_])]
    jobs += [tu(p, t, gen, ASAN, [], None, True) for p, t in combos(D)]
    objs = parallel(jobs, NCPU - 1) + [drv.result()]
    ctx.log("compiled %d units" % len(objs))
    exe = link(objs, os.path.join(BUILD, "bin", ctx.pid), ASAN)
    ctx.run_driver(exe, "p15", 60000 if ctx.thorough else 3000)
    return finish(ctx, "exploration", "Dynamic messages of 61 types of three schema files (proto2, proto3, edition 2023), under the monitors used for generated messages (round trip, conformance to an independent codec, hostile bytes, segmentation, output modes, recursion limit, UTF-8, enums) and, side by side with the generated messages, on the same bytes; distinct by message type, part and input.",
                  ["part:round-trip", "part:conformance", "part:hostile", "part:segments", "part:sinks", "part:agreement", "part:recursion", "part:utf8", "part:enums", "agreements", "past-limit"])


def p16(ctx):
    exe = boxes_driver(ctx, combos(K(N), PS) + [("vp3", D), ("vp2", N), ("vp3", P)], ASAN, ["-DVP_MEM", "-DVP_CHUNKED"], drv_defs=["-DVP_MEM"])
    ctx.run_driver(exe, "p16", 20000 if ctx.thorough else 700)
    return finish(ctx, "fault_enumeration", GEN_RULE + "read (contiguous, padded, segmented, by value), written (to a buffer and a chunked sink), merged and copied while ledgers record every block taken from the supplied resource, the cache resource, the default resource and operator new; then repeated with the k-th allocation failing for every k (sampled above 60); distinct by type, traits, operation and input.",
                  ["exceptions-injected", "resource-blocks", "pmr-blocks", "cache-blocks", "ops:read", "ops:read-padded", "ops:read-chunks", "ops:write", "ops:merge", "ops:merge-move", "failed-status"])


def p17(ctx):
    exe = single(ctx, "p17.cpp", AUBSAN)
    ctx.run_driver(exe, "p17", 300000 if ctx.thorough else 5000)
    return finish(ctx, "fault_enumeration", "Random operation histories (20 to 140 operations) over ten instantiations of flat_map (vector, deque and pmr containers; plain, transparent and stateful comparators; throwing, move-only and string elements), compared after every operation with std::map; exceptions are injected at random copies and comparisons and the state after each is checked; distinct by instantiation and history.",
                  ["exceptions-injected", "bulk-constructions", "lookups", "iterations-compared", "large-bulk"])


def p18(ctx):
    exe = single(ctx, "p18.cpp", AUBSAN + [NOUTF8])
    ctx.run_driver(exe, "p18", 400000 if ctx.thorough else 16000)
    return finish(ctx, "fault_enumeration", "Random operation histories over four indirect and four optional_indirect objects holding recursive values, under seven allocators (std, pmr, and every kind of propagation), compared with plain trees after every operation; every block is entered in a ledger with the allocator it came from; allocations and element copies fail at random points; distinct by allocator and history.",
                  ["exceptions-injected", "aliased-moves", "aliased-copies", "chains"])


def p19(ctx):
    exe = boxes_driver(ctx, combos(D, N, PS), ASAN)
    ctx.run_driver(exe, "p19", 40000 if ctx.thorough else 4000)
    return finish(ctx, "exploration", GEN_RULE + "freshly constructed, and with single fields set to default, zero and other values: value read, presence and bytes written compared with defaults and presence rules taken from the descriptors by protobuf; distinct by field, value class, traits and bytes.",
                  ["defaults-read", "explicit-default", "explicit-value", "explicit-zero", "implicit-default", "implicit-value", "implicit-zero", "required-default", "required-value", "required-zero"])


def fails(ctx, r):
    """Takes the FAIL and N lines of a schema tool."""
    if r.returncode:
        raise HarnessError("schema tool failed: " + r.stdout[-1500:])
    for k, v in re.findall(r"^N\t(\S+)\t(\d+)$", r.stdout, re.M):
        ctx.count(k, int(v))
    for f in re.findall(r"^FAIL\t(\S+)\t(.*(?:\n  .*)*)", r.stdout, re.M):
        ctx.violation(f[0], f[1])


def first_errors(text):
    e = [l for l in text.splitlines() if "error" in l]
    return "\n".join(e[:12]) or text[-1500:]


def p20(ctx):
    total, damaged = (1600, 800) if ctx.thorough else (48, 64)
    tool = os.path.join(VERIF, "tools/p20_schemas.py")
    d, h = os.path.join(ctx.work, "schemas"), os.path.join(ctx.work, "hurt")
    os.makedirs(d); os.makedirs(h)
    plug = plugin(AUBSAN)
    ctx.log("generator built with sanitizers")
    wkt = gen_wkt()
    env = dict(os.environ); env.update(SAN_ENV)
    n = (total + NCPU - 1) // NCPU
    for r in parallel([lambda i=i: py(tool, "make", d, i * n, n, ctx.seed, plug, env=env) for i in range(NCPU)]):
        fails(ctx, r)
    ctx.log("schemas and headers made")
    n = (damaged + NCPU - 1) // NCPU
    hurt = [lambda i=i: py(tool, "hurt", h, i * n, n, ctx.seed, plug, env=env) for i in range(NCPU)]
    inc = [NOUTF8, "-O0", "-Iout", "-I" + REPO + "/include", "-I" + SRC, "-I" + wkt]

    def build(path):
        with open(os.path.join(path, "cc")) as f:
            cc = f.read()
        r = sh((GCC if cc == "gcc" else CLANG) + inc + ["main.cpp", "other.cpp", "-o", "drv"], cwd=path, env=env)
        text = "\n".join("// ---- %s\n%s" % (os.path.relpath(p, path), open(p).read()) for p in sorted(glob.glob(path + "/**/*.proto", recursive=True)))
        if r.returncode:
            return ("p20:compile:" + cc, first_errors(r.stdout) + "\n" + text), cc
        try:
            r = sh(["./drv", "pay", "result"], cwd=path, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return ("p20:run", "the driver did not finish\n" + text), cc
        finally:
            os.unlink(os.path.join(path, "drv"))
        if r.returncode:
            return ("p20:run", "driver ended with %d\n%s\n%s" % (r.returncode, r.stdout[-2000:], text)), cc
        return None, cc
    dirs = sorted(os.path.dirname(p) for p in glob.glob(d + "/*/cc"))
    dirs.sort(key=lambda p: -sum(os.path.getsize(f) for f in glob.glob(p + "/out/**/*.hpp", recursive=True)))
    res = parallel([lambda p=p: build(p) for p in dirs] + hurt, NCPU)
    for r in res[len(dirs):]:
        fails(ctx, r)
    for v, cc in res[:len(dirs)]:
        ctx.count("programs-" + cc)
        if v:
            ctx.violation(*v)
    ctx.log("programs compiled and run")
    # schemas that are known not to compile
    for name in ("cycle", "stdpkg"):
        g = os.path.join(ctx.work, "known-" + name)
        gen_headers([name + ".proto"], include=[os.path.join(VERIF, "protos/known")], out=g)
        with open(g + "/t.cpp", "w") as f:
            f.write('#include "%s.pb.hpp"\nint main() { ::vp::%s::Outer<> m; return m == m ? 0 : 1; }\n' % (name, "known" if name == "cycle" else "std"))
        for cc, c in (("clang", CLANG), ("gcc", GCC)):
            r = sh(c + [NOUTF8, "-fsyntax-only", "-I" + g, "-I" + REPO + "/include", "-I" + wkt, g + "/t.cpp"])
            if r.returncode:
                ctx.violation("p20:compile:%s:%s.proto" % (cc, name), first_errors(r.stdout))
    for r in parallel([lambda i=i: py(tool, "verify", d, i, NCPU) for i in range(NCPU)]):
        fails(ctx, r)
    ctx.evaluations = ctx.counts.get("requests", 0) + ctx.counts.get("round-trips", 0)
    ctx.extra_distinct = ctx.counts.get("messages", 0) + ctx.counts.get("programs-gcc", 0) + ctx.counts.get("programs-clang", 0)
    ctx.samples += [os.path.basename(p) + ": " + open(sorted(glob.glob(p + "/**/*.proto", recursive=True))[0]).read()[:300] for p in dirs[:3]]
    return finish(ctx, "exploration", "Random schemas (one to four files with imports and public imports; proto2, proto3, editions 2023 and 2024; packages, keywords and colliding C++ names, nested and recursive types, groups, maps, oneofs, extensions, services, custom options, hostile defaults and JSON names, files with nothing in them) go through the generator built with AddressSanitizer and UBSan: twice, and for a subset of the files; the headers are compiled twice into one program, in both orders of inclusion, by clang or gcc, with one of five traits; every default value and random messages of every type are compared with protobuf's; requests with missing, repeated, reordered, renamed, cut and damaged files and odd parameters must end with a response or an error code. Distinct by schema and message type.",
                  ["schemas-level-0", "schemas-level-1", "schemas-level-2", "messages", "subsets", "round-trips", "defaults", "option-presence", "option-prefixes", "presence-removed", "programs-gcc", "programs-clang", "damaged:bytes", "damaged:cut", "damaged:parameter", "damaged:field", "damaged:file-name", "ended:refused", "ended:response"])


def p21(ctx):
    total = 1600 if ctx.thorough else 160
    tool = os.path.join(VERIF, "tools/p20_schemas.py")
    d = os.path.join(ctx.work, "schemas")
    os.makedirs(d)
    wkt = gen_wkt()
    san = AUBSAN
    plug = plugin()
    n = (total + NCPU - 1) // NCPU
    made = later(lambda: parallel([lambda i=i: py(tool, "desc", d, i * n, n, ctx.seed, plug) for i in range(NCPU)]))
    jobs = dyn_lib(san, wkt)
    inc = dyn_inc()
    jobs.append(lambda: compile_obj(os.path.join(SRC, "p21.cpp"), san + inc + ["-I" + wkt]))
    objs = parallel(jobs, NCPU)
    for r in made.result():
        fails(ctx, r)
    ctx.log("library compiled, headers made")
    env = dict(os.environ); env.update(SAN_ENV)
    dirs = sorted(os.path.dirname(p) for p in glob.glob(d + "/*/main.cpp"))

    def build(k, path):
        cc = "gcc" if k % 4 == 3 else "clang"
        text = "\n".join("// ---- %s\n%s" % (os.path.relpath(p, path), open(p).read()) for p in sorted(glob.glob(path + "/**/*.proto", recursive=True)))
        # gcc only compiles: its sanitizer runtime is not the one the library uses
        r = sh((GCC if cc == "gcc" else CLANG + san) + [NOUTF8, "-O0", "-Iout", "-I" + REPO + "/include", "-I" + SRC, "-I" + wkt, "main.cpp"] + (["-fsyntax-only"] if cc == "gcc" else ["-o", "drv"] + objs), cwd=path, env=env)
        if r.returncode:
            return ("p21:compile:" + cc, first_errors(r.stdout) + "\n" + text), cc
        if cc == "gcc":
            return None, cc
        try:
            r = sh(["./drv", "result"], cwd=path, env=env, timeout=120)
        except subprocess.TimeoutExpired:
            return ("p21:run", "the driver did not finish\n" + text), cc
        finally:
            os.unlink(os.path.join(path, "drv"))
        if r.returncode:
            return ("p21:run", "driver ended with %d\n%s\n%s" % (r.returncode, r.stdout[-2000:], text)), cc
        return None, cc
    for v, cc in parallel([lambda k=k, p=p: build(k, p) for k, p in enumerate(dirs)], NCPU):
        ctx.count("programs-" + cc)
        if v:
            ctx.violation(*v)
    ctx.log("programs compiled and run")
    for r in parallel([lambda i=i: py(tool, "verify_desc", d, i, NCPU) for i in range(NCPU)]):
        fails(ctx, r)
    ctx.evaluations = ctx.counts.get("descriptors", 0) + ctx.counts.get("messages-created", 0)
    ctx.extra_distinct = ctx.counts.get("sets", 0)
    ctx.samples += [os.path.basename(p) + ": " + open(sorted(glob.glob(p + "/**/*.proto", recursive=True))[0]).read()[:300] for p in dirs[:3]]
    return finish(ctx, "exploration", "Random schemas as for P20, with hostile string literals in defaults, JSON names and custom options of every scope, files without messages, public imports and dependency chains; each file's embedded descriptor, and each entry of its set, is compared with the descriptor protoc produced (source positions left out); the set must name the file and every dependency once; the runtime factory, under AddressSanitizer and UBSan, must accept the set and make every message of the file and no other. Distinct by file.",
                  ["schemas", "custom-options", "descriptors", "sets", "dependencies", "messages-created", "programs-clang", "programs-gcc"])


GRPC_LIBS = ["-lgrpc++", "-lgrpc", "-lgpr", "-labsl_synchronization", "-lpthread"]


def p22(ctx):
    gen = gen_headers(PROTOS)
    exe = single(ctx, "p22.cpp", ["-O0" if f.startswith("-O") else f for f in AUBSAN] + [NOUTF8, "-I" + gen], libs=GRPC_LIBS)
    ctx.run_driver(exe, "p22", 60000 if ctx.thorough else 2500)
    return finish(ctx, "exploration", "Valid and damaged encodings of 11 message types under five traits, cut into slices of every kind (inline, reference counted blocks of exactly their size, empty, one byte each, more than the stack buffer holds), read from a ByteBuffer directly and through SerializationTraits into used objects, and compared with a plain read of the whole; each slice's release is counted. Messages written in every mode, also around multiples of 1 MiB and through sinks of every chunk size used twice, are compared with the plain encoding; distinct by message type and encoding.",
                  ["read-equal", "slices-released", "payload-absent", "payload-malformed", "several-slices", "slices-beyond-the-stack-buffer", "limit-refused", "limit-fits", "large-payload-slices", "deep-refused", "deep-fits", "sink-payloads", "writes-traits"])


def p23(ctx):
    gen = gen_headers(["vpg.proto"])
    flags = ["-O0" if f.startswith("-O") else f for f in AUBSAN] + ["-fno-sanitize=vptr", NOUTF8, "-I" + gen]
    exe = single(ctx, "p23.cpp", flags, libs=GRPC_LIBS)
    ctx.run_driver(exe, "p23", 40000 if ctx.thorough else 2000)
    return finish(ctx, "exploration", "Calls over TCP and Unix sockets between this library's stubs and services, on 1 to 8 client threads at once, of all four kinds and to handlers with and without optional callbacks. Each call follows a script the server gets as metadata (replies, statuses, delays, other threads, undecodable and unserializable messages, early ends, cancellation, deadlines), and both ends' logs are compared with it: order and contents of messages, statuses, number of OnDone/on_done calls, handlers made and destroyed; AddressSanitizer watches the reactors' lifetimes. Distinct by script.",
                  ["calls:unary-blocking", "calls:unary-callback", "calls:unary-reactor", "calls:up", "calls:up-plain", "calls:down", "calls:down-plain", "calls:both", "calls:both-plain", "calls:raw-unary", "calls:raw-up", "calls:raw-down", "calls:raw-both",
                   "end:ok", "end:error-status", "end:cancelled", "end:cancelled-stream", "end:deadline", "end:deadline-stream", "end:early-finish", "end:unimplemented", "end:unserializable-request", "end:unserializable-reply", "end:unserializable-message",
                   "end:garbage-message", "end:garbage-reply", "end:garbage-request", "handlers", "messages-read-by-servers", "replies-equal", "rounds:tcp", "rounds:unix-socket", "server:on-cancel", "server:read-cancel", "streams-complete"])


def p24(ctx):
    exe = single(ctx, "p24.cpp", AUBSAN + [NOUTF8, "-I" + VERIF + "/shim"])
    ctx.run_driver(exe, "p24", 300000 if ctx.thorough else 25000)
    return finish(ctx, "exploration", "Byte strings, second/nanosecond pairs (boundary neighbourhoods and random), field masks, and candidate strings (canonical, mutated, truncated, extended) given to the base64, timestamp, duration and field mask codecs; each compared with an independent codec, the encoder writing into a heap block of exactly the announced size under AddressSanitizer; distinct by codec and input.",
                  ["base64-valid", "base64-invalid", "timestamp-valid", "timestamp-invalid", "timestamp-encoded", "timestamp-out-of-range", "duration-valid", "duration-invalid", "duration-encoded", "duration-out-of-range", "field-masks"])


def p25(ctx):
    wkt = gen_wkt()
    gen = gen_headers(PROTOS)
    set_ = fds(PROTOS)
    san = TSAN
    inc = dyn_inc()
    o0 = ["-O0"] + san[1:]
    more = ["-DVP_READS=7", "-DVP_CHUNKED", "-DVP_WRITES=0x3ff", "-DVP_MERGE", "-DVP_ANY", "-I" + wkt]
    jobs = [tu(p, t, gen, o0, more, None, True) for p, t in [("vp3", D), ("vp2", K(PS)), ("vpe", N)]]
    jobs += dyn_lib(san, wkt) + [lambda: compile_obj(os.path.join(SRC, "p25.cpp"), o0 + inc + ["-I" + wkt, "-I" + gen, '-DVP_FDS="%s"' % set_])]
    objs = parallel(jobs, NCPU)
    ctx.log("compiled %d units" % len(objs))
    exe = link(objs, os.path.join(BUILD, "bin", ctx.pid), san)
    ctx.run_driver(exe, "p25", 4000 if ctx.thorough else 150)
    return finish(ctx, "exploration", "Rounds in which 2 to 8 threads share one const factory, its descriptor pool, six dynamic and six generated const messages: each creates, parses, serializes, copies, merges, compares and looks up in a random order of its own, under ThreadSanitizer; afterwards the same work is done by one thread and must give the same results. Factories are also made concurrently, in the first round as the first use of everything. Distinct by a thread's operation sequence.",
                  ["threads", "factories-made-concurrently", "shared-unchanged"] + ["ops:" + o for o in ("make", "write", "get", "parse", "clone", "lookup", "gen-write", "gen-get", "gen-copy", "gen-merge", "gen-parse", "gen-own", "any")])


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    ctx = Ctx(pid, tier, seed)
    try:
        return globals()[pid.lower()](ctx)
    except HarnessError as e:
        for k, d, path in ctx.violations:
            print("  (seen before the error) %s" % k)
        if ctx.violations and not all(k in known_findings(pid) for k, _, _ in ctx.violations):
            return finish(ctx, "exploration", "incomplete run: " + str(e)[:300])
        print("ERROR of the check: %s" % e)
        return 2
