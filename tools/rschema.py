"""Random .proto schemas. Used by the checks that need many schemas (descriptor pool, generator, embedded descriptors).

A schema set is a list of (file name, text); later files import earlier ones. Sets are meant to be valid; protoc has the last
word, and sets it rejects are dropped (and counted) by the callers."""
import random

SCALARS = "double float int64 uint64 int32 fixed64 fixed32 bool string bytes uint32 sfixed32 sfixed64 sint32 sint64".split()
KEYS = "int64 uint64 int32 fixed64 fixed32 bool string uint32 sfixed32 sfixed64 sint32 sint64".split()
I32 = "int32 sfixed32 sint32".split(); I64 = "int64 sfixed64 sint64".split(); U32 = "uint32 fixed32".split(); U64 = "uint64 fixed64".split()
# words that are special to C++, to the generated code or to the library
HOSTILE = ("alignas and asm auto bitand bitor bool_ break case_ catch char char8_t class compl concept const consteval constexpr constinit continue co_await decltype default_ delete do double_ "
           "else enum_ explicit export extern_ false_ float_ for friend goto if inline int long mutable namespace new noexcept not nullptr operator or private protected public register requires return short signed "
           "sizeof static struct switch template this throw true_ try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor not_eq override final import module "
           "std hpp_proto google Traits traits_type pb_meta unknown_fields_ message_name is_message value type data size string vector optional has_value get set clear index "
           "stdin stdout errno NULL_ EOF_ major minor linux unix main int32_t uint8_t byte boolean meta field_meta oneof_case self other rhs lhs "
           "operator_ merge swap hash equal_to variant monostate string_view span tuple pair first second").split()


KEYWORDS = ("alignas and asm auto bitand bitor break catch char char8_t class compl concept const consteval constexpr constinit continue co_await decltype delete do "
            "else explicit export for friend goto if inline long mutable namespace new noexcept not nullptr operator or private protected public register requires return short signed "
            "sizeof static struct switch template this throw try typedef typeid typename union unsigned using virtual void volatile while xor not_eq double_value case default enum extern false true float int32_value").split()


OPTIONS = """syntax = "proto2";
package vp.opt;
import "google/protobuf/descriptor.proto";
enum E { O0 = 0; O1 = 1; }
message M { optional string s = 1; repeated int64 i = 2; optional M m = 3; optional bytes b = 4; }
extend google.protobuf.FileOptions { optional string file_s = 50001; optional bytes file_b = 50002; optional sfixed64 file_i = 50003; optional M file_m = 50004; repeated string file_r = 50005; }
extend google.protobuf.MessageOptions { optional string msg_s = 50001; }
extend google.protobuf.FieldOptions { optional string field_s = 50001; optional bytes field_b = 50002; optional float field_f = 536870911; optional E field_e = 18999; optional M field_m = 50005; }
"""


WKT = {"timestamp": "Timestamp", "duration": "Duration", "any": "Any", "struct": "Struct Value ListValue", "wrappers": "Int64Value StringValue BytesValue", "field_mask": "FieldMask", "empty": "Empty"}


class Enum:
    def __init__(self, name, full, closed, values, file):
        self.name, self.full, self.closed, self.values, self.file = name, full, closed, values, file


class Msg:
    def __init__(self, name, full, file):
        self.name, self.full, self.file = name, full, file
        self.ranges = []
        self.taken = set()
        self.required = False
        self.order = 0


class Gen:
    # level (for C++): 0 plain names, 1 also C++ keywords where they are mapped, 2 also names that collide; reserved: names with __ or _X
    def __init__(self, seed, hostile=False, level=None, editions=("proto2", "proto3", "2023", "2024"), max_files=4, services=True, big=False, tag="", cycles=True):
        self.r = random.Random(seed)
        self.hostile, self.editions, self.max_files, self.services, self.big = hostile, editions, max_files, services, big
        self.tag = tag
        self.level = level
        self.uid = self.order = 0
        self.cycles = cycles  # whether different messages may need each other

    def ch(self, p):
        return self.r.random() < p

    def ident(self, used, kind):
        r = self.r
        if self.level is not None:
            return self.cpp_ident(used, kind)
        for _ in range(200):
            if self.hostile and self.ch(0.55):
                n = r.choice(HOSTILE)
                if self.ch(0.2):
                    n += r.choice(["_", "_t", "1", "_oneof_case", "s"])
                if self.ch(0.15):
                    n = n.capitalize()
            elif kind == "msg":
                n = r.choice(["Alpha", "Beta", "Gamma", "Delta", "Omega", "Leaf", "Node", "Tree", "Item", "alpha", "Alpha_", "M"]) + r.choice(["", "", str(r.randrange(9)), "X", "_b"])
            elif kind == "enum":
                n = r.choice(["Color", "Kind", "State", "Mode", "E"]) + r.choice(["", str(r.randrange(9)), "_e"])
            elif kind == "value":
                n = r.choice(["ZERO", "ONE", "TWO", "RED", "BLUE", "low", "Mixed", "X", "NEG", "BIG"]) + r.choice(["", "_V", str(r.randrange(99))])
            elif kind == "file":
                n = r.choice(["main", "types", "common", "api", "x"]) + str(r.randrange(99))
            else:
                n = r.choice(["id", "name", "value", "items", "count", "flag", "next", "left", "right", "payload", "fooBar", "foo_bar", "foo__bar", "_lead", "trail_", "UPPER", "a", "b1", "camelCase", "x_1"]) + r.choice(["", "", str(r.randrange(99)), "_" + str(r.randrange(9))])
            js = "json:" + self.json_name(n)
            if n not in used and not (kind == "field" and js in used):
                used.add(n)
                if kind == "field":
                    used.add(js)
                return n
        self.uid += 1
        n = "u%d" % self.uid if kind not in ("msg", "enum") else "U%d" % self.uid
        used.add(n)
        return n

    def cpp_ident(self, used, kind):
        r = self.r
        for _ in range(100):
            if self.level == 2 and self.ch(0.6) and kind != "file":
                n = r.choice(HOSTILE + KEYWORDS)
                if self.ch(0.2):
                    n += r.choice(["_t", "1", "_oneof_case", "_oneof_numbers", "s", "_"])
                if self.ch(0.2) and n[0] != "_":
                    n = n[0].upper() + n[1:]
                if self.ch(0.02):
                    n = r.choice(["_Upper", "dou__ble"])
            elif self.level >= 1 and self.ch(0.5) and kind in ("field", "value"):
                n = r.choice(KEYWORDS)
            elif kind == "msg":
                n = r.choice(["Alpha", "Beta", "Gamma", "Delta", "Omega", "Leaf", "Node", "Tree", "Item", "Box", "M"]) + r.choice(["", "", str(r.randrange(9)), "X", "Y2"])
            elif kind == "enum":
                n = r.choice(["Color", "Kind", "State", "Mode", "E"]) + r.choice(["", str(r.randrange(9)), "Enum"])
            elif kind == "value":
                n = r.choice(["V_ZERO", "V_ONE", "V_TWO", "RED", "BLUE", "V_low", "Mixed", "X_VAL", "V_NEG", "V_BIG"]) + r.choice(["", "_V", str(r.randrange(99))])
            elif kind == "file":
                n = r.choice(["main", "types", "common", "api", "xfile", "a-b"]) + str(r.randrange(99))
            else:
                n = r.choice(["id", "name", "value", "items", "count", "flag", "next", "left", "right", "payload", "fooBar", "foo_bar", "lead", "UPPER", "a", "b1", "camelCase", "x_1"]) + r.choice(["", "", str(r.randrange(99)), "_" + str(r.randrange(9))])
            js = "json:" + self.json_name(n)
            if kind == "ext":
                if n == "value" and self.level < 2:  # documented: refused
                    continue
                js = ""
            if n in used or (kind == "field" and js in used) or (self.level < 2 and "c:" + n in used):
                continue
            used.update([n, "c:" + n, "c:" + n + "_"] + ([js] if kind == "field" else []))
            return n
        self.uid += 1
        n = "u%d" % self.uid if kind not in ("msg", "enum") else "U%d" % self.uid
        used.add(n)
        return n

    @staticmethod
    def json_name(n):
        out, up = "", False
        for c in n:
            if c == "_":
                up = True
            else:
                out += c.upper() if up else c
                up = False
        return out.lower()

    # ---- one set
    def make(self):
        r = self.r
        files, self.enums, self.msgs = [], [], []
        n = r.choice([1, 1, 1, 2, 2, 3, self.max_files])
        fnames = set()
        pk = []
        self.visible = {}
        self.feat_by_file = {}
        self.used_by_pkg = {}
        self.optfile = None
        if self.level is not None and self.ch(0.35):
            self.optfile = "vp_options.proto"
            files.append((self.optfile, OPTIONS))
        for i in range(n):
            name = self.ident(fnames, "file")
            if self.ch(0.3):
                name = r.choice(["d/", "deep/er/", "a-b/"]) + name
            name = name.lower() + ("_%d" % i if not name.endswith("_") else str(i)) + ".proto"
            pkg = r.choice(["", "p", "p", "p.q", "p.q.r", "pkg_%d" % i, "z.y%d" % i])
            if self.level == 1 and self.ch(0.4):
                pkg = r.choice(["p.", ""]) + r.choice(["class", "namespace", "p.export.q", "new.delete", "int.double"])
            if self.level == 2 and self.ch(0.5):
                pkg = ".".join(r.choice(HOSTILE + KEYWORDS) for _ in range(r.randrange(1, 4)))
            if self.hostile and self.ch(0.5):
                pkg = ".".join(r.choice(HOSTILE) for _ in range(r.randrange(1, 4)))
            if self.tag:
                pkg = (self.tag + "." + pkg).rstrip(".") if not self.hostile or self.ch(0.7) else pkg
            files.append((name, self.file(name, pkg, [f[0] for f in files if f[0] != self.optfile])))
        return files

    def feature(self, level, fs):
        """random feature settings for an editions file or field; returns the list of settings and updates fs"""
        r, out = self.r, []
        if level == "file":
            if self.ch(0.3):
                fs["presence"] = r.choice(["EXPLICIT", "IMPLICIT"]); out.append("features.field_presence = " + fs["presence"])
            if self.ch(0.3):
                fs["enum"] = r.choice(["OPEN", "CLOSED"]); out.append("features.enum_type = " + fs["enum"])
            if self.ch(0.3):
                fs["rep"] = r.choice(["PACKED", "EXPANDED"]); out.append("features.repeated_field_encoding = " + fs["rep"])
            if self.ch(0.3):
                fs["utf8"] = r.choice(["VERIFY", "NONE"]); out.append("features.utf8_validation = " + fs["utf8"])
            if self.ch(0.35):
                fs["enc"] = r.choice(["LENGTH_PREFIXED", "DELIMITED"]); out.append("features.message_encoding = " + fs["enc"])
        return out

    def file(self, name, pkg, earlier):
        r = self.r
        ed = r.choice(self.editions)
        self.ed = ed
        fs = {"presence": "EXPLICIT" if ed != "proto3" else "IMPLICIT", "enum": "CLOSED" if ed == "proto2" else "OPEN", "rep": "EXPANDED" if ed == "proto2" else "PACKED",
              "utf8": "NONE" if ed == "proto2" else "VERIFY", "enc": "LENGTH_PREFIXED"}
        self.fs = fs
        L = []
        if ed == "proto2" and self.ch(0.3) and not self.hostile:
            pass  # no syntax line: proto2
        elif ed in ("proto2", "proto3"):
            L.append('syntax = "%s";' % ed)
        else:
            L.append('edition = "%s";' % ed)
        if pkg:
            L.append("package %s;" % pkg)
        imports = [e for e in earlier if self.ch(0.6)]
        public_imports = {}
        for e in imports:
            public_imports[e] = self.ch(0.25)
            L.append('import %s"%s";' % ("public " if public_imports[e] else "", e))
        vis = set([name])
        public = self.__dict__.setdefault("public", {})
        public[name] = set()
        for e in imports:
            vis |= {e} | public[e]
            if public_imports[e]:
                public[name] |= {e} | public[e]
        if self.level is not None and self.ch(0.3):
            for w, ns in r.sample(sorted(WKT.items()), r.choice([1, 2])):
                w = "google/protobuf/%s.proto" % w
                L.append('import "%s";' % w)
                vis.add(w)
                if not any(m.file == w for m in self.msgs):
                    self.msgs += [Msg(x, "google.protobuf." + x, w) for x in ns.split()]
        self.opts = self.optfile is not None and self.ch(0.8)
        if self.opts:
            L.append('import "%s";' % self.optfile)
            for _ in range(r.randrange(0, 3)):
                L.append("option (vp.opt.file_%s) = %s;" % r.choice([("s", self.strlit()), ("b", self.strlit(False)), ("i", "-9223372036854775808"), ("m", "{ s: %s i: [1, 2] m { b: %s } }" % (self.strlit(), self.strlit(False)))]) if not any("vp.opt.file" in l for l in L) else "option (vp.opt.file_r) = %s;" % self.strlit())
        self.vis = vis
        if ed not in ("proto2", "proto3"):
            for f in self.feature("file", fs):
                L.append("option %s;" % f)
        if ed == "2024":
            L.append("option features.enforce_naming_style = STYLE_LEGACY;")
            if self.ch(0.8):
                L.append("option features.default_symbol_visibility = EXPORT_ALL;")
        if self.ch(0.2):
            L.append("option java_package = %s;" % self.strlit())
        if self.ch(0.2):
            L.append("option optimize_for = %s;" % r.choice(["SPEED", "CODE_SIZE", "LITE_RUNTIME"]) if False else "option cc_enable_arenas = true;")
        used = self.used_by_pkg.setdefault(pkg, set())
        self.fname, self.pkg = name, pkg
        # declare first, then define, so that references may go forward
        n_enum, n_msg = r.choice([0, 1, 2]), r.choice([1, 2, 3, 4] + ([8, 12] if self.big else []))
        if self.ch(0.12):
            n_msg = 0  # only enums, or nothing but imports
        tree = []
        for _ in range(n_enum):
            tree.append(self.decl_enum(used, pkg, used))
        for _ in range(n_msg):
            tree.append(self.decl_msg(used, pkg, 0))
        for t in tree:
            L += self.define(t, "")
        if ed != "proto3":
            for _ in range(r.choice([0, 0, 1, 2])):
                L += self.extend(used, "")
        if self.services and self.ch(0.25):
            mm = [m for m in self.msgs if m.file in self.vis]
            L.append("service %s {" % self.ident(used, "msg"))
            mu = set()
            for _ in range(r.randrange(0, 3) if mm else 0):
                L.append("  rpc %s(%s.%s) returns (%s.%s);" % (self.ident(mu, "field"), "stream " if self.ch(0.3) else "", r.choice(mm).full, "stream " if self.ch(0.3) else "", r.choice(mm).full))
            L.append("}")
        return "\n".join(L) + "\n"

    def decl_enum(self, used, scope, value_scope):
        r = self.r
        name = self.ident(used, "enum")
        open_only = self.ed == "proto3"
        closed = self.fs["enum"] == "CLOSED"
        setting = None
        if self.ed not in ("proto2", "proto3") and self.ch(0.35):
            setting = r.choice(["OPEN", "CLOSED"]); closed = setting == "CLOSED"
        n = r.choice([1, 2, 3, 4, 7])
        alias = n > 1 and self.ch(0.2)
        nums, vals = set(), []
        for i in range(n):
            if i == 0 and (open_only or not closed):
                v = 0
            else:
                v = r.choice([0, 1, 2, 3, 4, 5, 7, 10, 127, 128, -1, -2, 2147483647, -2147483648, r.randrange(-1000, 1000)])
            while v in nums and not (alias and i == n - 1):
                v = r.randrange(-100000, 100000)
            if alias and i == n - 1:
                v = r.choice(sorted(nums))
            nums.add(v)
            vals.append((self.ident(value_scope, "value"), v))
        full = (scope + "." if scope else "") + name
        e = Enum(name, full, closed, vals, self.fname)
        self.enums.append(e)
        return ("enum", e, setting, alias)

    def decl_msg(self, used, scope, depth):
        r = self.r
        name = self.ident(used, "msg")
        full = (scope + "." if scope else "") + name
        m = Msg(name, full, self.fname)
        self.msgs.append(m)
        inner = m.taken
        if not self.hostile:
            inner.add(name)
        subs = []
        if depth < 3:
            for _ in range(r.choice([0, 0, 0, 1]) if depth else r.choice([0, 0, 1, 2])):
                subs.append(self.decl_msg(inner, full, depth + 1))
        for _ in range(r.choice([0, 0, 0, 1])):
            subs.append(self.decl_enum(inner, full, inner))
        if self.ed != "proto3" and self.ch(0.3):
            m.ranges = [(100, 199), (1000, 536870911)] if self.ch(0.5) else [(50000, 60000)]
        self.order += 1
        m.order = self.order
        return ("msg", m, subs)

    def define(self, t, ind):
        if t[0] == "enum":
            _, e, setting, alias = t
            L = [ind + "enum %s {" % e.name]
            if alias:
                L.append(ind + "  option allow_alias = true;")
            if setting:
                L.append(ind + "  option features.enum_type = %s;" % setting)
            L += [ind + "  %s = %d;" % v for v in e.values]
            return L + [ind + "}"]
        _, m, subs = t
        L = [ind + ("message %s {" % m.name)]
        if self.level is not None and self.opts and self.ch(0.2):
            L.append(ind + "  option (vp.opt.msg_s) = %s;" % self.strlit())
        for s in subs:
            L += self.define(s, ind + "  ")
        L += self.body(m, ind + "  ")
        for lo, hi in m.ranges:
            L.append(ind + "  extensions %d to %s;" % (lo, "max" if hi == 536870911 else hi))
        if self.ed != "proto3" and self.ch(0.15):
            L += self.extend(m.taken, ind + "  ")
        return L + [ind + "}"]

    def number(self, m, nums, seq):
        r = self.r
        for _ in range(1000):
            if seq is not None:
                seq[0] += r.choice([1, 1, 1, 2, 15, 2000 if self.ch(0.05) else 1])
                n = seq[0]
                if n > 2**29 or any(lo <= n and hi == 536870911 for lo, hi in m.ranges):
                    seq = None
            else:
                n = r.choice([r.randrange(1, 20), r.randrange(1, 20), r.randrange(1, 300), r.randrange(1, 5000), r.randrange(1, 536870912), 536870911, 18999, 20000, 15, 16, 2047, 2048])
            if n in nums or 19000 <= n <= 19999 or any(lo <= n <= hi for lo, hi in m.ranges) or n > 536870911:
                continue
            nums.add(n)
            return n
        raise RuntimeError("no field number left")

    def body(self, m, ind):
        r = self.r
        self.cur = m
        L, nums = [], set()
        seq = [0] if self.ch(0.6) else None
        used = m.taken
        jn = set()
        for _ in range(r.choice([0, 1, 3, 5, 8, 8] + ([30] if self.big else []))):
            k = r.random()
            if k < 0.14:
                oneof = self.ident(used, "field")
                L.append(ind + "oneof %s {" % oneof)
                for _ in range(r.choice([1, 1, 2, 3, 5])):
                    L.append(ind + "  " + self.field(m, used, nums, seq, "oneof", ind + "  "))
                L.append(ind + "}")
            elif k < 0.28:
                key = r.choice(KEYS)
                v = self.value_type(open_only=self.ed == "proto3", closed_ok_implicit=False, back=self.cycles)
                name = self.ident(used, "field")
                used.add(self.entry_name(name))
                opts = []
                L.append(ind + "map<%s, %s> %s = %d;" % (key, v[1], name, self.number(m, nums, seq)))
            else:
                L.append(ind + self.field(m, used, nums, seq, None, ind))
        return L

    @staticmethod
    def entry_name(n):
        return "".join(p[:1].upper() + p[1:] for p in n.split("_")) + "Entry"

    def value_type(self, open_only=False, closed_ok_implicit=True, back=True):
        r = self.r
        k = r.random()
        es = [e for e in self.enums if e.file in self.vis and not (open_only and e.closed) and (closed_ok_implicit or not e.closed or (e.values and e.values[0][1] == 0 and self.fs["presence"] != "IMPLICIT"))]
        # back: references to messages which come after this one, and so may lead back to it
        ms = [m for m in self.msgs if m.file in self.vis and (back or m.order <= self.cur.order)]
        if k < 0.22 and ms:
            m = r.choice(ms)
            return ("msg", "." + m.full, m)
        if k < 0.38 and es:
            e = r.choice(es)
            return ("enum", "." + e.full, e)
        s = r.choice(SCALARS)
        return ("scalar", s, s)

    def strlit(self, utf8=True):
        r = self.r
        out = ""
        for _ in range(r.choice([0, 1, 3, 8, 20])):
            k = r.random()
            if k < 0.5:
                out += chr(r.randrange(32, 127)).replace("\\", "\\\\").replace('"', '\\"')
            elif k < 0.7:
                out += r.choice(["\\n", "\\r", "\\t", "\\\\", "\\'", '\\"', "??/", "??=", "\\?", "%", "{}", "{", "$", ")_\\\"", "*/", "//", "\\a\\b", "\\0", "\\001", "\\1778", "\\x7f"])
            elif utf8:
                out += r.choice(["é", "漢", "𝄞", "\\u00e9", "\\303\\251", "\\xe6\\xbc\\xa2"])
            else:
                out += r.choice(["\\377", "\\xfe", "\\000", "\\x80A", "\\200", "\\xff\\xffF"])
        return '"' + out + '"'

    def default(self, t):
        r = self.r
        kind, text, obj = t
        if kind == "enum":
            return r.choice(obj.values)[0]
        if text == "bool":
            return r.choice(["true", "false"])
        if text == "string":
            return self.strlit()
        if text == "bytes":
            return self.strlit(utf8=False)
        if text in ("float", "double"):
            return r.choice(["0", "-0.0", "1.5", "-2.25", "inf", "-inf", "nan", "1e10", "1e-10", "3.4028235e38", "1e-45", "1.17549435e-38", "1.7976931348623157e308" if text == "double" else "1e38", "0.1", "123456789", "-1e-300" if text == "double" else "-7", "1e39", ".5", "9007199254740993", "4e-320" if text == "double" else "1e-40"])
        if text in I32:
            return str(r.choice([0, 1, -1, 2147483647, -2147483648, r.randrange(-10**6, 10**6)]))
        if text in I64:
            return str(r.choice([0, 1, -1, 9223372036854775807, -9223372036854775808, -9223372036854775807, r.randrange(-10**12, 10**12)]))
        if text in U32:
            return str(r.choice([0, 1, 4294967295, 2147483648, r.randrange(10**6)]))
        return str(r.choice([0, 1, 18446744073709551615, 9223372036854775808, r.randrange(10**12)]))

    def field(self, m, used, nums, seq, where, ind, ext=False):
        r = self.r
        ed = self.ed
        label, opts = "", []
        rep = where is None and self.ch(0.35)
        presence = self.fs["presence"]
        t = None
        if ed == "proto2":
            label = "repeated " if rep else ("" if where == "oneof" else r.choice(["optional ", "optional ", "optional ", "required " if not ext else "optional "]))
        elif ed == "proto3":
            label = "repeated " if rep else ("optional " if where is None and self.ch(0.3) else "")
        else:
            label = "repeated " if rep else ""
        implicit = False
        if ed not in ("proto2", "proto3") and not rep and where is None and not ext:
            if self.ch(0.35):
                presence = r.choice(["EXPLICIT", "IMPLICIT", "LEGACY_REQUIRED"])
                feat_presence = presence
            else:
                feat_presence = None
            implicit = presence == "IMPLICIT"
        else:
            feat_presence = None
        t = self.value_type(open_only=ed == "proto3" or implicit, back=self.cycles)
        if implicit and t[0] == "msg":
            feat_presence = "EXPLICIT" if feat_presence else None
            if feat_presence is None:
                implicit = False
        required = label == "required " or feat_presence == "LEGACY_REQUIRED"
        if required and t[0] == "msg":  # a required field of a type that needs itself has no finite value
            t = ("scalar", "int32", "int32")
        num = self.number(m, nums, seq)
        # groups
        if ed == "proto2" and t[0] == "msg" and self.ch(0.3):
            name = None
            for _ in range(50):
                name = self.ident(used, "msg")
                if name[0].isupper() and name.lower() not in used:
                    break
            else:
                name = None
            if name and name[0].isupper() and name.lower() not in used:
                used.add(name.lower())
                g = Msg(name, m.full + "." + name, self.fname)
                g.taken = set([name]) if not self.hostile else set()
                inner = self.body_simple(g, ind + "  ")
                return "%sgroup %s = %d {\n%s\n%s}" % (label, name, num, "\n".join(inner), ind)
        name = self.ident(used, "field")
        packable = rep and (t[0] == "enum" or t[1] not in ("string", "bytes")) and t[0] != "msg"
        if packable and ed in ("proto2", "proto3") and self.ch(0.4):
            opts.append("packed = " + r.choice(["true", "false"]))
        if ed not in ("proto2", "proto3"):
            if feat_presence:
                opts.append("features.field_presence = " + feat_presence)
            if packable and self.ch(0.4):
                opts.append("features.repeated_field_encoding = " + r.choice(["PACKED", "EXPANDED"]))
            if t[1] == "string" and self.ch(0.3):
                opts.append("features.utf8_validation = " + r.choice(["VERIFY", "NONE"]))
            if t[0] == "msg" and self.ch(0.35):
                opts.append("features.message_encoding = " + r.choice(["LENGTH_PREFIXED", "DELIMITED"]))
        if not rep and t[0] != "msg" and ed != "proto3" and not implicit and self.ch(0.4):
            opts.append("default = " + self.default(t))
        if self.ch(0.08):
            opts.append("deprecated = true")
        if self.ch(0.1) and not ext:
            self.uid += 1
            opts.append('json_name = "%s"' % r.choice(["jsonName%d" % self.uid, "with space%d" % self.uid, "q%d\\\"x" % self.uid]))
        if self.level is not None and self.opts and self.ch(0.15):
            opts.append("(vp.opt.field_%s) = %s" % r.choice([("s", self.strlit()), ("b", self.strlit(False)), ("f", "-1.5e30"), ("e", "O1"), ("m", "{ s: %s m { m { i: 3 } } }" % self.strlit())]))
        return "%s%s %s = %d%s;" % (label, t[1], name, num, " [" + ", ".join(opts) + "]" if opts else "")

    def body_simple(self, g, ind):
        r = self.r
        nums, seq = set(), [0]
        L = []
        for _ in range(r.choice([0, 1, 2, 4])):
            t = self.value_type(back=self.cycles)
            lab = r.choice(["optional", "repeated", "optional"])
            if lab == "optional" and t[0] != "msg" and self.ch(0.3):
                L.append(ind + "%s %s %s = %d [default = %s];" % (lab, t[1], self.ident(g.taken, "field"), self.number(g, nums, seq), self.default(t)))
            else:
                L.append(ind + "%s %s %s = %d;" % (lab, t[1], self.ident(g.taken, "field"), self.number(g, nums, seq)))
        return L

    def extend(self, used, ind):
        r = self.r
        c = [m for m in self.msgs if m.file in self.vis and m.ranges]
        if not c:
            return []
        m = r.choice(c)
        nums = self.__dict__.setdefault("extnums", {}).setdefault(m.full + str(id(m)), set())
        L = [ind + "extend .%s {" % m.full]
        for _ in range(r.choice([1, 1, 2, 3])):
            save, m.ranges = m.ranges, []
            lo, hi = r.choice(save)
            line = None
            fake = Msg(m.name, m.full, m.file)
            for _ in range(20):
                n = r.randrange(lo, min(hi, lo + 3000) + 1)
                if n not in nums and not 19000 <= n <= 19999:
                    nums.add(n)
                    taken = set()
                    seq = [n - 1]
                    # a number chosen here: reuse the field writer with a sequence that yields it
                    class One(list):
                        pass
                    old = self.number
                    self.number = lambda *_a: n
                    g, self.no_groups = None, True
                    try:
                        ed = self.ed
                        line = self.ext_field(used, n)
                    finally:
                        self.number = old
                    break
            m.ranges = save
            if line:
                L.append(ind + "  " + line)
        if len(L) == 1:
            return []
        return L + [ind + "}"]

    def ext_field(self, used, n):
        r, ed = self.r, self.ed
        rep = self.ch(0.35)
        t = self.value_type()
        label = "repeated " if rep else ("optional " if ed == "proto2" else "")
        opts = []
        packable = rep and (t[0] == "enum" or t[1] not in ("string", "bytes")) and t[0] != "msg"
        if packable and ed == "proto2" and self.ch(0.4):
            opts.append("packed = " + r.choice(["true", "false"]))
        if not rep and t[0] != "msg" and self.ch(0.3):
            opts.append("default = " + self.default(t))
        return "%s%s %s = %d%s;" % (label, t[1], self.ident(used, "ext" if self.level is not None else "field"), n, " [" + ", ".join(opts) + "]" if opts else "")


if __name__ == "__main__":
    import sys
    for n, t in Gen(int(sys.argv[1]), hostile=len(sys.argv) > 2).make():
        print("// ----", n)
        print(t)
