"""Generates families of structures: an old and a new version of each, as C++ for harness/vts.h and as JSON for spec/VtsTrace.tla."""
import json, random, struct

SCALARS = {  # tag: (C++ type, stored type name)
    "i16": ("int16_t", "int16_t"), "i32": ("int32_t", "int32_t"), "u32": ("uint32_t", "int32_t"), "i64": ("int64_t", "int64_t"),
    "i8": ("int8_t", "int8_t"), "bool": ("bool", "int8_t"), "enum": ("vts::Colour", "int8_t"), "f32": ("float", "float32_t"), "f64": ("double", "float64_t"),
    "str": ("std::string", "sequence<int8_t>"), "dec": ("awl::decimal<uint64_t, 4>", "decimal"), "time": ("std::chrono::system_clock::time_point", "int64_t"),
    "set": ("std::set<int32_t>", "sequence<int32_t>"), "atomic": ("std::atomic<int32_t>", "int32_t"), "uptr": ("std::unique_ptr<std::string>", "pointer<sequence<int8_t>>")}

ARITHMETIC = ("i16", "i32", "u32", "i64", "i8", "bool", "f32", "f64")


def name(t):
    """The stored name of a type"""
    k = t[0]
    if k == "s": return SCALARS[t[1]][1]
    if k == "t": return "struct"
    if k == "v": return f"sequence<{name(t[1])}>"
    if k == "a": return f"array<{name(t[1])}, 2>"
    if k == "o": return f"optional<{name(t[1])}>"
    if k == "p": return f"pointer<{name(t[1])}>"
    if k == "m": return f"sequence<pair<{name(t[1])}, {name(t[2])}>>"
    if k == "x": return "variant<" + "".join(name(x) + ", " for x in t[1:]) + ">"


def cpp(t, ns):
    k = t[0]
    if k == "s": return SCALARS[t[1]][0]
    if k == "t": return f"{ns}::{t[1]}"
    if k == "v": return f"std::vector<{cpp(t[1], ns)}>"
    if k == "a": return f"std::array<{cpp(t[1], ns)}, 2>"
    if k == "o": return f"std::optional<{cpp(t[1], ns)}>"
    if k == "p": return f"std::shared_ptr<{cpp(t[1], ns)}>"
    if k == "m": return f"std::map<{cpp(t[1], ns)}, {cpp(t[2], ns)}>"
    if k == "x": return "std::variant<" + ", ".join(cpp(x, ns) for x in t[1:]) + ">"


def inner(t):
    """Types that a type mentions, itself included"""
    yield t
    for x in t[1:]:
        if isinstance(x, list):
            yield from inner(x)


class Family:
    def __init__(self, rng, k):
        self.r, self.k = rng, k
        n = rng.choice([2, 3, 3, 4])
        self.changed = rng.random() < 0.35          # some field changes its type
        self.structs = [chr(65 + i) for i in range(n)]
        self.old, self.new, self.ren = {}, {}, {}
        self.twin = {}                               # an old structure that became two new ones
        self.split = k % 4 == 3 or rng.random() < 0.1
        self.changed = self.changed and not self.split
        self.owner = rng.random() < 0.3              # the top structure cannot be copied
        for i in reversed(range(n)):
            self.make(i)

    def type(self, i, depth=0, top=False):
        r = self.r
        below = self.structs[i + 1:]
        c = r.random()
        if depth > 1 or c < 0.5:
            if top and self.owner and i == 0 and r.random() < 0.3:
                return ["s", r.choice(["atomic", "uptr"])]
            return ["s", r.choice([x for x in SCALARS if x not in ("atomic", "uptr")])]
        if below and c < 0.65:
            return ["t", r.choice(below)]
        k = r.choice("vvvaooopmxx")
        sub = lambda: self.type(i, depth + 1)
        if k == "m":
            return ["m", ["s", r.choice(["i32", "str"])], sub()]
        if k == "x":
            a = sub()
            for _ in range(20):
                b = sub()
                if cpp(b, "n") != cpp(a, "n"):
                    return ["x", a, b]
            return a
        a = sub()
        if k in "va" and a in (["s", "bool"], ["s", "enum"]):
            a = ["s", "i32"]
        return [k, a]

    def twins(self, t):
        """The type with some structures replaced with their twins"""
        if t[0] == "t":
            return ["t", self.twin[t[1]] if t[1] in self.twin and self.r.random() < 0.5 else t[1]]
        return [t[0]] + [self.twins(x) if isinstance(x, list) else x for x in t[1:]]

    def plain(self, t):
        """The opposite"""
        back = {b: a for a, b in self.twin.items()}
        if t[0] == "t":
            return ["t", back.get(t[1], t[1])]
        return [t[0]] + [self.plain(x) if isinstance(x, list) else x for x in t[1:]]

    def make(self, i):
        r, s = self.r, self.structs[i]
        n = r.choice([1, 2, 3, 4, 5, 6, 12])      # the reader does not compile with an empty structure
        old = [[f"f{j}", self.type(i, top=True)] for j in range(n)]
        if i == 0 and self.structs[1:]:             # the top one holds the others
            old[0][1] = r.choice([["v", ["t", self.structs[1]]], ["t", self.structs[1]], ["o", ["t", self.structs[1]]]])
            if self.split:                          # and one of them in two places
                old = old[:1] + [["f_split", ["t", self.structs[1]]]] + old[1:]
        if n > 6:
            old = [[f, t if j < 2 else ["s", r.choice([x for x in SCALARS if x not in ("atomic", "uptr")])]] for j, (f, t) in enumerate(old)]
        self.old[s] = old
        self.derive(i, old, s)
        if self.split and i > 0:
            self.twin[s] = s + "2"
            self.derive(i, old, s + "2")

    def derive(self, i, old, s):
        """A new version of the structure"""
        r = self.r
        new, ren = [], {}
        same = r.random() < 0.15
        for f, t in old:
            if f == "f_split":
                new.append([f, ["t", r.choice([self.structs[1], self.twin[self.structs[1]]])]])
                continue
            if not same and r.random() < 0.22:
                continue
            g, u = f, t
            if not same and r.random() < 0.12:
                g = "renamed_" + f
                ren[f] = g
            if self.changed and r.random() < 0.12:
                for _ in range(50):
                    u = self.type(i, top=True)
                    if name(u) != name(t) and t[0] != "x":
                        break
                else:
                    u = t
            new.append([g, self.twins(u)])
        if not same:
            for j in range(r.choice([0, 0, 1, 1, 2, 3])):
                new.append([f"g{j}", self.type(i, top=True)])
            if r.random() < 0.6:
                r.shuffle(new)
        if not new:
            new = [["g0", self.type(i, top=True)]]
        self.new[s], self.ren[s] = new, ren

    def scalar_default(self, tag, j):
        """(C++ initialiser, dumped text)"""
        if tag in ("i16", "i32", "u32", "i64", "i8", "atomic"): return f" = {j + 7}" if tag != "atomic" else f"{{ {j + 7} }}", str(j + 7)
        if tag == "bool": return " = true", "1"
        if tag == "enum": return " = vts::Colour::Blue", "2"
        if tag == "f32": return f" = {j + 1.5}f", struct.pack("<f", j + 1.5).hex()
        if tag == "f64": return f" = {j + 2.5}", struct.pack("<d", j + 2.5).hex()
        if tag == "str": return f' = "d{j}"', f"d{j}".encode().hex()
        if tag == "set": return " = { 3, 5 }", "3,5,"
        if tag == "dec": return "", "0"
        if tag == "time": return "", "0"
        if tag == "uptr": return "", "null"

    ZERO = {"f32": "00000000", "f64": "0000000000000000", "str": "", "set": "", "uptr": "null"}

    def zero(self, t, schema):
        k = t[0]
        if k == "s": return ["s", self.ZERO.get(t[1], "0")]
        if k == "t": return ["t"] + [f[2] for f in schema[t[1]]]
        if k == "a": return ["a", self.zero(t[1], schema), self.zero(t[1], schema)]
        if k == "x": return ["x", "0", self.zero(t[1], schema)]
        return [k]

    def default(self, t, j, schema):
        return ["s", self.scalar_default(t[1], j)[1]] if t[0] == "s" else self.zero(t, schema)

    def variant(self, ns, which):
        """All the structures and the types of all fields, in any order"""
        ts = []
        add = lambda c: c not in ts and ts.append(c)
        for s in which[0]:
            add(f"{ns}::{s}")
        for v in which:
            for s in v:
                for f in v[s]:
                    if f[1][0] != "t":
                        add(cpp(f[1], ns))
        self.r.shuffle(ts)
        return ts

    def collect(self, schema, s, seen):
        """The names of the types that variant_from_struct finds"""
        out = set()
        if s in seen:
            return out
        seen.add(s)

        def walk(t):
            k = t[0]
            if k == "t":
                out.update(self.collect(schema, t[1], seen))
                return
            out.add(name(t))
            if k in "va" and t[1][0] == "s" and t[1][1] in ARITHMETIC:
                return
            for x in t[1:]:
                if isinstance(x, list):
                    walk(x)
        for f in schema[s]:
            walk(f[1])
        return out

    def emit(self):
        o = [f"namespace family{self.k}", "{"]
        schema = {}
        js = dict(old={}, new={}, ren=self.ren, base={s: s.rstrip("2") for s in self.new})
        for ns, v in (("o", self.old), ("n", self.new)):
            o += [f"namespace {ns}", "{"]
            schema = {}
            for s in [x for y in reversed(self.structs) for x in (y, y + "2") if x in v]:
                o.append(f"    struct {s}\n    {{")
                schema[s] = []
                for j, f in enumerate(v[s]):
                    t = f[1]
                    init = self.scalar_default(t[1], j)[0] if t[0] == "s" else "{}" if t[0] == "a" and t[1][0] == "s" else ""
                    o.append(f"        {cpp(t, ns)} {f[0]}{init};")
                    schema[s].append([f[0], t, self.default(t, j, schema)])
                o.append(f"        AWL_REFLECT({', '.join(f[0] for f in v[s])})\n    }};")
            o.append("}")
            js["old" if ns == "o" else "new"] = schema
        js["zero"] = []
        self.js = js
        old_v, new_v = self.variant("o", [self.old]), self.variant("n", [self.new, self.old])
        o.append(f"using VO = std::variant<{', '.join(old_v)}>;\nusing VN = std::variant<{', '.join(new_v)}>;")
        whole = self.collect(self.old, "A", set()) <= self.collect(self.new, "A", set())
        o.append("}")
        if not whole:       # the types of the removed fields are declared as extra types of the top structure
            extra = [f"n::{s}" for s in self.new]
            for s in self.new:
                for f in self.old.get(s, []) + self.new[s]:
                    if f[1][0] != "t" and cpp(f[1], "n") not in extra:
                        extra.append(cpp(f[1], "n"))
            ns = f"family{self.k}::"
            o.append(f"template <> struct awl::mp::type_converter<{ns}n::A> {{ using extra_tuple = std::tuple<{', '.join(x.replace('n::', ns + 'n::') for x in extra)}>; }};")
        o.append(f"namespace family{self.k} {{ using VO1 = awl::mp::variant_from_struct<o::A>; using VN1 = awl::mp::variant_from_struct<n::A>; }}")
        for s in self.new:
            if self.ren[s]:
                o.append(f"template <> class awl::io::FieldMap<family{self.k}::n::{s}>\n{{\npublic:\n    static std::string_view GetNewName(std::string_view old_name)\n    {{")
                o += [f'        if (old_name == "{a}") return "{b}";' for a, b in self.ren[s].items()]
                o.append("        return old_name;\n    }\n};")
        return "\n".join(o)


def generate(seed, count, path_cpp, path_json, first=0):
    rng = random.Random(seed)
    fams = [Family(rng, k) for k in range(count)]
    text = ['#include "vts.h"'] + [f.emit() for f in fams]
    text.append("int main(int argc, char** argv)\n{\n    return vts::main(argc, argv, {" + ", ".join(
        f"&vts::run<family{f.k}::o::A, family{f.k}::n::A, family{f.k}::VO, family{f.k}::VN, family{f.k}::VO1, family{f.k}::VN1>" for f in fams) + "});\n}\n")
    open(path_cpp, "w").write("\n".join(text))
    json.dump([f.js for f in fams], open(path_json, "w"))
    return fams


if __name__ == "__main__":
    import sys
    generate(int(sys.argv[1]), int(sys.argv[2]), "/tmp/vts.cpp", "/tmp/vts.json")
