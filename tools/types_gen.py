"""Makes types up for C59 (spec/Types.tla, harness/types.cpp): terms, their C++ and the operations on them."""
import random

ATOMS = ["bool", "char", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "float", "double", "string", "wstring", "time"]
CPP = dict(bool="bool", char="char", i8="int8_t", u8="uint8_t", i16="int16_t", u16="uint16_t", i32="int32_t", u32="uint32_t", i64="int64_t", u64="uint64_t",
           float="float", double="double", string="std::string", wstring="std::wstring", time="Time", vector="std::vector", deque="std::deque", list="std::list",
           set="std::set", multiset="std::multiset", unordered_set="std::unordered_set", vector_set="awl::vector_set", map="std::map", unordered_map="std::unordered_map",
           pair="std::pair", optional="std::optional", atomic="std::atomic", shared_ptr="std::shared_ptr", unique_ptr="std::unique_ptr", variant="std::variant")
RANGES = ["vector", "deque", "list", "set", "multiset", "unordered_set", "vector_set"]
POINTERS = ["shared_ptr", "unique_ptr", "pointer"]


def cpp(t):
    k = t[0]
    if k == "struct":
        return f"S{t[1]}"
    if k == "dec":
        return f"awl::decimal<uint64_t, {t[1]}>"
    if k == "enum":
        return f"E{t[1]}"
    if k == "array":
        return f"std::array<{cpp(t[1])}, {t[2]}>"
    if k == "pointer":
        return f"{cpp(t[1])} *"
    if k == "variant":
        return f"std::variant<{', '.join(map(cpp, t[1]))}>"
    return CPP[k] + (f"<{', '.join(map(cpp, t[1:]))}>" if len(t) > 1 else "")


def text(t):
    return '"' + t + '"' if isinstance(t, str) else str(t) if isinstance(t, int) else "[" + ",".join(map(text, t)) + "]"


class Maker:
    def __init__(self, seed):
        self.r, self.structs = random.Random(seed), []

    def atom(self):
        return self.r.choice([[a] for a in ATOMS] + [["dec", 4], ["dec", 5], ["dec", 12], ["enum", 8], ["enum", 32]] + [["i32"], ["string"]])

    def term(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.1:
            return r.choice(self.structs) if self.structs and r.random() < 0.25 else self.atom()
        k = r.choice(RANGES + ["vector"] + ["map", "unordered_map", "pair", "optional", "atomic", "array", "array", "variant"] + POINTERS)
        if k == "atomic":
            return [k, r.choice([["bool"], ["i32"], ["u64"], ["double"]])]
        if k == "array":
            return [k, self.term(depth - 1), r.choice([1, 2, 3, 9, 10, 35, 99])]
        if k == "variant":
            v = []
            for _ in range(r.randint(1, 4)):
                x = self.term(depth - 1)
                if x not in v:
                    v.append(x)
            return [k, v]
        return [k] + [self.term(depth - 1) for _ in range(2 if k in ("map", "unordered_map", "pair") else 1)]

    def struct(self):
        t = ["struct", len(self.structs), [self.term(self.r.randint(0, 2)) for _ in range(self.r.randint(1, 6))],
             [self.term(self.r.randint(0, 1)) for _ in range(self.r.choice([0, 0, 0, 1, 3]))]]
        self.structs.append(t)
        return t

    def all(self, structs, terms):
        for _ in range(structs):
            self.struct()
        ts = [[a] for a in ATOMS] + [["dec", 4], ["dec", 5], ["dec", 12], ["enum", 8], ["enum", 32]] + self.structs
        ts += [[k, ["i32"]] for k in RANGES + POINTERS + ["optional", "atomic"]] + [["array", ["u8"], 5], ["pair", ["i8"], ["double"]], ["map", ["string"], ["i32"]]]
        ts += [[k, ["string"]] for k in RANGES + POINTERS + ["optional"]] + [["array", ["string"], 10]]
        for n in range(terms):
            t = self.term(1 + n % 3)
            if t not in ts:
                ts.append(t)
        ops = []
        for t in ts:
            ops += [(["collect", t], f"list<mp::variant_from_struct<{cpp(t)}>>()"), (["name", t], f"name<{cpp(t)}>()")]
        for t in self.structs:
            c = f"mp::split_variant<mp::variant_from_struct<{cpp(t)}>, mp_struct>"
            ops.append((["split", t], f"Val::t(list<{c}::matching>(), list<{c}::non_matching>())"))
        ops += [(["split", t], f"split<{cpp(t)}>()") for t in ts[:8]]
        for _ in range(structs):
            s = [self.r.choice(ts) for _ in range(self.r.randint(1, 3))]
            ops.append((["together", s], f"list<mp::variant_from_structs<{', '.join(map(cpp, s))}>>()"))
            few = [self.r.choice(ts) for _ in range(3)]
            s = [self.r.choice(few) for _ in range(self.r.randint(1, 7))]
            v = f"mp::tuple_to_variant<std::tuple<{', '.join(map(cpp, s))}>>"
            ops.append((["distinct", s], f"list<{v}>()"))
            ops += [(["find", s, x], f"find<{v}, {cpp(x)}>()") for x in few]
        return ops

    def source(self, ops):
        out = []
        for t in self.structs:
            m = [f"m{i}" for i in range(len(t[2]))]
            out.append(f"struct S{t[1]} {{ " + " ".join(f"{cpp(x)} {n};" for n, x in zip(m, t[2])) + f" AWL_REFLECT({', '.join(m)}) }};")
            out.append(f"template <> struct Term<S{t[1]}> {{ static Val get() {{ return parse(R\"({text(t)})\"); }} }};")
            if t[3]:
                out.append(f"namespace awl::mp {{ template <> struct type_converter<S{t[1]}> {{ using extra_tuple = std::tuple<{', '.join(map(cpp, t[3]))}>; }}; }}")
        n = 60
        chunks = [ops[i:i + n] for i in range(0, len(ops), n)]
        for i, c in enumerate(chunks):
            out.append(f"inline void fill{i}(Table& t) {{\n" + "\n".join(f'    t.push_back({{ R"({text(o)})", []() -> Val {{ return {e}; }} }});' for o, e in c) + "\n}")
        out.append("inline void fill(Table& t) { " + " ".join(f"fill{i}(t);" for i in range(len(chunks))) + " }")
        return "\n".join(out) + "\n"


def make(seed, structs, terms):
    m = Maker(seed)
    ops = m.all(structs, terms)
    return m.source(ops), len(ops)
