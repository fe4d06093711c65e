#!/usr/bin/env python3
"""Writes sim/src/subjects_gen.rs: real types with the derives and serde attributes users combine.
Deterministic; the output is committed."""
import random

R = random.Random(20240501)
out = []
stat = []
types = []  # (name, described, hashed, recursive, zero)

PRIM = ["bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "String",
        "serde_bytes::ByteBuf", "()", "dlhn::BigUint", "dlhn::BigInt", "dlhn::BigDecimal",
        "dlhn::Date", "dlhn::DateTime"]
ADAPT = [("num_bigint::BigUint", "dlhn::format::big_uint"), ("num_bigint::BigInt", "dlhn::format::big_int"),
         ("bigdecimal::BigDecimal", "dlhn::format::big_decimal"), ("time::Date", "dlhn::format::date"),
         ("time::OffsetDateTime", "dlhn::format::date_time")]
SKIP = ["u8", "String", "Option<u32>", "Vec<bool>", "bool", "Hidden", "Hidden"]


class T:
    def __init__(s, name, zero=False, hashed=False, described=True, recursive=False):
        s.name, s.zero, s.hashed, s.described, s.recursive = name, zero, hashed, described, recursive


pool = []


def ty(depth=0, hashed=True, described=True):
    k = R.random()
    if depth >= 3 or k < 0.5:
        if pool and R.random() < 0.3:
            c = [p for p in pool if (hashed or not p.hashed) and (p.described or not described) and not p.recursive]
            if c:
                return R.choice(c)
        n = R.choice(PRIM)
        if not described and R.random() < 0.2:
            return T("char", described=False)
        return T(n, zero=n == "()")
    a = ty(depth + 1, hashed, described)
    if k < 0.6:
        return T(f"Option<{a.name}>", hashed=a.hashed, described=a.described)
    if k < 0.72:
        if a.zero:
            a = T("u32")
        return T(f"Vec<{a.name}>", hashed=a.hashed, described=a.described)
    if k < 0.79:
        return T(f"BTreeMap<String, {a.name}>", hashed=a.hashed, described=a.described)
    if k < 0.84 and hashed:
        return T(f"HMap<{a.name}>", hashed=True, described=a.described)
    if k < 0.9 and not described:
        return T(f"Box<{a.name}>", zero=a.zero, hashed=a.hashed, described=False)
    n = R.randint(1, 5)
    parts = [a] + [ty(depth + 1, hashed, described) for _ in range(n - 1)]
    return T("(" + ", ".join(p.name for p in parts) + ",)", zero=all(p.zero for p in parts),
             hashed=any(p.hashed for p in parts), described=all(p.described for p in parts))


class F:
    """A field: type, attributes, carried or skipped."""
    def __init__(s, t, attrs=(), carried=True):
        s.t, s.attrs, s.carried = t, list(attrs), carried


def field(named, hashed=True, described=True, skips=True):
    r = R.random()
    if r < 0.14:
        n, m = R.choice(ADAPT)
        a = [f'with = "{m}"']
        return F(T(n), a)
    if skips and r < 0.24:
        a = R.choice([["skip"], ["skip"], ["skip_serializing", "skip_deserializing"], ["default", "skip"],
                      ["skip_deserializing", "skip_serializing"], ["skip", "rename = \"zz\""], ["rename = \"zz\"", "skip"],
                      ["default", "skip_serializing", "skip_deserializing"], ["alias = \"yy\"", "skip"]])
        if not named:
            a = R.choice([["skip"], ["default", "skip"], ["skip_serializing", "skip_deserializing"]])
        return F(T(R.choice(SKIP)), a, False)
    f = F(ty(0, hashed, described))
    if named and R.random() < 0.1:
        f.attrs.append(f'rename = "r{R.randint(0, 10**6)}"')
    if named and R.random() < 0.08:
        f.attrs.append("default") if not f.t.name.startswith(("dlhn", "time", "num", "bigd")) and f.t.name in PRIM + SKIP else None
    return f


def attr(a, ind):
    if not a:
        return ""
    if a[0] == "|":  # as given: attributes separated by |, in front of and behind others
        return "".join(f"{ind}#[serde({x})]\n" if not x.startswith(("#", "//")) else f"{ind}{x}\n" for x in a[1:])
    if len(a) > 1 and R.random() < 0.4:  # split over several attributes
        return "".join(f"{ind}#[serde({x})]\n" for x in a)
    return f"{ind}#[serde({', '.join(a)})]\n"


def members(fs, named, pub="pub "):
    s = ""
    for i, f in enumerate(fs):
        a = attr(f.attrs, "    ")
        s += f"{a}    {pub}f{i}: {f.t.name},\n" if named else f"{a}    {pub}{f.t.name},\n"
    return s


def schemas(fs):
    return "vec![" + ", ".join(f"<{f.t.name} as Model>::schema()" for f in fs if f.carried) + "]"


def build(fs, named, src):
    parts, i = [], 0
    for j, f in enumerate(fs):
        e = "Default::default()"
        if f.carried:
            e = f"<{f.t.name} as Model>::from_val(&{src}[{i}])"
            i += 1
        parts.append(f"f{j}: {e}" if named else e)
    return (" { " + ", ".join(parts) + " }") if named else ("(" + ", ".join(parts) + ")")


def derives(described):
    return "#[derive(Serialize, Deserialize)]\n" + ("#[cfg_attr(feature = \"derived\", derive(SerializeHeader))]\n" if described else "")


def finish(name, fs, described, extra_hashed=False, recursive=False, zero=False):
    hashed = extra_hashed or any(f.t.hashed and f.carried for f in fs)
    stat.append((name, described, hashed, recursive))
    if not recursive:
        pool.append(T(name, zero=zero, hashed=hashed, described=described))


def struct(name, fs, named, described=True, cattr=()):
    if not named and fs:
        body = "(\n" + members(fs, False) + ");\n"
    elif named:
        body = " {\n" + members(fs, True) + "}\n"
    else:
        body = ";\n"
    carried = [f for f in fs if f.carried]
    out.append(derives(described) + attr(list(cattr), "") + f"pub struct {name}{body}")
    transparent = "transparent" in cattr
    if named:
        sch = f"Schema::structure({schemas(fs)})"
    elif not fs:
        sch = "Schema::UnitStruct"
    elif len(fs) == 1 and fs[0].carried:
        sch = f"Schema::Newtype(Arc::new(<{fs[0].t.name} as Model>::schema()), true)"
    else:
        sch = f"Schema::TupleStruct(Arc::new({schemas(fs)}))"
    newtype = not named and len(fs) == 1 and fs[0].carried
    if not named and not fs:
        frm, to = name, "Val::Unit"
    elif newtype:
        frm = f"{name}(<{fs[0].t.name} as Model>::from_val(v))"
        to = "self.0.to_val()"
    else:
        frm = f"match v {{ Val::Tup(v) => {name}{build(fs, named, 'v')}, _ => unreachable!() }}"
        to = "Val::Tup(vec![" + ", ".join(
            f"self.{'f' if named else ''}{i}.to_val()" for i, f in enumerate(fs) if f.carried) + "])"
    out.append(f"""impl Model for {name} {{
    fn schema() -> Schema {{ {sch} }}
    #[allow(unused_variables)]
    fn from_val(v: &Val) -> Self {{ {frm} }}
    fn to_val(&self) -> Val {{ {to} }}
}}
""")
    finish(name, fs, described, zero=all(f.t.zero for f in carried))


def enum(name, vs, described=True, cattr=(), disc=None):
    """vs: list of (kind, fields, attrs, carried); kind in unit/tuple/struct"""
    s = derives(described) + attr(list(cattr), "") + f"pub enum {name} {{\n"
    for i, (k, fs, at, carried) in enumerate(vs):
        s += attr(at, "    ")
        if k == "unit":
            s += f"    V{i}{disc[i]},\n" if disc else f"    V{i},\n"
        elif k == "tuple":
            s += f"    V{i}(\n" + members(fs, False, "") + "    ),\n"
        else:
            s += f"    V{i} {{\n" + members(fs, True, "") + "    },\n"
    out.append(s + "}\n")
    sch, frm, to = [], [], []
    idx = 0
    allf = []
    for i, (k, fs, at, carried) in enumerate(vs):
        if not carried:
            pat = "" if k == "unit" else ("(..)" if k == "tuple" else " { .. }")
            to.append(f"{name}::V{i}{pat} => unreachable!()")
            continue
        allf += fs
        c = [f for f in fs if f.carried]
        if k == "unit" or (k == "tuple" and len(fs) == 1 and not c):
            kind = "VKind::Unit"
            pat = "" if k == "unit" else "(_)"
            mk = "" if k == "unit" else "(Default::default())"
            f = f"{name}::V{i}{mk}"
            t = "Val::Unit"
        elif k == "tuple" and len(fs) == 1:
            kind = f"VKind::Newtype(<{fs[0].t.name} as Model>::schema())"
            pat = "(a)"
            f = f"{name}::V{i}(<{fs[0].t.name} as Model>::from_val(p))"
            t = "a.to_val()"
        else:
            kind = ("VKind::Tuple" if k == "tuple" else "VKind::Struct") + f"({schemas(fs)})"
            if k == "tuple":
                pat = "(" + ", ".join(f"a{j}" if x.carried else "_" for j, x in enumerate(fs)) + ")"
            else:
                pat = " { " + ", ".join(f"f{j}: " + (f"a{j}" if x.carried else "_") for j, x in enumerate(fs)) + " }"
            f = f"match &**p {{ Val::Tup(v) => {name}::V{i}{build(fs, k == 'struct', 'v')}, _ => unreachable!() }}"
            if not fs:
                pat = "()" if k == "tuple" else " {}"
                f = f"{name}::V{i}{pat}"
            t = "Val::Tup(vec![" + ", ".join(f"a{j}.to_val()" for j, x in enumerate(fs) if x.carried) + "])"
        sch.append(f"Variant {{ index: {i}, kind: {kind} }}")
        frm.append(f"Val::Enum({idx}, p) => {{ let _ = p; {f} }}")
        to.append(f"{name}::V{i}{pat} => Val::Enum({idx}, Box::new({t}))")
        idx += 1
    out.append(f"""impl Model for {name} {{
    fn schema() -> Schema {{ Schema::Enum(Arc::new(vec![{', '.join(sch)}])) }}
    fn from_val(v: &Val) -> Self {{ match v {{ {', '.join(frm)}, _ => unreachable!() }} }}
    fn to_val(&self) -> Val {{ match self {{ {', '.join(to)} }} }}
}}
""")
    finish(name, allf, described)


def variant(hashed=True, described=True):
    r = R.random()
    a = [f'rename = "w{R.randint(0, 10**6)}"'] if R.random() < 0.1 else []
    if r < 0.2:
        return ("unit", [], a, True)
    if r < 0.45:
        return ("tuple", [field(False, hashed, described, False)], a, True)
    if r < 0.7:
        return ("tuple", [field(False, hashed, described) for _ in range(R.randint(2, 4))], a, True)
    return ("struct", [field(True, hashed, described) for _ in range(R.randint(0, 4))], a, True)


n = 0
def fresh(p):
    global n
    n += 1
    return f"{p}{n}"


# ---- random shapes
for i in range(42):
    described = i % 6 != 5
    hashed = i % 4 == 0
    k = R.random()
    if k < 0.42:
        ca = R.choice([[], [], ["rename_all = \"camelCase\""], ["deny_unknown_fields"], ["rename = \"X\""]])
        struct(fresh("Rec"), [field(True, hashed, described) for _ in range(R.randint(0, 7))], True, described, ca)
    elif k < 0.55:
        struct(fresh("Tup"), [field(False, hashed, described) for _ in range(R.randint(2, 5))], False, described)
    elif k < 0.62:
        struct(fresh("New"), [field(False, hashed, described, False)], False, described)
    else:
        enum(fresh("Alt"), [variant(hashed, described) for _ in range(R.randint(1, 7))], described,
             R.choice([[], ["rename_all = \"snake_case\""]]))

# ---- special shapes
U8, U16, U32, U64, I16, I32, S, B = (T(x) for x in ["u8", "u16", "u32", "u64", "i16", "i32", "String", "bool"])
f = F
sk = lambda t="u8": F(T(t), ["skip"], False)
struct("Nothing", [], False)
struct("EmptyRec", [], True)
struct("Only", [f(S)], False)
struct("Clear", [f(T("Vec<u16>"))], False, True, ["transparent"])
struct("AllSkipped", [sk(), sk("String")], True)
struct("SkipFirst", [sk(), f(U16), f(S)], True)
struct("SkipMiddle", [f(U16), sk("Vec<bool>"), f(S)], True)
struct("SkipLast", [f(U16), f(S), sk("Option<u32>")], True)
struct("SkipTuple", [f(U32), sk("String"), f(I32)], False)
struct("SkipTupleOne", [sk("String"), f(I32)], False)
struct("SkipMany", [sk() if i % 3 else f(T(PRIM[i % 12])) for i in range(20)], True)
enum("Single", [("unit", [], [], True)])
enum("EmptyKinds", [("tuple", [], [], True), ("struct", [], [], True), ("unit", [], [], True), ("tuple", [f(U8)], [], True)])
enum("SkippedTail", [("unit", [], [], True), ("tuple", [f(S)], [], True), ("unit", [], ["skip"], False)])
enum("SkippedTail2", [("tuple", [f(U64), f(S)], [], True), ("struct", [f(I16)], [], True),
                      ("tuple", [f(U8)], ["skip"], False), ("struct", [f(S), f(U8)], ["skip"], False)])
enum("SkippedMembers", [("struct", [sk(), f(U16)], [], True), ("struct", [sk(), sk("String")], [], True),
                        ("tuple", [f(S), sk()], [], True), ("tuple", [sk("String"), f(I32), f(U16)], [], True),
                        ("tuple", [sk()], [], True), ("struct", [f(U8), sk("Vec<bool>"), f(S), f(B)], [], True)])
enum("Nested", [("tuple", [f(T("Option<SkippedMembers>"))], [], True), ("struct", [f(T("Vec<SkippedTail>")), f(T("Nothing"))], [], True),
                ("tuple", [f(T("Only")), f(T("EmptyRec"))], [], True)])
SKIPS = [["|", "skip"], ["|", "default, skip"], ["|", "skip, default"], ["|", "default", "skip"], ["|", "skip", "default"],
         ["|", "rename = \"q\", skip"], ["|", "rename = \"q\"", "skip"], ["|", "skip_serializing, skip_deserializing"],
         ["|", "skip_deserializing, skip_serializing"], ["|", "skip_deserializing", "skip_serializing"],
         ["|", "skip_serializing", "skip_deserializing"], ["|", "default, skip_deserializing, skip_serializing"],
         ["|", "/// Not part of the value.", "skip"], ["|", "#[allow(dead_code)]", "skip", "#[doc(hidden)]"],
         ["|", "#[cfg_attr(all(), serde(skip))]"], ["|", "default = \"Default::default\"", "#[allow(unused)]", "skip"],
         ["|", "default = \"Default::default\", skip"], ["|", "skip,"], ["|", "", "skip"],
         ["|", "with = \"dlhn::format::date\", skip_serializing, skip_deserializing"]]
def skips(named):
    # rename is for named members; `with` needs no matching type when nothing is written
    return [F(T("u8"), a, False) for a in SKIPS if "with" not in a[1] and (named or "rename" not in a[1])]
def mixed(named):
    r = []
    for i, x in enumerate(skips(named)):
        r += [x, F(T(["u8", "u16", "String", "bool"][i % 4]))]
    return r
struct("SkipSpellings", mixed(True), True)
struct("SkipSpellingsTuple", mixed(False), False)
enum("SkipSpellingsAlt", [("struct", mixed(True), [], True), ("tuple", mixed(False), [], True)]
     + [("struct", [x, F(T("u16"))], [], True) for x in skips(True)] + [("tuple", [F(T("u16")), x, F(T("String"))], [], True) for x in skips(False)]
     + [("struct", [x], [], True) for x in skips(True)])
for i, a in enumerate(SKIPS):
    if "default" in a[1] or "with" in a[1] or any("default" in x for x in a):
        continue
    enum(f"SkipSpellingsTail{i}", [("unit", [], [], True), ("tuple", [F(T("u16"))], [], True), ("tuple", [F(T("u8"))], a, False)])
struct("Kept", [F(T("u8"), a) for a in (["|", "default"], ["|", "/// skip"], ["|", "#[allow(dead_code)]"],
                                        ["|", "#[doc = \"serde(skip)\"]", "default"], ["|", "rename = \"skip_serializing\""])]
       + [F(T("String"))], True)
enum("Numbered", [("unit", [], [], True)] * 4, disc=[" = 7", "", " = 2", " = 300"])
enum("RenamedAlt", [("unit", [], ["rename = \"skip\""], True), ("struct", [F(T("u8"), ["rename = \"skip\""]), F(T("u16"))], ["|", "rename_all = \"UPPERCASE\""], True),
                    ("tuple", [F(T("String"))], ["|", "alias = \"x\"", "alias = \"skip\""], True)])
for cnt in (16, 63, 64, 126, 127, 128, 129, 130, 300):
    struct(f"Wide{cnt}", [f(T(["u8", "bool", "u16", "()", "i32"][i % 5])) for i in range(cnt)], True)
struct("WideTuple", [f(T(["u8", "i16"][i % 2])) for i in range(131)], False)
struct("WideSkip", [sk() if i % 2 else f(U8) for i in range(260)], True)
for cnt in (126, 127, 128, 129, 300):
    enum(f"Many{cnt}", [("unit", [], [], True) if i % 7 else ("tuple", [f(U16), f(S)], [], True) for i in range(cnt)])
enum("WideVariant", [("unit", [], [], True), ("struct", [f(T(["u8", "u16"][i % 2])) for i in range(129)], [], True),
                     ("tuple", [f(T(["u8", "bool"][i % 2])) for i in range(130)], [], True)])
enum("WiderVariant", [("struct", [f(T(["u8", "bool", "()"][i % 3])) for i in range(300)], [], True), ("unit", [], [], True),
                      ("tuple", [f(T(["u8", "()", "bool"][i % 3])) for i in range(260)], [], True)])
enum("WideVariantSkip", [("struct", [sk() if i % 2 else f(U8) for i in range(258)], [], True), ("tuple", [f(U8), sk(), f(U16)], [], True)])
struct("Adapted", [f(T(a), [f'with = "{m}"']) for a, m in ADAPT] + [f(U8)], True)
enum("AdaptedAlt", [("tuple", [f(T(a), [f'with = "{m}"'])], [], True) for a, m in ADAPT] +
     [("struct", [f(T(a), [f'with = "{m}"']) for a, m in ADAPT], [], True)])
struct("Hashed", [f(T("HMap<u32>", hashed=True)), f(T("HMap<HMap<String>>", hashed=True)), f(U8)], True)
enum("HashedAlt", [("tuple", [f(T("HMap<Vec<u8>>", hashed=True))], [], True), ("unit", [], [], True)])
struct("Tuples16", [f(T("(" + "u8, u16, i32, bool, String, u64, i8, f32, " + "u8, u16, i32, bool, String, u64, i8, f32)"))], True)
for k in range(1, 16):
    struct(f"TupleOf{k}", [f(T("(" + ", ".join(["u8", "i16", "String"][j % 3] for j in range(k)) + ",)")), f(U8)], True)
struct("Every", [f(T(p)) for p in PRIM] + [f(T(f"Option<{p}>")) for p in PRIM] + [f(T(f"Vec<{p}>")) for p in PRIM if p != "()"]
       + [f(T(f"BTreeMap<String, {p}>")) for p in PRIM], True)
struct("Deep", [f(T("Option<Option<Vec<Option<BTreeMap<String, Vec<Option<(u8, Option<Nested>)>>>>>>>"))], True)
# not described
struct("Chars", [f(T("char", described=False)), f(T("Option<char>", described=False)), f(T("Vec<char>", described=False)), f(U8)], True, False)
struct("Boxes", [f(T("Box<u64>", described=False)), f(T("Box<Option<Box<String>>>", described=False))], True, False)
struct("Arrays", [f(T("[u16; 3]", described=False)), f(T("[String; 2]", described=False)), f(T("[[u8; 2]; 2]", described=False))], True, False)
STD = ["usize", "isize", "std::num::Wrapping<i16>", "std::cmp::Reverse<u32>", "std::cell::Cell<i32>", "std::cell::RefCell<String>",
       "std::sync::Mutex<u64>", "Box<str>", "std::borrow::Cow<'static, str>", "std::path::PathBuf", "Box<[u16]>", "std::borrow::Cow<'static, [i32]>",
       "std::net::Ipv4Addr", "std::net::Ipv6Addr", "std::net::SocketAddrV4", "std::net::SocketAddrV6", "std::net::IpAddr", "std::net::SocketAddr",
       "std::marker::PhantomData<String>", "Result<u16, String>", "std::ops::Bound<String>", "std::ops::Range<i32>",
       "std::collections::VecDeque<Option<u8>>", "std::collections::LinkedList<String>", "BTreeMap<Box<str>, u16>", "[u8; 32]", "[String; 0]"]
std_t = lambda n: F(T(n, described=False))
struct("StdAll", [std_t(n) for n in STD], True, False)
enum("StdAlt", [("tuple", [std_t(n)], [], True) for n in STD], False)
for i in range(6):
    pick = lambda: R.choice(STD)
    struct(f"StdMix{i}", [std_t(R.choice([pick(), f"Option<{pick()}>", f"Vec<{R.choice(STD[:-1])}>".replace("Vec<std::marker::PhantomData<String>>", "Vec<usize>"),
                                         f"Result<{pick()}, {pick()}>", f"BTreeMap<Box<str>, {pick()}>", f"std::ops::Bound<Option<{pick()}>>",
                                         f"({pick()}, {pick()})", f"std::collections::VecDeque<Box<str>>"])) for _ in range(5)], True, False)
# of nothing
out.append(derives(True) + """pub enum Never {}
impl Model for Never {
    fn schema() -> Schema { Schema::never() }
    fn from_val(_: &Val) -> Self { unreachable!() }
    fn to_val(&self) -> Val { match *self {} }
}
""")
struct("NeverAround", [f(T("Option<Never>")), f(T("Vec<Never>")), f(T("BTreeMap<String, Never>")), f(T("Option<(u8, Never)>")), f(U8)], True)
enum("NeverAlt", [("unit", [], [], True), ("tuple", [f(T("Never"))], [], True), ("struct", [f(U8), f(T("Never"))], [], True), ("tuple", [f(U16)], [], True)])
stat.append(("Texts", True, False, False))
out.append("""#[derive(Serialize, Deserialize)]
pub struct Chain { pub v: i32, pub next: Option<Box<Chain>> }
#[derive(Serialize, Deserialize)]
pub enum Tree { Leaf(u16), Node(Vec<Tree>), Named { name: String, left: Box<Tree>, right: Box<Tree> } }
""")

names = [s for s in stat]
out.append("pub fn all() -> &'static [&'static dyn Subject] {\n    static ALL: OnceLock<Vec<&'static dyn Subject>> = OnceLock::new();\n    ALL.get_or_init(|| vec![")
for name, described, hashed, recursive in names:
    h = f"described!({name})" if described else "None"
    out.append(f'        Box::leak(Box::new(Holder::<{name}>::new("{name}", {h}, {str(hashed).lower()}, {str(recursive).lower()}))),')
out.append("    ])\n}")

with open("/verif/sim/src/subjects_gen.rs", "w") as fo:
    fo.write("// Written by tools/gen_subjects.py. Do not edit.\n")
    fo.write("\n".join(out) + "\n")
print(len(stat), "types")
