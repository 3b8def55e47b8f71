#!/usr/bin/env python3
"""Generates src/props/lay_types.rs: types with derived reflection, each with an independent description of itself."""
import itertools, random
R = random.Random(7)
out = []
types = []   # rust type expressions implementing Lay
INTS = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"]
MAXV = dict(u8=255, u16=65535, u32=4294967295, u64=2**63 - 2, usize=2**63 - 2, i8=127, i16=32767, i32=2**31 - 1, i64=2**63 - 2, isize=2**63 - 2)
POOL = ["u8", "u16", "u32", "u64", "u128", "i8", "i64", "bool", "char", "f32", "f64", "String", "()", "Vec<u8>", "Option<u64>", "Option<String>", "[u8; 3]", "[u16; 2]", "HashMap<String, u32>", "BTreeMap<String, Vec<Option<u8>>>", "Al16", "Zst", "Zst8", "Inner", "InnerE", "NonZero<u32>", "Vec<Option<Vec<String>>>", "(u8, u32)", "Arc<u32>", "Gen<u8, String>"]

def rs(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'

class F:
    def __init__(s, name, ty, attrs=(), docs=(), vis="", opaque=False, expect_ty=None, raw=None):
        """attrs: list of (source, expected) with expected = sensitive | default | ('fn', name) | ('rename', text) | ('arb', text)"""
        s.name, s.ty, s.attrs, s.docs, s.vis, s.opaque = name, ty, list(attrs), list(docs), vis, opaque
        s.want = expect_ty or ty
        s.raw = raw

class V:
    def __init__(s, name, kind, fields=(), disc=None, docs=(), disc_src=None, attrs=()):
        s.name, s.kind, s.fields, s.disc, s.docs, s.disc_src, s.attrs = name, kind, list(fields), disc, list(docs), disc_src, list(attrs)

def docsrc(docs, ind=""):
    r = ""
    for d in docs:
        if isinstance(d, tuple): r += ind + d[0] + "\n"
        else: r += ind + "///" + d + "\n"
    return r
def doctext(docs):
    return "&[" + ", ".join(rs(d[1] if isinstance(d, tuple) else d) for d in docs) + "]"

def fields_src(kind, fields):
    items = []
    for f in fields:
        a = "".join(f" #[facet({src})]" for src, _ in f.attrs) + (" #[facet(opaque)]" if f.opaque else "")
        head = docsrc(f.docs) + a + " " + f.vis + " "
        items.append(head + (f"{f.name}: {f.ty}" if kind == "s" else f.ty))
    body = ",\n ".join(items)
    if kind == "s": return "{ " + body + " }"
    if kind == "t": return "( " + body + " )"
    return ""

def pat(path, kind, fields, pre):
    if kind == "s": return path + " { " + ", ".join(f"{f.name}: {pre}{i}" for i, f in enumerate(fields)) + " }"
    if kind == "t": return path + "(" + ", ".join(f"{pre}{i}" for i in range(len(fields))) + ")"
    return path

def attr_expected(f):
    r = []
    for _, e in f.attrs:
        if e is None: continue
        if e == "sensitive": r.append("EA::Sensitive")
        elif e == "default": r.append("EA::Default")
        elif e[0] == "fn": r.append(f"EA::DefaultFn(|fd| default_fn_gives::<{f.ty}>(fd, {e[1]}()))")
        elif e[0] == "rename": r.append(f"EA::Rename({rs(e[1])})")
        elif e[0] == "arb": r.append(f"EA::Arb({rs(e[1])})")
    return "&[" + ", ".join(r) + "]"

def emit(name, kind, variants, repr_=None, attrs=(), docs=(), gdef="", guse="", insts=(("", []),), where="", vis="pub", extra="", cattrs=(), is_enum=False, tag=None, subst=None, noeq=False):
    """gdef: generics of the definition; insts: list of (instantiation text, [(param, type)]) ; cattrs expected container attributes"""
    o = docsrc(docs)
    der = "#[derive(Facet, Debug, PartialEq, Clone)]"
    o += der + "\n" + "".join(f"#[repr({r})]\n" for r in ([repr_] if isinstance(repr_, str) else (repr_ or [])))
    o += "".join(f"#[facet({a})]\n" for a in attrs)
    if is_enum:
        o += f"{vis} enum {name}{gdef} {where} {{\n"
        for v in variants:
            o += docsrc(v.docs) + "".join(f"#[facet({a})] " for a in v.attrs) + v.name + " " + fields_src(v.kind, v.fields)
            if v.disc is not None: o += " = " + (v.disc_src or str(v.disc))
            o += ",\n"
        o += "}\n"
    else:
        v = variants[0]
        if v.kind == "s": o += f"{vis} struct {name}{gdef} {where} {fields_src('s', v.fields)}\n"
        elif v.kind == "t": o += f"{vis} struct {name}{gdef} {fields_src('t', v.fields)} {where};\n"
        else: o += f"{vis} struct {name}{gdef} {where};\n"
    o += extra
    for inst, params in insts:
        full = name + inst
        sub = lambda t: t
        if params:
            import re
            def sub(t, params=params):
                for p, x in params:
                    t = re.sub(r"(?<![A-Za-z0-9_])" + re.escape(p) + r"(?![A-Za-z0-9_])", x, t)
                return t
        sub2 = lambda t: sub(t).replace("Self", full) if "Self" in t else sub(t)
        o += f"impl Lay for {full} {{\n"
        # desc
        vs, disc = [], 0
        for v in variants:
            if v.disc is not None: disc = v.disc
            fl = []
            for i, f in enumerate(v.fields):
                nm = f.name if v.kind == "s" else str(i)
                nm = nm[2:] if nm.startswith("r#") else nm
                t = sub2(f.want)
                shp = f"<facet_core::Opaque<{t}> as Facet>::SHAPE" if f.opaque else f"<{t} as Facet>::SHAPE"
                idt = f"facet_core::Opaque<{t}>" if f.opaque else t
                sens = "true" if any(e == "sensitive" for _, e in f.attrs) else "false"
                fl.append(f"LF {{ name: {rs(nm)}, shape: || {shp}, id: ConstTypeId::of::<{idt}>(), layout: Layout::new::<{t}>(), sensitive: {sens}, attrs: {attr_expected(f)}, doc: {doctext(f.docs)} }}")
            vn = v.name[2:] if v.name.startswith("r#") else v.name
            vs.append(f"LV {{ name: {rs(vn)}, disc: {disc}, kind: '{v.kind}', fields: &[{', '.join(fl)}], doc: {doctext(v.docs)} }}")
            disc += 1
        tp = ", ".join(f"({rs(p)}, || <{x} as Facet>::SHAPE)" for p, x in params if p != "N")
        tagexpr = "None"
        if is_enum: tagexpr = f"Some(Tag::{tag})"
        o += f"fn desc() -> &'static LD {{ const D: &LD = &LD {{ name: {rs(name)}, full: {rs(full)}, tag: {tagexpr}, attrs: &[{', '.join(cattrs)}], doc: {doctext(docs)}, params: &[{tp}], variants: &[{', '.join(vs)}] }}; D }}\n"
        path = lambda v: f"{name}::{v.name}" if is_enum else name
        o += "fn variant(&self) -> usize { match self { " + " ".join(f"{pat_skip(path(v), v.kind)} => {i}," for i, v in enumerate(variants)) + " } }\n"
        # make
        o += "fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { " + " ".join(
            (f"{i} => " if i + 1 < len(variants) else "_ => ") + build(path(v), v.kind, [f"<{sub2(f.ty)} as Arb>::arb(r)" for f in v.fields], v.fields) + "," for i, v in enumerate(variants)) + " } }\n"
        # addresses
        o += "fn addrs(&self) -> Vec<usize> { match self { " + " ".join(
            f"{pat(path(v), v.kind, v.fields, 'x')} => vec![" + ", ".join(f"x{j} as *const _ as usize" for j in range(len(v.fields))) + "]," for v in variants) + " } }\n"
        # compare peeks
        o += "fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { " + " ".join(
            f"{pat(path(v), v.kind, v.fields, 'x')} => vec![" + ", ".join((f"{{ let _ = x{j}; Ok(()) }}" if f.opaque else f"same(x{j}, &p[{j}])") for j, f in enumerate(v.fields)) + "]," for v in variants) + " } }\n"
        # rebuild through the builder
        o += "fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { " + " ".join(
            f"{pat(path(v), v.kind, v.fields, 'x')} => match i {{ " + " ".join((f"{j} => {{ let _ = x{j}; put_opaque(w, x{j}.clone()) }}" if f.opaque else f"{j} => w.put(x{j}.clone()),") for j, f in enumerate(v.fields)) + " _ => unreachable!() }," for v in variants) + " } }\n"
        o += "}\n"
        types.append(full)
    out.append(o)

def pat_skip(path, kind):
    return path + (" { .. }" if kind == "s" else "(..)" if kind == "t" else "")
def build(path, kind, exprs, fields):
    if kind == "s": return path + " { " + ", ".join(f"{f.name}: {e}" for f, e in zip(fields, exprs)) + " }"
    if kind == "t": return path + "(" + ", ".join(exprs) + ")"
    return path

def struct(name, kind, fields, **k):
    emit(name, kind, [V(name, kind, fields)], **k)
def has_data(vs):
    if all(v.kind == "u" for v in vs): vs[-1].kind, vs[-1].fields = "t", [F("0", "u16")]
    return vs
def enum(name, variants, repr_, **k):
    toks = [x.strip() for x in repr_.split(",")] if isinstance(repr_, str) else [x.strip() for r in repr_ for x in r.split(",")]
    toks = [t for t in toks if not t.startswith("align")]
    t = [x for x in toks if x != "C"]
    tag = t[0].upper() if t else "C"
    if tag == "USIZE": tag = "Usize"
    if tag == "ISIZE": tag = "Isize"
    if len(tag) <= 3: tag = tag[0].upper() + tag[1:]
    emit(name, "e", variants, repr_=repr_, is_enum=True, tag=tag, **k)

# ---- helpers used as field types
struct("Al16", "s", [F("a", "u8")], repr_="align(16)")
struct("Zst", "u", [])
struct("Zst8", "s", [], repr_="align(8)")
struct("Inner", "s", [F("a", "u8"), F("b", "u64"), F("c", "u16")])
enum("InnerE", [V("A", "u"), V("B", "t", [F("0", "u32")]), V("C", "s", [F("x", "String")])], "u8")
struct("Gen", "s", [F("a", "T"), F("b", "U"), F("c", "Vec<T>")], gdef="<T, U>", insts=[("<u8, String>", [("T", "u8"), ("U", "String")]), ("<String, u8>", [("T", "String"), ("U", "u8")]), ("<(), Zst>", [("T", "()"), ("U", "Zst")]), ("<Al16, u8>", [("T", "Al16"), ("U", "u8")]), ("<u8, Vec<u32>>", [("T", "u8"), ("U", "Vec<u32>")]), ("<u32, u8>", [("T", "u32"), ("U", "u8")])])

# ---- structs
for i in range(16):
    n = R.randint(1, 7)
    fs = [F(R.choice(["f", "g_", "x"]) + str(j), R.choice(POOL), vis=R.choice(["", "pub", "pub(crate)"])) for j in range(n)]
    rp = R.choice([None, None, None, "C", "align(32)", ["C", "align(16)"], "C, align(8)"])
    struct(f"St{i}", "s", fs, repr_=rp, vis=R.choice(["pub", "", "pub(crate)"]))
for i in range(8):
    n = R.randint(1, 6)
    rp = R.choice([None, None, "C", "align(64)"])
    struct(f"Tp{i}", "t", [F(str(j), R.choice(POOL), vis=R.choice(["", "pub"])) for j in range(n)], repr_=rp)
struct("Big", "s", [F(f"f{j}", R.choice(POOL)) for j in range(70)])
struct("Long", "t", [F(str(j), R.choice(POOL)) for j in range(16)])
struct("One", "t", [F("0", "u32")], repr_="transparent")
struct("OneZ", "s", [F("a", "()"), F("b", "String")], repr_="transparent")
struct("PackedBytes", "s", [F("a", "u8"), F("b", "[u8; 3]"), F("c", "bool")], repr_="packed")
struct("PackedTwo", "s", [F("a", "u8"), F("b", "u16"), F("c", "u8"), F("d", "u16")], repr_="C, packed(2)")
struct("PackedTwoR", "s", [F("a", "u8"), F("b", "[u16; 2]"), F("c", "u8")], repr_="packed(2)")
struct("Unit1", "u", [])
struct("Brace0", "s", [])
struct("Order", "s", [F("a", "u8"), F("b", "u64"), F("c", "u8"), F("d", "u32"), F("e", "u8"), F("f", "u16")])
struct("OrderC", "s", [F("a", "u8"), F("b", "u64"), F("c", "u8"), F("d", "u32"), F("e", "u8"), F("f", "u16")], repr_="C")
struct("SameTypes", "s", [F("a", "u32"), F("b", "u32"), F("c", "u32"), F("d", "u32")])
struct("Hygiene", "s", [F(n, "u32") for n in ["fields", "vtable", "value", "f", "_opts", "s", "name", "shape", "offset", "invariants", "builder", "ptr", "id"]])
struct("Keywords", "s", [F("r#type", "u32"), F("r#struct", "String"), F("union", "u8"), F("default", "u8"), F("sensitive", "u8"), F("opaque", "u8"), F("facet", "u16"), F("doc", "u16"), F("repr", "u8")])
struct("Unicode", "s", [F("größe", "u32"), F("ключ", "String"), F("_x", "u8")])
struct("Opq", "s", [F("a", "u32"), F("b", "Arc<NotFacet>", opaque=True), F("c", "Arc<Vec<NotFacet>>", opaque=True), F("d", "String")])
struct("OpqT", "t", [F("0", "Arc<NotFacet>", opaque=True), F("1", "u8")])
struct("Lt", "s", [F("a", "&'static str"), F("b", "u32")])
struct("Docs", "s", [F("a", "u32", docs=[" first", " second line", ""]), F("b", "u32", docs=[" has \"quotes\" and \\ backslash \\n"]), F("c", "u32"), F("d", "u32", docs=["no space", " ünïcode ☃ {braces} {}"]), F("e", "u32", docs=[("#[doc = \"attr \\\"form\\\"\"]", "attr \"form\""), (" /** block */", " block ")])], docs=[" Container doc", "", " more  ", " \ttab"])
struct("DocsT", "t", [F("0", "u32", docs=[" zero"]), F("1", "String", docs=[" one", " uno"])], docs=[" tuple"])
struct("DocsU", "u", [], docs=[" unit one", " unit two"])
S, D = ("sensitive", "sensitive"), ("default", "default")
struct("Attrs", "s", [F("a", "u32", [S]), F("b", "u32", [D]), F("c", "String", [('default = "lay_string"', ("fn", "lay_string"))]), F("d", "u32", [('rename = "other name"', ("rename", "other name"))]), F("e", "u32", [S, D, ('rename = "E"', ("rename", "E"))]), F("f", "u32"), F("g", "u8", [("named", ("arb", "named"))]), F("h", "u8", [("positional", ("arb", "positional")), S]), F("i", "u8", [D, S]), F("j", "u8", [("short = 'v'", ("arb", "short='v'"))]), F("k", "u8", [("foo = \"bar\"", ("arb", "foo=\"bar\""))]), F("l", "u32", [('default = "lay_u32"', ("fn", "lay_u32")), ('rename = "q\\"uote\\\\ \\u{e9}☃"', ("rename", "q\"uote\\ é☃"))]), F("m", "u8", [('rename = ""', ("rename", ""))]), F("n", "u8", [('rename = r#"raw "x""#', ("rename", 'raw "x"'))])])
struct("AttrsT", "t", [F("0", "u32", [S]), F("1", "u32"), F("2", "String", [S, ('rename = "two"', ("rename", "two"))], docs=[" doc with attr"]), F("3", "u32", [D])])
struct("Cont1", "s", [F("a", "u32")], attrs=["deny_unknown_fields"], cattrs=["CA::Deny"])
struct("Cont2", "s", [F("a", "u32")], attrs=["default"], cattrs=["CA::Default"], extra="impl Default for Cont2 { fn default() -> Self { Cont2 { a: 9 } } }\n")
struct("Cont3", "s", [F("a", "u32", [D]), F("b", "u8")], attrs=["deny_unknown_fields", "default"], cattrs=["CA::Deny", "CA::Default"], docs=[" with docs"], extra="impl Default for Cont3 { fn default() -> Self { Cont3 { a: 9, b: 1 } } }\n")
struct("Cont4", "t", [F("0", "u32")], attrs=["deny_unknown_fields"], cattrs=["CA::Deny"])
struct("InvS", "s", [F("a", "u32")], attrs=['invariants = "fine"'], extra="impl InvS { fn fine(&self) -> bool { true } }\n")
struct("Comb", "s", [F("a", "u32", [("sensitive, default", "sensitive"), ("default", "default")][:1] + []), F("b", "u32", [('rename = "B", sensitive', ("rename", "B"))]), F("c", "u8")])
struct("CombC", "s", [F("a", "u32")], attrs=["deny_unknown_fields, default"], cattrs=["CA::Deny", "CA::Default"], extra="impl Default for CombC { fn default() -> Self { CombC { a: 9 } } }\n")
struct("GenB", "s", [F("a", "T"), F("b", "Option<T>"), F("z", "u8")], gdef="<T: Copy + core::fmt::Debug>", insts=[("<u64>", [("T", "u64")]), ("<bool>", [("T", "bool")])])
struct("GenW", "t", [F("0", "Vec<T>"), F("1", "HashMap<String, T>")], gdef="<T>", where="where T: Clone + 'static", insts=[("<u16>", [("T", "u16")]), ("<Inner>", [("T", "Inner")])])
struct("GenC", "s", [F("a", "[u8; N]"), F("b", "u32")], gdef="<const N: usize>", insts=[("<3>", [("N", "3")]), ("<8>", [("N", "8")])])
struct("GenD", "s", [F("a", "T")], gdef="<T = u8>", insts=[("<u8>", [("T", "u8")]), ("<Al16>", [("T", "Al16")])])
struct("GenNest", "s", [F("a", "Gen<T, Vec<U>>"), F("b", "Option<Gen<U, u8>>")], gdef="<T, U>", insts=[("<u8, u32>", [("T", "u8"), ("U", "u32")])])
struct("GenLt", "s", [F("a", "&'static str"), F("b", "T"), F("c", "[T; N]")], gdef="<T: Clone, const N: usize>", insts=[("<u16, 2>", [("T", "u16"), ("N", "2")])])
struct("Rec", "s", [F("v", "u8"), F("kids", "Vec<Rec>")])
struct("RecSelf", "s", [F("v", "u8"), F("kids", "Vec<Self>"), F("o", "Option<Arc<u8>>")])

# ---- enums
def payload(j):
    k = R.choice("uts")
    if k == "u": return V(f"V{j}", "u")
    n = R.randint(1, 4)
    if k == "t": return V(f"V{j}", "t", [F(str(q), R.choice(POOL)) for q in range(n)])
    return V(f"V{j}", "s", [F(f"a{q}", R.choice(POOL)) for q in range(n)])
def src(v, how):
    if how == 0: return str(v)
    if how == 1: return hex(v)
    if how == 2: return bin(v)
    if how == 3: return oct(v)
    s = str(v)
    return "_".join([s[:1], s[1:]]) if len(s) > 1 else s
n = 0
for it in INTS:
    for c in ["", "C, "]:
        # data enum, implicit discriminants
        enum(f"En{n}", (has_data if c else list)([payload(j) for j in range(R.randint(1, 6))]), c + it); n += 1
        # unit enum with explicit ones
        mx = MAXV[it]
        vals = R.sample(range(0, 100), 4) + [mx - 1, mx]
        R.shuffle(vals)
        vs = []
        for j, v in enumerate(vals):
            vs.append(V(f"U{j}", "u", disc=v, disc_src=src(v, R.randint(0, 4))))
        if c: vs[0].kind, vs[0].fields = "t", [F("0", "u8")]   # rustc refuses (C, int) on fieldless enums
        enum(f"En{n}", has_data(vs) if c else vs, c + it); n += 1
        # data enum with some explicit discriminants, counting on from each
        vs, cur = [], 0
        for j in range(R.randint(2, 6)):
            v = payload(j)
            if R.random() < 0.5:
                cur = cur + R.randint(0, 12)
                v.disc, v.disc_src = cur, src(cur, R.randint(0, 4))
            cur += 1
            vs.append(v)
        enum(f"En{n}", has_data(vs) if c else vs, c + it); n += 1
for k in range(4):
    enum(f"Ec{k}", [payload(j) for j in range(R.randint(1, 6))], "C")
enum("EcU", [V("A", "u"), V("B", "u"), V("D", "u")], "C")
enum("EcD", [V("A", "u", disc=5), V("B", "u"), V("D", "u", disc=100000)], "C")
enum("Desc", [V("A", "u", disc=9), V("B", "u", disc=3), V("C", "u"), V("D", "u", disc=0)], "u8")
enum("Split", [V("A", "t", [F("0", "u8"), F("1", "Al16"), F("2", "u8")]), V("B", "s", [F("x", "Al16")]), V("C", "u")], ["u8"])
enum("TwoAttr", [V("A", "u"), V("B", "t", [F("0", "u64")])], ["C", "u8"])
enum("AlignE", [V("A", "u"), V("B", "t", [F("0", "u64"), F("1", "u8")])], ["u8", "align(32)"])
enum("Neg", [V("A", "u", disc=0), V("B", "u", disc=200)], "u8")
enum("OneV", [V("Only", "t", [F("0", "String")])], "u8")
enum("OneU", [V("Only", "u")], "u16")
enum("GenE", [V("A", "t", [F("0", "T")]), V("B", "s", [F("a", "Vec<T>"), F("b", "u8")]), V("N", "u")], "u8", gdef="<T>", insts=[("<u64>", [("T", "u64")]), ("<String>", [("T", "String")]), ("<Al16>", [("T", "Al16")])])
enum("GenE2", [V("A", "t", [F("0", "T"), F("1", "U")]), V("B", "s", [F("a", "[U; N]"), F("b", "Vec<T>")]), V("N", "u")], "u16", gdef="<T: Clone, U, const N: usize>", where="where U: core::fmt::Debug", insts=[("<u64, u8, 3>", [("T", "u64"), ("U", "u8"), ("N", "3")])])
enum("DocE", [V("A", "u", docs=[" unit doc", " two"]), V("B", "t", [F("0", "u8", docs=[" field doc"])], docs=[" tuple \"doc\" \\ "]), V("C", "s", [F("a", "u8", docs=[" a", " b"]), F("b", "u8")], docs=["nospace"]), V("D", "u")], "u8", docs=[" enum doc", " l2"])
enum("DocEc", [V("A", "u", docs=[" unit doc", " two"]), V("B", "t", [F("0", "u8", docs=[" field doc"])], docs=[" tuple"]), V("C", "s", [F("a", "u8", docs=[" a", " b"]), F("b", "u8")], docs=["nospace"]), V("D", "u")], "C, u8", docs=[" enum doc", " l2"])
enum("AttrE", [V("A", "t", [F("0", "String", [S]), F("1", "u32")]), V("B", "s", [F("a", "u32", [S, ('rename = "AA"', ("rename", "AA"))]), F("b", "String", [('default = "lay_string"', ("fn", "lay_string"))]), F("c", "u8", [D])]), V("C", "u")], "u8")
enum("AttrEc", [V("A", "t", [F("0", "String", [S]), F("1", "u32")]), V("B", "s", [F("a", "u32", [S, ('rename = "AA"', ("rename", "AA"))]), F("b", "String", [('default = "lay_string"', ("fn", "lay_string"))]), F("c", "u8", [D])]), V("C", "u")], "C")
enum("ContE", [V("A", "s", [F("a", "u32")]), V("B", "u")], "u8", attrs=["deny_unknown_fields"], cattrs=["CA::Deny"])
enum("OpqE", [V("A", "t", [F("0", "Arc<NotFacet>", opaque=True), F("1", "u8")]), V("B", "s", [F("a", "u8"), F("b", "Arc<Vec<NotFacet>>", opaque=True)]), V("C", "u")], "u8")
enum("OpqEc", [V("A", "t", [F("0", "Arc<NotFacet>", opaque=True), F("1", "u8")]), V("B", "s", [F("a", "u8"), F("b", "Arc<Vec<NotFacet>>", opaque=True)]), V("C", "u")], "C, u16")
enum("KwE", [V("A", "s", [F("r#type", "u8"), F("fields", "u32"), F("value", "u8"), F("name", "u64")]), V("Self_", "u"), V("r#None", "u"), V("Option", "t", [F("0", "Option<u8>")]), V("u8", "t", [F("0", "u16")])], "u8", extra="")
enum("RecE", [V("Leaf", "u"), V("Node", "t", [F("0", "Vec<RecE>"), F("1", "u8")]), V("Kv", "s", [F("m", "HashMap<String, RecE>")])], "u8")
enum("OpqSelf", [V("Leaf", "u"), V("Node", "t", [F("0", "Arc<Vec<Self>>", opaque=True)]), V("S", "s", [F("a", "u8"), F("b", "Arc<Option<Self>>", opaque=True)])], "u8")
enum("OpqSelfC", [V("Leaf", "u"), V("Node", "t", [F("0", "Arc<Vec<Self>>", opaque=True)]), V("S", "s", [F("a", "u8"), F("b", "Arc<Option<Self>>", opaque=True)])], "C, i16")
enum("OpqSelfG", [V("Leaf", "t", [F("0", "T")]), V("Node", "t", [F("0", "Arc<Vec<Self>>", opaque=True)]), V("S", "s", [F("a", "T"), F("b", "Arc<Vec<T>>", opaque=True)])], "u32", gdef="<T>", insts=[("<u8>", [("T", "u8")])])
enum("ContE2", [V("A", "s", [F("a", "u32")]), V("B", "u")], "C", attrs=["default", "deny_unknown_fields"], cattrs=["CA::Default", "CA::Deny"], docs=[" docs too"], extra="impl Default for ContE2 { fn default() -> Self { ContE2::B } }\n")
enum("KwEc", [V("A", "s", [F("r#type", "u8"), F("r#fn", "u32")]), V("r#None", "u"), V("r#Some", "t", [F("0", "u16")]), V("u8", "t", [F("0", "u16")])], "C, u8")
enum("SensAll", [V(f"V{j}", "t", [F(str(q), "u8", [S] if (j >> q) & 1 else []) for q in range(3)]) for j in range(8)], "i8")
import os
open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "src", "props", "lay_types.rs"), "w").write(
    "// generated by gen/gen_lay.py -- do not edit\n" + "\n".join(out) + "\npub fn all() -> Vec<Entry> { vec![" + ", ".join(f"entry::<{t}>()" for t in types) + "] }\n")
