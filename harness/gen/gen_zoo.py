#!/usr/bin/env python3
import re, sys, os
here = os.path.dirname(os.path.abspath(__file__))
src = open(os.path.join(here, "zoo.in")).read()
out = []
w = out.append
w("// generated by gen/gen_zoo.py from gen/zoo.in -- do not edit\n#![allow(non_camel_case_types, dead_code)]")
w("use crate::ctx::Rng; use crate::model::*; use crate::mon::{Tok, ZTok}; use facet::Facet;")
w("use std::collections::{BTreeMap, HashMap}; use std::num::NonZero;")
w("pub fn def_string() -> String { \"dflt \\\"q\\\" é\".to_string() }")
w("pub fn def_tok() -> Tok { Tok::new(5) }")
w("pub fn def_toks() -> Vec<Tok> { vec![Tok::new(6), Tok::new(8)] }")
w("pub fn def_u9() -> u32 { 9 }")
w("pub fn def_flat() -> Flat { Flat { a: 3, b: \"field default\".to_string() } }")
w("pub fn def_list() -> Vec<u32> { vec![4, 5] }")
w("pub fn inv_mv(m: &MV) -> bool { match m { MV::Struct(v) => v[0] <= v[1], _ => false } }")

def split_top(s):
    parts, depth, cur = [], 0, ""
    for ch in s:
        if ch in "<([{": depth += 1
        if ch in ">)]}": depth -= 1
        if ch == "," and depth == 0:
            parts.append(cur); cur = ""
        else: cur += ch
    if cur.strip(): parts.append(cur)
    return [p.strip() for p in parts]

def parse_field(p, i, tuple_):
    attrs = {}
    while p.startswith("#["):
        m = re.match(r'#\[(\w+)(?:=("(?:[^"\\]|\\.)*"|\w+))?\]\s*', p)
        attrs[m.group(1)] = m.group(2) if m.group(2) else True
        p = p[m.end():]
    if tuple_: name, ty = str(i), p
    else:
        name, ty = [x.strip() for x in p.split(":", 1)]
    return name, ty, attrs

def parse_fields(body, tuple_):
    return [parse_field(p, i, tuple_) for i, p in enumerate(split_top(body))]

def facet_attrs(attrs):
    s = ""
    for k, v in attrs.items():
        if k == "rename":
            # resolve escapes ourselves: the derive takes the literal's text
            s += f'#[facet(rename = {unesc(v)})] '
        elif k == "default" and v is not True: s += f'#[facet(default = "{v}")] '
        else: s += f'#[facet({k})] '
    return s
def unesc(v): return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), v)

def fieldd(f):
    name, ty, a = f
    name = name.removeprefix("r#")
    wire = unesc(a["rename"]) if "rename" in a else f'"{name}"'
    d = "None"
    if "default" in a:
        d = f"Some(|| <{ty} as Model>::to_mv(&{a['default']}()))" if a["default"] is not True else f"Some(|| <{ty} as Model>::to_mv(&<{ty} as Default>::default()))"
    return f'FieldD {{ name: "{name}", wire: {wire}, ty: || <{ty} as Model>::FNS, default: {d}, sensitive: {"true" if "sensitive" in a else "false"} }}'

def arb_of(t, a, dd):
    # a sensitive field draws from a stream of its own, so that two values can differ in nothing else
    return f"<{t} as Model>::arb(&mut secret(r), {dd})" if "sensitive" in a else f"<{t} as Model>::arb(r, {dd})"
items = []
for line in src.splitlines():
    line = line.strip()
    if not line or line.startswith("//"): continue
    tags, cont = "", {}
    while line.startswith("@"):
        m = re.match(r'@(\w+)(?:=(\w+))?\s+', line)
        if m.group(1) in ("deny", "default", "inv", "key"): cont[m.group(1)] = m.group(2)
        else: tags = m.group(1)
        line = line[m.end():]
    repr_ = ""
    m = re.match(r'(#\[repr\([^)]*\)\])\s*', line)
    if m: repr_ = m.group(1); line = line[m.end():]
    m = re.match(r'(struct|enum)\s+(\w+)\s*(.*)$', line)
    items.append((m.group(1), m.group(2), m.group(3).strip(), tags, cont, repr_))

def has_float(): pass
for kind, name, body, tags, cont, repr_ in items:
    fa = ""
    if "deny" in cont: fa += "#[facet(deny_unknown_fields)] "
    if "default" in cont: fa += "#[facet(default)] "
    if "inv" in cont: fa += f"#[facet(invariants = \"{cont['inv']}\")] "
    der = "#[derive(Facet, Clone, Debug, PartialEq"
    if "key" in cont: der += ", Eq, PartialOrd, Ord, Hash"
    if name in ("Defs2", "DfltPlain", "DfltIn"): der += ", Default"
    der += ")]"
    if kind == "struct":
        tup = body.startswith("(")
        unit = body == ";" or body == ""
        inner = body[1:body.rindex(")" if tup else "}")] if not unit else ""
        fields = [] if unit else parse_fields(inner, tup)
        if unit: w(f"{der} {fa} pub struct {name};")
        elif tup: w(f"{der} {fa} pub struct {name}({', '.join(facet_attrs(a)+'pub '+t for _,t,a in fields)});")
        else: w(f"{der} {fa} pub struct {name} {{ {', '.join(facet_attrs(a)+'pub '+n+': '+t for n,t,a in fields)} }}")
        dflt = "None"
        if cont.get("default") == "whole_def":
            if name == "WholeDef": w(f"impl Default for {name} {{ fn default() -> Self {{ {name} {{ a: 9, s: \"whole default, long enough to live on the heap\".to_string(), v: vec![1,2,3], n: Flat {{ a: 1, b: \"bee\".to_string() }} }} }} }}")
            if name == "DefsWhole": w(f"impl Default for {name} {{ fn default() -> Self {{ {name} {{ a: 77, b: 78, c: \"from the struct\".to_string(), d: Some(Flat {{ a: 5, b: \"whole\".to_string() }}), e: vec![\"w\".to_string()] }} }} }}")
            if name == "RenDefDeny": w(f"impl Default for {name} {{ fn default() -> Self {{ {name} {{ a: 11, b: \"dd\".to_string(), c: None }} }} }}")
            if name == "InvDef": w(f"impl Default for {name} {{ fn default() -> Self {{ {name} {{ lo: 1000, hi: 2000, s: \"inv default\".to_string() }} }} }}")
            if name == "TokWhole": w(f"impl Default for {name} {{ fn default() -> Self {{ {name} {{ a: Tok::new(1), b: Tok::new(2), v: vec![Tok::new(3), Tok::new(4)] }} }} }}")
            dflt = f"Some(|| <{name} as Default>::default().to_mv())"
        tdflt = f"Some(|| <{name} as Default>::default().to_mv())" if "Default" in der else dflt
        if "inv" in cont:
            w(f"impl {name} {{ fn {cont['inv']}(&self) -> bool {{ self.lo <= self.hi }} }}")
        w(f"impl Model for {name} {{ const NAME: &'static str = \"{name}\"; const DEFAULT: Option<fn() -> MV> = {tdflt};")
        w(f"fn kind() -> Kind {{ static F: &[FieldD] = &[{', '.join(fieldd(f) for f in fields)}];")
        w(f"static D: StructD = StructD {{ name: \"{name}\", tuple: {'true' if tup else 'false'}, fields: F, deny: {'true' if 'deny' in cont else 'false'}, default: {dflt}, invariant: {'Some(inv_mv)' if 'inv' in cont else 'None'} }}; Kind::Struct(&D) }}")
        dd = "d" if name not in ("Tree", "OptTree", "TokTree", "TTree") else "d.saturating_sub(1)"
        mk = ", ".join((f"{n}: " if not tup else "") + arb_of(t, a, dd) for n, t, a in fields)
        if "inv" in cont:
            rest = "".join(f", {n}: <{t} as Model>::arb(r, d)" for n, t, _ in fields if n not in ("lo", "hi"))
            w(f"fn arb(r: &mut Rng, d: usize) -> Self {{ let (a, b) = (u32::arb(r, d), u32::arb(r, d)); {name} {{ lo: a.min(b), hi: a.max(b){rest} }} }}")
        elif unit: w(f"fn arb(_r: &mut Rng, _d: usize) -> Self {{ {name} }}")
        elif tup: w(f"fn arb(r: &mut Rng, d: usize) -> Self {{ {name}({mk}) }}")
        elif name in ("Tree", "OptTree", "TokTree", "TTree"):
            mk0 = ", ".join(f"{n}: " + (f"<{t} as Model>::arb(r, 0)" if "Tree>" not in t else "Default::default()") for n, t, _ in fields)
            w(f"fn arb(r: &mut Rng, d: usize) -> Self {{ if d == 0 {{ return {name} {{ {mk0} }} }} {name} {{ {mk} }} }}")
        else: w(f"fn arb(r: &mut Rng, d: usize) -> Self {{ let _ = (&r, d); {name} {{ {mk} }} }}")
        w(f"fn to_mv(&self) -> MV {{ MV::Struct(vec![{', '.join(f'self.{n}.to_mv()' for n,_,_ in fields)}]) }} }}")
    else:
        inner = body[1:body.rindex("}")]
        vs = []
        for p in split_top(inner):
            m = re.match(r'(\w+)\s*(\(.*\)|\{.*\})?\s*(=\s*\d+)?$', p, re.S)
            vn, vb, disc = m.group(1), m.group(2), m.group(3) or ""
            k = 0 if not vb else (1 if vb[0] == "(" else 2)
            vs.append((vn, k, parse_fields(vb[1:-1], k == 1) if vb else [], disc))
        decl = []
        for vn, k, fs, disc in vs:
            if k == 0: decl.append(f"{vn} {disc}")
            elif k == 1: decl.append(f"{vn}({', '.join(facet_attrs(a)+t for _,t,a in fs)}) {disc}")
            else: decl.append(f"{vn} {{ {', '.join(facet_attrs(a)+n+': '+t for n,t,a in fs)} }} {disc}")
        w(f"{der} {fa} {repr_} pub enum {name} {{ {', '.join(decl)} }}")
        w(f"impl Model for {name} {{ const NAME: &'static str = \"{name}\";")
        vd = ", ".join(f'VariantD {{ name: "{vn}", kind: {k}, fields: &[{", ".join(fieldd(f) for f in fs)}] }}' for vn, k, fs, _ in vs)
        w(f"fn kind() -> Kind {{ static D: EnumD = EnumD {{ name: \"{name}\", variants: &[{vd}] }}; Kind::Enum(&D) }}")
        arms = []
        for i, (vn, k, fs, _) in enumerate(vs):
            mk = ", ".join((f"{n}: " if k == 2 else "") + arb_of(t, a, "d") for n, t, a in fs)
            arms.append(f"{i} => {name}::{vn}" + ("" if k == 0 else f"({mk})" if k == 1 else f" {{ {mk} }}"))
        arms[-1] = re.sub(r'^\d+', '_', arms[-1])
        w(f"fn arb(r: &mut Rng, d: usize) -> Self {{ let _ = d; match r.below({len(vs)}) {{ {', '.join(arms)} }} }}")
        arms = []
        for i, (vn, k, fs, _) in enumerate(vs):
            pat = "" if k == 0 else ("(" + ", ".join(f"x{j}" for j in range(len(fs))) + ")" if k == 1 else " { " + ", ".join(f"{n}: x{j}" for j, (n, _, _) in enumerate(fs)) + " }")
            arms.append(f"{name}::{vn}{pat} => MV::Enum({i}, vec![{', '.join(f'x{j}.to_mv()' for j in range(len(fs)))}])")
        w(f"fn to_mv(&self) -> MV {{ match self {{ {', '.join(arms)} }} }} }}")
w("/// (type, tags)")
w("pub static ZOO: &[(T, &str)] = &[")
for kind, name, body, tags, cont, repr_ in items:
    w(f'    (<{name} as Model>::FNS, "{tags}"),')
w("];")
open(os.path.join(here, "..", "src", "zoo.rs"), "w").write("\n".join(out) + "\n")
