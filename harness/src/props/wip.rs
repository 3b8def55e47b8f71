//! P01 / P02: random operation histories on the incremental builder, judged against a model.
use fvl::ctx::*;
use fvl::model::*;
use fvl::mon::{Tok, ZUnit};
use fvl::zoo::ZOO;
use fvl::{bail, cov, tr};
use facet::Facet;
use facet_core::Def;
use facet_reflect::{ReflectError, Wip};

#[derive(Clone, Debug)]
enum Node {
    Uninit,
    Leaf(MV),
    Struct(Vec<Node>),
    Enum(usize, Vec<Node>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Role {
    Root,
    Field(usize),
    Elem,
    SomeInner,
    NoneInner,
    Key,
    Value,
}
struct Fr {
    ty: T,
    node: Node,
    role: Role,
}

fn decompose(m: MV, ty: T) -> Node {
    match (kind(ty), m) {
        (Kind::Struct(d), MV::Struct(v)) => {
            Node::Struct(v.into_iter().zip(d.fields).map(|(x, f)| decompose(x, (f.ty)())).collect())
        }
        (Kind::Enum(d), MV::Enum(i, v)) => Node::Enum(
            i,
            v.into_iter().zip(d.variants[i].fields).map(|(x, f)| decompose(x, (f.ty)())).collect(),
        ),
        (_, m) => Node::Leaf(m),
    }
}
fn full(n: &Node) -> bool {
    match n {
        Node::Uninit => false,
        Node::Leaf(_) => true,
        Node::Struct(v) | Node::Enum(_, v) => v.iter().all(full),
    }
}
fn value(n: &Node) -> MV {
    match n {
        Node::Uninit => unreachable!(),
        Node::Leaf(m) => m.clone(),
        Node::Struct(v) => MV::Struct(v.iter().map(value).collect()),
        Node::Enum(i, v) => MV::Enum(*i, v.iter().map(value).collect()),
    }
}
/// does some place named `name` lack a value?
fn missing(n: &Node, ty: T, name: &str) -> bool {
    match (kind(ty), n) {
        (Kind::Struct(d), Node::Struct(v)) => v
            .iter()
            .zip(d.fields)
            .any(|(x, f)| (f.name == name && !full(x)) || missing(x, (f.ty)(), name)),
        (Kind::Struct(d), Node::Uninit) => {
            d.fields.iter().any(|f| f.name == name || missing(&Node::Uninit, (f.ty)(), name))
        }
        (Kind::Enum(d), Node::Enum(i, v)) => {
            v.iter().zip(d.variants[*i].fields).any(|(x, f)| {
                ((f.name == name || f.name == format!("__{name}") || f.name == format!("_{name}") || name.trim_start_matches('_') == f.name)
                    && !full(x))
                    || missing(x, (f.ty)(), name)
            })
        }
        _ => false,
    }
}
pub fn invariants_ok(m: &MV, ty: T) -> bool {
    match (kind(ty), m) {
        (Kind::Struct(d), MV::Struct(v)) => {
            d.invariant.is_none_or(|f| f(m)) && v.iter().zip(d.fields).all(|(x, f)| invariants_ok(x, (f.ty)()))
        }
        (Kind::Enum(d), MV::Enum(i, v)) => {
            v.iter().zip(d.variants[*i].fields).all(|(x, f)| invariants_ok(x, (f.ty)()))
        }
        (Kind::Option(t), MV::Some(x)) => invariants_ok(x, t),
        (Kind::List(t), MV::List(v)) => v.iter().all(|x| invariants_ok(x, t)),
        (Kind::Map(k, t), MV::Map(v)) => v.iter().all(|(a, b)| invariants_ok(a, k) && invariants_ok(b, t)),
        _ => true,
    }
}
fn fresh(ty: T) -> Node {
    match kind(ty) {
        Kind::Struct(d) if d.fields.is_empty() => Node::Struct(vec![]),
        _ => Node::Uninit,
    }
}
fn open_struct(fr: &mut Fr, n: usize) {
    if let Node::Uninit = fr.node {
        fr.node = Node::Struct((0..n).map(|_| Node::Uninit).collect());
    }
}
fn map_insert(m: &mut Vec<(MV, MV)>, k: MV, v: MV) {
    match m.iter_mut().find(|(a, _)| *a == k) {
        Some(e) => e.1 = v,
        None => {
            m.push((k, v));
            m.sort();
        }
    }
}
/// the model of `pop`
fn pop(st: &mut Vec<Fr>) {
    let fr = st.pop().unwrap();
    match fr.role {
        Role::Root => st.push(Fr { role: Role::Root, ..fr }), // kept: build looks at it
        Role::Field(i) => match &mut st.last_mut().unwrap().node {
            Node::Struct(v) | Node::Enum(_, v) => v[i] = fr.node,
            _ => unreachable!(),
        },
        Role::Elem => {
            if full(&fr.node) {
                if let Node::Leaf(MV::List(v)) = &mut st.last_mut().unwrap().node {
                    v.push(value(&fr.node))
                }
            }
        }
        Role::SomeInner => {
            if full(&fr.node) {
                st.last_mut().unwrap().node = Node::Leaf(MV::Some(Box::new(value(&fr.node))))
            }
        }
        Role::NoneInner => {}
        Role::Key => {}
        Role::Value => {
            if full(&fr.node) {
                let k = st.pop().unwrap();
                if let Node::Leaf(MV::Map(m)) = &mut st.last_mut().unwrap().node {
                    map_insert(m, value(&k.node), value(&fr.node))
                }
            }
        }
    }
}
/// where the selected place is
fn path(st: &[Fr]) -> String {
    let mut s = String::from("$");
    for (up, fr) in st.iter().zip(&st[1..]) {
        match fr.role {
            Role::Field(i) => {
                let fields = match (up.ty.shape.def, &up.node) {
                    (Def::Struct(d), _) => d.fields,
                    (Def::Enum(d), Node::Enum(v, _)) => d.variants[*v].data.fields,
                    _ => unreachable!(),
                };
                s += ".";
                s += fields[i].name;
            }
            Role::Elem => match &up.node {
                Node::Leaf(MV::List(v)) => s += &format!("[{}]", v.len()),
                _ => unreachable!(),
            },
            Role::SomeInner => s += ".some",
            Role::NoneInner => s += ".none",
            Role::Key => s += ".key",
            Role::Value => s += ".value",
            Role::Root => {}
        }
    }
    s
}
/// a clone of a value of type `of`, offered to the selected place
fn put_peek(w: W, r: &mut Rng, of: T) -> (WR, MV) {
    let (mut w, mut out) = (Some(w), None);
    (of.with)(r, 2, &mut |p, m| {
        let res = w.take().unwrap().put_peek(p);
        // the builder holds a clone, nothing of the value looked at
        out = Some((unsafe { std::mem::transmute::<Result<Wip<'_>, ReflectError>, WR>(res) }, m));
    });
    out.unwrap()
}
type W = Wip<'static>;
type WR = Result<W, ReflectError>;

fn wrong_put(w: W, r: &mut Rng, cur: T, inner: Option<T>) -> Option<(&'static str, WR)> {
    macro_rules! go {
        ($t:ty, $v:expr) => {{
            let s = <$t as Facet>::SHAPE;
            if s == cur.shape || inner.is_some_and(|i| i.shape == s) {
                None
            } else {
                Some((stringify!($t), w.put::<$t>($v)))
            }
        }};
    }
    match r.below(10) {
        0 => go!(u8, 3),
        1 => go!(u64, 3),
        2 => go!(String, "wrong value, on the heap to be dropped".to_string()),
        3 => go!(Tok, Tok::new(99)),
        4 => go!(fvl::zoo::Toks, fvl::zoo::Toks::arb(r, 1)),
        5 => go!(Vec<u8>, vec![1, 2, 3]),
        6 => go!(Option<String>, Some("wrong".to_string())),
        7 => go!(fvl::zoo::TokEnum, fvl::zoo::TokEnum::arb(r, 1)),
        8 => go!(bool, true),
        _ => go!(i32, -1),
    }
}

fn collect(t: T, out: &mut Vec<T>) {
    if out.iter().any(|x| x.shape == t.shape) {
        return;
    }
    out.push(t);
    match kind(t) {
        Kind::Struct(d) => d.fields.iter().for_each(|f| collect((f.ty)(), out)),
        Kind::Enum(d) => d.variants.iter().for_each(|v| v.fields.iter().for_each(|f| collect((f.ty)(), out))),
        Kind::Option(t) | Kind::List(t) => collect(t, out),
        Kind::Map(k, v) => {
            collect(k, out);
            collect(v, out)
        }
        _ => {}
    }
}
thread_local! { static ALL: Vec<T> = { let mut v = vec![]; types().into_iter().for_each(|t| collect(t, &mut v)); v } }
/// An operation that should have been refused was accepted: carry on as a careless user would,
/// so that the memory monitors see what it leads to.
fn poke(mut w: W, r: &mut Rng, root: T) {
    cov!("carried on after an accepted invalid operation");
    for _ in 0..60 {
        if w.frames_count() <= 1 {
            break;
        }
        let s = w.shape();
        let Some(t) = ALL.with(|v| v.iter().find(|x| x.shape == s).copied()) else { return };
        if r.chance(3, 4) {
            match (t.put)(w, r).0 {
                Ok(n) => w = n,
                Err(_) => return,
            }
        }
        match w.pop() {
            Ok(n) => w = n,
            Err(_) => return,
        }
    }
    if let Ok(h) = w.build() {
        let _ = (root.mat)(h);
    }
}
/// One random history. Every divergence from the model is returned as a failure.
pub fn history(ty: T, seed: u64, max_ops: usize, allow_err: bool, carry_on: bool) -> R {
    let r = &mut Rng::new(seed);
    let mut w: W = Wip::alloc_shape(ty.shape);
    let mut st = vec![Fr { ty, node: fresh(ty), role: Role::Root }];
    let nops = r.range(0, max_ops);
    let fill = r.chance(1, 2); // prefer progress to havoc
    let err_rate = if allow_err && r.chance(1, 2) { 12 } else { 0 };
    macro_rules! step {
        ($name:expr, $res:expr) => {{
            tr!("{}", $name);
            match $res {
                Ok(n) => w = n,
                Err(e) => bail!("refused", "{}: valid operation refused: {e}", $name),
            }
        }};
    }
    macro_rules! must_fail {
        ($name:expr, $res:expr) => {{
            tr!("{} (must fail)", $name);
            match $res {
                Err(e) => {
                    let _ = format!("{e} {e:?}");
                    cov!("operations refused as they should be");
                    return Ok(());
                }
                Ok(n) => {
                    if carry_on {
                        poke(n, r, ty);
                    }
                    bail!("accepted", "{}: invalid operation accepted", $name)
                }
            }
        }};
    }
    for _ in 0..nops {
        cov!("builder operations");
        let depth = st.len();
        let top = st.last().unwrap();
        let (cur, role) = (top.ty, top.role);
        let is_full = full(&top.node);
        // cheap observations, compared with the model
        if w.frames_count() != depth {
            bail!("frames", "frames_count {} but the model has {depth}", w.frames_count());
        }
        if w.shape() != cur.shape {
            bail!("shape", "current shape {} but the model has {}", w.shape(), cur.name);
        }
        if r.chance(1, 8) {
            if w.in_option() != (role == Role::SomeInner) {
                bail!("in_option", "in_option() wrong");
            }
            let (got, want) = (w.path(), path(&st));
            if got != want {
                bail!("path", "path {got}, the selected place is {want}");
            }
            cov!("paths compared");
            let top = st.last().unwrap();
            match (kind(cur), &top.node) {
                (Kind::Struct(d), n) if role != Role::NoneInner => {
                    for i in 0..d.fields.len() {
                        let want = matches!(n, Node::Struct(v) if full(&v[i]));
                        match w.is_field_set(i) {
                            Ok(b) if b == want => {}
                            Ok(b) => bail!("is_field_set", "field {} of {} reported {b}, model says {want}", d.fields[i].name, d.name),
                            Err(e) => bail!("is_field_set", "error {e}"),
                        }
                    }
                    if w.is_field_set(d.fields.len()).is_ok() {
                        bail!("is_field_set", "no error for a field that does not exist");
                    }
                }
                (Kind::Enum(d), n) if role != Role::NoneInner => {
                    let sel = w.selected_variant().map(|v| v.name);
                    let want = if let Node::Enum(i, _) = n { Some(d.variants[*i].name) } else { None };
                    if sel != want {
                        bail!("selected_variant", "selected {sel:?}, model {want:?}");
                    }
                    if let Node::Enum(i, v) = n {
                        for (k, x) in v.iter().enumerate() {
                            match w.is_field_set(k) {
                                Ok(b) if b == full(x) => {}
                                o => bail!("is_field_set", "enum field {k} of {}: {o:?}", d.variants[*i].name),
                            }
                        }
                        if w.is_field_set(v.len()).is_ok() || w.is_field_set(v.len() + 63).is_ok() {
                            bail!("is_field_set", "no error for a field that the variant does not have");
                        }
                    } else if w.is_field_set(0).is_ok() {
                        bail!("is_field_set", "no error for a field of no variant");
                    }
                }
                _ => {}
            }
        }
        // a map key that has some of its parts only
        if allow_err && role == Role::Key && !is_full && !matches!(top.node, Node::Uninit) && r.chance(1, 4) {
            cov!("partial map keys offered");
            must_fail!("push_map_value with a partial key", w.push_map_value());
        }
        // things that must be refused
        if err_rate > 0 && r.chance(1, err_rate) {
            if role == Role::NoneInner {
                match r.below(3) {
                    0 => must_fail!("put into None", (cur.put)(w, r).0),
                    1 => must_fail!("push_some on None", if matches!(kind(cur), Kind::Option(_)) { continue } else { w.push_some() }),
                    _ => must_fail!("push on None", if matches!(kind(cur), Kind::List(_)) { continue } else { w.push() }),
                }
            }
            let k = kind(cur);
            match r.below(13) {
                12 => {
                    let all = ALL.with(|v| v.len());
                    let of = ALL.with(|v| v[r.below(all)]);
                    if of.shape == cur.shape {
                        continue;
                    }
                    must_fail!(format!("put_peek of {} into {}", of.name, cur.name), put_peek(w, r, of).0)
                }
                0 | 1 | 2 => {
                    let inner = if let Kind::Option(t) = k { Some(t) } else { None };
                    let mut r2 = r.clone();
                    r.next();
                    // peek whether it would be a genuine mismatch before giving w away
                    match wrong_put_probe(&mut r2, cur, inner) {
                        false => continue,
                        true => {}
                    }
                    let (n, res) = wrong_put(w, &mut r2, cur, inner).unwrap();
                    must_fail!(format!("put::<{n}> into {}", cur.name), res);
                }
                3 => match k {
                    Kind::Struct(d) => must_fail!("field(out of range)", w.field(d.fields.len() + r.below(3))),
                    Kind::Enum(d) if matches!(top.node, Node::Enum(..)) => {
                        let Node::Enum(i, _) = &top.node else { unreachable!() };
                        let n = d.variants[*i].fields.len();
                        must_fail!("field(out of range) of a variant", w.field(if r.chance(1, 4) { 900 } else { n } + r.below(3)))
                    }
                    _ => must_fail!("field(0) of a non-struct", w.field(0)),
                },
                4 => must_fail!("field_named(nope)", w.field_named("no such field")),
                5 => match k {
                    Kind::Enum(d) => must_fail!("variant(out of range)", w.variant(d.variants.len() + r.below(3))),
                    _ => must_fail!("variant(0) of a non-enum", w.variant(0)),
                },
                6 => must_fail!("variant_named(nope)", w.variant_named("no such variant")),
                7 => match k {
                    Kind::List(_) => continue,
                    _ => must_fail!(
                        "list operation on a non-list",
                        match r.below(3) { 0 => w.push(), 1 => w.begin_pushback(), _ => w.put_empty_list() }
                    ),
                },
                8 => match k {
                    Kind::Map(..) => continue,
                    _ => must_fail!(
                        "map operation on a non-map",
                        match r.below(3) { 0 => w.push_map_key(), 1 => w.begin_map_insert(), _ => w.put_empty_map() }
                    ),
                },
                9 => match k {
                    Kind::Option(_) => continue,
                    _ => must_fail!("push_some on a non-option", w.push_some()),
                },
                10 => {
                    if role == Role::Key && is_full {
                        continue;
                    }
                    must_fail!("push_map_value without a complete key", w.push_map_value())
                }
                _ => {
                    if role == Role::SomeInner && !is_full {
                        continue;
                    }
                    must_fail!("pop_some_push_none outside an unset Some", w.pop_some_push_none())
                }
            }
        }
        if role == Role::NoneInner {
            step!("pop", w.pop());
            pop(&mut st);
            continue;
        }
        // leave the frame?
        let leave = if fill { is_full && r.chance(3, 4) } else { r.chance(1, 5) };
        if leave && depth > 1 && !(role == Role::Key && is_full && r.chance(9, 10)) {
            cov!("pops");
            step!(format!("pop[{}]", cur.name), w.pop());
            pop(&mut st);
            continue;
        }
        if role == Role::Key && is_full && r.chance(3, 4) {
            let Kind::Map(_, vt) = kind(st[depth - 2].ty) else { unreachable!() };
            step!("push_map_value", w.push_map_value());
            st.push(Fr { ty: vt, node: fresh(vt), role: Role::Value });
            continue;
        }
        if role == Role::SomeInner && !is_full && r.chance(1, 5) {
            step!("pop_some_push_none", w.pop_some_push_none());
            st.pop();
            st.last_mut().unwrap().node = Node::Leaf(MV::None);
            let t = cur;
            st.push(Fr { ty: t, node: Node::Uninit, role: Role::NoneInner });
            continue;
        }
        // whole-value operations, applicable to any kind
        let whole = match kind(cur) {
            Kind::Scalar(_) => r.chance(9, 10),
            _ => r.chance(1, 6),
        };
        let top = st.last_mut().unwrap();
        if whole {
            if is_full {
                cov!("overwrites of complete values");
            } else if !matches!(top.node, Node::Uninit) {
                cov!("overwrites of partial values");
            }
            match r.below(7) {
                6 if cur.shape.vtable.clone_into.is_some() => {
                    let (res, m) = put_peek(w, r, cur);
                    step!(format!("put_peek[{}]", cur.name), res);
                    cov!("clones of values put");
                    top.node = decompose(m, cur);
                }
                6 if err_rate > 0 => must_fail!(format!("put_peek[{}], which cannot be cloned", cur.name), put_peek(w, r, cur).0),
                0 => match cur.default {
                    Some(d) => {
                        step!(format!("put_default[{}]", cur.name), w.put_default());
                        top.node = decompose(d(), cur);
                    }
                    None if err_rate > 0 => must_fail!(format!("put_default[{}]", cur.name), w.put_default()),
                    None => {}
                },
                1 => {
                    let text: Option<(String, MV)> = match kind(cur) {
                        Kind::Scalar(SK::Tok) => Some(("77".into(), MV::Tok(77))),
                        Kind::Scalar(SK::Str) => Some(("parsed string that owns memory".into(), MV::Str("parsed string that owns memory".into()))),
                        Kind::Scalar(SK::Int { .. }) => Some(("41".into(), MV::Int(41))),
                        Kind::Scalar(SK::Bool) => Some(("true".into(), MV::Bool(true))),
                        _ => None,
                    };
                    if let Some((s, m)) = text {
                        if err_rate > 0 && r.chance(1, 8) && !matches!(m, MV::Str(_)) {
                            must_fail!(format!("parse(garbage)[{}]", cur.name), w.parse("not parsable at all"));
                        }
                        step!(format!("parse({s})[{}]", cur.name), w.parse(&s));
                        cov!("values parsed");
                        top.node = Node::Leaf(m);
                    }
                }
                _ => {
                    if let Kind::Option(t) = kind(cur) {
                        if r.chance(1, 2) {
                            let (res, m) = (t.put)(w, r);
                            step!(format!("put_inner[{}]", t.name), res);
                            top.node = Node::Leaf(MV::Some(Box::new(m)));
                            continue;
                        }
                        let (res, m) = (t.put_opt)(w, r);
                        step!(format!("put_option[{}]", t.name), res);
                        top.node = Node::Leaf(m);
                        continue;
                    }
                    let (res, m) = (cur.put)(w, r);
                    step!(format!("put[{}]", cur.name), res);
                    cov!("values put");
                    top.node = decompose(m, cur);
                }
            }
            continue;
        }
        match kind(cur) {
            Kind::Scalar(_) => {}
            Kind::Struct(d) => {
                if d.fields.is_empty() {
                    continue;
                }
                open_struct(top, d.fields.len());
                let mut i = r.below(d.fields.len());
                if fill {
                    // prefer a field that lacks a value
                    if let Node::Struct(v) = &top.node {
                        let un: Vec<usize> = (0..v.len()).filter(|&i| !full(&v[i])).collect();
                        if !un.is_empty() && r.chance(4, 5) {
                            i = *r.pick(&un);
                        }
                    }
                }
                let f = &d.fields[i];
                if r.chance(1, 2) {
                    step!(format!("field({i}:{})", f.name), w.field(i));
                } else {
                    let n = w.field_index(f.name);
                    if n != Some(i) {
                        bail!("field_index", "field_index({}) = {n:?}, expected {i}", f.name);
                    }
                    step!(format!("field_named({})", f.name), w.field_named(f.name));
                }
                let ft = (f.ty)();
                let node = match &mut top.node {
                    Node::Struct(v) => std::mem::replace(&mut v[i], Node::Uninit),
                    _ => unreachable!(),
                };
                if full(&node) {
                    cov!("revisits of complete fields");
                }
                let node = if let Node::Uninit = node { fresh(ft) } else { node };
                st.push(Fr { ty: ft, node, role: Role::Field(i) });
            }
            Kind::Enum(d) => {
                let sel = if let Node::Enum(i, _) = &top.node { Some(*i) } else { None };
                let reselect = match sel {
                    None => true,
                    Some(i) => r.chance(1, 8) || d.variants[i].fields.is_empty() && r.chance(1, 2),
                };
                if reselect {
                    if err_rate > 0 && sel.is_none() && r.chance(1, 10) {
                        must_fail!("field before variant", w.field(0));
                    }
                    let i = r.below(d.variants.len());
                    if sel.is_some() {
                        cov!("variant switches");
                    }
                    if r.chance(1, 2) {
                        step!(format!("variant({i})"), w.variant(i));
                    } else {
                        step!(format!("variant_named({})", d.variants[i].name), w.variant_named(d.variants[i].name));
                    }
                    let n = d.variants[i].fields.len();
                    top.node = Node::Enum(i, (0..n).map(|_| Node::Uninit).collect());
                } else if let Node::Enum(vi, v) = &mut top.node {
                    let fs = d.variants[*vi].fields;
                    if fs.is_empty() {
                        continue;
                    }
                    let i = r.below(fs.len());
                    let f = &fs[i];
                    if d.variants[*vi].kind == 2 && r.chance(1, 2) {
                        step!(format!("field_named({})", f.name), w.field_named(f.name));
                    } else {
                        step!(format!("field({i})"), w.field(i));
                    }
                    let ft = (f.ty)();
                    let node = std::mem::replace(&mut v[i], Node::Uninit);
                    if full(&node) {
                        cov!("revisits of complete fields");
                    }
                    let node = if let Node::Uninit = node { fresh(ft) } else { node };
                    st.push(Fr { ty: ft, node, role: Role::Field(i) });
                }
            }
            Kind::Option(t) => {
                step!(format!("push_some[{}]", t.name), w.push_some());
                cov!("options opened");
                st.push(Fr { ty: t, node: fresh(t), role: Role::SomeInner });
            }
            Kind::List(t) => {
                if r.chance(1, 8) {
                    step!("put_empty_list", w.put_empty_list());
                    top.node = Node::Leaf(MV::List(vec![]));
                    continue;
                }
                if r.chance(1, 4) {
                    step!("begin_pushback", w.begin_pushback());
                    if let Node::Uninit = top.node {
                        top.node = Node::Leaf(MV::List(vec![]));
                    }
                    continue;
                }
                match w.element_shape() {
                    Ok(s) if s == t.shape => {}
                    _ => bail!("element_shape", "element_shape wrong for {}", cur.name),
                }
                step!(format!("push[{}]", t.name), w.push());
                cov!("list elements opened");
                if let Node::Uninit = top.node {
                    top.node = Node::Leaf(MV::List(vec![]));
                }
                st.push(Fr { ty: t, node: fresh(t), role: Role::Elem });
            }
            Kind::Map(k, _) => {
                if r.chance(1, 8) {
                    step!("put_empty_map", w.put_empty_map());
                    top.node = Node::Leaf(MV::Map(vec![]));
                    continue;
                }
                if r.chance(1, 5) {
                    step!("begin_map_insert", w.begin_map_insert());
                    if let Node::Uninit = top.node {
                        top.node = Node::Leaf(MV::Map(vec![]));
                    }
                    continue;
                }
                step!(format!("push_map_key[{}]", k.name), w.push_map_key());
                cov!("map entries opened");
                if let Node::Uninit = top.node {
                    top.node = Node::Leaf(MV::Map(vec![]));
                }
                st.push(Fr { ty: k, node: fresh(k), role: Role::Key });
            }
        }
    }
    // the end: abandon, or pop everything and build
    if r.chance(1, 5) {
        tr!("drop");
        cov!("builders abandoned");
        drop(w);
        return Ok(());
    }
    if r.chance(1, 2) {
        // finish filling in so that many histories end in a complete value
        let mut budget = 400;
        loop {
            budget -= 1;
            if budget == 0 {
                break;
            }
            let top = st.last_mut().unwrap();
            let (cur, role) = (top.ty, top.role);
            if full(&top.node) || role == Role::NoneInner {
                if st.len() == 1 {
                    break;
                }
                if role == Role::Key {
                    let Kind::Map(_, vt) = kind(st[st.len() - 2].ty) else { unreachable!() };
                    step!("push_map_value", w.push_map_value());
                    st.push(Fr { ty: vt, node: fresh(vt), role: Role::Value });
                    continue;
                }
                step!("pop", w.pop());
                pop(&mut st);
                continue;
            }
            match (kind(cur), &mut top.node) {
                (Kind::Struct(d), _) => {
                    open_struct(top, d.fields.len());
                    let Node::Struct(v) = &mut top.node else { unreachable!() };
                    let i = v.iter().position(|x| !full(x)).unwrap();
                    step!(format!("field({i})"), w.field(i));
                    let node = std::mem::replace(&mut v[i], Node::Uninit);
                    let ft = (d.fields[i].ty)();
                    let node = if let Node::Uninit = node { fresh(ft) } else { node };
                    st.push(Fr { ty: ft, node, role: Role::Field(i) });
                }
                (Kind::Enum(d), Node::Enum(vi, v)) => {
                    let i = v.iter().position(|x| !full(x)).unwrap();
                    step!(format!("field({i})"), w.field(i));
                    let node = std::mem::replace(&mut v[i], Node::Uninit);
                    let ft = (d.variants[*vi].fields[i].ty)();
                    let node = if let Node::Uninit = node { fresh(ft) } else { node };
                    st.push(Fr { ty: ft, node, role: Role::Field(i) });
                }
                _ => {
                    let (res, m) = (cur.put)(w, r);
                    step!(format!("put[{}]", cur.name), res);
                    top.node = decompose(m, cur);
                }
            }
        }
    }
    if r.chance(1, 10) && st.len() == 1 {
        step!("pop[root]", w.pop());
    } else {
        while st.len() > 1 {
            pop(&mut st);
        }
    }
    tr!("build");
    let root = &st[0].node;
    let ok = full(root);
    match w.build() {
        Ok(h) => {
            if !ok {
                if carry_on {
                    let _ = (ty.mat)(h);
                }
                bail!("incomplete", "built although incomplete: {root:?}");
            }
            let want = value(root);
            if !invariants_ok(&want, ty) {
                bail!("invariant", "built although an invariant is violated: {want:?}");
            }
            cov!("values built");
            match (ty.mat)(h) {
                Ok(got) => {
                    if got != want {
                        bail!("value", "built {got:?}, expected {want:?}");
                    }
                }
                Err(e) => bail!("materialize", "{e}"),
            }
        }
        Err(e) => {
            let msg = format!("{e}");
            if ok && invariants_ok(&value(root), ty) {
                bail!("refused", "complete value refused by build: {msg}");
            }
            cov!("incomplete values refused");
            if !ok {
                match e {
                    ReflectError::UninitializedField { field_name, .. }
                    | ReflectError::UninitializedEnumField { field_name, .. } => {
                        if !missing(root, ty, field_name) {
                            bail!("wrong-field", "build names field {field_name:?}, which has a value: {root:?}");
                        }
                    }
                    ReflectError::InvariantViolation { .. } => {
                        bail!("wrong-error", "incomplete value reported as {msg}")
                    }
                    _ => {}
                }
            }
        }
    }
    Ok(())
}
fn wrong_put_probe(r: &mut Rng, cur: T, inner: Option<T>) -> bool {
    // same choice as wrong_put will make (r is a clone the caller passes on unchanged)
    let mut q = r.clone();
    let k = q.below(10);
    let s = match k {
        0 => u8::SHAPE,
        1 => u64::SHAPE,
        2 => String::SHAPE,
        3 => Tok::SHAPE,
        4 => fvl::zoo::Toks::SHAPE,
        5 => Vec::<u8>::SHAPE,
        6 => Option::<String>::SHAPE,
        7 => fvl::zoo::TokEnum::SHAPE,
        8 => bool::SHAPE,
        _ => i32::SHAPE,
    };
    !(s == cur.shape || inner.is_some_and(|i| i.shape == s))
}

fn types() -> Vec<T> {
    ZOO.iter().filter(|(_, t)| t.contains('w')).map(|(t, _)| *t).chain([
        <Vec<Tok> as Model>::FNS,
        <Option<Tok> as Model>::FNS,
        <Option<Option<fvl::zoo::Toks>> as Model>::FNS,
        <Vec<fvl::zoo::TokEnum> as Model>::FNS,
        <std::collections::BTreeMap<Tok, fvl::zoo::Toks> as Model>::FNS,
        <std::collections::HashMap<String, Vec<Tok>> as Model>::FNS,
        <std::collections::BTreeMap<fvl::zoo::TokKey, Tok> as Model>::FNS,
        <std::collections::HashMap<fvl::zoo::TokKey, Vec<fvl::zoo::TokKey>> as Model>::FNS,
        <Tok as Model>::FNS,
        <u32 as Model>::FNS,
        <String as Model>::FNS,
    ]).collect()
}
/// Unit structs that count their drops: the builder must drop those it was given and no others.
#[derive(Facet)]
struct Units {
    a: ZUnit,
    t: Tok,
    b: ZUnit,
    l: Vec<ZUnit>,
    o: Option<ZUnit>,
}
fn units(seed: u64, carry_on: bool) -> R {
    let mut r = Rng::new(seed);
    let go = |w: W, r: &mut Rng| -> Result<Option<W>, ReflectError> {
        let mut w = w;
        for _ in 0..r.below(12) + 1 {
            let i = r.below(5);
            w = w.field(i)?;
            match i {
                1 => w = w.put(Tok::new(1))?,
                3 => {
                    for _ in 0..r.below(3) {
                        w = w.push()?.put(ZUnit::make())?;
                        if r.chance(1, 2) { w = w.put(ZUnit::make())?; }
                        w = w.pop()?;
                    }
                    if r.chance(1, 3) { w = w.put(vec![ZUnit::make(), ZUnit::make()])?; }
                }
                4 => match r.below(4) {
                    0 => w = w.put(Some(ZUnit::make()))?,
                    1 => w = w.put(None::<ZUnit>)?,
                    2 => w = w.put(ZUnit::make())?,
                    _ => w = w.push_some()?.put(ZUnit::make())?.pop()?,
                },
                _ => {
                    for _ in 0..r.below(3) { w = w.put(ZUnit::make())?; }
                    if r.chance(1, 8) { return Ok(None); }
                    w = w.put(ZUnit::make())?;
                    if r.chance(1, 8) { return Ok(None); }
                }
            }
            w = w.pop()?;
            cov!("unit structs put");
        }
        if r.chance(1, 3) {
            for i in 0..5 {
                w = w.field(i)?;
                w = match i {
                    1 => w.put(Tok::new(1))?,
                    3 => w.put(Vec::<ZUnit>::new())?,
                    4 => w.put(None::<ZUnit>)?,
                    _ => w.put(ZUnit::make())?,
                }.pop()?;
            }
        }
        Ok(Some(w))
    };
    let root = r.below(3);
    let res = match root {
        // the unit struct alone
        0 => (|| {
            let mut w = Wip::alloc::<ZUnit>();
            for _ in 0..r.below(3) { w = w.put(ZUnit::make())?; }
            if r.chance(1, 2) { return Ok(()); }
            let v = w.put(ZUnit::make())?.build()?;
            if r.chance(1, 2) { v.materialize::<ZUnit>()?; }
            Ok(())
        })(),
        _ => match go(Wip::alloc::<Units>(), &mut r) {
            Err(e) => Err(e),
            Ok(None) => Ok(()),
            Ok(Some(w)) if r.chance(1, 2) => { drop(w.build()); Ok(()) }
            Ok(Some(w)) => { drop(w); Ok(()) }
        },
    };
    match res {
        Err(e) if !carry_on => bail!("refused", "{e}"),
        _ => Ok(()),
    }
}
fn drive(c: &mut Ctx, stream: u64) {
    let types = types();
    let mut r = c.rng(stream);
    let mut round = 0u64;
    let miri_cases = 400;
    let carry_on = !c.behaviour;
    while c.time_left() {
        if !c.behaviour {
            for _ in 0..8 {
                let seed = r.next();
                c.case("builder/unit structs", &format!("unit structs seed={seed}"), || units(seed, carry_on));
            }
        }
        for t in &types {
            let ops = match round { 0..4 => 6, 4..16 => 14, _ => *r.pick(&[5, 12, 30, 80, 200]) };
            let seed = r.next();
            let err = r.chance(1, 2);
            let sig = format!("builder/{}", t.name);
            let input = format!("type={} seed={seed} ops={ops} err={err}", t.name);
            c.case(&sig, &input, || history(t, seed, ops, err, carry_on));
            if cfg!(miri) && c.evals > miri_cases {
                return;
            }
        }
        round += 1;
    }
}
pub fn p01(c: &mut Ctx) {
    c.behaviour = false;
    drive(c, 1);
}
pub fn p02(c: &mut Ctx) {
    c.check_leaks = false;
    c.check_toks = false;
    drive(c, 2);
}
