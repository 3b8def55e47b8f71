// generated by gen/gen_lay.py -- do not edit
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(align(16))]
pub struct Al16  {   a: u8 }
impl Lay for Al16 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Al16", full: "Al16", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Al16", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Al16 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Al16 { a: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Al16 { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Al16 { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Al16 { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Zst ;
impl Lay for Zst {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Zst", full: "Zst", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Zst", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Zst => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Zst, } }
fn addrs(&self) -> Vec<usize> { match self { Zst => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Zst => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Zst => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(align(8))]
pub struct Zst8  {  }
impl Lay for Zst8 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Zst8", full: "Zst8", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Zst8", disc: 0, kind: 's', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Zst8 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Zst8 {  }, } }
fn addrs(&self) -> Vec<usize> { match self { Zst8 {  } => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Zst8 {  } => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Zst8 {  } => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Inner  {   a: u8,
   b: u64,
   c: u16 }
impl Lay for Inner {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Inner", full: "Inner", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Inner", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Inner { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Inner { a: <u8 as Arb>::arb(r), b: <u64 as Arb>::arb(r), c: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Inner { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Inner { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Inner { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum InnerE  {
A ,
B (   u32 ),
C {   x: String },
}
impl Lay for InnerE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "InnerE", full: "InnerE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 's', fields: &[LF { name: "x", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { InnerE::A => 0, InnerE::B(..) => 1, InnerE::C { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => InnerE::A, 1 => InnerE::B(<u32 as Arb>::arb(r)), _ => InnerE::C { x: <String as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { InnerE::A => vec![], InnerE::B(x0) => vec![x0 as *const _ as usize], InnerE::C { x: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { InnerE::A => vec![], InnerE::B(x0) => vec![same(x0, &p[0])], InnerE::C { x: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { InnerE::A => match i {  _ => unreachable!() }, InnerE::B(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, InnerE::C { x: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Gen<T, U>  {   a: T,
   b: U,
   c: Vec<T> }
impl Lay for Gen<u8, String> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<u8, String>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u8 as Facet>::SHAPE), ("U", || <String as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <u8 as Arb>::arb(r), b: <String as Arb>::arb(r), c: <Vec<u8> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for Gen<String, u8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<String, u8>", tag: None, attrs: &[], doc: &[], params: &[("T", || <String as Facet>::SHAPE), ("U", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<String> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<String>>(), layout: Layout::new::<Vec<String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <String as Arb>::arb(r), b: <u8 as Arb>::arb(r), c: <Vec<String> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for Gen<(), Zst> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<(), Zst>", tag: None, attrs: &[], doc: &[], params: &[("T", || <() as Facet>::SHAPE), ("U", || <Zst as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<()> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<()>>(), layout: Layout::new::<Vec<()>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <() as Arb>::arb(r), b: <Zst as Arb>::arb(r), c: <Vec<()> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for Gen<Al16, u8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<Al16, u8>", tag: None, attrs: &[], doc: &[], params: &[("T", || <Al16 as Facet>::SHAPE), ("U", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<Al16> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Al16>>(), layout: Layout::new::<Vec<Al16>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <Al16 as Arb>::arb(r), b: <u8 as Arb>::arb(r), c: <Vec<Al16> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for Gen<u8, Vec<u32>> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<u8, Vec<u32>>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u8 as Facet>::SHAPE), ("U", || <Vec<u32> as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Vec<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u32>>(), layout: Layout::new::<Vec<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <u8 as Arb>::arb(r), b: <Vec<u32> as Arb>::arb(r), c: <Vec<u8> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for Gen<u32, u8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Gen", full: "Gen<u32, u8>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u32 as Facet>::SHAPE), ("U", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "Gen", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <Vec<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u32>>(), layout: Layout::new::<Vec<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Gen { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Gen { a: <u32 as Arb>::arb(r), b: <u8 as Arb>::arb(r), c: <Vec<u32> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Gen { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Gen { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Gen { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub(crate) struct St0  {  pub(crate) f0: (),
  pub(crate) f1: u32,
  pub(crate) f2: String }
impl Lay for St0 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St0", full: "St0", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St0", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f2", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St0 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St0 { f0: <() as Arb>::arb(r), f1: <u32 as Arb>::arb(r), f2: <String as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St0 { f0: x0, f1: x1, f2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St0 { f0: x0, f1: x1, f2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St0 { f0: x0, f1: x1, f2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub(crate) struct St1  {  pub f0: u32,
   g_1: u32 }
impl Lay for St1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St1", full: "St1", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St1", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St1 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St1 { f0: <u32 as Arb>::arb(r), g_1: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St1 { f0: x0, g_1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St1 { f0: x0, g_1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St1 { f0: x0, g_1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct St2  {  pub(crate) f0: Vec<Option<Vec<String>>>,
  pub(crate) f1: bool,
   x2: HashMap<String, u32>,
  pub x3: HashMap<String, u32> }
impl Lay for St2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St2", full: "St2", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St2", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f1", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x2", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x3", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St2 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St2 { f0: <Vec<Option<Vec<String>>> as Arb>::arb(r), f1: <bool as Arb>::arb(r), x2: <HashMap<String, u32> as Arb>::arb(r), x3: <HashMap<String, u32> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St2 { f0: x0, f1: x1, x2: x2, x3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St2 { f0: x0, f1: x1, x2: x2, x3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St2 { f0: x0, f1: x1, x2: x2, x3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
 struct St3  {   x0: (u8, u32) }
impl Lay for St3 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St3", full: "St3", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St3", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St3 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St3 { x0: <(u8, u32) as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St3 { x0: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St3 { x0: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St3 { x0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct St4  {  pub(crate) x0: u64,
  pub(crate) g_1: [u16; 2] }
impl Lay for St4 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St4", full: "St4", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St4", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St4 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St4 { x0: <u64 as Arb>::arb(r), g_1: <[u16; 2] as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St4 { x0: x0, g_1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St4 { x0: x0, g_1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St4 { x0: x0, g_1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
 struct St5  {   x0: Al16,
  pub(crate) g_1: u64,
  pub(crate) x2: u32,
   f3: BTreeMap<String, Vec<Option<u8>>>,
  pub(crate) g_4: Zst }
impl Lay for St5 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St5", full: "St5", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St5", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x2", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f3", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_4", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St5 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St5 { x0: <Al16 as Arb>::arb(r), g_1: <u64 as Arb>::arb(r), x2: <u32 as Arb>::arb(r), f3: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), g_4: <Zst as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St5 { x0: x0, g_1: x1, x2: x2, f3: x3, g_4: x4 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St5 { x0: x0, g_1: x1, x2: x2, f3: x3, g_4: x4 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St5 { x0: x0, g_1: x1, x2: x2, f3: x3, g_4: x4 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(align(32))]
 struct St6  {  pub x0: Gen<u8, String>,
   g_1: f32,
   f2: Zst8,
  pub f3: HashMap<String, u32> }
impl Lay for St6 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St6", full: "St6", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St6", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f2", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f3", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St6 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St6 { x0: <Gen<u8, String> as Arb>::arb(r), g_1: <f32 as Arb>::arb(r), f2: <Zst8 as Arb>::arb(r), f3: <HashMap<String, u32> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St6 { x0: x0, g_1: x1, f2: x2, f3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St6 { x0: x0, g_1: x1, f2: x2, f3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St6 { x0: x0, g_1: x1, f2: x2, f3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, align(8))]
 struct St7  {  pub x0: Option<u64>,
   x1: u32,
   x2: Vec<u8> }
impl Lay for St7 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St7", full: "St7", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St7", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x2", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St7 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St7 { x0: <Option<u64> as Arb>::arb(r), x1: <u32 as Arb>::arb(r), x2: <Vec<u8> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St7 { x0: x0, x1: x1, x2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St7 { x0: x0, x1: x1, x2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St7 { x0: x0, x1: x1, x2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(align(32))]
 struct St8  {   g_0: Vec<u8>,
  pub(crate) x1: u32 }
impl Lay for St8 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St8", full: "St8", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St8", disc: 0, kind: 's', fields: &[LF { name: "g_0", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St8 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St8 { g_0: <Vec<u8> as Arb>::arb(r), x1: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St8 { g_0: x0, x1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St8 { g_0: x0, x1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St8 { g_0: x0, x1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
 struct St9  {  pub(crate) x0: String,
  pub g_1: HashMap<String, u32>,
   f2: Vec<Option<Vec<String>>> }
impl Lay for St9 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St9", full: "St9", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St9", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f2", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St9 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St9 { x0: <String as Arb>::arb(r), g_1: <HashMap<String, u32> as Arb>::arb(r), f2: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St9 { x0: x0, g_1: x1, f2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St9 { x0: x0, g_1: x1, f2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St9 { x0: x0, g_1: x1, f2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct St10  {   x0: u32,
  pub x1: Zst8,
  pub(crate) x2: HashMap<String, u32>,
  pub(crate) g_3: f32,
  pub(crate) g_4: Arc<u32>,
  pub g_5: u8 }
impl Lay for St10 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St10", full: "St10", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St10", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x1", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x2", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_3", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_4", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_5", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St10 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St10 { x0: <u32 as Arb>::arb(r), x1: <Zst8 as Arb>::arb(r), x2: <HashMap<String, u32> as Arb>::arb(r), g_3: <f32 as Arb>::arb(r), g_4: <Arc<u32> as Arb>::arb(r), g_5: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St10 { x0: x0, x1: x1, x2: x2, g_3: x3, g_4: x4, g_5: x5 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St10 { x0: x0, x1: x1, x2: x2, g_3: x3, g_4: x4, g_5: x5 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St10 { x0: x0, x1: x1, x2: x2, g_3: x3, g_4: x4, g_5: x5 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub(crate) struct St11  {   f0: Option<String>,
  pub f1: InnerE,
   f2: Inner,
  pub g_3: (),
  pub f4: i8 }
impl Lay for St11 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St11", full: "St11", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St11", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f1", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_3", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f4", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St11 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St11 { f0: <Option<String> as Arb>::arb(r), f1: <InnerE as Arb>::arb(r), f2: <Inner as Arb>::arb(r), g_3: <() as Arb>::arb(r), f4: <i8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St11 { f0: x0, f1: x1, f2: x2, g_3: x3, f4: x4 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St11 { f0: x0, f1: x1, f2: x2, g_3: x3, f4: x4 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St11 { f0: x0, f1: x1, f2: x2, g_3: x3, f4: x4 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub struct St12  {  pub f0: Vec<Option<Vec<String>>>,
  pub(crate) x1: char,
  pub(crate) g_2: String }
impl Lay for St12 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St12", full: "St12", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St12", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_2", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St12 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St12 { f0: <Vec<Option<Vec<String>>> as Arb>::arb(r), x1: <char as Arb>::arb(r), g_2: <String as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St12 { f0: x0, x1: x1, g_2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St12 { f0: x0, x1: x1, g_2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St12 { f0: x0, x1: x1, g_2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
 struct St13  {   f0: i8,
   f1: Zst }
impl Lay for St13 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St13", full: "St13", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St13", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f1", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St13 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St13 { f0: <i8 as Arb>::arb(r), f1: <Zst as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St13 { f0: x0, f1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St13 { f0: x0, f1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St13 { f0: x0, f1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, align(8))]
pub(crate) struct St14  {  pub x0: i8,
   g_1: u8,
  pub g_2: [u16; 2],
  pub x3: HashMap<String, u32>,
  pub(crate) f4: Zst8,
  pub(crate) x5: Al16,
  pub x6: u16 }
impl Lay for St14 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St14", full: "St14", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St14", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_2", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x3", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f4", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x5", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "x6", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St14 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St14 { x0: <i8 as Arb>::arb(r), g_1: <u8 as Arb>::arb(r), g_2: <[u16; 2] as Arb>::arb(r), x3: <HashMap<String, u32> as Arb>::arb(r), f4: <Zst8 as Arb>::arb(r), x5: <Al16 as Arb>::arb(r), x6: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St14 { x0: x0, g_1: x1, g_2: x2, x3: x3, f4: x4, x5: x5, x6: x6 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St14 { x0: x0, g_1: x1, g_2: x2, x3: x3, f4: x4, x5: x5, x6: x6 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St14 { x0: x0, g_1: x1, g_2: x2, x3: x3, f4: x4, x5: x5, x6: x6 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(align(32))]
pub struct St15  {  pub x0: (),
   g_1: (),
  pub g_2: Al16,
   f3: i64,
   f4: Option<u64>,
  pub(crate) f5: f64,
   f6: u64 }
impl Lay for St15 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "St15", full: "St15", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "St15", disc: 0, kind: 's', fields: &[LF { name: "x0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_1", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g_2", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f3", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f4", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f5", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f6", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { St15 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => St15 { x0: <() as Arb>::arb(r), g_1: <() as Arb>::arb(r), g_2: <Al16 as Arb>::arb(r), f3: <i64 as Arb>::arb(r), f4: <Option<u64> as Arb>::arb(r), f5: <f64 as Arb>::arb(r), f6: <u64 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { St15 { x0: x0, g_1: x1, g_2: x2, f3: x3, f4: x4, f5: x5, f6: x6 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { St15 { x0: x0, g_1: x1, g_2: x2, f3: x3, f4: x4, f5: x5, f6: x6 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { St15 { x0: x0, g_1: x1, g_2: x2, f3: x3, f4: x4, f5: x5, f6: x6 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Tp0 (   String,
   u32,
  pub BTreeMap<String, Vec<Option<u8>>>,
  pub u128,
  pub String ) ;
impl Lay for Tp0 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp0", full: "Tp0", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "4", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp0(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp0(<String as Arb>::arb(r), <u32 as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), <u128 as Arb>::arb(r), <String as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp0(x0, x1, x2, x3, x4) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp0(x0, x1, x2, x3, x4) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp0(x0, x1, x2, x3, x4) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Tp1 (  pub u64,
  pub Option<u64>,
  pub Option<String>,
   u32 ) ;
impl Lay for Tp1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp1", full: "Tp1", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp1", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp1(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp1(<u64 as Arb>::arb(r), <Option<u64> as Arb>::arb(r), <Option<String> as Arb>::arb(r), <u32 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp1(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp1(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp1(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub struct Tp2 (  pub Inner ) ;
impl Lay for Tp2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp2", full: "Tp2", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp2", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp2(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp2(<Inner as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp2(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp2(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp2(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Tp3 (   [u8; 3],
  pub i64,
   u128,
  pub InnerE ) ;
impl Lay for Tp3 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp3", full: "Tp3", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp3", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp3(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp3(<[u8; 3] as Arb>::arb(r), <i64 as Arb>::arb(r), <u128 as Arb>::arb(r), <InnerE as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp3(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp3(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp3(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Tp4 (  pub Zst8,
  pub [u8; 3],
   Gen<u8, String>,
   String,
  pub [u16; 2],
   Al16 ) ;
impl Lay for Tp4 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp4", full: "Tp4", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp4", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "4", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "5", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp4(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp4(<Zst8 as Arb>::arb(r), <[u8; 3] as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r), <String as Arb>::arb(r), <[u16; 2] as Arb>::arb(r), <Al16 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp4(x0, x1, x2, x3, x4, x5) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp4(x0, x1, x2, x3, x4, x5) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp4(x0, x1, x2, x3, x4, x5) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Tp5 (   NonZero<u32>,
  pub Vec<Option<Vec<String>>>,
   Inner,
  pub i64,
   String ) ;
impl Lay for Tp5 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp5", full: "Tp5", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp5", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "4", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp5(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp5(<NonZero<u32> as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r), <Inner as Arb>::arb(r), <i64 as Arb>::arb(r), <String as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp5(x0, x1, x2, x3, x4) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp5(x0, x1, x2, x3, x4) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp5(x0, x1, x2, x3, x4) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub struct Tp6 (  pub Option<String> ) ;
impl Lay for Tp6 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp6", full: "Tp6", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp6", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp6(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp6(<Option<String> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp6(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp6(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp6(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub struct Tp7 (  pub Option<u64>,
   String ) ;
impl Lay for Tp7 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Tp7", full: "Tp7", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Tp7", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Tp7(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Tp7(<Option<u64> as Arb>::arb(r), <String as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Tp7(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Tp7(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Tp7(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Big  {   f0: bool,
   f1: u64,
   f2: bool,
   f3: Option<String>,
   f4: i64,
   f5: f64,
   f6: i64,
   f7: Option<String>,
   f8: BTreeMap<String, Vec<Option<u8>>>,
   f9: Arc<u32>,
   f10: BTreeMap<String, Vec<Option<u8>>>,
   f11: Vec<Option<Vec<String>>>,
   f12: u8,
   f13: Option<String>,
   f14: Gen<u8, String>,
   f15: Al16,
   f16: String,
   f17: NonZero<u32>,
   f18: Al16,
   f19: u32,
   f20: Vec<Option<Vec<String>>>,
   f21: Zst,
   f22: u64,
   f23: Gen<u8, String>,
   f24: (),
   f25: NonZero<u32>,
   f26: Zst8,
   f27: InnerE,
   f28: i64,
   f29: Option<String>,
   f30: Arc<u32>,
   f31: i8,
   f32: Vec<u8>,
   f33: NonZero<u32>,
   f34: Al16,
   f35: f64,
   f36: u32,
   f37: NonZero<u32>,
   f38: Inner,
   f39: (),
   f40: Option<u64>,
   f41: (),
   f42: Inner,
   f43: u32,
   f44: Inner,
   f45: i8,
   f46: i8,
   f47: u128,
   f48: u8,
   f49: u128,
   f50: HashMap<String, u32>,
   f51: Arc<u32>,
   f52: Option<u64>,
   f53: NonZero<u32>,
   f54: Al16,
   f55: u128,
   f56: BTreeMap<String, Vec<Option<u8>>>,
   f57: Vec<Option<Vec<String>>>,
   f58: BTreeMap<String, Vec<Option<u8>>>,
   f59: Option<String>,
   f60: Zst,
   f61: Gen<u8, String>,
   f62: String,
   f63: u128,
   f64: [u16; 2],
   f65: [u16; 2],
   f66: u128,
   f67: u8,
   f68: u8,
   f69: NonZero<u32> }
impl Lay for Big {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Big", full: "Big", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Big", disc: 0, kind: 's', fields: &[LF { name: "f0", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f1", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f2", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f3", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f4", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f5", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f6", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f7", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f8", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f9", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f10", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f11", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f12", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f13", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f14", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f15", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f16", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f17", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f18", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f19", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f20", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f21", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f22", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f23", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f24", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f25", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f26", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f27", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f28", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f29", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f30", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f31", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f32", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f33", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f34", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f35", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f36", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f37", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f38", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f39", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f40", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f41", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f42", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f43", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f44", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f45", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f46", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f47", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f48", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f49", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f50", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f51", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f52", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f53", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f54", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f55", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f56", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f57", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f58", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f59", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f60", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f61", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f62", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f63", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f64", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f65", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f66", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f67", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f68", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f69", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Big { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Big { f0: <bool as Arb>::arb(r), f1: <u64 as Arb>::arb(r), f2: <bool as Arb>::arb(r), f3: <Option<String> as Arb>::arb(r), f4: <i64 as Arb>::arb(r), f5: <f64 as Arb>::arb(r), f6: <i64 as Arb>::arb(r), f7: <Option<String> as Arb>::arb(r), f8: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), f9: <Arc<u32> as Arb>::arb(r), f10: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), f11: <Vec<Option<Vec<String>>> as Arb>::arb(r), f12: <u8 as Arb>::arb(r), f13: <Option<String> as Arb>::arb(r), f14: <Gen<u8, String> as Arb>::arb(r), f15: <Al16 as Arb>::arb(r), f16: <String as Arb>::arb(r), f17: <NonZero<u32> as Arb>::arb(r), f18: <Al16 as Arb>::arb(r), f19: <u32 as Arb>::arb(r), f20: <Vec<Option<Vec<String>>> as Arb>::arb(r), f21: <Zst as Arb>::arb(r), f22: <u64 as Arb>::arb(r), f23: <Gen<u8, String> as Arb>::arb(r), f24: <() as Arb>::arb(r), f25: <NonZero<u32> as Arb>::arb(r), f26: <Zst8 as Arb>::arb(r), f27: <InnerE as Arb>::arb(r), f28: <i64 as Arb>::arb(r), f29: <Option<String> as Arb>::arb(r), f30: <Arc<u32> as Arb>::arb(r), f31: <i8 as Arb>::arb(r), f32: <Vec<u8> as Arb>::arb(r), f33: <NonZero<u32> as Arb>::arb(r), f34: <Al16 as Arb>::arb(r), f35: <f64 as Arb>::arb(r), f36: <u32 as Arb>::arb(r), f37: <NonZero<u32> as Arb>::arb(r), f38: <Inner as Arb>::arb(r), f39: <() as Arb>::arb(r), f40: <Option<u64> as Arb>::arb(r), f41: <() as Arb>::arb(r), f42: <Inner as Arb>::arb(r), f43: <u32 as Arb>::arb(r), f44: <Inner as Arb>::arb(r), f45: <i8 as Arb>::arb(r), f46: <i8 as Arb>::arb(r), f47: <u128 as Arb>::arb(r), f48: <u8 as Arb>::arb(r), f49: <u128 as Arb>::arb(r), f50: <HashMap<String, u32> as Arb>::arb(r), f51: <Arc<u32> as Arb>::arb(r), f52: <Option<u64> as Arb>::arb(r), f53: <NonZero<u32> as Arb>::arb(r), f54: <Al16 as Arb>::arb(r), f55: <u128 as Arb>::arb(r), f56: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), f57: <Vec<Option<Vec<String>>> as Arb>::arb(r), f58: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), f59: <Option<String> as Arb>::arb(r), f60: <Zst as Arb>::arb(r), f61: <Gen<u8, String> as Arb>::arb(r), f62: <String as Arb>::arb(r), f63: <u128 as Arb>::arb(r), f64: <[u16; 2] as Arb>::arb(r), f65: <[u16; 2] as Arb>::arb(r), f66: <u128 as Arb>::arb(r), f67: <u8 as Arb>::arb(r), f68: <u8 as Arb>::arb(r), f69: <NonZero<u32> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Big { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29, f30: x30, f31: x31, f32: x32, f33: x33, f34: x34, f35: x35, f36: x36, f37: x37, f38: x38, f39: x39, f40: x40, f41: x41, f42: x42, f43: x43, f44: x44, f45: x45, f46: x46, f47: x47, f48: x48, f49: x49, f50: x50, f51: x51, f52: x52, f53: x53, f54: x54, f55: x55, f56: x56, f57: x57, f58: x58, f59: x59, f60: x60, f61: x61, f62: x62, f63: x63, f64: x64, f65: x65, f66: x66, f67: x67, f68: x68, f69: x69 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize, x7 as *const _ as usize, x8 as *const _ as usize, x9 as *const _ as usize, x10 as *const _ as usize, x11 as *const _ as usize, x12 as *const _ as usize, x13 as *const _ as usize, x14 as *const _ as usize, x15 as *const _ as usize, x16 as *const _ as usize, x17 as *const _ as usize, x18 as *const _ as usize, x19 as *const _ as usize, x20 as *const _ as usize, x21 as *const _ as usize, x22 as *const _ as usize, x23 as *const _ as usize, x24 as *const _ as usize, x25 as *const _ as usize, x26 as *const _ as usize, x27 as *const _ as usize, x28 as *const _ as usize, x29 as *const _ as usize, x30 as *const _ as usize, x31 as *const _ as usize, x32 as *const _ as usize, x33 as *const _ as usize, x34 as *const _ as usize, x35 as *const _ as usize, x36 as *const _ as usize, x37 as *const _ as usize, x38 as *const _ as usize, x39 as *const _ as usize, x40 as *const _ as usize, x41 as *const _ as usize, x42 as *const _ as usize, x43 as *const _ as usize, x44 as *const _ as usize, x45 as *const _ as usize, x46 as *const _ as usize, x47 as *const _ as usize, x48 as *const _ as usize, x49 as *const _ as usize, x50 as *const _ as usize, x51 as *const _ as usize, x52 as *const _ as usize, x53 as *const _ as usize, x54 as *const _ as usize, x55 as *const _ as usize, x56 as *const _ as usize, x57 as *const _ as usize, x58 as *const _ as usize, x59 as *const _ as usize, x60 as *const _ as usize, x61 as *const _ as usize, x62 as *const _ as usize, x63 as *const _ as usize, x64 as *const _ as usize, x65 as *const _ as usize, x66 as *const _ as usize, x67 as *const _ as usize, x68 as *const _ as usize, x69 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Big { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29, f30: x30, f31: x31, f32: x32, f33: x33, f34: x34, f35: x35, f36: x36, f37: x37, f38: x38, f39: x39, f40: x40, f41: x41, f42: x42, f43: x43, f44: x44, f45: x45, f46: x46, f47: x47, f48: x48, f49: x49, f50: x50, f51: x51, f52: x52, f53: x53, f54: x54, f55: x55, f56: x56, f57: x57, f58: x58, f59: x59, f60: x60, f61: x61, f62: x62, f63: x63, f64: x64, f65: x65, f66: x66, f67: x67, f68: x68, f69: x69 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6]), same(x7, &p[7]), same(x8, &p[8]), same(x9, &p[9]), same(x10, &p[10]), same(x11, &p[11]), same(x12, &p[12]), same(x13, &p[13]), same(x14, &p[14]), same(x15, &p[15]), same(x16, &p[16]), same(x17, &p[17]), same(x18, &p[18]), same(x19, &p[19]), same(x20, &p[20]), same(x21, &p[21]), same(x22, &p[22]), same(x23, &p[23]), same(x24, &p[24]), same(x25, &p[25]), same(x26, &p[26]), same(x27, &p[27]), same(x28, &p[28]), same(x29, &p[29]), same(x30, &p[30]), same(x31, &p[31]), same(x32, &p[32]), same(x33, &p[33]), same(x34, &p[34]), same(x35, &p[35]), same(x36, &p[36]), same(x37, &p[37]), same(x38, &p[38]), same(x39, &p[39]), same(x40, &p[40]), same(x41, &p[41]), same(x42, &p[42]), same(x43, &p[43]), same(x44, &p[44]), same(x45, &p[45]), same(x46, &p[46]), same(x47, &p[47]), same(x48, &p[48]), same(x49, &p[49]), same(x50, &p[50]), same(x51, &p[51]), same(x52, &p[52]), same(x53, &p[53]), same(x54, &p[54]), same(x55, &p[55]), same(x56, &p[56]), same(x57, &p[57]), same(x58, &p[58]), same(x59, &p[59]), same(x60, &p[60]), same(x61, &p[61]), same(x62, &p[62]), same(x63, &p[63]), same(x64, &p[64]), same(x65, &p[65]), same(x66, &p[66]), same(x67, &p[67]), same(x68, &p[68]), same(x69, &p[69])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Big { f0: x0, f1: x1, f2: x2, f3: x3, f4: x4, f5: x5, f6: x6, f7: x7, f8: x8, f9: x9, f10: x10, f11: x11, f12: x12, f13: x13, f14: x14, f15: x15, f16: x16, f17: x17, f18: x18, f19: x19, f20: x20, f21: x21, f22: x22, f23: x23, f24: x24, f25: x25, f26: x26, f27: x27, f28: x28, f29: x29, f30: x30, f31: x31, f32: x32, f33: x33, f34: x34, f35: x35, f36: x36, f37: x37, f38: x38, f39: x39, f40: x40, f41: x41, f42: x42, f43: x43, f44: x44, f45: x45, f46: x46, f47: x47, f48: x48, f49: x49, f50: x50, f51: x51, f52: x52, f53: x53, f54: x54, f55: x55, f56: x56, f57: x57, f58: x58, f59: x59, f60: x60, f61: x61, f62: x62, f63: x63, f64: x64, f65: x65, f66: x66, f67: x67, f68: x68, f69: x69 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), 7 => w.put(x7.clone()), 8 => w.put(x8.clone()), 9 => w.put(x9.clone()), 10 => w.put(x10.clone()), 11 => w.put(x11.clone()), 12 => w.put(x12.clone()), 13 => w.put(x13.clone()), 14 => w.put(x14.clone()), 15 => w.put(x15.clone()), 16 => w.put(x16.clone()), 17 => w.put(x17.clone()), 18 => w.put(x18.clone()), 19 => w.put(x19.clone()), 20 => w.put(x20.clone()), 21 => w.put(x21.clone()), 22 => w.put(x22.clone()), 23 => w.put(x23.clone()), 24 => w.put(x24.clone()), 25 => w.put(x25.clone()), 26 => w.put(x26.clone()), 27 => w.put(x27.clone()), 28 => w.put(x28.clone()), 29 => w.put(x29.clone()), 30 => w.put(x30.clone()), 31 => w.put(x31.clone()), 32 => w.put(x32.clone()), 33 => w.put(x33.clone()), 34 => w.put(x34.clone()), 35 => w.put(x35.clone()), 36 => w.put(x36.clone()), 37 => w.put(x37.clone()), 38 => w.put(x38.clone()), 39 => w.put(x39.clone()), 40 => w.put(x40.clone()), 41 => w.put(x41.clone()), 42 => w.put(x42.clone()), 43 => w.put(x43.clone()), 44 => w.put(x44.clone()), 45 => w.put(x45.clone()), 46 => w.put(x46.clone()), 47 => w.put(x47.clone()), 48 => w.put(x48.clone()), 49 => w.put(x49.clone()), 50 => w.put(x50.clone()), 51 => w.put(x51.clone()), 52 => w.put(x52.clone()), 53 => w.put(x53.clone()), 54 => w.put(x54.clone()), 55 => w.put(x55.clone()), 56 => w.put(x56.clone()), 57 => w.put(x57.clone()), 58 => w.put(x58.clone()), 59 => w.put(x59.clone()), 60 => w.put(x60.clone()), 61 => w.put(x61.clone()), 62 => w.put(x62.clone()), 63 => w.put(x63.clone()), 64 => w.put(x64.clone()), 65 => w.put(x65.clone()), 66 => w.put(x66.clone()), 67 => w.put(x67.clone()), 68 => w.put(x68.clone()), 69 => w.put(x69.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Long (   Inner,
   Al16,
   u64,
   [u8; 3],
   Inner,
   Gen<u8, String>,
   u128,
   Vec<u8>,
   (u8, u32),
   i64,
   Vec<Option<Vec<String>>>,
   (u8, u32),
   i64,
   u8,
   char,
   i64 ) ;
impl Lay for Long {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Long", full: "Long", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Long", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "4", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "5", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "6", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "7", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "8", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "9", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "10", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "11", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "12", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "13", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "14", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "15", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Long(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Long(<Inner as Arb>::arb(r), <Al16 as Arb>::arb(r), <u64 as Arb>::arb(r), <[u8; 3] as Arb>::arb(r), <Inner as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r), <u128 as Arb>::arb(r), <Vec<u8> as Arb>::arb(r), <(u8, u32) as Arb>::arb(r), <i64 as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r), <(u8, u32) as Arb>::arb(r), <i64 as Arb>::arb(r), <u8 as Arb>::arb(r), <char as Arb>::arb(r), <i64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Long(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize, x7 as *const _ as usize, x8 as *const _ as usize, x9 as *const _ as usize, x10 as *const _ as usize, x11 as *const _ as usize, x12 as *const _ as usize, x13 as *const _ as usize, x14 as *const _ as usize, x15 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Long(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6]), same(x7, &p[7]), same(x8, &p[8]), same(x9, &p[9]), same(x10, &p[10]), same(x11, &p[11]), same(x12, &p[12]), same(x13, &p[13]), same(x14, &p[14]), same(x15, &p[15])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Long(x0, x1, x2, x3, x4, x5, x6, x7, x8, x9, x10, x11, x12, x13, x14, x15) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), 7 => w.put(x7.clone()), 8 => w.put(x8.clone()), 9 => w.put(x9.clone()), 10 => w.put(x10.clone()), 11 => w.put(x11.clone()), 12 => w.put(x12.clone()), 13 => w.put(x13.clone()), 14 => w.put(x14.clone()), 15 => w.put(x15.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(transparent)]
pub struct One (   u32 ) ;
impl Lay for One {
fn desc() -> &'static LD { const D: &LD = &LD { name: "One", full: "One", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "One", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { One(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => One(<u32 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { One(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { One(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { One(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(transparent)]
pub struct OneZ  {   a: (),
   b: String }
impl Lay for OneZ {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OneZ", full: "OneZ", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "OneZ", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OneZ { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => OneZ { a: <() as Arb>::arb(r), b: <String as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { OneZ { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OneZ { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OneZ { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(packed)]
pub struct PackedBytes  {   a: u8,
   b: [u8; 3],
   c: bool }
impl Lay for PackedBytes {
fn desc() -> &'static LD { const D: &LD = &LD { name: "PackedBytes", full: "PackedBytes", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "PackedBytes", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { PackedBytes { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => PackedBytes { a: <u8 as Arb>::arb(r), b: <[u8; 3] as Arb>::arb(r), c: <bool as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { PackedBytes { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { PackedBytes { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { PackedBytes { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, packed(2))]
pub struct PackedTwo  {   a: u8,
   b: u16,
   c: u8,
   d: u16 }
impl Lay for PackedTwo {
fn desc() -> &'static LD { const D: &LD = &LD { name: "PackedTwo", full: "PackedTwo", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "PackedTwo", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { PackedTwo { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => PackedTwo { a: <u8 as Arb>::arb(r), b: <u16 as Arb>::arb(r), c: <u8 as Arb>::arb(r), d: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { PackedTwo { a: x0, b: x1, c: x2, d: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { PackedTwo { a: x0, b: x1, c: x2, d: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { PackedTwo { a: x0, b: x1, c: x2, d: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(packed(2))]
pub struct PackedTwoR  {   a: u8,
   b: [u16; 2],
   c: u8 }
impl Lay for PackedTwoR {
fn desc() -> &'static LD { const D: &LD = &LD { name: "PackedTwoR", full: "PackedTwoR", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "PackedTwoR", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { PackedTwoR { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => PackedTwoR { a: <u8 as Arb>::arb(r), b: <[u16; 2] as Arb>::arb(r), c: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { PackedTwoR { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { PackedTwoR { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { PackedTwoR { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Unit1 ;
impl Lay for Unit1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Unit1", full: "Unit1", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Unit1", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Unit1 => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Unit1, } }
fn addrs(&self) -> Vec<usize> { match self { Unit1 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Unit1 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Unit1 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Brace0  {  }
impl Lay for Brace0 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Brace0", full: "Brace0", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Brace0", disc: 0, kind: 's', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Brace0 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Brace0 {  }, } }
fn addrs(&self) -> Vec<usize> { match self { Brace0 {  } => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Brace0 {  } => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Brace0 {  } => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Order  {   a: u8,
   b: u64,
   c: u8,
   d: u32,
   e: u8,
   f: u16 }
impl Lay for Order {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Order", full: "Order", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Order", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "e", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Order { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Order { a: <u8 as Arb>::arb(r), b: <u64 as Arb>::arb(r), c: <u8 as Arb>::arb(r), d: <u32 as Arb>::arb(r), e: <u8 as Arb>::arb(r), f: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Order { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Order { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Order { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub struct OrderC  {   a: u8,
   b: u64,
   c: u8,
   d: u32,
   e: u8,
   f: u16 }
impl Lay for OrderC {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OrderC", full: "OrderC", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "OrderC", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "e", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OrderC { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => OrderC { a: <u8 as Arb>::arb(r), b: <u64 as Arb>::arb(r), c: <u8 as Arb>::arb(r), d: <u32 as Arb>::arb(r), e: <u8 as Arb>::arb(r), f: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { OrderC { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OrderC { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OrderC { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct SameTypes  {   a: u32,
   b: u32,
   c: u32,
   d: u32 }
impl Lay for SameTypes {
fn desc() -> &'static LD { const D: &LD = &LD { name: "SameTypes", full: "SameTypes", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "SameTypes", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { SameTypes { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => SameTypes { a: <u32 as Arb>::arb(r), b: <u32 as Arb>::arb(r), c: <u32 as Arb>::arb(r), d: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { SameTypes { a: x0, b: x1, c: x2, d: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { SameTypes { a: x0, b: x1, c: x2, d: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { SameTypes { a: x0, b: x1, c: x2, d: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Hygiene  {   fields: u32,
   vtable: u32,
   value: u32,
   f: u32,
   _opts: u32,
   s: u32,
   name: u32,
   shape: u32,
   offset: u32,
   invariants: u32,
   builder: u32,
   ptr: u32,
   id: u32 }
impl Lay for Hygiene {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Hygiene", full: "Hygiene", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Hygiene", disc: 0, kind: 's', fields: &[LF { name: "fields", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "vtable", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "value", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "f", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "_opts", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "s", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "name", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "shape", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "offset", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "invariants", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "builder", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "ptr", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "id", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Hygiene { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Hygiene { fields: <u32 as Arb>::arb(r), vtable: <u32 as Arb>::arb(r), value: <u32 as Arb>::arb(r), f: <u32 as Arb>::arb(r), _opts: <u32 as Arb>::arb(r), s: <u32 as Arb>::arb(r), name: <u32 as Arb>::arb(r), shape: <u32 as Arb>::arb(r), offset: <u32 as Arb>::arb(r), invariants: <u32 as Arb>::arb(r), builder: <u32 as Arb>::arb(r), ptr: <u32 as Arb>::arb(r), id: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Hygiene { fields: x0, vtable: x1, value: x2, f: x3, _opts: x4, s: x5, name: x6, shape: x7, offset: x8, invariants: x9, builder: x10, ptr: x11, id: x12 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize, x7 as *const _ as usize, x8 as *const _ as usize, x9 as *const _ as usize, x10 as *const _ as usize, x11 as *const _ as usize, x12 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Hygiene { fields: x0, vtable: x1, value: x2, f: x3, _opts: x4, s: x5, name: x6, shape: x7, offset: x8, invariants: x9, builder: x10, ptr: x11, id: x12 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6]), same(x7, &p[7]), same(x8, &p[8]), same(x9, &p[9]), same(x10, &p[10]), same(x11, &p[11]), same(x12, &p[12])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Hygiene { fields: x0, vtable: x1, value: x2, f: x3, _opts: x4, s: x5, name: x6, shape: x7, offset: x8, invariants: x9, builder: x10, ptr: x11, id: x12 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), 7 => w.put(x7.clone()), 8 => w.put(x8.clone()), 9 => w.put(x9.clone()), 10 => w.put(x10.clone()), 11 => w.put(x11.clone()), 12 => w.put(x12.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Keywords  {   r#type: u32,
   r#struct: String,
   union: u8,
   default: u8,
   sensitive: u8,
   opaque: u8,
   facet: u16,
   doc: u16,
   repr: u8 }
impl Lay for Keywords {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Keywords", full: "Keywords", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Keywords", disc: 0, kind: 's', fields: &[LF { name: "type", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "struct", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "union", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "default", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "sensitive", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "opaque", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "facet", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "doc", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "repr", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Keywords { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Keywords { r#type: <u32 as Arb>::arb(r), r#struct: <String as Arb>::arb(r), union: <u8 as Arb>::arb(r), default: <u8 as Arb>::arb(r), sensitive: <u8 as Arb>::arb(r), opaque: <u8 as Arb>::arb(r), facet: <u16 as Arb>::arb(r), doc: <u16 as Arb>::arb(r), repr: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Keywords { r#type: x0, r#struct: x1, union: x2, default: x3, sensitive: x4, opaque: x5, facet: x6, doc: x7, repr: x8 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize, x7 as *const _ as usize, x8 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Keywords { r#type: x0, r#struct: x1, union: x2, default: x3, sensitive: x4, opaque: x5, facet: x6, doc: x7, repr: x8 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6]), same(x7, &p[7]), same(x8, &p[8])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Keywords { r#type: x0, r#struct: x1, union: x2, default: x3, sensitive: x4, opaque: x5, facet: x6, doc: x7, repr: x8 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), 7 => w.put(x7.clone()), 8 => w.put(x8.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Unicode  {   größe: u32,
   ключ: String,
   _x: u8 }
impl Lay for Unicode {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Unicode", full: "Unicode", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Unicode", disc: 0, kind: 's', fields: &[LF { name: "größe", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "ключ", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "_x", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Unicode { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Unicode { größe: <u32 as Arb>::arb(r), ключ: <String as Arb>::arb(r), _x: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Unicode { größe: x0, ключ: x1, _x: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Unicode { größe: x0, ключ: x1, _x: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Unicode { größe: x0, ключ: x1, _x: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Opq  {   a: u32,
  #[facet(opaque)]  b: Arc<NotFacet>,
  #[facet(opaque)]  c: Arc<Vec<NotFacet>>,
   d: String }
impl Lay for Opq {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Opq", full: "Opq", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Opq", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<NotFacet>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<NotFacet>>>(), layout: Layout::new::<Arc<NotFacet>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <facet_core::Opaque<Arc<Vec<NotFacet>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<NotFacet>>>>(), layout: Layout::new::<Arc<Vec<NotFacet>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Opq { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Opq { a: <u32 as Arb>::arb(r), b: <Arc<NotFacet> as Arb>::arb(r), c: <Arc<Vec<NotFacet>> as Arb>::arb(r), d: <String as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Opq { a: x0, b: x1, c: x2, d: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Opq { a: x0, b: x1, c: x2, d: x3 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }, { let _ = x2; Ok(()) }, same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Opq { a: x0, b: x1, c: x2, d: x3 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } 2 => { let _ = x2; put_opaque(w, x2.clone()) } 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct OpqT (  #[facet(opaque)]  Arc<NotFacet>,
   u8 ) ;
impl Lay for OpqT {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqT", full: "OpqT", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "OpqT", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<NotFacet>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<NotFacet>>>(), layout: Layout::new::<Arc<NotFacet>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqT(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => OpqT(<Arc<NotFacet> as Arb>::arb(r), <u8 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { OpqT(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqT(x0, x1) => vec![{ let _ = x0; Ok(()) }, same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqT(x0, x1) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Lt  {   a: &'static str,
   b: u32 }
impl Lay for Lt {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Lt", full: "Lt", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Lt", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <&'static str as Facet>::SHAPE, id: ConstTypeId::of::<&'static str>(), layout: Layout::new::<&'static str>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Lt { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Lt { a: <&'static str as Arb>::arb(r), b: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Lt { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Lt { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Lt { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

/// Container doc
///
/// more  
/// 	tab
#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Docs  { /// first
/// second line
///
  a: u32,
 /// has "quotes" and \ backslash \n
  b: u32,
   c: u32,
 ///no space
/// ünïcode ☃ {braces} {}
  d: u32,
 #[doc = "attr \"form\""]
 /** block */
  e: u32 }
impl Lay for Docs {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Docs", full: "Docs", tag: None, attrs: &[], doc: &[" Container doc", "", " more  ", " 	tab"], params: &[], variants: &[LV { name: "Docs", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[" first", " second line", ""] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[" has \"quotes\" and \\ backslash \\n"] }, LF { name: "c", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "d", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &["no space", " ünïcode ☃ {braces} {}"] }, LF { name: "e", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &["attr \"form\"", " block "] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Docs { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Docs { a: <u32 as Arb>::arb(r), b: <u32 as Arb>::arb(r), c: <u32 as Arb>::arb(r), d: <u32 as Arb>::arb(r), e: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Docs { a: x0, b: x1, c: x2, d: x3, e: x4 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Docs { a: x0, b: x1, c: x2, d: x3, e: x4 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Docs { a: x0, b: x1, c: x2, d: x3, e: x4 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), _ => unreachable!() }, } }
}

/// tuple
#[derive(Facet, Debug, PartialEq, Clone)]
pub struct DocsT ( /// zero
  u32,
 /// one
/// uno
  String ) ;
impl Lay for DocsT {
fn desc() -> &'static LD { const D: &LD = &LD { name: "DocsT", full: "DocsT", tag: None, attrs: &[], doc: &[" tuple"], params: &[], variants: &[LV { name: "DocsT", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[" zero"] }, LF { name: "1", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[" one", " uno"] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { DocsT(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => DocsT(<u32 as Arb>::arb(r), <String as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { DocsT(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { DocsT(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { DocsT(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

/// unit one
/// unit two
#[derive(Facet, Debug, PartialEq, Clone)]
pub struct DocsU ;
impl Lay for DocsU {
fn desc() -> &'static LD { const D: &LD = &LD { name: "DocsU", full: "DocsU", tag: None, attrs: &[], doc: &[" unit one", " unit two"], params: &[], variants: &[LV { name: "DocsU", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { DocsU => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => DocsU, } }
fn addrs(&self) -> Vec<usize> { match self { DocsU => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { DocsU => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { DocsU => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Attrs  {  #[facet(sensitive)]  a: u32,
  #[facet(default)]  b: u32,
  #[facet(default = "lay_string")]  c: String,
  #[facet(rename = "other name")]  d: u32,
  #[facet(sensitive)] #[facet(default)] #[facet(rename = "E")]  e: u32,
   f: u32,
  #[facet(named)]  g: u8,
  #[facet(positional)] #[facet(sensitive)]  h: u8,
  #[facet(default)] #[facet(sensitive)]  i: u8,
  #[facet(short = 'v')]  j: u8,
  #[facet(foo = "bar")]  k: u8,
  #[facet(default = "lay_u32")] #[facet(rename = "q\"uote\\ \u{e9}☃")]  l: u32,
  #[facet(rename = "")]  m: u8,
  #[facet(rename = r#"raw "x""#)]  n: u8 }
impl Lay for Attrs {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Attrs", full: "Attrs", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Attrs", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::Default], doc: &[] }, LF { name: "c", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[EA::DefaultFn(|fd| default_fn_gives::<String>(fd, lay_string()))], doc: &[] }, LF { name: "d", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::Rename("other name")], doc: &[] }, LF { name: "e", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive, EA::Default, EA::Rename("E")], doc: &[] }, LF { name: "f", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "g", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Arb("named")], doc: &[] }, LF { name: "h", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Arb("positional"), EA::Sensitive], doc: &[] }, LF { name: "i", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Default, EA::Sensitive], doc: &[] }, LF { name: "j", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Arb("short='v'")], doc: &[] }, LF { name: "k", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Arb("foo=\"bar\"")], doc: &[] }, LF { name: "l", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::DefaultFn(|fd| default_fn_gives::<u32>(fd, lay_u32())), EA::Rename("q\"uote\\ é☃")], doc: &[] }, LF { name: "m", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Rename("")], doc: &[] }, LF { name: "n", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Rename("raw \"x\"")], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Attrs { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Attrs { a: <u32 as Arb>::arb(r), b: <u32 as Arb>::arb(r), c: <String as Arb>::arb(r), d: <u32 as Arb>::arb(r), e: <u32 as Arb>::arb(r), f: <u32 as Arb>::arb(r), g: <u8 as Arb>::arb(r), h: <u8 as Arb>::arb(r), i: <u8 as Arb>::arb(r), j: <u8 as Arb>::arb(r), k: <u8 as Arb>::arb(r), l: <u32 as Arb>::arb(r), m: <u8 as Arb>::arb(r), n: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Attrs { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5, g: x6, h: x7, i: x8, j: x9, k: x10, l: x11, m: x12, n: x13 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize, x4 as *const _ as usize, x5 as *const _ as usize, x6 as *const _ as usize, x7 as *const _ as usize, x8 as *const _ as usize, x9 as *const _ as usize, x10 as *const _ as usize, x11 as *const _ as usize, x12 as *const _ as usize, x13 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Attrs { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5, g: x6, h: x7, i: x8, j: x9, k: x10, l: x11, m: x12, n: x13 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3]), same(x4, &p[4]), same(x5, &p[5]), same(x6, &p[6]), same(x7, &p[7]), same(x8, &p[8]), same(x9, &p[9]), same(x10, &p[10]), same(x11, &p[11]), same(x12, &p[12]), same(x13, &p[13])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Attrs { a: x0, b: x1, c: x2, d: x3, e: x4, f: x5, g: x6, h: x7, i: x8, j: x9, k: x10, l: x11, m: x12, n: x13 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), 4 => w.put(x4.clone()), 5 => w.put(x5.clone()), 6 => w.put(x6.clone()), 7 => w.put(x7.clone()), 8 => w.put(x8.clone()), 9 => w.put(x9.clone()), 10 => w.put(x10.clone()), 11 => w.put(x11.clone()), 12 => w.put(x12.clone()), 13 => w.put(x13.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct AttrsT (  #[facet(sensitive)]  u32,
   u32,
 /// doc with attr
 #[facet(sensitive)] #[facet(rename = "two")]  String,
  #[facet(default)]  u32 ) ;
impl Lay for AttrsT {
fn desc() -> &'static LD { const D: &LD = &LD { name: "AttrsT", full: "AttrsT", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "AttrsT", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: true, attrs: &[EA::Sensitive, EA::Rename("two")], doc: &[" doc with attr"] }, LF { name: "3", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::Default], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { AttrsT(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => AttrsT(<u32 as Arb>::arb(r), <u32 as Arb>::arb(r), <String as Arb>::arb(r), <u32 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { AttrsT(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { AttrsT(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { AttrsT(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(deny_unknown_fields)]
pub struct Cont1  {   a: u32 }
impl Lay for Cont1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Cont1", full: "Cont1", tag: None, attrs: &[CA::Deny], doc: &[], params: &[], variants: &[LV { name: "Cont1", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Cont1 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Cont1 { a: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Cont1 { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Cont1 { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Cont1 { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(default)]
pub struct Cont2  {   a: u32 }
impl Default for Cont2 { fn default() -> Self { Cont2 { a: 9 } } }
impl Lay for Cont2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Cont2", full: "Cont2", tag: None, attrs: &[CA::Default], doc: &[], params: &[], variants: &[LV { name: "Cont2", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Cont2 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Cont2 { a: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Cont2 { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Cont2 { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Cont2 { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

/// with docs
#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(deny_unknown_fields)]
#[facet(default)]
pub struct Cont3  {  #[facet(default)]  a: u32,
   b: u8 }
impl Default for Cont3 { fn default() -> Self { Cont3 { a: 9, b: 1 } } }
impl Lay for Cont3 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Cont3", full: "Cont3", tag: None, attrs: &[CA::Deny, CA::Default], doc: &[" with docs"], params: &[], variants: &[LV { name: "Cont3", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::Default], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Cont3 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Cont3 { a: <u32 as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Cont3 { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Cont3 { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Cont3 { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(deny_unknown_fields)]
pub struct Cont4 (   u32 ) ;
impl Lay for Cont4 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Cont4", full: "Cont4", tag: None, attrs: &[CA::Deny], doc: &[], params: &[], variants: &[LV { name: "Cont4", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Cont4(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Cont4(<u32 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Cont4(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Cont4(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Cont4(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(invariants = "fine")]
pub struct InvS  {   a: u32 }
impl InvS { fn fine(&self) -> bool { true } }
impl Lay for InvS {
fn desc() -> &'static LD { const D: &LD = &LD { name: "InvS", full: "InvS", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "InvS", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { InvS { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => InvS { a: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { InvS { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { InvS { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { InvS { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Comb  {  #[facet(sensitive, default)]  a: u32,
  #[facet(rename = "B", sensitive)]  b: u32,
   c: u8 }
impl Lay for Comb {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Comb", full: "Comb", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Comb", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[EA::Rename("B")], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Comb { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Comb { a: <u32 as Arb>::arb(r), b: <u32 as Arb>::arb(r), c: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Comb { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Comb { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Comb { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[facet(deny_unknown_fields, default)]
pub struct CombC  {   a: u32 }
impl Default for CombC { fn default() -> Self { CombC { a: 9 } } }
impl Lay for CombC {
fn desc() -> &'static LD { const D: &LD = &LD { name: "CombC", full: "CombC", tag: None, attrs: &[CA::Deny, CA::Default], doc: &[], params: &[], variants: &[LV { name: "CombC", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { CombC { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => CombC { a: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { CombC { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { CombC { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { CombC { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenB<T: Copy + core::fmt::Debug>  {   a: T,
   b: Option<T>,
   z: u8 }
impl Lay for GenB<u64> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenB", full: "GenB<u64>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u64 as Facet>::SHAPE)], variants: &[LV { name: "GenB", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "z", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenB { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenB { a: <u64 as Arb>::arb(r), b: <Option<u64> as Arb>::arb(r), z: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenB { a: x0, b: x1, z: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenB { a: x0, b: x1, z: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenB { a: x0, b: x1, z: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}
impl Lay for GenB<bool> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenB", full: "GenB<bool>", tag: None, attrs: &[], doc: &[], params: &[("T", || <bool as Facet>::SHAPE)], variants: &[LV { name: "GenB", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Option<bool> as Facet>::SHAPE, id: ConstTypeId::of::<Option<bool>>(), layout: Layout::new::<Option<bool>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "z", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenB { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenB { a: <bool as Arb>::arb(r), b: <Option<bool> as Arb>::arb(r), z: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenB { a: x0, b: x1, z: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenB { a: x0, b: x1, z: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenB { a: x0, b: x1, z: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenW<T> (   Vec<T>,
   HashMap<String, T> ) where T: Clone + 'static;
impl Lay for GenW<u16> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenW", full: "GenW<u16>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u16 as Facet>::SHAPE)], variants: &[LV { name: "GenW", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Vec<u16> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u16>>(), layout: Layout::new::<Vec<u16>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <HashMap<String, u16> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u16>>(), layout: Layout::new::<HashMap<String, u16>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenW(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenW(<Vec<u16> as Arb>::arb(r), <HashMap<String, u16> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { GenW(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenW(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenW(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}
impl Lay for GenW<Inner> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenW", full: "GenW<Inner>", tag: None, attrs: &[], doc: &[], params: &[("T", || <Inner as Facet>::SHAPE)], variants: &[LV { name: "GenW", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Vec<Inner> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Inner>>(), layout: Layout::new::<Vec<Inner>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <HashMap<String, Inner> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, Inner>>(), layout: Layout::new::<HashMap<String, Inner>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenW(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenW(<Vec<Inner> as Arb>::arb(r), <HashMap<String, Inner> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { GenW(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenW(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenW(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenC<const N: usize>  {   a: [u8; N],
   b: u32 }
impl Lay for GenC<3> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenC", full: "GenC<3>", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "GenC", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenC { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenC { a: <[u8; 3] as Arb>::arb(r), b: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenC { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenC { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenC { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}
impl Lay for GenC<8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenC", full: "GenC<8>", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "GenC", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <[u8; 8] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 8]>(), layout: Layout::new::<[u8; 8]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenC { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenC { a: <[u8; 8] as Arb>::arb(r), b: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenC { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenC { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenC { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenD<T = u8>  {   a: T }
impl Lay for GenD<u8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenD", full: "GenD<u8>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "GenD", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenD { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenD { a: <u8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenD { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenD { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenD { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}
impl Lay for GenD<Al16> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenD", full: "GenD<Al16>", tag: None, attrs: &[], doc: &[], params: &[("T", || <Al16 as Facet>::SHAPE)], variants: &[LV { name: "GenD", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenD { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenD { a: <Al16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenD { a: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenD { a: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenD { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenNest<T, U>  {   a: Gen<T, Vec<U>>,
   b: Option<Gen<U, u8>> }
impl Lay for GenNest<u8, u32> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenNest", full: "GenNest<u8, u32>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u8 as Facet>::SHAPE), ("U", || <u32 as Facet>::SHAPE)], variants: &[LV { name: "GenNest", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <Gen<u8, Vec<u32>> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, Vec<u32>>>(), layout: Layout::new::<Gen<u8, Vec<u32>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Option<Gen<u32, u8>> as Facet>::SHAPE, id: ConstTypeId::of::<Option<Gen<u32, u8>>>(), layout: Layout::new::<Option<Gen<u32, u8>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenNest { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenNest { a: <Gen<u8, Vec<u32>> as Arb>::arb(r), b: <Option<Gen<u32, u8>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenNest { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenNest { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenNest { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct GenLt<T: Clone, const N: usize>  {   a: &'static str,
   b: T,
   c: [T; N] }
impl Lay for GenLt<u16, 2> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenLt", full: "GenLt<u16, 2>", tag: None, attrs: &[], doc: &[], params: &[("T", || <u16 as Facet>::SHAPE)], variants: &[LV { name: "GenLt", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <&'static str as Facet>::SHAPE, id: ConstTypeId::of::<&'static str>(), layout: Layout::new::<&'static str>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "c", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenLt { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => GenLt { a: <&'static str as Arb>::arb(r), b: <u16 as Arb>::arb(r), c: <[u16; 2] as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { GenLt { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenLt { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenLt { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct Rec  {   v: u8,
   kids: Vec<Rec> }
impl Lay for Rec {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Rec", full: "Rec", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Rec", disc: 0, kind: 's', fields: &[LF { name: "v", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "kids", shape: || <Vec<Rec> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Rec>>(), layout: Layout::new::<Vec<Rec>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Rec { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Rec { v: <u8 as Arb>::arb(r), kids: <Vec<Rec> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { Rec { v: x0, kids: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Rec { v: x0, kids: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Rec { v: x0, kids: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
pub struct RecSelf  {   v: u8,
   kids: Vec<Self>,
   o: Option<Arc<u8>> }
impl Lay for RecSelf {
fn desc() -> &'static LD { const D: &LD = &LD { name: "RecSelf", full: "RecSelf", tag: None, attrs: &[], doc: &[], params: &[], variants: &[LV { name: "RecSelf", disc: 0, kind: 's', fields: &[LF { name: "v", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "kids", shape: || <Vec<RecSelf> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<RecSelf>>(), layout: Layout::new::<Vec<RecSelf>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "o", shape: || <Option<Arc<u8>> as Facet>::SHAPE, id: ConstTypeId::of::<Option<Arc<u8>>>(), layout: Layout::new::<Option<Arc<u8>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { RecSelf { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => RecSelf { v: <u8 as Arb>::arb(r), kids: <Vec<RecSelf> as Arb>::arb(r), o: <Option<Arc<u8>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { RecSelf { v: x0, kids: x1, o: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { RecSelf { v: x0, kids: x1, o: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { RecSelf { v: x0, kids: x1, o: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum En0  {
V0 {   a0: InnerE,
   a1: HashMap<String, u32> },
V1 (   [u16; 2],
   Vec<u8>,
   Vec<Option<Vec<String>>> ),
V2 ,
}
impl Lay for En0 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En0", full: "En0", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En0::V0 { .. } => 0, En0::V1(..) => 1, En0::V2 => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En0::V0 { a0: <InnerE as Arb>::arb(r), a1: <HashMap<String, u32> as Arb>::arb(r) }, 1 => En0::V1(<[u16; 2] as Arb>::arb(r), <Vec<u8> as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r)), _ => En0::V2, } }
fn addrs(&self) -> Vec<usize> { match self { En0::V0 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En0::V1(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En0::V2 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En0::V0 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En0::V1(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En0::V2 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En0::V0 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En0::V1(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En0::V2 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum En1  {
U0  = 9_4,
U1  = 0x7,
U2  = 4_5,
U3  = 5_8,
U4  = 254,
U5  = 0o377,
}
impl Lay for En1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En1", full: "En1", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 94, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 7, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 45, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 58, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 254, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 255, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En1::U0 => 0, En1::U1 => 1, En1::U2 => 2, En1::U3 => 3, En1::U4 => 4, En1::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En1::U0, 1 => En1::U1, 2 => En1::U2, 3 => En1::U3, 4 => En1::U4, _ => En1::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En1::U0 => vec![], En1::U1 => vec![], En1::U2 => vec![], En1::U3 => vec![], En1::U4 => vec![], En1::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En1::U0 => vec![], En1::U1 => vec![], En1::U2 => vec![], En1::U3 => vec![], En1::U4 => vec![], En1::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En1::U0 => match i {  _ => unreachable!() }, En1::U1 => match i {  _ => unreachable!() }, En1::U2 => match i {  _ => unreachable!() }, En1::U3 => match i {  _ => unreachable!() }, En1::U4 => match i {  _ => unreachable!() }, En1::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum En2  {
V0 {   a0: InnerE },
V1  = 10,
V2 {   a0: f64 },
}
impl Lay for En2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En2", full: "En2", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 10, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 11, kind: 's', fields: &[LF { name: "a0", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En2::V0 { .. } => 0, En2::V1 => 1, En2::V2 { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En2::V0 { a0: <InnerE as Arb>::arb(r) }, 1 => En2::V1, _ => En2::V2 { a0: <f64 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En2::V0 { a0: x0 } => vec![x0 as *const _ as usize], En2::V1 => vec![], En2::V2 { a0: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En2::V0 { a0: x0 } => vec![same(x0, &p[0])], En2::V1 => vec![], En2::V2 { a0: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En2::V0 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En2::V1 => match i {  _ => unreachable!() }, En2::V2 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u8)]
pub enum En3  {
V0 {   a0: NonZero<u32>,
   a1: InnerE,
   a2: u64,
   a3: Arc<u32> },
V1 {   a0: bool },
V2 ,
V3 (   InnerE ),
V4 ,
}
impl Lay for En3 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En3", full: "En3", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 's', fields: &[LF { name: "a0", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 4, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En3::V0 { .. } => 0, En3::V1 { .. } => 1, En3::V2 => 2, En3::V3(..) => 3, En3::V4 => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En3::V0 { a0: <NonZero<u32> as Arb>::arb(r), a1: <InnerE as Arb>::arb(r), a2: <u64 as Arb>::arb(r), a3: <Arc<u32> as Arb>::arb(r) }, 1 => En3::V1 { a0: <bool as Arb>::arb(r) }, 2 => En3::V2, 3 => En3::V3(<InnerE as Arb>::arb(r)), _ => En3::V4, } }
fn addrs(&self) -> Vec<usize> { match self { En3::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En3::V1 { a0: x0 } => vec![x0 as *const _ as usize], En3::V2 => vec![], En3::V3(x0) => vec![x0 as *const _ as usize], En3::V4 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En3::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En3::V1 { a0: x0 } => vec![same(x0, &p[0])], En3::V2 => vec![], En3::V3(x0) => vec![same(x0, &p[0])], En3::V4 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En3::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En3::V1 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En3::V2 => match i {  _ => unreachable!() }, En3::V3(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En3::V4 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u8)]
pub enum En4  {
U0 (   u8 ) = 0b111001,
U1  = 0o377,
U2  = 2_54,
U3  = 7_1,
U4  = 0o3,
U5  = 6_4,
}
impl Lay for En4 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En4", full: "En4", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 57, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 255, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 254, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 71, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 3, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 64, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En4::U0(..) => 0, En4::U1 => 1, En4::U2 => 2, En4::U3 => 3, En4::U4 => 4, En4::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En4::U0(<u8 as Arb>::arb(r)), 1 => En4::U1, 2 => En4::U2, 3 => En4::U3, 4 => En4::U4, _ => En4::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En4::U0(x0) => vec![x0 as *const _ as usize], En4::U1 => vec![], En4::U2 => vec![], En4::U3 => vec![], En4::U4 => vec![], En4::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En4::U0(x0) => vec![same(x0, &p[0])], En4::U1 => vec![], En4::U2 => vec![], En4::U3 => vec![], En4::U4 => vec![], En4::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En4::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En4::U1 => match i {  _ => unreachable!() }, En4::U2 => match i {  _ => unreachable!() }, En4::U3 => match i {  _ => unreachable!() }, En4::U4 => match i {  _ => unreachable!() }, En4::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u8)]
pub enum En5  {
V0 {   a0: Gen<u8, String>,
   a1: [u16; 2],
   a2: Arc<u32> },
V1 (   Vec<u8>,
   u64 ) = 6,
V2 {   a0: Vec<u8>,
   a1: u32 } = 11,
}
impl Lay for En5 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En5", full: "En5", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 6, kind: 't', fields: &[LF { name: "0", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 11, kind: 's', fields: &[LF { name: "a0", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En5::V0 { .. } => 0, En5::V1(..) => 1, En5::V2 { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En5::V0 { a0: <Gen<u8, String> as Arb>::arb(r), a1: <[u16; 2] as Arb>::arb(r), a2: <Arc<u32> as Arb>::arb(r) }, 1 => En5::V1(<Vec<u8> as Arb>::arb(r), <u64 as Arb>::arb(r)), _ => En5::V2 { a0: <Vec<u8> as Arb>::arb(r), a1: <u32 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En5::V0 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En5::V1(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En5::V2 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En5::V0 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En5::V1(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En5::V2 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En5::V0 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En5::V1(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En5::V2 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u16)]
pub enum En6  {
V0 {   a0: u128,
   a1: char,
   a2: Arc<u32> },
V1 ,
}
impl Lay for En6 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En6", full: "En6", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En6::V0 { .. } => 0, En6::V1 => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En6::V0 { a0: <u128 as Arb>::arb(r), a1: <char as Arb>::arb(r), a2: <Arc<u32> as Arb>::arb(r) }, _ => En6::V1, } }
fn addrs(&self) -> Vec<usize> { match self { En6::V0 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En6::V1 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En6::V0 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En6::V1 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En6::V0 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En6::V1 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u16)]
pub enum En7  {
U0  = 0xfffe,
U1  = 0o73,
U2  = 9_5,
U3  = 0o34,
U4  = 0b1111111111111111,
U5  = 0o14,
}
impl Lay for En7 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En7", full: "En7", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 65534, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 59, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 95, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 28, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 65535, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 12, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En7::U0 => 0, En7::U1 => 1, En7::U2 => 2, En7::U3 => 3, En7::U4 => 4, En7::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En7::U0, 1 => En7::U1, 2 => En7::U2, 3 => En7::U3, 4 => En7::U4, _ => En7::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En7::U0 => vec![], En7::U1 => vec![], En7::U2 => vec![], En7::U3 => vec![], En7::U4 => vec![], En7::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En7::U0 => vec![], En7::U1 => vec![], En7::U2 => vec![], En7::U3 => vec![], En7::U4 => vec![], En7::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En7::U0 => match i {  _ => unreachable!() }, En7::U1 => match i {  _ => unreachable!() }, En7::U2 => match i {  _ => unreachable!() }, En7::U3 => match i {  _ => unreachable!() }, En7::U4 => match i {  _ => unreachable!() }, En7::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u16)]
pub enum En8  {
V0 (   u32,
   Inner,
   String ) = 0o10,
V1 (   () ) = 0b10010,
V2 {   a0: u64 },
}
impl Lay for En8 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En8", full: "En8", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 8, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 18, kind: 't', fields: &[LF { name: "0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 19, kind: 's', fields: &[LF { name: "a0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En8::V0(..) => 0, En8::V1(..) => 1, En8::V2 { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En8::V0(<u32 as Arb>::arb(r), <Inner as Arb>::arb(r), <String as Arb>::arb(r)), 1 => En8::V1(<() as Arb>::arb(r)), _ => En8::V2 { a0: <u64 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En8::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En8::V1(x0) => vec![x0 as *const _ as usize], En8::V2 { a0: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En8::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En8::V1(x0) => vec![same(x0, &p[0])], En8::V2 { a0: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En8::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En8::V1(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En8::V2 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u16)]
pub enum En9  {
V0 ,
V1 (   u16 ),
}
impl Lay for En9 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En9", full: "En9", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En9::V0 => 0, En9::V1(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En9::V0, _ => En9::V1(<u16 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En9::V0 => vec![], En9::V1(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En9::V0 => vec![], En9::V1(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En9::V0 => match i {  _ => unreachable!() }, En9::V1(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u16)]
pub enum En10  {
U0 (   u8 ) = 0o41,
U1  = 0xfffe,
U2  = 9_9,
U3  = 6_5535,
U4  = 5,
U5  = 0o42,
}
impl Lay for En10 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En10", full: "En10", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 33, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 65534, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 99, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 65535, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 5, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 34, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En10::U0(..) => 0, En10::U1 => 1, En10::U2 => 2, En10::U3 => 3, En10::U4 => 4, En10::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En10::U0(<u8 as Arb>::arb(r)), 1 => En10::U1, 2 => En10::U2, 3 => En10::U3, 4 => En10::U4, _ => En10::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En10::U0(x0) => vec![x0 as *const _ as usize], En10::U1 => vec![], En10::U2 => vec![], En10::U3 => vec![], En10::U4 => vec![], En10::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En10::U0(x0) => vec![same(x0, &p[0])], En10::U1 => vec![], En10::U2 => vec![], En10::U3 => vec![], En10::U4 => vec![], En10::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En10::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En10::U1 => match i {  _ => unreachable!() }, En10::U2 => match i {  _ => unreachable!() }, En10::U3 => match i {  _ => unreachable!() }, En10::U4 => match i {  _ => unreachable!() }, En10::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u16)]
pub enum En11  {
V0  = 0xc,
V1 (   char ),
V2 {   a0: NonZero<u32> } = 0x17,
V3  = 0o31,
}
impl Lay for En11 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En11", full: "En11", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 12, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 13, kind: 't', fields: &[LF { name: "0", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 23, kind: 's', fields: &[LF { name: "a0", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 25, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En11::V0 => 0, En11::V1(..) => 1, En11::V2 { .. } => 2, En11::V3 => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En11::V0, 1 => En11::V1(<char as Arb>::arb(r)), 2 => En11::V2 { a0: <NonZero<u32> as Arb>::arb(r) }, _ => En11::V3, } }
fn addrs(&self) -> Vec<usize> { match self { En11::V0 => vec![], En11::V1(x0) => vec![x0 as *const _ as usize], En11::V2 { a0: x0 } => vec![x0 as *const _ as usize], En11::V3 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En11::V0 => vec![], En11::V1(x0) => vec![same(x0, &p[0])], En11::V2 { a0: x0 } => vec![same(x0, &p[0])], En11::V3 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En11::V0 => match i {  _ => unreachable!() }, En11::V1(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En11::V2 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En11::V3 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u32)]
pub enum En12  {
V0 (   Gen<u8, String>,
   Gen<u8, String>,
   char,
   BTreeMap<String, Vec<Option<u8>>> ),
}
impl Lay for En12 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En12", full: "En12", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En12::V0(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => En12::V0(<Gen<u8, String> as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r), <char as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En12::V0(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En12::V0(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En12::V0(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u32)]
pub enum En13  {
U0  = 0x43,
U1  = 0xfffffffe,
U2  = 0b1011010,
U3  = 0b11111111111111111111111111111111,
U4  = 1_6,
U5  = 0x5,
}
impl Lay for En13 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En13", full: "En13", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 67, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 4294967294, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 90, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 4294967295, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 16, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 5, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En13::U0 => 0, En13::U1 => 1, En13::U2 => 2, En13::U3 => 3, En13::U4 => 4, En13::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En13::U0, 1 => En13::U1, 2 => En13::U2, 3 => En13::U3, 4 => En13::U4, _ => En13::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En13::U0 => vec![], En13::U1 => vec![], En13::U2 => vec![], En13::U3 => vec![], En13::U4 => vec![], En13::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En13::U0 => vec![], En13::U1 => vec![], En13::U2 => vec![], En13::U3 => vec![], En13::U4 => vec![], En13::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En13::U0 => match i {  _ => unreachable!() }, En13::U1 => match i {  _ => unreachable!() }, En13::U2 => match i {  _ => unreachable!() }, En13::U3 => match i {  _ => unreachable!() }, En13::U4 => match i {  _ => unreachable!() }, En13::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u32)]
pub enum En14  {
V0 (   char,
   String ),
V1 (   u8 ) = 9,
V2 ,
V3 ,
}
impl Lay for En14 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En14", full: "En14", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 9, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 10, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 11, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En14::V0(..) => 0, En14::V1(..) => 1, En14::V2 => 2, En14::V3 => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En14::V0(<char as Arb>::arb(r), <String as Arb>::arb(r)), 1 => En14::V1(<u8 as Arb>::arb(r)), 2 => En14::V2, _ => En14::V3, } }
fn addrs(&self) -> Vec<usize> { match self { En14::V0(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En14::V1(x0) => vec![x0 as *const _ as usize], En14::V2 => vec![], En14::V3 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En14::V0(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En14::V1(x0) => vec![same(x0, &p[0])], En14::V2 => vec![], En14::V3 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En14::V0(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En14::V1(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En14::V2 => match i {  _ => unreachable!() }, En14::V3 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u32)]
pub enum En15  {
V0 {   a0: Zst,
   a1: Option<String>,
   a2: [u16; 2],
   a3: Vec<Option<Vec<String>>> },
}
impl Lay for En15 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En15", full: "En15", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En15::V0 { .. } => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => En15::V0 { a0: <Zst as Arb>::arb(r), a1: <Option<String> as Arb>::arb(r), a2: <[u16; 2] as Arb>::arb(r), a3: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En15::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En15::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En15::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u32)]
pub enum En16  {
U0 (   u8 ) = 0o37777777776,
U1  = 0b1011000,
U2  = 50,
U3  = 0x27,
U4  = 4294967295,
U5  = 64,
}
impl Lay for En16 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En16", full: "En16", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 4294967294, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 88, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 50, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 39, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 4294967295, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 64, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En16::U0(..) => 0, En16::U1 => 1, En16::U2 => 2, En16::U3 => 3, En16::U4 => 4, En16::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En16::U0(<u8 as Arb>::arb(r)), 1 => En16::U1, 2 => En16::U2, 3 => En16::U3, 4 => En16::U4, _ => En16::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En16::U0(x0) => vec![x0 as *const _ as usize], En16::U1 => vec![], En16::U2 => vec![], En16::U3 => vec![], En16::U4 => vec![], En16::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En16::U0(x0) => vec![same(x0, &p[0])], En16::U1 => vec![], En16::U2 => vec![], En16::U3 => vec![], En16::U4 => vec![], En16::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En16::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En16::U1 => match i {  _ => unreachable!() }, En16::U2 => match i {  _ => unreachable!() }, En16::U3 => match i {  _ => unreachable!() }, En16::U4 => match i {  _ => unreachable!() }, En16::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u32)]
pub enum En17  {
V0 (   u16,
   u32 ),
V1 (   BTreeMap<String, Vec<Option<u8>>>,
   bool,
   Zst8 ) = 0x8,
V2  = 0b1001,
V3 (   [u16; 2],
   f64,
   bool ) = 0xe,
}
impl Lay for En17 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En17", full: "En17", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 8, kind: 't', fields: &[LF { name: "0", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 9, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 14, kind: 't', fields: &[LF { name: "0", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En17::V0(..) => 0, En17::V1(..) => 1, En17::V2 => 2, En17::V3(..) => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En17::V0(<u16 as Arb>::arb(r), <u32 as Arb>::arb(r)), 1 => En17::V1(<BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), <bool as Arb>::arb(r), <Zst8 as Arb>::arb(r)), 2 => En17::V2, _ => En17::V3(<[u16; 2] as Arb>::arb(r), <f64 as Arb>::arb(r), <bool as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En17::V0(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En17::V1(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En17::V2 => vec![], En17::V3(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En17::V0(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En17::V1(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En17::V2 => vec![], En17::V3(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En17::V0(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En17::V1(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En17::V2 => match i {  _ => unreachable!() }, En17::V3(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u64)]
pub enum En18  {
V0 ,
V1 ,
V2 (   u32,
   Option<String>,
   char,
   [u8; 3] ),
}
impl Lay for En18 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En18", full: "En18", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En18::V0 => 0, En18::V1 => 1, En18::V2(..) => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En18::V0, 1 => En18::V1, _ => En18::V2(<u32 as Arb>::arb(r), <Option<String> as Arb>::arb(r), <char as Arb>::arb(r), <[u8; 3] as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En18::V0 => vec![], En18::V1 => vec![], En18::V2(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En18::V0 => vec![], En18::V1 => vec![], En18::V2(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En18::V0 => match i {  _ => unreachable!() }, En18::V1 => match i {  _ => unreachable!() }, En18::V2(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u64)]
pub enum En19  {
U0  = 0o31,
U1  = 6_4,
U2  = 9223372036854775805,
U3  = 0o37,
U4  = 9223372036854775806,
U5  = 0b1010011,
}
impl Lay for En19 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En19", full: "En19", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 25, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 64, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 31, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 83, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En19::U0 => 0, En19::U1 => 1, En19::U2 => 2, En19::U3 => 3, En19::U4 => 4, En19::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En19::U0, 1 => En19::U1, 2 => En19::U2, 3 => En19::U3, 4 => En19::U4, _ => En19::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En19::U0 => vec![], En19::U1 => vec![], En19::U2 => vec![], En19::U3 => vec![], En19::U4 => vec![], En19::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En19::U0 => vec![], En19::U1 => vec![], En19::U2 => vec![], En19::U3 => vec![], En19::U4 => vec![], En19::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En19::U0 => match i {  _ => unreachable!() }, En19::U1 => match i {  _ => unreachable!() }, En19::U2 => match i {  _ => unreachable!() }, En19::U3 => match i {  _ => unreachable!() }, En19::U4 => match i {  _ => unreachable!() }, En19::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u64)]
pub enum En20  {
V0 {   a0: u32,
   a1: HashMap<String, u32> },
V1 ,
V2 {   a0: InnerE,
   a1: f64,
   a2: Inner,
   a3: Option<String> } = 1_3,
V3 {   a0: u16,
   a1: Vec<Option<Vec<String>>> },
}
impl Lay for En20 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En20", full: "En20", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 13, kind: 's', fields: &[LF { name: "a0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 14, kind: 's', fields: &[LF { name: "a0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En20::V0 { .. } => 0, En20::V1 => 1, En20::V2 { .. } => 2, En20::V3 { .. } => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En20::V0 { a0: <u32 as Arb>::arb(r), a1: <HashMap<String, u32> as Arb>::arb(r) }, 1 => En20::V1, 2 => En20::V2 { a0: <InnerE as Arb>::arb(r), a1: <f64 as Arb>::arb(r), a2: <Inner as Arb>::arb(r), a3: <Option<String> as Arb>::arb(r) }, _ => En20::V3 { a0: <u16 as Arb>::arb(r), a1: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En20::V0 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En20::V1 => vec![], En20::V2 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En20::V3 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En20::V0 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En20::V1 => vec![], En20::V2 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En20::V3 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En20::V0 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En20::V1 => match i {  _ => unreachable!() }, En20::V2 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En20::V3 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u64)]
pub enum En21  {
V0 {   a0: Inner,
   a1: Zst8,
   a2: NonZero<u32>,
   a3: [u8; 3] },
V1 ,
V2 {   a0: Vec<Option<Vec<String>>> },
V3 {   a0: u32,
   a1: u8 },
V4 ,
}
impl Lay for En21 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En21", full: "En21", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 2, kind: 's', fields: &[LF { name: "a0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 3, kind: 's', fields: &[LF { name: "a0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 4, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En21::V0 { .. } => 0, En21::V1 => 1, En21::V2 { .. } => 2, En21::V3 { .. } => 3, En21::V4 => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En21::V0 { a0: <Inner as Arb>::arb(r), a1: <Zst8 as Arb>::arb(r), a2: <NonZero<u32> as Arb>::arb(r), a3: <[u8; 3] as Arb>::arb(r) }, 1 => En21::V1, 2 => En21::V2 { a0: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, 3 => En21::V3 { a0: <u32 as Arb>::arb(r), a1: <u8 as Arb>::arb(r) }, _ => En21::V4, } }
fn addrs(&self) -> Vec<usize> { match self { En21::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En21::V1 => vec![], En21::V2 { a0: x0 } => vec![x0 as *const _ as usize], En21::V3 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En21::V4 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En21::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En21::V1 => vec![], En21::V2 { a0: x0 } => vec![same(x0, &p[0])], En21::V3 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En21::V4 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En21::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En21::V1 => match i {  _ => unreachable!() }, En21::V2 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En21::V3 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En21::V4 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u64)]
pub enum En22  {
U0 (   u8 ) = 8_1,
U1  = 0x7ffffffffffffffd,
U2  = 0o56,
U3  = 0b10001,
U4  = 9223372036854775806,
U5  = 0o15,
}
impl Lay for En22 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En22", full: "En22", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 81, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 46, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 17, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 13, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En22::U0(..) => 0, En22::U1 => 1, En22::U2 => 2, En22::U3 => 3, En22::U4 => 4, En22::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En22::U0(<u8 as Arb>::arb(r)), 1 => En22::U1, 2 => En22::U2, 3 => En22::U3, 4 => En22::U4, _ => En22::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En22::U0(x0) => vec![x0 as *const _ as usize], En22::U1 => vec![], En22::U2 => vec![], En22::U3 => vec![], En22::U4 => vec![], En22::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En22::U0(x0) => vec![same(x0, &p[0])], En22::U1 => vec![], En22::U2 => vec![], En22::U3 => vec![], En22::U4 => vec![], En22::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En22::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En22::U1 => match i {  _ => unreachable!() }, En22::U2 => match i {  _ => unreachable!() }, En22::U3 => match i {  _ => unreachable!() }, En22::U4 => match i {  _ => unreachable!() }, En22::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u64)]
pub enum En23  {
V0 {   a0: Zst },
V1 {   a0: char,
   a1: NonZero<u32>,
   a2: u32,
   a3: (u8, u32) } = 0xc,
}
impl Lay for En23 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En23", full: "En23", tag: Some(Tag::U64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 12, kind: 's', fields: &[LF { name: "a0", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En23::V0 { .. } => 0, En23::V1 { .. } => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En23::V0 { a0: <Zst as Arb>::arb(r) }, _ => En23::V1 { a0: <char as Arb>::arb(r), a1: <NonZero<u32> as Arb>::arb(r), a2: <u32 as Arb>::arb(r), a3: <(u8, u32) as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En23::V0 { a0: x0 } => vec![x0 as *const _ as usize], En23::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En23::V0 { a0: x0 } => vec![same(x0, &p[0])], En23::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En23::V0 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En23::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(usize)]
pub enum En24  {
V0 {   a0: Option<String>,
   a1: (u8, u32),
   a2: (),
   a3: u32 },
V1 (   InnerE,
   u16,
   BTreeMap<String, Vec<Option<u8>>> ),
}
impl Lay for En24 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En24", full: "En24", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En24::V0 { .. } => 0, En24::V1(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En24::V0 { a0: <Option<String> as Arb>::arb(r), a1: <(u8, u32) as Arb>::arb(r), a2: <() as Arb>::arb(r), a3: <u32 as Arb>::arb(r) }, _ => En24::V1(<InnerE as Arb>::arb(r), <u16 as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En24::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En24::V1(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En24::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En24::V1(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En24::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En24::V1(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(usize)]
pub enum En25  {
U0  = 8_0,
U1  = 9,
U2  = 0x7ffffffffffffffe,
U3  = 25,
U4  = 0o122,
U5  = 9223372036854775805,
}
impl Lay for En25 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En25", full: "En25", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 80, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 9, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 25, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 82, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En25::U0 => 0, En25::U1 => 1, En25::U2 => 2, En25::U3 => 3, En25::U4 => 4, En25::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En25::U0, 1 => En25::U1, 2 => En25::U2, 3 => En25::U3, 4 => En25::U4, _ => En25::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En25::U0 => vec![], En25::U1 => vec![], En25::U2 => vec![], En25::U3 => vec![], En25::U4 => vec![], En25::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En25::U0 => vec![], En25::U1 => vec![], En25::U2 => vec![], En25::U3 => vec![], En25::U4 => vec![], En25::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En25::U0 => match i {  _ => unreachable!() }, En25::U1 => match i {  _ => unreachable!() }, En25::U2 => match i {  _ => unreachable!() }, En25::U3 => match i {  _ => unreachable!() }, En25::U4 => match i {  _ => unreachable!() }, En25::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(usize)]
pub enum En26  {
V0 (   Zst8 ) = 0b111,
V1 {   a0: Option<u64>,
   a1: Option<u64>,
   a2: Option<u64> },
V2 {   a0: f32,
   a1: u32 },
V3  = 1_1,
V4 (   (),
   i64,
   Gen<u8, String> ),
}
impl Lay for En26 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En26", full: "En26", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 7, kind: 't', fields: &[LF { name: "0", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 8, kind: 's', fields: &[LF { name: "a0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 9, kind: 's', fields: &[LF { name: "a0", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 11, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 12, kind: 't', fields: &[LF { name: "0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En26::V0(..) => 0, En26::V1 { .. } => 1, En26::V2 { .. } => 2, En26::V3 => 3, En26::V4(..) => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En26::V0(<Zst8 as Arb>::arb(r)), 1 => En26::V1 { a0: <Option<u64> as Arb>::arb(r), a1: <Option<u64> as Arb>::arb(r), a2: <Option<u64> as Arb>::arb(r) }, 2 => En26::V2 { a0: <f32 as Arb>::arb(r), a1: <u32 as Arb>::arb(r) }, 3 => En26::V3, _ => En26::V4(<() as Arb>::arb(r), <i64 as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En26::V0(x0) => vec![x0 as *const _ as usize], En26::V1 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En26::V2 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En26::V3 => vec![], En26::V4(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En26::V0(x0) => vec![same(x0, &p[0])], En26::V1 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En26::V2 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En26::V3 => vec![], En26::V4(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En26::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En26::V1 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En26::V2 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En26::V3 => match i {  _ => unreachable!() }, En26::V4(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, usize)]
pub enum En27  {
V0 ,
V1 {   a0: u128 },
}
impl Lay for En27 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En27", full: "En27", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 's', fields: &[LF { name: "a0", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En27::V0 => 0, En27::V1 { .. } => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En27::V0, _ => En27::V1 { a0: <u128 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En27::V0 => vec![], En27::V1 { a0: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En27::V0 => vec![], En27::V1 { a0: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En27::V0 => match i {  _ => unreachable!() }, En27::V1 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, usize)]
pub enum En28  {
U0 (   u8 ) = 0x2e,
U1  = 0o777777777777777777776,
U2  = 0o137,
U3  = 0o41,
U4  = 9223372036854775805,
U5  = 0x43,
}
impl Lay for En28 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En28", full: "En28", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 46, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 95, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 33, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 67, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En28::U0(..) => 0, En28::U1 => 1, En28::U2 => 2, En28::U3 => 3, En28::U4 => 4, En28::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En28::U0(<u8 as Arb>::arb(r)), 1 => En28::U1, 2 => En28::U2, 3 => En28::U3, 4 => En28::U4, _ => En28::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En28::U0(x0) => vec![x0 as *const _ as usize], En28::U1 => vec![], En28::U2 => vec![], En28::U3 => vec![], En28::U4 => vec![], En28::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En28::U0(x0) => vec![same(x0, &p[0])], En28::U1 => vec![], En28::U2 => vec![], En28::U3 => vec![], En28::U4 => vec![], En28::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En28::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En28::U1 => match i {  _ => unreachable!() }, En28::U2 => match i {  _ => unreachable!() }, En28::U3 => match i {  _ => unreachable!() }, En28::U4 => match i {  _ => unreachable!() }, En28::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, usize)]
pub enum En29  {
V0 (   (),
   f32,
   Inner,
   u128 ) = 0b110,
V1 ,
}
impl Lay for En29 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En29", full: "En29", tag: Some(Tag::Usize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 6, kind: 't', fields: &[LF { name: "0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 7, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En29::V0(..) => 0, En29::V1 => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En29::V0(<() as Arb>::arb(r), <f32 as Arb>::arb(r), <Inner as Arb>::arb(r), <u128 as Arb>::arb(r)), _ => En29::V1, } }
fn addrs(&self) -> Vec<usize> { match self { En29::V0(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En29::V1 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En29::V0(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En29::V1 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En29::V0(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En29::V1 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i8)]
pub enum En30  {
V0 (   Vec<Option<Vec<String>>>,
   (),
   u64 ),
}
impl Lay for En30 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En30", full: "En30", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En30::V0(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => En30::V0(<Vec<Option<Vec<String>>> as Arb>::arb(r), <() as Arb>::arb(r), <u64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En30::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En30::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En30::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i8)]
pub enum En31  {
U0  = 0o136,
U1  = 9_1,
U2  = 25,
U3  = 0b1111110,
U4  = 0o177,
U5  = 0b1,
}
impl Lay for En31 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En31", full: "En31", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 94, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 91, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 25, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 126, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 127, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 1, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En31::U0 => 0, En31::U1 => 1, En31::U2 => 2, En31::U3 => 3, En31::U4 => 4, En31::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En31::U0, 1 => En31::U1, 2 => En31::U2, 3 => En31::U3, 4 => En31::U4, _ => En31::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En31::U0 => vec![], En31::U1 => vec![], En31::U2 => vec![], En31::U3 => vec![], En31::U4 => vec![], En31::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En31::U0 => vec![], En31::U1 => vec![], En31::U2 => vec![], En31::U3 => vec![], En31::U4 => vec![], En31::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En31::U0 => match i {  _ => unreachable!() }, En31::U1 => match i {  _ => unreachable!() }, En31::U2 => match i {  _ => unreachable!() }, En31::U3 => match i {  _ => unreachable!() }, En31::U4 => match i {  _ => unreachable!() }, En31::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i8)]
pub enum En32  {
V0 (   u16 ),
V1 (   bool,
   char ) = 0x6,
}
impl Lay for En32 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En32", full: "En32", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 6, kind: 't', fields: &[LF { name: "0", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En32::V0(..) => 0, En32::V1(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En32::V0(<u16 as Arb>::arb(r)), _ => En32::V1(<bool as Arb>::arb(r), <char as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En32::V0(x0) => vec![x0 as *const _ as usize], En32::V1(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En32::V0(x0) => vec![same(x0, &p[0])], En32::V1(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En32::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En32::V1(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i8)]
pub enum En33  {
V0 (   NonZero<u32> ),
V1 {   a0: Gen<u8, String>,
   a1: Arc<u32>,
   a2: [u16; 2],
   a3: [u16; 2] },
V2 ,
}
impl Lay for En33 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En33", full: "En33", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 's', fields: &[LF { name: "a0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En33::V0(..) => 0, En33::V1 { .. } => 1, En33::V2 => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En33::V0(<NonZero<u32> as Arb>::arb(r)), 1 => En33::V1 { a0: <Gen<u8, String> as Arb>::arb(r), a1: <Arc<u32> as Arb>::arb(r), a2: <[u16; 2] as Arb>::arb(r), a3: <[u16; 2] as Arb>::arb(r) }, _ => En33::V2, } }
fn addrs(&self) -> Vec<usize> { match self { En33::V0(x0) => vec![x0 as *const _ as usize], En33::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En33::V2 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En33::V0(x0) => vec![same(x0, &p[0])], En33::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En33::V2 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En33::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En33::V1 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En33::V2 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i8)]
pub enum En34  {
U0 (   u8 ) = 0o134,
U1  = 126,
U2  = 6,
U3  = 0xa,
U4  = 0x7f,
U5  = 0o135,
}
impl Lay for En34 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En34", full: "En34", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 92, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 126, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 6, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 10, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 127, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 93, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En34::U0(..) => 0, En34::U1 => 1, En34::U2 => 2, En34::U3 => 3, En34::U4 => 4, En34::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En34::U0(<u8 as Arb>::arb(r)), 1 => En34::U1, 2 => En34::U2, 3 => En34::U3, 4 => En34::U4, _ => En34::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En34::U0(x0) => vec![x0 as *const _ as usize], En34::U1 => vec![], En34::U2 => vec![], En34::U3 => vec![], En34::U4 => vec![], En34::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En34::U0(x0) => vec![same(x0, &p[0])], En34::U1 => vec![], En34::U2 => vec![], En34::U3 => vec![], En34::U4 => vec![], En34::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En34::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En34::U1 => match i {  _ => unreachable!() }, En34::U2 => match i {  _ => unreachable!() }, En34::U3 => match i {  _ => unreachable!() }, En34::U4 => match i {  _ => unreachable!() }, En34::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i8)]
pub enum En35  {
V0 (   f32,
   char,
   Inner ),
V1 {   a0: (),
   a1: Al16,
   a2: bool } = 0o11,
V2  = 12,
V3 ,
V4 (   Option<u64>,
   Gen<u8, String> ) = 0o32,
}
impl Lay for En35 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En35", full: "En35", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 9, kind: 's', fields: &[LF { name: "a0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 12, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 13, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 26, kind: 't', fields: &[LF { name: "0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En35::V0(..) => 0, En35::V1 { .. } => 1, En35::V2 => 2, En35::V3 => 3, En35::V4(..) => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En35::V0(<f32 as Arb>::arb(r), <char as Arb>::arb(r), <Inner as Arb>::arb(r)), 1 => En35::V1 { a0: <() as Arb>::arb(r), a1: <Al16 as Arb>::arb(r), a2: <bool as Arb>::arb(r) }, 2 => En35::V2, 3 => En35::V3, _ => En35::V4(<Option<u64> as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En35::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En35::V1 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En35::V2 => vec![], En35::V3 => vec![], En35::V4(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En35::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En35::V1 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En35::V2 => vec![], En35::V3 => vec![], En35::V4(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En35::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En35::V1 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En35::V2 => match i {  _ => unreachable!() }, En35::V3 => match i {  _ => unreachable!() }, En35::V4(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i16)]
pub enum En36  {
V0 ,
V1 {   a0: bool,
   a1: u32 },
V2 ,
V3 (   f64 ),
}
impl Lay for En36 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En36", full: "En36", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 's', fields: &[LF { name: "a0", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En36::V0 => 0, En36::V1 { .. } => 1, En36::V2 => 2, En36::V3(..) => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En36::V0, 1 => En36::V1 { a0: <bool as Arb>::arb(r), a1: <u32 as Arb>::arb(r) }, 2 => En36::V2, _ => En36::V3(<f64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En36::V0 => vec![], En36::V1 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En36::V2 => vec![], En36::V3(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En36::V0 => vec![], En36::V1 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En36::V2 => vec![], En36::V3(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En36::V0 => match i {  _ => unreachable!() }, En36::V1 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En36::V2 => match i {  _ => unreachable!() }, En36::V3(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i16)]
pub enum En37  {
U0  = 3_2766,
U1  = 0x21,
U2  = 0o77777,
U3  = 0b1001000,
U4  = 0b11110,
U5  = 47,
}
impl Lay for En37 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En37", full: "En37", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 32766, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 33, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 32767, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 72, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 30, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 47, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En37::U0 => 0, En37::U1 => 1, En37::U2 => 2, En37::U3 => 3, En37::U4 => 4, En37::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En37::U0, 1 => En37::U1, 2 => En37::U2, 3 => En37::U3, 4 => En37::U4, _ => En37::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En37::U0 => vec![], En37::U1 => vec![], En37::U2 => vec![], En37::U3 => vec![], En37::U4 => vec![], En37::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En37::U0 => vec![], En37::U1 => vec![], En37::U2 => vec![], En37::U3 => vec![], En37::U4 => vec![], En37::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En37::U0 => match i {  _ => unreachable!() }, En37::U1 => match i {  _ => unreachable!() }, En37::U2 => match i {  _ => unreachable!() }, En37::U3 => match i {  _ => unreachable!() }, En37::U4 => match i {  _ => unreachable!() }, En37::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i16)]
pub enum En38  {
V0 (   u128,
   Zst,
   [u8; 3] ),
V1  = 0o4,
V2 (   Vec<u8>,
   f32,
   (u8, u32),
   Vec<Option<Vec<String>>> ),
V3  = 0o14,
V4 {   a0: u8,
   a1: u32,
   a2: (),
   a3: Gen<u8, String> },
}
impl Lay for En38 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En38", full: "En38", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 4, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 5, kind: 't', fields: &[LF { name: "0", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <f32 as Facet>::SHAPE, id: ConstTypeId::of::<f32>(), layout: Layout::new::<f32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 12, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 13, kind: 's', fields: &[LF { name: "a0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En38::V0(..) => 0, En38::V1 => 1, En38::V2(..) => 2, En38::V3 => 3, En38::V4 { .. } => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En38::V0(<u128 as Arb>::arb(r), <Zst as Arb>::arb(r), <[u8; 3] as Arb>::arb(r)), 1 => En38::V1, 2 => En38::V2(<Vec<u8> as Arb>::arb(r), <f32 as Arb>::arb(r), <(u8, u32) as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r)), 3 => En38::V3, _ => En38::V4 { a0: <u8 as Arb>::arb(r), a1: <u32 as Arb>::arb(r), a2: <() as Arb>::arb(r), a3: <Gen<u8, String> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En38::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En38::V1 => vec![], En38::V2(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En38::V3 => vec![], En38::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En38::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En38::V1 => vec![], En38::V2(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En38::V3 => vec![], En38::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En38::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En38::V1 => match i {  _ => unreachable!() }, En38::V2(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En38::V3 => match i {  _ => unreachable!() }, En38::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i16)]
pub enum En39  {
V0 (   bool,
   NonZero<u32>,
   u64,
   bool ),
V1 ,
V2 ,
V3 {   a0: Vec<Option<Vec<String>>> },
V4 {   a0: u32,
   a1: [u16; 2],
   a2: InnerE,
   a3: u16 },
}
impl Lay for En39 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En39", full: "En39", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 's', fields: &[LF { name: "a0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 4, kind: 's', fields: &[LF { name: "a0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En39::V0(..) => 0, En39::V1 => 1, En39::V2 => 2, En39::V3 { .. } => 3, En39::V4 { .. } => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En39::V0(<bool as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r), <u64 as Arb>::arb(r), <bool as Arb>::arb(r)), 1 => En39::V1, 2 => En39::V2, 3 => En39::V3 { a0: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, _ => En39::V4 { a0: <u32 as Arb>::arb(r), a1: <[u16; 2] as Arb>::arb(r), a2: <InnerE as Arb>::arb(r), a3: <u16 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En39::V0(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En39::V1 => vec![], En39::V2 => vec![], En39::V3 { a0: x0 } => vec![x0 as *const _ as usize], En39::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En39::V0(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En39::V1 => vec![], En39::V2 => vec![], En39::V3 { a0: x0 } => vec![same(x0, &p[0])], En39::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En39::V0(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En39::V1 => match i {  _ => unreachable!() }, En39::V2 => match i {  _ => unreachable!() }, En39::V3 { a0: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En39::V4 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i16)]
pub enum En40  {
U0 (   u8 ) = 3_2767,
U1  = 0o110,
U2  = 32766,
U3  = 16,
U4  = 29,
U5  = 0b0,
}
impl Lay for En40 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En40", full: "En40", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 32767, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 72, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 32766, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 16, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 29, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En40::U0(..) => 0, En40::U1 => 1, En40::U2 => 2, En40::U3 => 3, En40::U4 => 4, En40::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En40::U0(<u8 as Arb>::arb(r)), 1 => En40::U1, 2 => En40::U2, 3 => En40::U3, 4 => En40::U4, _ => En40::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En40::U0(x0) => vec![x0 as *const _ as usize], En40::U1 => vec![], En40::U2 => vec![], En40::U3 => vec![], En40::U4 => vec![], En40::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En40::U0(x0) => vec![same(x0, &p[0])], En40::U1 => vec![], En40::U2 => vec![], En40::U3 => vec![], En40::U4 => vec![], En40::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En40::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En40::U1 => match i {  _ => unreachable!() }, En40::U2 => match i {  _ => unreachable!() }, En40::U3 => match i {  _ => unreachable!() }, En40::U4 => match i {  _ => unreachable!() }, En40::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i16)]
pub enum En41  {
V0 {   a0: (),
   a1: char } = 9,
V1 ,
V2 (   f64,
   Al16,
   Vec<Option<Vec<String>>> ),
V3 (   [u16; 2],
   bool ) = 0b10010,
V4  = 0o32,
V5  = 0o45,
}
impl Lay for En41 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En41", full: "En41", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 9, kind: 's', fields: &[LF { name: "a0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 10, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 11, kind: 't', fields: &[LF { name: "0", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 18, kind: 't', fields: &[LF { name: "0", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 26, kind: 'u', fields: &[], doc: &[] }, LV { name: "V5", disc: 37, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En41::V0 { .. } => 0, En41::V1 => 1, En41::V2(..) => 2, En41::V3(..) => 3, En41::V4 => 4, En41::V5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En41::V0 { a0: <() as Arb>::arb(r), a1: <char as Arb>::arb(r) }, 1 => En41::V1, 2 => En41::V2(<f64 as Arb>::arb(r), <Al16 as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r)), 3 => En41::V3(<[u16; 2] as Arb>::arb(r), <bool as Arb>::arb(r)), 4 => En41::V4, _ => En41::V5, } }
fn addrs(&self) -> Vec<usize> { match self { En41::V0 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En41::V1 => vec![], En41::V2(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En41::V3(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En41::V4 => vec![], En41::V5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En41::V0 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En41::V1 => vec![], En41::V2(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En41::V3(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En41::V4 => vec![], En41::V5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En41::V0 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En41::V1 => match i {  _ => unreachable!() }, En41::V2(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En41::V3(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En41::V4 => match i {  _ => unreachable!() }, En41::V5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i32)]
pub enum En42  {
V0 ,
V1 (   Zst8 ),
V2 (   String,
   Zst,
   (),
   i64 ),
}
impl Lay for En42 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En42", full: "En42", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En42::V0 => 0, En42::V1(..) => 1, En42::V2(..) => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En42::V0, 1 => En42::V1(<Zst8 as Arb>::arb(r)), _ => En42::V2(<String as Arb>::arb(r), <Zst as Arb>::arb(r), <() as Arb>::arb(r), <i64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En42::V0 => vec![], En42::V1(x0) => vec![x0 as *const _ as usize], En42::V2(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En42::V0 => vec![], En42::V1(x0) => vec![same(x0, &p[0])], En42::V2(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En42::V0 => match i {  _ => unreachable!() }, En42::V1(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En42::V2(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i32)]
pub enum En43  {
U0  = 0x5e,
U1  = 0x7ffffffe,
U2  = 0o17777777777,
U3  = 0x40,
U4  = 0b100101,
U5  = 0b0,
}
impl Lay for En43 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En43", full: "En43", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 94, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 2147483646, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 2147483647, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 64, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 37, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En43::U0 => 0, En43::U1 => 1, En43::U2 => 2, En43::U3 => 3, En43::U4 => 4, En43::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En43::U0, 1 => En43::U1, 2 => En43::U2, 3 => En43::U3, 4 => En43::U4, _ => En43::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En43::U0 => vec![], En43::U1 => vec![], En43::U2 => vec![], En43::U3 => vec![], En43::U4 => vec![], En43::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En43::U0 => vec![], En43::U1 => vec![], En43::U2 => vec![], En43::U3 => vec![], En43::U4 => vec![], En43::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En43::U0 => match i {  _ => unreachable!() }, En43::U1 => match i {  _ => unreachable!() }, En43::U2 => match i {  _ => unreachable!() }, En43::U3 => match i {  _ => unreachable!() }, En43::U4 => match i {  _ => unreachable!() }, En43::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i32)]
pub enum En44  {
V0 {   a0: BTreeMap<String, Vec<Option<u8>>>,
   a1: i8,
   a2: Arc<u32>,
   a3: bool } = 10,
V1 {   a0: Gen<u8, String>,
   a1: () } = 1_1,
}
impl Lay for En44 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En44", full: "En44", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 10, kind: 's', fields: &[LF { name: "a0", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <bool as Facet>::SHAPE, id: ConstTypeId::of::<bool>(), layout: Layout::new::<bool>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 11, kind: 's', fields: &[LF { name: "a0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En44::V0 { .. } => 0, En44::V1 { .. } => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En44::V0 { a0: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), a1: <i8 as Arb>::arb(r), a2: <Arc<u32> as Arb>::arb(r), a3: <bool as Arb>::arb(r) }, _ => En44::V1 { a0: <Gen<u8, String> as Arb>::arb(r), a1: <() as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En44::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En44::V1 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En44::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En44::V1 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En44::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En44::V1 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i32)]
pub enum En45  {
V0 (   Zst8 ),
V1 ,
}
impl Lay for En45 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En45", full: "En45", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En45::V0(..) => 0, En45::V1 => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En45::V0(<Zst8 as Arb>::arb(r)), _ => En45::V1, } }
fn addrs(&self) -> Vec<usize> { match self { En45::V0(x0) => vec![x0 as *const _ as usize], En45::V1 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En45::V0(x0) => vec![same(x0, &p[0])], En45::V1 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En45::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En45::V1 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i32)]
pub enum En46  {
U0 (   u8 ) = 0x7fffffff,
U1  = 0x32,
U2  = 9_1,
U3  = 0o17777777776,
U4  = 23,
U5  = 0b111001,
}
impl Lay for En46 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En46", full: "En46", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 2147483647, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 50, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 91, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 2147483646, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 23, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 57, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En46::U0(..) => 0, En46::U1 => 1, En46::U2 => 2, En46::U3 => 3, En46::U4 => 4, En46::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En46::U0(<u8 as Arb>::arb(r)), 1 => En46::U1, 2 => En46::U2, 3 => En46::U3, 4 => En46::U4, _ => En46::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En46::U0(x0) => vec![x0 as *const _ as usize], En46::U1 => vec![], En46::U2 => vec![], En46::U3 => vec![], En46::U4 => vec![], En46::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En46::U0(x0) => vec![same(x0, &p[0])], En46::U1 => vec![], En46::U2 => vec![], En46::U3 => vec![], En46::U4 => vec![], En46::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En46::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En46::U1 => match i {  _ => unreachable!() }, En46::U2 => match i {  _ => unreachable!() }, En46::U3 => match i {  _ => unreachable!() }, En46::U4 => match i {  _ => unreachable!() }, En46::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i32)]
pub enum En47  {
V0 (   Option<u64>,
   i8,
   u64 ) = 4,
V1 (   Arc<u32>,
   u64,
   [u16; 2],
   InnerE ) = 0b1010,
V2 (   u16 ),
V3  = 0x13,
V4 (   Inner,
   Arc<u32>,
   Option<String> ) = 0x1a,
}
impl Lay for En47 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En47", full: "En47", tag: Some(Tag::I32), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 10, kind: 't', fields: &[LF { name: "0", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 11, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 19, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 26, kind: 't', fields: &[LF { name: "0", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Option<String> as Facet>::SHAPE, id: ConstTypeId::of::<Option<String>>(), layout: Layout::new::<Option<String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En47::V0(..) => 0, En47::V1(..) => 1, En47::V2(..) => 2, En47::V3 => 3, En47::V4(..) => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En47::V0(<Option<u64> as Arb>::arb(r), <i8 as Arb>::arb(r), <u64 as Arb>::arb(r)), 1 => En47::V1(<Arc<u32> as Arb>::arb(r), <u64 as Arb>::arb(r), <[u16; 2] as Arb>::arb(r), <InnerE as Arb>::arb(r)), 2 => En47::V2(<u16 as Arb>::arb(r)), 3 => En47::V3, _ => En47::V4(<Inner as Arb>::arb(r), <Arc<u32> as Arb>::arb(r), <Option<String> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En47::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En47::V1(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En47::V2(x0) => vec![x0 as *const _ as usize], En47::V3 => vec![], En47::V4(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En47::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En47::V1(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En47::V2(x0) => vec![same(x0, &p[0])], En47::V3 => vec![], En47::V4(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En47::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En47::V1(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En47::V2(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En47::V3 => match i {  _ => unreachable!() }, En47::V4(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i64)]
pub enum En48  {
V0 (   () ),
V1 ,
V2 (   NonZero<u32> ),
V3 ,
V4 (   Inner,
   u32 ),
V5 {   a0: String,
   a1: char,
   a2: f64 },
}
impl Lay for En48 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En48", full: "En48", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 3, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V5", disc: 5, kind: 's', fields: &[LF { name: "a0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En48::V0(..) => 0, En48::V1 => 1, En48::V2(..) => 2, En48::V3 => 3, En48::V4(..) => 4, En48::V5 { .. } => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En48::V0(<() as Arb>::arb(r)), 1 => En48::V1, 2 => En48::V2(<NonZero<u32> as Arb>::arb(r)), 3 => En48::V3, 4 => En48::V4(<Inner as Arb>::arb(r), <u32 as Arb>::arb(r)), _ => En48::V5 { a0: <String as Arb>::arb(r), a1: <char as Arb>::arb(r), a2: <f64 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En48::V0(x0) => vec![x0 as *const _ as usize], En48::V1 => vec![], En48::V2(x0) => vec![x0 as *const _ as usize], En48::V3 => vec![], En48::V4(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En48::V5 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En48::V0(x0) => vec![same(x0, &p[0])], En48::V1 => vec![], En48::V2(x0) => vec![same(x0, &p[0])], En48::V3 => vec![], En48::V4(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En48::V5 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En48::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En48::V1 => match i {  _ => unreachable!() }, En48::V2(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En48::V3 => match i {  _ => unreachable!() }, En48::V4(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En48::V5 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i64)]
pub enum En49  {
U0  = 9_5,
U1  = 78,
U2  = 5,
U3  = 0x7ffffffffffffffd,
U4  = 33,
U5  = 0o777777777777777777776,
}
impl Lay for En49 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En49", full: "En49", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 95, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 78, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 5, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 33, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En49::U0 => 0, En49::U1 => 1, En49::U2 => 2, En49::U3 => 3, En49::U4 => 4, En49::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En49::U0, 1 => En49::U1, 2 => En49::U2, 3 => En49::U3, 4 => En49::U4, _ => En49::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En49::U0 => vec![], En49::U1 => vec![], En49::U2 => vec![], En49::U3 => vec![], En49::U4 => vec![], En49::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En49::U0 => vec![], En49::U1 => vec![], En49::U2 => vec![], En49::U3 => vec![], En49::U4 => vec![], En49::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En49::U0 => match i {  _ => unreachable!() }, En49::U1 => match i {  _ => unreachable!() }, En49::U2 => match i {  _ => unreachable!() }, En49::U3 => match i {  _ => unreachable!() }, En49::U4 => match i {  _ => unreachable!() }, En49::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i64)]
pub enum En50  {
V0 (   Gen<u8, String>,
   Vec<u8>,
   Vec<Option<Vec<String>>> ) = 0x7,
V1 ,
V2 {   a0: Vec<Option<Vec<String>>>,
   a1: Zst8,
   a2: InnerE } = 0b1100,
V3 (   String,
   NonZero<u32>,
   NonZero<u32>,
   BTreeMap<String, Vec<Option<u8>>> ) = 0o20,
V4  = 18,
}
impl Lay for En50 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En50", full: "En50", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 7, kind: 't', fields: &[LF { name: "0", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 8, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 12, kind: 's', fields: &[LF { name: "a0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 16, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 18, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En50::V0(..) => 0, En50::V1 => 1, En50::V2 { .. } => 2, En50::V3(..) => 3, En50::V4 => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En50::V0(<Gen<u8, String> as Arb>::arb(r), <Vec<u8> as Arb>::arb(r), <Vec<Option<Vec<String>>> as Arb>::arb(r)), 1 => En50::V1, 2 => En50::V2 { a0: <Vec<Option<Vec<String>>> as Arb>::arb(r), a1: <Zst8 as Arb>::arb(r), a2: <InnerE as Arb>::arb(r) }, 3 => En50::V3(<String as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r)), _ => En50::V4, } }
fn addrs(&self) -> Vec<usize> { match self { En50::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En50::V1 => vec![], En50::V2 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En50::V3(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En50::V4 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En50::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En50::V1 => vec![], En50::V2 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En50::V3(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En50::V4 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En50::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En50::V1 => match i {  _ => unreachable!() }, En50::V2 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En50::V3(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En50::V4 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i64)]
pub enum En51  {
V0 {   a0: i8,
   a1: Vec<u8>,
   a2: Arc<u32> },
V1 ,
V2 ,
V3 (   i64 ),
}
impl Lay for En51 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En51", full: "En51", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En51::V0 { .. } => 0, En51::V1 => 1, En51::V2 => 2, En51::V3(..) => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En51::V0 { a0: <i8 as Arb>::arb(r), a1: <Vec<u8> as Arb>::arb(r), a2: <Arc<u32> as Arb>::arb(r) }, 1 => En51::V1, 2 => En51::V2, _ => En51::V3(<i64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En51::V0 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En51::V1 => vec![], En51::V2 => vec![], En51::V3(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En51::V0 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En51::V1 => vec![], En51::V2 => vec![], En51::V3(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En51::V0 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En51::V1 => match i {  _ => unreachable!() }, En51::V2 => match i {  _ => unreachable!() }, En51::V3(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i64)]
pub enum En52  {
U0 (   u8 ) = 0o77,
U1  = 9_223372036854775806,
U2  = 0xc,
U3  = 9_223372036854775805,
U4  = 53,
U5  = 0b1011010,
}
impl Lay for En52 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En52", full: "En52", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 63, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 12, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 53, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 90, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En52::U0(..) => 0, En52::U1 => 1, En52::U2 => 2, En52::U3 => 3, En52::U4 => 4, En52::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En52::U0(<u8 as Arb>::arb(r)), 1 => En52::U1, 2 => En52::U2, 3 => En52::U3, 4 => En52::U4, _ => En52::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En52::U0(x0) => vec![x0 as *const _ as usize], En52::U1 => vec![], En52::U2 => vec![], En52::U3 => vec![], En52::U4 => vec![], En52::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En52::U0(x0) => vec![same(x0, &p[0])], En52::U1 => vec![], En52::U2 => vec![], En52::U3 => vec![], En52::U4 => vec![], En52::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En52::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En52::U1 => match i {  _ => unreachable!() }, En52::U2 => match i {  _ => unreachable!() }, En52::U3 => match i {  _ => unreachable!() }, En52::U4 => match i {  _ => unreachable!() }, En52::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i64)]
pub enum En53  {
V0 (   String,
   char,
   Inner ) = 0x7,
V1  = 0b1010,
V2 {   a0: f64,
   a1: u32 } = 1_4,
V3 {   a0: Al16,
   a1: NonZero<u32> } = 22,
}
impl Lay for En53 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En53", full: "En53", tag: Some(Tag::I64), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 7, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <char as Facet>::SHAPE, id: ConstTypeId::of::<char>(), layout: Layout::new::<char>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Inner as Facet>::SHAPE, id: ConstTypeId::of::<Inner>(), layout: Layout::new::<Inner>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 10, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 14, kind: 's', fields: &[LF { name: "a0", shape: || <f64 as Facet>::SHAPE, id: ConstTypeId::of::<f64>(), layout: Layout::new::<f64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 22, kind: 's', fields: &[LF { name: "a0", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En53::V0(..) => 0, En53::V1 => 1, En53::V2 { .. } => 2, En53::V3 { .. } => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En53::V0(<String as Arb>::arb(r), <char as Arb>::arb(r), <Inner as Arb>::arb(r)), 1 => En53::V1, 2 => En53::V2 { a0: <f64 as Arb>::arb(r), a1: <u32 as Arb>::arb(r) }, _ => En53::V3 { a0: <Al16 as Arb>::arb(r), a1: <NonZero<u32> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En53::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En53::V1 => vec![], En53::V2 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], En53::V3 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En53::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En53::V1 => vec![], En53::V2 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], En53::V3 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En53::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En53::V1 => match i {  _ => unreachable!() }, En53::V2 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En53::V3 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(isize)]
pub enum En54  {
V0 ,
}
impl Lay for En54 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En54", full: "En54", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En54::V0 => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => En54::V0, } }
fn addrs(&self) -> Vec<usize> { match self { En54::V0 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En54::V0 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En54::V0 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(isize)]
pub enum En55  {
U0  = 0x2f,
U1  = 9_223372036854775805,
U2  = 9_223372036854775806,
U3  = 0x1d,
U4  = 57,
U5  = 0b111100,
}
impl Lay for En55 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En55", full: "En55", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 47, kind: 'u', fields: &[], doc: &[] }, LV { name: "U1", disc: 9223372036854775805, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 29, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 57, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 60, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En55::U0 => 0, En55::U1 => 1, En55::U2 => 2, En55::U3 => 3, En55::U4 => 4, En55::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En55::U0, 1 => En55::U1, 2 => En55::U2, 3 => En55::U3, 4 => En55::U4, _ => En55::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En55::U0 => vec![], En55::U1 => vec![], En55::U2 => vec![], En55::U3 => vec![], En55::U4 => vec![], En55::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En55::U0 => vec![], En55::U1 => vec![], En55::U2 => vec![], En55::U3 => vec![], En55::U4 => vec![], En55::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En55::U0 => match i {  _ => unreachable!() }, En55::U1 => match i {  _ => unreachable!() }, En55::U2 => match i {  _ => unreachable!() }, En55::U3 => match i {  _ => unreachable!() }, En55::U4 => match i {  _ => unreachable!() }, En55::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(isize)]
pub enum En56  {
V0  = 4,
V1 ,
V2 {   a0: i64,
   a1: u16,
   a2: String } = 0x6,
V3 (   BTreeMap<String, Vec<Option<u8>>> ),
V4 ,
V5 (   Zst,
   String,
   i8,
   BTreeMap<String, Vec<Option<u8>>> ) = 12,
}
impl Lay for En56 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En56", full: "En56", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 4, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 5, kind: 'u', fields: &[], doc: &[] }, LV { name: "V2", disc: 6, kind: 's', fields: &[LF { name: "a0", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 7, kind: 't', fields: &[LF { name: "0", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 8, kind: 'u', fields: &[], doc: &[] }, LV { name: "V5", disc: 12, kind: 't', fields: &[LF { name: "0", shape: || <Zst as Facet>::SHAPE, id: ConstTypeId::of::<Zst>(), layout: Layout::new::<Zst>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En56::V0 => 0, En56::V1 => 1, En56::V2 { .. } => 2, En56::V3(..) => 3, En56::V4 => 4, En56::V5(..) => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En56::V0, 1 => En56::V1, 2 => En56::V2 { a0: <i64 as Arb>::arb(r), a1: <u16 as Arb>::arb(r), a2: <String as Arb>::arb(r) }, 3 => En56::V3(<BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r)), 4 => En56::V4, _ => En56::V5(<Zst as Arb>::arb(r), <String as Arb>::arb(r), <i8 as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En56::V0 => vec![], En56::V1 => vec![], En56::V2 { a0: x0, a1: x1, a2: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En56::V3(x0) => vec![x0 as *const _ as usize], En56::V4 => vec![], En56::V5(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En56::V0 => vec![], En56::V1 => vec![], En56::V2 { a0: x0, a1: x1, a2: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En56::V3(x0) => vec![same(x0, &p[0])], En56::V4 => vec![], En56::V5(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En56::V0 => match i {  _ => unreachable!() }, En56::V1 => match i {  _ => unreachable!() }, En56::V2 { a0: x0, a1: x1, a2: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En56::V3(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En56::V4 => match i {  _ => unreachable!() }, En56::V5(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, isize)]
pub enum En57  {
V0 {   a0: u32,
   a1: Vec<u8>,
   a2: u64,
   a3: NonZero<u32> },
V1 (   Al16,
   [u16; 2] ),
V2 ,
V3 {   a0: (),
   a1: Zst8 },
}
impl Lay for En57 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En57", full: "En57", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <[u16; 2] as Facet>::SHAPE, id: ConstTypeId::of::<[u16; 2]>(), layout: Layout::new::<[u16; 2]>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 's', fields: &[LF { name: "a0", shape: || <() as Facet>::SHAPE, id: ConstTypeId::of::<()>(), layout: Layout::new::<()>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <Zst8 as Facet>::SHAPE, id: ConstTypeId::of::<Zst8>(), layout: Layout::new::<Zst8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En57::V0 { .. } => 0, En57::V1(..) => 1, En57::V2 => 2, En57::V3 { .. } => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En57::V0 { a0: <u32 as Arb>::arb(r), a1: <Vec<u8> as Arb>::arb(r), a2: <u64 as Arb>::arb(r), a3: <NonZero<u32> as Arb>::arb(r) }, 1 => En57::V1(<Al16 as Arb>::arb(r), <[u16; 2] as Arb>::arb(r)), 2 => En57::V2, _ => En57::V3 { a0: <() as Arb>::arb(r), a1: <Zst8 as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { En57::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], En57::V1(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En57::V2 => vec![], En57::V3 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En57::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], En57::V1(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En57::V2 => vec![], En57::V3 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En57::V0 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, En57::V1(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En57::V2 => match i {  _ => unreachable!() }, En57::V3 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, isize)]
pub enum En58  {
U0 (   u8 ) = 0o777777777777777777775,
U1  = 0o777777777777777777776,
U2  = 52,
U3  = 0b100010,
U4  = 0x55,
U5  = 0o44,
}
impl Lay for En58 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En58", full: "En58", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "U0", disc: 9223372036854775805, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "U1", disc: 9223372036854775806, kind: 'u', fields: &[], doc: &[] }, LV { name: "U2", disc: 52, kind: 'u', fields: &[], doc: &[] }, LV { name: "U3", disc: 34, kind: 'u', fields: &[], doc: &[] }, LV { name: "U4", disc: 85, kind: 'u', fields: &[], doc: &[] }, LV { name: "U5", disc: 36, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En58::U0(..) => 0, En58::U1 => 1, En58::U2 => 2, En58::U3 => 3, En58::U4 => 4, En58::U5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En58::U0(<u8 as Arb>::arb(r)), 1 => En58::U1, 2 => En58::U2, 3 => En58::U3, 4 => En58::U4, _ => En58::U5, } }
fn addrs(&self) -> Vec<usize> { match self { En58::U0(x0) => vec![x0 as *const _ as usize], En58::U1 => vec![], En58::U2 => vec![], En58::U3 => vec![], En58::U4 => vec![], En58::U5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En58::U0(x0) => vec![same(x0, &p[0])], En58::U1 => vec![], En58::U2 => vec![], En58::U3 => vec![], En58::U4 => vec![], En58::U5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En58::U0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, En58::U1 => match i {  _ => unreachable!() }, En58::U2 => match i {  _ => unreachable!() }, En58::U3 => match i {  _ => unreachable!() }, En58::U4 => match i {  _ => unreachable!() }, En58::U5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, isize)]
pub enum En59  {
V0 ,
V1 (   Vec<u8>,
   u64 ),
V2 (   Option<u64>,
   InnerE,
   i8 ) = 2,
V3 ,
V4 (   HashMap<String, u32> ),
}
impl Lay for En59 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "En59", full: "En59", tag: Some(Tag::Isize), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <Vec<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u8>>(), layout: Layout::new::<Vec<u8>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <Option<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u64>>(), layout: Layout::new::<Option<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 3, kind: 'u', fields: &[], doc: &[] }, LV { name: "V4", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { En59::V0 => 0, En59::V1(..) => 1, En59::V2(..) => 2, En59::V3 => 3, En59::V4(..) => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => En59::V0, 1 => En59::V1(<Vec<u8> as Arb>::arb(r), <u64 as Arb>::arb(r)), 2 => En59::V2(<Option<u64> as Arb>::arb(r), <InnerE as Arb>::arb(r), <i8 as Arb>::arb(r)), 3 => En59::V3, _ => En59::V4(<HashMap<String, u32> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { En59::V0 => vec![], En59::V1(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], En59::V2(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], En59::V3 => vec![], En59::V4(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { En59::V0 => vec![], En59::V1(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], En59::V2(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], En59::V3 => vec![], En59::V4(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { En59::V0 => match i {  _ => unreachable!() }, En59::V1(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, En59::V2(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, En59::V3 => match i {  _ => unreachable!() }, En59::V4(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum Ec0  {
V0 {   a0: u128,
   a1: String },
V1 (   [u8; 3],
   i8 ),
V2 ,
}
impl Lay for Ec0 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Ec0", full: "Ec0", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 's', fields: &[LF { name: "a0", shape: || <u128 as Facet>::SHAPE, id: ConstTypeId::of::<u128>(), layout: Layout::new::<u128>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <i8 as Facet>::SHAPE, id: ConstTypeId::of::<i8>(), layout: Layout::new::<i8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Ec0::V0 { .. } => 0, Ec0::V1(..) => 1, Ec0::V2 => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Ec0::V0 { a0: <u128 as Arb>::arb(r), a1: <String as Arb>::arb(r) }, 1 => Ec0::V1(<[u8; 3] as Arb>::arb(r), <i8 as Arb>::arb(r)), _ => Ec0::V2, } }
fn addrs(&self) -> Vec<usize> { match self { Ec0::V0 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], Ec0::V1(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], Ec0::V2 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Ec0::V0 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], Ec0::V1(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], Ec0::V2 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Ec0::V0 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, Ec0::V1(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, Ec0::V2 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum Ec1  {
V0 (   InnerE,
   NonZero<u32>,
   NonZero<u32>,
   NonZero<u32> ),
}
impl Lay for Ec1 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Ec1", full: "Ec1", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <InnerE as Facet>::SHAPE, id: ConstTypeId::of::<InnerE>(), layout: Layout::new::<InnerE>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "3", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Ec1::V0(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => Ec1::V0(<InnerE as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r), <NonZero<u32> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Ec1::V0(x0, x1, x2, x3) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Ec1::V0(x0, x1, x2, x3) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Ec1::V0(x0, x1, x2, x3) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum Ec2  {
V0 (   Vec<Option<Vec<String>>>,
   u16 ),
V1 (   u16,
   BTreeMap<String, Vec<Option<u8>>>,
   Gen<u8, String> ),
}
impl Lay for Ec2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Ec2", full: "Ec2", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <Gen<u8, String> as Facet>::SHAPE, id: ConstTypeId::of::<Gen<u8, String>>(), layout: Layout::new::<Gen<u8, String>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Ec2::V0(..) => 0, Ec2::V1(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Ec2::V0(<Vec<Option<Vec<String>>> as Arb>::arb(r), <u16 as Arb>::arb(r)), _ => Ec2::V1(<u16 as Arb>::arb(r), <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), <Gen<u8, String> as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { Ec2::V0(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], Ec2::V1(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Ec2::V0(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], Ec2::V1(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Ec2::V0(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, Ec2::V1(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum Ec3  {
V0 (   Arc<u32> ),
V1 {   a0: Al16,
   a1: NonZero<u32> },
V2 ,
V3 {   a0: BTreeMap<String, Vec<Option<u8>>>,
   a1: (u8, u32),
   a2: i64,
   a3: Vec<Option<Vec<String>>> },
V4 (   HashMap<String, u32>,
   i64 ),
V5 ,
}
impl Lay for Ec3 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Ec3", full: "Ec3", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Arc<u32> as Facet>::SHAPE, id: ConstTypeId::of::<Arc<u32>>(), layout: Layout::new::<Arc<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 's', fields: &[LF { name: "a0", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <NonZero<u32> as Facet>::SHAPE, id: ConstTypeId::of::<NonZero<u32>>(), layout: Layout::new::<NonZero<u32>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "V3", disc: 3, kind: 's', fields: &[LF { name: "a0", shape: || <BTreeMap<String, Vec<Option<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<BTreeMap<String, Vec<Option<u8>>>>(), layout: Layout::new::<BTreeMap<String, Vec<Option<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a1", shape: || <(u8, u32) as Facet>::SHAPE, id: ConstTypeId::of::<(u8, u32)>(), layout: Layout::new::<(u8, u32)>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a2", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "a3", shape: || <Vec<Option<Vec<String>>> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Option<Vec<String>>>>(), layout: Layout::new::<Vec<Option<Vec<String>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <HashMap<String, u32> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, u32>>(), layout: Layout::new::<HashMap<String, u32>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <i64 as Facet>::SHAPE, id: ConstTypeId::of::<i64>(), layout: Layout::new::<i64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V5", disc: 5, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Ec3::V0(..) => 0, Ec3::V1 { .. } => 1, Ec3::V2 => 2, Ec3::V3 { .. } => 3, Ec3::V4(..) => 4, Ec3::V5 => 5, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Ec3::V0(<Arc<u32> as Arb>::arb(r)), 1 => Ec3::V1 { a0: <Al16 as Arb>::arb(r), a1: <NonZero<u32> as Arb>::arb(r) }, 2 => Ec3::V2, 3 => Ec3::V3 { a0: <BTreeMap<String, Vec<Option<u8>>> as Arb>::arb(r), a1: <(u8, u32) as Arb>::arb(r), a2: <i64 as Arb>::arb(r), a3: <Vec<Option<Vec<String>>> as Arb>::arb(r) }, 4 => Ec3::V4(<HashMap<String, u32> as Arb>::arb(r), <i64 as Arb>::arb(r)), _ => Ec3::V5, } }
fn addrs(&self) -> Vec<usize> { match self { Ec3::V0(x0) => vec![x0 as *const _ as usize], Ec3::V1 { a0: x0, a1: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], Ec3::V2 => vec![], Ec3::V3 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], Ec3::V4(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], Ec3::V5 => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Ec3::V0(x0) => vec![same(x0, &p[0])], Ec3::V1 { a0: x0, a1: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], Ec3::V2 => vec![], Ec3::V3 { a0: x0, a1: x1, a2: x2, a3: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], Ec3::V4(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], Ec3::V5 => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Ec3::V0(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, Ec3::V1 { a0: x0, a1: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, Ec3::V2 => match i {  _ => unreachable!() }, Ec3::V3 { a0: x0, a1: x1, a2: x2, a3: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, Ec3::V4(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, Ec3::V5 => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum EcU  {
A ,
B ,
D ,
}
impl Lay for EcU {
fn desc() -> &'static LD { const D: &LD = &LD { name: "EcU", full: "EcU", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "D", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { EcU::A => 0, EcU::B => 1, EcU::D => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => EcU::A, 1 => EcU::B, _ => EcU::D, } }
fn addrs(&self) -> Vec<usize> { match self { EcU::A => vec![], EcU::B => vec![], EcU::D => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { EcU::A => vec![], EcU::B => vec![], EcU::D => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { EcU::A => match i {  _ => unreachable!() }, EcU::B => match i {  _ => unreachable!() }, EcU::D => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum EcD  {
A  = 5,
B ,
D  = 100000,
}
impl Lay for EcD {
fn desc() -> &'static LD { const D: &LD = &LD { name: "EcD", full: "EcD", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 5, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 6, kind: 'u', fields: &[], doc: &[] }, LV { name: "D", disc: 100000, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { EcD::A => 0, EcD::B => 1, EcD::D => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => EcD::A, 1 => EcD::B, _ => EcD::D, } }
fn addrs(&self) -> Vec<usize> { match self { EcD::A => vec![], EcD::B => vec![], EcD::D => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { EcD::A => vec![], EcD::B => vec![], EcD::D => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { EcD::A => match i {  _ => unreachable!() }, EcD::B => match i {  _ => unreachable!() }, EcD::D => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum Desc  {
A  = 9,
B  = 3,
C ,
D  = 0,
}
impl Lay for Desc {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Desc", full: "Desc", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 9, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 3, kind: 'u', fields: &[], doc: &[] }, LV { name: "C", disc: 4, kind: 'u', fields: &[], doc: &[] }, LV { name: "D", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Desc::A => 0, Desc::B => 1, Desc::C => 2, Desc::D => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Desc::A, 1 => Desc::B, 2 => Desc::C, _ => Desc::D, } }
fn addrs(&self) -> Vec<usize> { match self { Desc::A => vec![], Desc::B => vec![], Desc::C => vec![], Desc::D => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Desc::A => vec![], Desc::B => vec![], Desc::C => vec![], Desc::D => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Desc::A => match i {  _ => unreachable!() }, Desc::B => match i {  _ => unreachable!() }, Desc::C => match i {  _ => unreachable!() }, Desc::D => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum Split  {
A (   u8,
   Al16,
   u8 ),
B {   x: Al16 },
C ,
}
impl Lay for Split {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Split", full: "Split", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "x", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Split::A(..) => 0, Split::B { .. } => 1, Split::C => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Split::A(<u8 as Arb>::arb(r), <Al16 as Arb>::arb(r), <u8 as Arb>::arb(r)), 1 => Split::B { x: <Al16 as Arb>::arb(r) }, _ => Split::C, } }
fn addrs(&self) -> Vec<usize> { match self { Split::A(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], Split::B { x: x0 } => vec![x0 as *const _ as usize], Split::C => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Split::A(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], Split::B { x: x0 } => vec![same(x0, &p[0])], Split::C => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Split::A(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, Split::B { x: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, Split::C => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
#[repr(u8)]
pub enum TwoAttr  {
A ,
B (   u64 ),
}
impl Lay for TwoAttr {
fn desc() -> &'static LD { const D: &LD = &LD { name: "TwoAttr", full: "TwoAttr", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { TwoAttr::A => 0, TwoAttr::B(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => TwoAttr::A, _ => TwoAttr::B(<u64 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { TwoAttr::A => vec![], TwoAttr::B(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { TwoAttr::A => vec![], TwoAttr::B(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { TwoAttr::A => match i {  _ => unreachable!() }, TwoAttr::B(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
#[repr(align(32))]
pub enum AlignE  {
A ,
B (   u64,
   u8 ),
}
impl Lay for AlignE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "AlignE", full: "AlignE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { AlignE::A => 0, AlignE::B(..) => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => AlignE::A, _ => AlignE::B(<u64 as Arb>::arb(r), <u8 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { AlignE::A => vec![], AlignE::B(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { AlignE::A => vec![], AlignE::B(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { AlignE::A => match i {  _ => unreachable!() }, AlignE::B(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum Neg  {
A  = 0,
B  = 200,
}
impl Lay for Neg {
fn desc() -> &'static LD { const D: &LD = &LD { name: "Neg", full: "Neg", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "B", disc: 200, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { Neg::A => 0, Neg::B => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => Neg::A, _ => Neg::B, } }
fn addrs(&self) -> Vec<usize> { match self { Neg::A => vec![], Neg::B => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { Neg::A => vec![], Neg::B => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { Neg::A => match i {  _ => unreachable!() }, Neg::B => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum OneV  {
Only (   String ),
}
impl Lay for OneV {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OneV", full: "OneV", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Only", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OneV::Only(..) => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => OneV::Only(<String as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { OneV::Only(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OneV::Only(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OneV::Only(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u16)]
pub enum OneU  {
Only ,
}
impl Lay for OneU {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OneU", full: "OneU", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Only", disc: 0, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OneU::Only => 0, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { _ => OneU::Only, } }
fn addrs(&self) -> Vec<usize> { match self { OneU::Only => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OneU::Only => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OneU::Only => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum GenE<T>  {
A (   T ),
B {   a: Vec<T>,
   b: u8 },
N ,
}
impl Lay for GenE<u64> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenE", full: "GenE<u64>", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[("T", || <u64 as Facet>::SHAPE)], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <Vec<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u64>>(), layout: Layout::new::<Vec<u64>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "N", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenE::A(..) => 0, GenE::B { .. } => 1, GenE::N => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => GenE::A(<u64 as Arb>::arb(r)), 1 => GenE::B { a: <Vec<u64> as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, _ => GenE::N, } }
fn addrs(&self) -> Vec<usize> { match self { GenE::A(x0) => vec![x0 as *const _ as usize], GenE::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], GenE::N => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenE::A(x0) => vec![same(x0, &p[0])], GenE::B { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], GenE::N => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenE::A(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, GenE::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, GenE::N => match i {  _ => unreachable!() }, } }
}
impl Lay for GenE<String> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenE", full: "GenE<String>", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[("T", || <String as Facet>::SHAPE)], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <Vec<String> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<String>>(), layout: Layout::new::<Vec<String>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "N", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenE::A(..) => 0, GenE::B { .. } => 1, GenE::N => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => GenE::A(<String as Arb>::arb(r)), 1 => GenE::B { a: <Vec<String> as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, _ => GenE::N, } }
fn addrs(&self) -> Vec<usize> { match self { GenE::A(x0) => vec![x0 as *const _ as usize], GenE::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], GenE::N => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenE::A(x0) => vec![same(x0, &p[0])], GenE::B { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], GenE::N => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenE::A(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, GenE::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, GenE::N => match i {  _ => unreachable!() }, } }
}
impl Lay for GenE<Al16> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenE", full: "GenE<Al16>", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[("T", || <Al16 as Facet>::SHAPE)], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <Al16 as Facet>::SHAPE, id: ConstTypeId::of::<Al16>(), layout: Layout::new::<Al16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <Vec<Al16> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<Al16>>(), layout: Layout::new::<Vec<Al16>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "N", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenE::A(..) => 0, GenE::B { .. } => 1, GenE::N => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => GenE::A(<Al16 as Arb>::arb(r)), 1 => GenE::B { a: <Vec<Al16> as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, _ => GenE::N, } }
fn addrs(&self) -> Vec<usize> { match self { GenE::A(x0) => vec![x0 as *const _ as usize], GenE::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], GenE::N => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenE::A(x0) => vec![same(x0, &p[0])], GenE::B { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], GenE::N => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenE::A(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, GenE::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, GenE::N => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u16)]
pub enum GenE2<T: Clone, U, const N: usize> where U: core::fmt::Debug {
A (   T,
   U ),
B {   a: [U; N],
   b: Vec<T> },
N ,
}
impl Lay for GenE2<u64, u8, 3> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "GenE2", full: "GenE2<u64, u8, 3>", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[("T", || <u64 as Facet>::SHAPE), ("U", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <[u8; 3] as Facet>::SHAPE, id: ConstTypeId::of::<[u8; 3]>(), layout: Layout::new::<[u8; 3]>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <Vec<u64> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<u64>>(), layout: Layout::new::<Vec<u64>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "N", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { GenE2::A(..) => 0, GenE2::B { .. } => 1, GenE2::N => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => GenE2::A(<u64 as Arb>::arb(r), <u8 as Arb>::arb(r)), 1 => GenE2::B { a: <[u8; 3] as Arb>::arb(r), b: <Vec<u64> as Arb>::arb(r) }, _ => GenE2::N, } }
fn addrs(&self) -> Vec<usize> { match self { GenE2::A(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], GenE2::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], GenE2::N => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { GenE2::A(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], GenE2::B { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], GenE2::N => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { GenE2::A(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, GenE2::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, GenE2::N => match i {  _ => unreachable!() }, } }
}

/// enum doc
/// l2
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum DocE  {
/// unit doc
/// two
A ,
/// tuple "doc" \ 
B ( /// field doc
  u8 ),
///nospace
C { /// a
/// b
  a: u8,
   b: u8 },
D ,
}
impl Lay for DocE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "DocE", full: "DocE", tag: Some(Tag::U8), attrs: &[], doc: &[" enum doc", " l2"], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[" unit doc", " two"] }, LV { name: "B", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[" field doc"] }], doc: &[" tuple \"doc\" \\ "] }, LV { name: "C", disc: 2, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[" a", " b"] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &["nospace"] }, LV { name: "D", disc: 3, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { DocE::A => 0, DocE::B(..) => 1, DocE::C { .. } => 2, DocE::D => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => DocE::A, 1 => DocE::B(<u8 as Arb>::arb(r)), 2 => DocE::C { a: <u8 as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, _ => DocE::D, } }
fn addrs(&self) -> Vec<usize> { match self { DocE::A => vec![], DocE::B(x0) => vec![x0 as *const _ as usize], DocE::C { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], DocE::D => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { DocE::A => vec![], DocE::B(x0) => vec![same(x0, &p[0])], DocE::C { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], DocE::D => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { DocE::A => match i {  _ => unreachable!() }, DocE::B(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, DocE::C { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, DocE::D => match i {  _ => unreachable!() }, } }
}

/// enum doc
/// l2
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u8)]
pub enum DocEc  {
/// unit doc
/// two
A ,
/// tuple
B ( /// field doc
  u8 ),
///nospace
C { /// a
/// b
  a: u8,
   b: u8 },
D ,
}
impl Lay for DocEc {
fn desc() -> &'static LD { const D: &LD = &LD { name: "DocEc", full: "DocEc", tag: Some(Tag::U8), attrs: &[], doc: &[" enum doc", " l2"], params: &[], variants: &[LV { name: "A", disc: 0, kind: 'u', fields: &[], doc: &[" unit doc", " two"] }, LV { name: "B", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[" field doc"] }], doc: &[" tuple"] }, LV { name: "C", disc: 2, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[" a", " b"] }, LF { name: "b", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &["nospace"] }, LV { name: "D", disc: 3, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { DocEc::A => 0, DocEc::B(..) => 1, DocEc::C { .. } => 2, DocEc::D => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => DocEc::A, 1 => DocEc::B(<u8 as Arb>::arb(r)), 2 => DocEc::C { a: <u8 as Arb>::arb(r), b: <u8 as Arb>::arb(r) }, _ => DocEc::D, } }
fn addrs(&self) -> Vec<usize> { match self { DocEc::A => vec![], DocEc::B(x0) => vec![x0 as *const _ as usize], DocEc::C { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], DocEc::D => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { DocEc::A => vec![], DocEc::B(x0) => vec![same(x0, &p[0])], DocEc::C { a: x0, b: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], DocEc::D => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { DocEc::A => match i {  _ => unreachable!() }, DocEc::B(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, DocEc::C { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, DocEc::D => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum AttrE  {
A (  #[facet(sensitive)]  String,
   u32 ),
B {  #[facet(sensitive)] #[facet(rename = "AA")]  a: u32,
  #[facet(default = "lay_string")]  b: String,
  #[facet(default)]  c: u8 },
C ,
}
impl Lay for AttrE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "AttrE", full: "AttrE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive, EA::Rename("AA")], doc: &[] }, LF { name: "b", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[EA::DefaultFn(|fd| default_fn_gives::<String>(fd, lay_string()))], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Default], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { AttrE::A(..) => 0, AttrE::B { .. } => 1, AttrE::C => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => AttrE::A(<String as Arb>::arb(r), <u32 as Arb>::arb(r)), 1 => AttrE::B { a: <u32 as Arb>::arb(r), b: <String as Arb>::arb(r), c: <u8 as Arb>::arb(r) }, _ => AttrE::C, } }
fn addrs(&self) -> Vec<usize> { match self { AttrE::A(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], AttrE::B { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], AttrE::C => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { AttrE::A(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], AttrE::B { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], AttrE::C => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { AttrE::A(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, AttrE::B { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, AttrE::C => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
pub enum AttrEc  {
A (  #[facet(sensitive)]  String,
   u32 ),
B {  #[facet(sensitive)] #[facet(rename = "AA")]  a: u32,
  #[facet(default = "lay_string")]  b: String,
  #[facet(default)]  c: u8 },
C ,
}
impl Lay for AttrEc {
fn desc() -> &'static LD { const D: &LD = &LD { name: "AttrEc", full: "AttrEc", tag: Some(Tag::C), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: true, attrs: &[EA::Sensitive, EA::Rename("AA")], doc: &[] }, LF { name: "b", shape: || <String as Facet>::SHAPE, id: ConstTypeId::of::<String>(), layout: Layout::new::<String>(), sensitive: false, attrs: &[EA::DefaultFn(|fd| default_fn_gives::<String>(fd, lay_string()))], doc: &[] }, LF { name: "c", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[EA::Default], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { AttrEc::A(..) => 0, AttrEc::B { .. } => 1, AttrEc::C => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => AttrEc::A(<String as Arb>::arb(r), <u32 as Arb>::arb(r)), 1 => AttrEc::B { a: <u32 as Arb>::arb(r), b: <String as Arb>::arb(r), c: <u8 as Arb>::arb(r) }, _ => AttrEc::C, } }
fn addrs(&self) -> Vec<usize> { match self { AttrEc::A(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], AttrEc::B { a: x0, b: x1, c: x2 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], AttrEc::C => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { AttrEc::A(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], AttrEc::B { a: x0, b: x1, c: x2 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], AttrEc::C => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { AttrEc::A(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, AttrEc::B { a: x0, b: x1, c: x2 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, AttrEc::C => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
#[facet(deny_unknown_fields)]
pub enum ContE  {
A {   a: u32 },
B ,
}
impl Lay for ContE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "ContE", full: "ContE", tag: Some(Tag::U8), attrs: &[CA::Deny], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { ContE::A { .. } => 0, ContE::B => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => ContE::A { a: <u32 as Arb>::arb(r) }, _ => ContE::B, } }
fn addrs(&self) -> Vec<usize> { match self { ContE::A { a: x0 } => vec![x0 as *const _ as usize], ContE::B => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { ContE::A { a: x0 } => vec![same(x0, &p[0])], ContE::B => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { ContE::A { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, ContE::B => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum OpqE  {
A (  #[facet(opaque)]  Arc<NotFacet>,
   u8 ),
B {   a: u8,
  #[facet(opaque)]  b: Arc<Vec<NotFacet>> },
C ,
}
impl Lay for OpqE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqE", full: "OpqE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<NotFacet>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<NotFacet>>>(), layout: Layout::new::<Arc<NotFacet>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<Vec<NotFacet>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<NotFacet>>>>(), layout: Layout::new::<Arc<Vec<NotFacet>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqE::A(..) => 0, OpqE::B { .. } => 1, OpqE::C => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => OpqE::A(<Arc<NotFacet> as Arb>::arb(r), <u8 as Arb>::arb(r)), 1 => OpqE::B { a: <u8 as Arb>::arb(r), b: <Arc<Vec<NotFacet>> as Arb>::arb(r) }, _ => OpqE::C, } }
fn addrs(&self) -> Vec<usize> { match self { OpqE::A(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], OpqE::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], OpqE::C => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqE::A(x0, x1) => vec![{ let _ = x0; Ok(()) }, same(x1, &p[1])], OpqE::B { a: x0, b: x1 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }], OpqE::C => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqE::A(x0, x1) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } 1 => w.put(x1.clone()), _ => unreachable!() }, OpqE::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } _ => unreachable!() }, OpqE::C => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u16)]
pub enum OpqEc  {
A (  #[facet(opaque)]  Arc<NotFacet>,
   u8 ),
B {   a: u8,
  #[facet(opaque)]  b: Arc<Vec<NotFacet>> },
C ,
}
impl Lay for OpqEc {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqEc", full: "OpqEc", tag: Some(Tag::U16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<NotFacet>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<NotFacet>>>(), layout: Layout::new::<Arc<NotFacet>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<Vec<NotFacet>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<NotFacet>>>>(), layout: Layout::new::<Arc<Vec<NotFacet>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "C", disc: 2, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqEc::A(..) => 0, OpqEc::B { .. } => 1, OpqEc::C => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => OpqEc::A(<Arc<NotFacet> as Arb>::arb(r), <u8 as Arb>::arb(r)), 1 => OpqEc::B { a: <u8 as Arb>::arb(r), b: <Arc<Vec<NotFacet>> as Arb>::arb(r) }, _ => OpqEc::C, } }
fn addrs(&self) -> Vec<usize> { match self { OpqEc::A(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], OpqEc::B { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], OpqEc::C => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqEc::A(x0, x1) => vec![{ let _ = x0; Ok(()) }, same(x1, &p[1])], OpqEc::B { a: x0, b: x1 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }], OpqEc::C => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqEc::A(x0, x1) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } 1 => w.put(x1.clone()), _ => unreachable!() }, OpqEc::B { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } _ => unreachable!() }, OpqEc::C => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum KwE  {
A {   r#type: u8,
   fields: u32,
   value: u8,
   name: u64 },
Self_ ,
r#None ,
Option (   Option<u8> ),
u8 (   u16 ),
}
impl Lay for KwE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "KwE", full: "KwE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 's', fields: &[LF { name: "type", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "fields", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "value", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "name", shape: || <u64 as Facet>::SHAPE, id: ConstTypeId::of::<u64>(), layout: Layout::new::<u64>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "Self_", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "None", disc: 2, kind: 'u', fields: &[], doc: &[] }, LV { name: "Option", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <Option<u8> as Facet>::SHAPE, id: ConstTypeId::of::<Option<u8>>(), layout: Layout::new::<Option<u8>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "u8", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { KwE::A { .. } => 0, KwE::Self_ => 1, KwE::r#None => 2, KwE::Option(..) => 3, KwE::u8(..) => 4, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => KwE::A { r#type: <u8 as Arb>::arb(r), fields: <u32 as Arb>::arb(r), value: <u8 as Arb>::arb(r), name: <u64 as Arb>::arb(r) }, 1 => KwE::Self_, 2 => KwE::r#None, 3 => KwE::Option(<Option<u8> as Arb>::arb(r)), _ => KwE::u8(<u16 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { KwE::A { r#type: x0, fields: x1, value: x2, name: x3 } => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize, x3 as *const _ as usize], KwE::Self_ => vec![], KwE::r#None => vec![], KwE::Option(x0) => vec![x0 as *const _ as usize], KwE::u8(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { KwE::A { r#type: x0, fields: x1, value: x2, name: x3 } => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2]), same(x3, &p[3])], KwE::Self_ => vec![], KwE::r#None => vec![], KwE::Option(x0) => vec![same(x0, &p[0])], KwE::u8(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { KwE::A { r#type: x0, fields: x1, value: x2, name: x3 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), 3 => w.put(x3.clone()), _ => unreachable!() }, KwE::Self_ => match i {  _ => unreachable!() }, KwE::r#None => match i {  _ => unreachable!() }, KwE::Option(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, KwE::u8(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum RecE  {
Leaf ,
Node (   Vec<RecE>,
   u8 ),
Kv {   m: HashMap<String, RecE> },
}
impl Lay for RecE {
fn desc() -> &'static LD { const D: &LD = &LD { name: "RecE", full: "RecE", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Leaf", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "Node", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <Vec<RecE> as Facet>::SHAPE, id: ConstTypeId::of::<Vec<RecE>>(), layout: Layout::new::<Vec<RecE>>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "Kv", disc: 2, kind: 's', fields: &[LF { name: "m", shape: || <HashMap<String, RecE> as Facet>::SHAPE, id: ConstTypeId::of::<HashMap<String, RecE>>(), layout: Layout::new::<HashMap<String, RecE>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { RecE::Leaf => 0, RecE::Node(..) => 1, RecE::Kv { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => RecE::Leaf, 1 => RecE::Node(<Vec<RecE> as Arb>::arb(r), <u8 as Arb>::arb(r)), _ => RecE::Kv { m: <HashMap<String, RecE> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { RecE::Leaf => vec![], RecE::Node(x0, x1) => vec![x0 as *const _ as usize, x1 as *const _ as usize], RecE::Kv { m: x0 } => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { RecE::Leaf => vec![], RecE::Node(x0, x1) => vec![same(x0, &p[0]), same(x1, &p[1])], RecE::Kv { m: x0 } => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { RecE::Leaf => match i {  _ => unreachable!() }, RecE::Node(x0, x1) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, RecE::Kv { m: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u8)]
pub enum OpqSelf  {
Leaf ,
Node (  #[facet(opaque)]  Arc<Vec<Self>> ),
S {   a: u8,
  #[facet(opaque)]  b: Arc<Option<Self>> },
}
impl Lay for OpqSelf {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqSelf", full: "OpqSelf", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Leaf", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "Node", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<Vec<OpqSelf>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<OpqSelf>>>>(), layout: Layout::new::<Arc<Vec<OpqSelf>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "S", disc: 2, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<Option<OpqSelf>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Option<OpqSelf>>>>(), layout: Layout::new::<Arc<Option<OpqSelf>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqSelf::Leaf => 0, OpqSelf::Node(..) => 1, OpqSelf::S { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => OpqSelf::Leaf, 1 => OpqSelf::Node(<Arc<Vec<OpqSelf>> as Arb>::arb(r)), _ => OpqSelf::S { a: <u8 as Arb>::arb(r), b: <Arc<Option<OpqSelf>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { OpqSelf::Leaf => vec![], OpqSelf::Node(x0) => vec![x0 as *const _ as usize], OpqSelf::S { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqSelf::Leaf => vec![], OpqSelf::Node(x0) => vec![{ let _ = x0; Ok(()) }], OpqSelf::S { a: x0, b: x1 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqSelf::Leaf => match i {  _ => unreachable!() }, OpqSelf::Node(x0) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } _ => unreachable!() }, OpqSelf::S { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, i16)]
pub enum OpqSelfC  {
Leaf ,
Node (  #[facet(opaque)]  Arc<Vec<Self>> ),
S {   a: u8,
  #[facet(opaque)]  b: Arc<Option<Self>> },
}
impl Lay for OpqSelfC {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqSelfC", full: "OpqSelfC", tag: Some(Tag::I16), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "Leaf", disc: 0, kind: 'u', fields: &[], doc: &[] }, LV { name: "Node", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<Vec<OpqSelfC>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<OpqSelfC>>>>(), layout: Layout::new::<Arc<Vec<OpqSelfC>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "S", disc: 2, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<Option<OpqSelfC>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Option<OpqSelfC>>>>(), layout: Layout::new::<Arc<Option<OpqSelfC>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqSelfC::Leaf => 0, OpqSelfC::Node(..) => 1, OpqSelfC::S { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => OpqSelfC::Leaf, 1 => OpqSelfC::Node(<Arc<Vec<OpqSelfC>> as Arb>::arb(r)), _ => OpqSelfC::S { a: <u8 as Arb>::arb(r), b: <Arc<Option<OpqSelfC>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { OpqSelfC::Leaf => vec![], OpqSelfC::Node(x0) => vec![x0 as *const _ as usize], OpqSelfC::S { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqSelfC::Leaf => vec![], OpqSelfC::Node(x0) => vec![{ let _ = x0; Ok(()) }], OpqSelfC::S { a: x0, b: x1 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqSelfC::Leaf => match i {  _ => unreachable!() }, OpqSelfC::Node(x0) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } _ => unreachable!() }, OpqSelfC::S { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(u32)]
pub enum OpqSelfG<T>  {
Leaf (   T ),
Node (  #[facet(opaque)]  Arc<Vec<Self>> ),
S {   a: T,
  #[facet(opaque)]  b: Arc<Vec<T>> },
}
impl Lay for OpqSelfG<u8> {
fn desc() -> &'static LD { const D: &LD = &LD { name: "OpqSelfG", full: "OpqSelfG<u8>", tag: Some(Tag::U32), attrs: &[], doc: &[], params: &[("T", || <u8 as Facet>::SHAPE)], variants: &[LV { name: "Leaf", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "Node", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <facet_core::Opaque<Arc<Vec<OpqSelfG<u8>>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<OpqSelfG<u8>>>>>(), layout: Layout::new::<Arc<Vec<OpqSelfG<u8>>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "S", disc: 2, kind: 's', fields: &[LF { name: "a", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "b", shape: || <facet_core::Opaque<Arc<Vec<u8>>> as Facet>::SHAPE, id: ConstTypeId::of::<facet_core::Opaque<Arc<Vec<u8>>>>(), layout: Layout::new::<Arc<Vec<u8>>>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { OpqSelfG::Leaf(..) => 0, OpqSelfG::Node(..) => 1, OpqSelfG::S { .. } => 2, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => OpqSelfG::Leaf(<u8 as Arb>::arb(r)), 1 => OpqSelfG::Node(<Arc<Vec<OpqSelfG<u8>>> as Arb>::arb(r)), _ => OpqSelfG::S { a: <u8 as Arb>::arb(r), b: <Arc<Vec<u8>> as Arb>::arb(r) }, } }
fn addrs(&self) -> Vec<usize> { match self { OpqSelfG::Leaf(x0) => vec![x0 as *const _ as usize], OpqSelfG::Node(x0) => vec![x0 as *const _ as usize], OpqSelfG::S { a: x0, b: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { OpqSelfG::Leaf(x0) => vec![same(x0, &p[0])], OpqSelfG::Node(x0) => vec![{ let _ = x0; Ok(()) }], OpqSelfG::S { a: x0, b: x1 } => vec![same(x0, &p[0]), { let _ = x1; Ok(()) }], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { OpqSelfG::Leaf(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, OpqSelfG::Node(x0) => match i { 0 => { let _ = x0; put_opaque(w, x0.clone()) } _ => unreachable!() }, OpqSelfG::S { a: x0, b: x1 } => match i { 0 => w.put(x0.clone()), 1 => { let _ = x1; put_opaque(w, x1.clone()) } _ => unreachable!() }, } }
}

/// docs too
#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C)]
#[facet(default)]
#[facet(deny_unknown_fields)]
pub enum ContE2  {
A {   a: u32 },
B ,
}
impl Default for ContE2 { fn default() -> Self { ContE2::B } }
impl Lay for ContE2 {
fn desc() -> &'static LD { const D: &LD = &LD { name: "ContE2", full: "ContE2", tag: Some(Tag::C), attrs: &[CA::Default, CA::Deny], doc: &[" docs too"], params: &[], variants: &[LV { name: "A", disc: 0, kind: 's', fields: &[LF { name: "a", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "B", disc: 1, kind: 'u', fields: &[], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { ContE2::A { .. } => 0, ContE2::B => 1, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => ContE2::A { a: <u32 as Arb>::arb(r) }, _ => ContE2::B, } }
fn addrs(&self) -> Vec<usize> { match self { ContE2::A { a: x0 } => vec![x0 as *const _ as usize], ContE2::B => vec![], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { ContE2::A { a: x0 } => vec![same(x0, &p[0])], ContE2::B => vec![], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { ContE2::A { a: x0 } => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, ContE2::B => match i {  _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(C, u8)]
pub enum KwEc  {
A {   r#type: u8,
   r#fn: u32 },
r#None ,
r#Some (   u16 ),
u8 (   u16 ),
}
impl Lay for KwEc {
fn desc() -> &'static LD { const D: &LD = &LD { name: "KwEc", full: "KwEc", tag: Some(Tag::U8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "A", disc: 0, kind: 's', fields: &[LF { name: "type", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "fn", shape: || <u32 as Facet>::SHAPE, id: ConstTypeId::of::<u32>(), layout: Layout::new::<u32>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "None", disc: 1, kind: 'u', fields: &[], doc: &[] }, LV { name: "Some", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "u8", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <u16 as Facet>::SHAPE, id: ConstTypeId::of::<u16>(), layout: Layout::new::<u16>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { KwEc::A { .. } => 0, KwEc::r#None => 1, KwEc::r#Some(..) => 2, KwEc::u8(..) => 3, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => KwEc::A { r#type: <u8 as Arb>::arb(r), r#fn: <u32 as Arb>::arb(r) }, 1 => KwEc::r#None, 2 => KwEc::r#Some(<u16 as Arb>::arb(r)), _ => KwEc::u8(<u16 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { KwEc::A { r#type: x0, r#fn: x1 } => vec![x0 as *const _ as usize, x1 as *const _ as usize], KwEc::r#None => vec![], KwEc::r#Some(x0) => vec![x0 as *const _ as usize], KwEc::u8(x0) => vec![x0 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { KwEc::A { r#type: x0, r#fn: x1 } => vec![same(x0, &p[0]), same(x1, &p[1])], KwEc::r#None => vec![], KwEc::r#Some(x0) => vec![same(x0, &p[0])], KwEc::u8(x0) => vec![same(x0, &p[0])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { KwEc::A { r#type: x0, r#fn: x1 } => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), _ => unreachable!() }, KwEc::r#None => match i {  _ => unreachable!() }, KwEc::r#Some(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, KwEc::u8(x0) => match i { 0 => w.put(x0.clone()), _ => unreachable!() }, } }
}

#[derive(Facet, Debug, PartialEq, Clone)]
#[repr(i8)]
pub enum SensAll  {
V0 (   u8,
   u8,
   u8 ),
V1 (  #[facet(sensitive)]  u8,
   u8,
   u8 ),
V2 (   u8,
  #[facet(sensitive)]  u8,
   u8 ),
V3 (  #[facet(sensitive)]  u8,
  #[facet(sensitive)]  u8,
   u8 ),
V4 (   u8,
   u8,
  #[facet(sensitive)]  u8 ),
V5 (  #[facet(sensitive)]  u8,
   u8,
  #[facet(sensitive)]  u8 ),
V6 (   u8,
  #[facet(sensitive)]  u8,
  #[facet(sensitive)]  u8 ),
V7 (  #[facet(sensitive)]  u8,
  #[facet(sensitive)]  u8,
  #[facet(sensitive)]  u8 ),
}
impl Lay for SensAll {
fn desc() -> &'static LD { const D: &LD = &LD { name: "SensAll", full: "SensAll", tag: Some(Tag::I8), attrs: &[], doc: &[], params: &[], variants: &[LV { name: "V0", disc: 0, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V1", disc: 1, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V2", disc: 2, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V3", disc: 3, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }], doc: &[] }, LV { name: "V4", disc: 4, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }], doc: &[] }, LV { name: "V5", disc: 5, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }], doc: &[] }, LV { name: "V6", disc: 6, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: false, attrs: &[], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }], doc: &[] }, LV { name: "V7", disc: 7, kind: 't', fields: &[LF { name: "0", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "1", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }, LF { name: "2", shape: || <u8 as Facet>::SHAPE, id: ConstTypeId::of::<u8>(), layout: Layout::new::<u8>(), sensitive: true, attrs: &[EA::Sensitive], doc: &[] }], doc: &[] }] }; D }
fn variant(&self) -> usize { match self { SensAll::V0(..) => 0, SensAll::V1(..) => 1, SensAll::V2(..) => 2, SensAll::V3(..) => 3, SensAll::V4(..) => 4, SensAll::V5(..) => 5, SensAll::V6(..) => 6, SensAll::V7(..) => 7, } }
fn make(i: usize, r: &mut Rng) -> Self { let _ = &r; match i { 0 => SensAll::V0(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 1 => SensAll::V1(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 2 => SensAll::V2(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 3 => SensAll::V3(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 4 => SensAll::V4(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 5 => SensAll::V5(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), 6 => SensAll::V6(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), _ => SensAll::V7(<u8 as Arb>::arb(r), <u8 as Arb>::arb(r), <u8 as Arb>::arb(r)), } }
fn addrs(&self) -> Vec<usize> { match self { SensAll::V0(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V1(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V2(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V3(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V4(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V5(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V6(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], SensAll::V7(x0, x1, x2) => vec![x0 as *const _ as usize, x1 as *const _ as usize, x2 as *const _ as usize], } }
fn agree(&self, p: &[Peek<'_>]) -> Vec<Result<(), String>> { let _ = &p; match self { SensAll::V0(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V1(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V2(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V3(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V4(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V5(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V6(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], SensAll::V7(x0, x1, x2) => vec![same(x0, &p[0]), same(x1, &p[1]), same(x2, &p[2])], } }
fn put(&self, w: Wip<'static>, i: usize) -> Result<Wip<'static>, ReflectError> { let _ = (&i, &w); match self { SensAll::V0(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V1(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V2(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V3(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V4(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V5(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V6(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, SensAll::V7(x0, x1, x2) => match i { 0 => w.put(x0.clone()), 1 => w.put(x1.clone()), 2 => w.put(x2.clone()), _ => unreachable!() }, } }
}

pub fn all() -> Vec<Entry> { vec![entry::<Al16>(), entry::<Zst>(), entry::<Zst8>(), entry::<Inner>(), entry::<InnerE>(), entry::<Gen<u8, String>>(), entry::<Gen<String, u8>>(), entry::<Gen<(), Zst>>(), entry::<Gen<Al16, u8>>(), entry::<Gen<u8, Vec<u32>>>(), entry::<Gen<u32, u8>>(), entry::<St0>(), entry::<St1>(), entry::<St2>(), entry::<St3>(), entry::<St4>(), entry::<St5>(), entry::<St6>(), entry::<St7>(), entry::<St8>(), entry::<St9>(), entry::<St10>(), entry::<St11>(), entry::<St12>(), entry::<St13>(), entry::<St14>(), entry::<St15>(), entry::<Tp0>(), entry::<Tp1>(), entry::<Tp2>(), entry::<Tp3>(), entry::<Tp4>(), entry::<Tp5>(), entry::<Tp6>(), entry::<Tp7>(), entry::<Big>(), entry::<Long>(), entry::<One>(), entry::<OneZ>(), entry::<PackedBytes>(), entry::<PackedTwo>(), entry::<PackedTwoR>(), entry::<Unit1>(), entry::<Brace0>(), entry::<Order>(), entry::<OrderC>(), entry::<SameTypes>(), entry::<Hygiene>(), entry::<Keywords>(), entry::<Unicode>(), entry::<Opq>(), entry::<OpqT>(), entry::<Lt>(), entry::<Docs>(), entry::<DocsT>(), entry::<DocsU>(), entry::<Attrs>(), entry::<AttrsT>(), entry::<Cont1>(), entry::<Cont2>(), entry::<Cont3>(), entry::<Cont4>(), entry::<InvS>(), entry::<Comb>(), entry::<CombC>(), entry::<GenB<u64>>(), entry::<GenB<bool>>(), entry::<GenW<u16>>(), entry::<GenW<Inner>>(), entry::<GenC<3>>(), entry::<GenC<8>>(), entry::<GenD<u8>>(), entry::<GenD<Al16>>(), entry::<GenNest<u8, u32>>(), entry::<GenLt<u16, 2>>(), entry::<Rec>(), entry::<RecSelf>(), entry::<En0>(), entry::<En1>(), entry::<En2>(), entry::<En3>(), entry::<En4>(), entry::<En5>(), entry::<En6>(), entry::<En7>(), entry::<En8>(), entry::<En9>(), entry::<En10>(), entry::<En11>(), entry::<En12>(), entry::<En13>(), entry::<En14>(), entry::<En15>(), entry::<En16>(), entry::<En17>(), entry::<En18>(), entry::<En19>(), entry::<En20>(), entry::<En21>(), entry::<En22>(), entry::<En23>(), entry::<En24>(), entry::<En25>(), entry::<En26>(), entry::<En27>(), entry::<En28>(), entry::<En29>(), entry::<En30>(), entry::<En31>(), entry::<En32>(), entry::<En33>(), entry::<En34>(), entry::<En35>(), entry::<En36>(), entry::<En37>(), entry::<En38>(), entry::<En39>(), entry::<En40>(), entry::<En41>(), entry::<En42>(), entry::<En43>(), entry::<En44>(), entry::<En45>(), entry::<En46>(), entry::<En47>(), entry::<En48>(), entry::<En49>(), entry::<En50>(), entry::<En51>(), entry::<En52>(), entry::<En53>(), entry::<En54>(), entry::<En55>(), entry::<En56>(), entry::<En57>(), entry::<En58>(), entry::<En59>(), entry::<Ec0>(), entry::<Ec1>(), entry::<Ec2>(), entry::<Ec3>(), entry::<EcU>(), entry::<EcD>(), entry::<Desc>(), entry::<Split>(), entry::<TwoAttr>(), entry::<AlignE>(), entry::<Neg>(), entry::<OneV>(), entry::<OneU>(), entry::<GenE<u64>>(), entry::<GenE<String>>(), entry::<GenE<Al16>>(), entry::<GenE2<u64, u8, 3>>(), entry::<DocE>(), entry::<DocEc>(), entry::<AttrE>(), entry::<AttrEc>(), entry::<ContE>(), entry::<OpqE>(), entry::<OpqEc>(), entry::<KwE>(), entry::<RecE>(), entry::<OpqSelf>(), entry::<OpqSelfC>(), entry::<OpqSelfG<u8>>(), entry::<ContE2>(), entry::<KwEc>(), entry::<SensAll>()] }
