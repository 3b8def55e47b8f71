//! Shapes named in this crate, to be compared with the shapes of the same types named in another.
use facet_core::{Facet, Shape};
#[macro_export]
macro_rules! far_shapes {
    () => {{
        fn s<T: facet_core::Facet>() -> &'static facet_core::Shape {
            T::SHAPE
        }
        use std::sync::{Arc, Weak};
        use std::collections::{BTreeMap, HashMap};
        vec![
            s::<u8>(), s::<f64>(), s::<bool>(), s::<char>(), s::<()>(), s::<String>(), s::<&'static str>(), s::<std::num::NonZero<u32>>(), s::<std::path::PathBuf>(), s::<std::net::SocketAddr>(),
            s::<std::marker::PhantomData<u8>>(), s::<Vec<u8>>(), s::<Vec<Vec<String>>>(), s::<Option<u8>>(), s::<Option<Vec<u16>>>(), s::<[u8; 3]>(), s::<[String; 2]>(), s::<&'static [u8]>(), s::<&'static [String]>(),
            s::<(u8,)>(), s::<(u8, String)>(), s::<(u8, String, Vec<u8>)>(), s::<BTreeMap<u8, String>>(), s::<BTreeMap<String, Vec<u8>>>(), s::<HashMap<u8, String>>(), s::<HashMap<String, Option<u8>>>(),
            s::<Arc<u8>>(), s::<Arc<Vec<String>>>(), s::<Weak<u8>>(), s::<std::ptr::NonNull<u8>>(), s::<$crate::far::Both<u8, String>>(), s::<$crate::far::Both<Vec<u8>, Option<String>>>(), s::<$crate::far::Kinds>(),
        ]
    }};
}
#[derive(facet::Facet, Debug, Clone, PartialEq)]
pub struct Both<X: Facet, Y: Facet> {
    pub x: X,
    pub y: Vec<Y>,
}
#[derive(facet::Facet, Debug, Clone, PartialEq)]
#[repr(u8)]
pub enum Kinds {
    A,
    B(Vec<u8>),
    C { m: std::collections::BTreeMap<u8, String> },
}
pub fn shapes() -> Vec<&'static Shape> {
    far_shapes!()
}
