//! values need no trait at all
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub struct Opaque(core::cell::RefCell<&'static str>);
pub fn f() {
    let mut t = <<Marker64 as VebTreeMarker<u64, Opaque>>::Tree>::from_monad(1, Opaque(core::cell::RefCell::new("a")));
    t.insert(2, Opaque(core::cell::RefCell::new("b")));
    let (t, _) = t.remove_min();
    let _ = t.map(|t| t.remove(2u64).is_ok());
}
