//! a U2 outside 0..4 cannot be forged
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f() {
    let _ok = U2::from(200u8);
    let _bad = U2(200); //~ ERROR
}
