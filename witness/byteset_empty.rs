//! an empty ByteSet cannot be constructed
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f() {
    let _ok = ByteSet::from_monad(3, ());
    let _bad = ByteSet([0; 2], ()); //~ ERROR
}
