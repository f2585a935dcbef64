//! a set of bytes holds no values
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f(t: &mut ByteSet) {
    t.insert(1, ());
    t.insert(1, 5u8); //~ ERROR
}
