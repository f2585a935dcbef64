//! the bits of a ByteSet cannot be edited
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f(s: &mut ByteSet) {
    s.insert(1, ());
    s.0 = [0; 2]; //~ ERROR
}
