//! there is no default (empty) sized tree
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn need<T: Default>() {}
pub fn f() {
    need::<u8>();
    need::<SizedVebTree<ByteSet>>(); //~ ERROR
}
