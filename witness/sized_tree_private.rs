//! the tree inside a sized tree cannot be changed behind its count
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f(s: &mut SizedVebTree<ByteSet>) {
    s.insert(1, ());
    s.tree.insert(2, ()); //~ ERROR
}
