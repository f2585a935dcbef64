//! predecessor_mut needs exclusive access to the tree
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &mut T) { g(t) }
pub fn g<T: VebTree<Key = u32, Value = String>>(t: &T) {
    t.predecessor_mut(7u32); //~ ERROR
}
