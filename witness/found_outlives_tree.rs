//! a found entry cannot outlive the tree
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: T) {
    let r = t.find(7u32);
    drop(t); //~ ERROR
    drop(r);
}
