//! items live as long as the tree, not as the iterator
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &T) -> Vec<&String> {
    let v: Vec<_> = Iter::from(t).collect();
    v.into_iter().map(|(_, v)| v).collect()
}
pub fn g<'a, T: VebTree<Key = u32, Value = String>>(t: &'a T) -> Option<&'a String> {
    let k = 7u32;
    t.find(&k).map(|(_, v)| v)
}
