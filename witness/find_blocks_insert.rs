//! the result of find cannot be kept across an insertion
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &mut T) {
    let r = t.find(7u32);
    t.insert(7, String::new()); //~ ERROR
    drop(r);
}
