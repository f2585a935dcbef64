//! a stored key cannot be overwritten through a mutable lookup
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &mut T) {
    let (k, v) = t.min_val_mut();
    let k: &u32 = &k;
    *k = 3; //~ ERROR
    v.clear();
}
