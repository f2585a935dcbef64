//! mutable lookups hand out a writable value
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &mut T) {
    t.min_val_mut().1.clear();
    t.max_val_mut().1.clear();
    if let Some((_, v)) = t.find_mut(3u32) { v.clear() }
    if let Some((_, v)) = t.predecessor_mut(3u32) { v.clear() }
    if let Some((_, v)) = t.successor_mut(3u32) { v.clear() }
}
