//! several lookups can be alive at once
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &T) -> (usize, bool) {
    let a = t.min_val();
    let b = t.max_val();
    let c = t.find(3u32);
    let d = t.predecessor(3u32);
    let e = Iter::from(t);
    (a.1.len() + b.1.len(), c.is_some() && d.is_some() && e.count() > 0)
}
