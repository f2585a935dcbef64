//! into_monad consumes the tree: the old handle is unusable
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: T) {
    let r = t.into_monad();
    t.min_val(); //~ ERROR
    drop(r);
}
