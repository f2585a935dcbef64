//! a byte cannot be cleared in place, which could leave an empty set
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::bitset::{ByteMap, ByteSet};

pub fn f(s: &mut ByteSet) {
    s.insert(1, ());
    s.unset_bit(1); //~ ERROR
}
