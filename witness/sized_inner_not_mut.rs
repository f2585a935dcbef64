//! the tree inside a counted wrapper cannot be changed past the count
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::bitset::{ByteMap, ByteSet};

pub fn f(s: &mut SizedVebTree<ByteSet>) {
    s.insert(1, ());
    let t: &mut ByteSet = s; //~ ERROR
}
