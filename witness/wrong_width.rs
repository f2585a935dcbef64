//! the 32-bit tree does not accept 64-bit keys
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f(t: &mut <Marker32 as VebTreeMarker<u32, u8>>::Tree) {
    t.insert(1u32, 1);
    t.insert(1u64, 1); //~ ERROR
}
