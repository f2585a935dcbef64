//! only a counted tree gives an exact iterator length
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn exact<I: ExactSizeIterator>() {}
pub fn f() {
    exact::<Iter<'static, SizedVebTree<ByteSet>>>();
    exact::<Iter<'static, <Marker32 as VebTreeMarker<u32, u8>>::Tree>>(); //~ ERROR
}
