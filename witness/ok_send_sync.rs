//! trees, sets and iterators of plain data are Send and Sync
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn both<T: Send + Sync>() {}
pub fn f() {
    both::<<Marker8 as VebTreeMarker<u8, u8>>::Tree>();
    both::<<Marker16 as VebTreeMarker<u16, u8>>::Tree>();
    both::<<Marker32 as VebTreeMarker<u32, u8>>::Tree>();
    both::<<Marker64 as VebTreeMarker<u64, u8>>::Tree>();
    both::<ByteSet>();
    both::<SizedVebTree<ByteSet>>();
    both::<Iter<'static, ByteSet>>();
    both::<MaybeBorrowed<'static, u64>>();
}
