//! a tree of unshareable values cannot be shared between threads
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn sync<T: Sync>() {}
pub fn f() {
    sync::<<Marker32 as VebTreeMarker<u32, u8>>::Tree>();
    sync::<<Marker32 as VebTreeMarker<u32, std::cell::Cell<u8>>>::Tree>(); //~ ERROR
}
