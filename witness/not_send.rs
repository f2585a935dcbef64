//! a tree of thread-bound values cannot be sent to another thread
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn send<T: Send>() {}
pub fn f() {
    send::<<Marker32 as VebTreeMarker<u32, u8>>::Tree>();
    send::<<Marker32 as VebTreeMarker<u32, std::rc::Rc<u8>>>::Tree>(); //~ ERROR
}
