//! an iterator over unshareable values cannot be sent to another thread
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

fn send<T: Send>() {}
type T<V> = <Marker32 as VebTreeMarker<u32, V>>::Tree;
pub fn f() {
    send::<Iter<'static, T<u8>>>();
    send::<Iter<'static, T<std::cell::Cell<u8>>>>(); //~ ERROR
}
