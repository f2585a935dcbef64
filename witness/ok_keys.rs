//! every documented key width composes, with and without boxing
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

use veb_tree::tree::Tree;
fn tree<M: VebTreeMarker<K, V>, K, V>() where M::Tree: VebTree<Key = K, Value = V> {}
pub fn f() {
    tree::<Marker8, u8, u8>();
    tree::<Marker16, u16, u8>();
    tree::<Marker32, u32, u8>();
    tree::<Marker64, u64, u8>();
    tree::<Marker16, i16, u8>();
    tree::<Marker32, i32, u8>();
    tree::<Marker64, i64, u8>();
}
