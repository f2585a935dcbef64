//! the tree cannot change while an iterator is alive
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::markers::*;
use veb_tree::tree::VebTreeMarker;
use veb_tree::bitset::{ByteMap, ByteSet};
use veb_tree::key::{MaybeBorrowed, U2, U4};

pub fn f<T: VebTree<Key = u32, Value = String>>(t: &mut T) where for<'a> &'a T: Copy {
    let mut i = Iter::from(&*t);
    t.insert(7, String::new()); //~ ERROR
    i.next();
}
