//! a key handed back cannot be turned into a mutable reference
#![allow(unused)]
use veb_tree::{Iter, SizedVebTree, VebTree};
use veb_tree::key::MaybeBorrowed;

pub fn f(k: &mut MaybeBorrowed<'static, u32>) {
    let r: &u32 = k;
    let m: &mut u32 = k; //~ ERROR
}
