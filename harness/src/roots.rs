//! One function per public operation and instantiation.
use crate::abs::*;
use alloc::boxed::Box;
use alloc::collections::{BTreeMap, VecDeque};
use core::cmp::Ordering;
use core::num::NonZeroUsize;
use generic_array::GenericArray;
use hashbrown::HashMap;
use veb_tree::bitset::{ByteMap, ByteSet, List, TreeList};
use veb_tree::collection::array::ArrayTreeCollection;
use veb_tree::collection::TreeCollection;
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef, U2, U4};
use veb_tree::tree::Tree;
use veb_tree::{Iter, SizedVebTree, VebTree};

pub type T = Tree<AKey, AVal, ASumMarker, ACollMarker>;

macro_rules! veb_roots {
    ($m:ident, $t:ty, $k:ty, $v:ty) => {
        pub mod $m {
            use super::*;
            type X = $t;
            pub fn from_monad(k: $k, v: $v) -> X { <X as VebTree>::from_monad(k, v) }
            pub fn is_monad(t: &X) -> bool { VebTree::is_monad(t) }
            pub fn len_hint(t: &X) -> (usize, Option<usize>) { VebTree::len_hint(t) }
            pub fn into_monad(t: X) -> Result<($k, $v), X> { VebTree::into_monad(t) }
            pub fn min_val(t: &X) -> (MaybeBorrowed<'_, $k>, &$v) { VebTree::min_val(t) }
            pub fn max_val(t: &X) -> (MaybeBorrowed<'_, $k>, &$v) { VebTree::max_val(t) }
            pub fn min_val_mut(t: &mut X) -> (MaybeBorrowed<'_, $k>, &mut $v) { VebTree::min_val_mut(t) }
            pub fn max_val_mut(t: &mut X) -> (MaybeBorrowed<'_, $k>, &mut $v) { VebTree::max_val_mut(t) }
            pub fn find<'a>(t: &'a X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a $v)> { VebTree::find(t, k) }
            pub fn find_mut<'a>(t: &'a mut X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a mut $v)> { VebTree::find_mut(t, k) }
            pub fn predecessor<'a>(t: &'a X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a $v)> { VebTree::predecessor(t, k) }
            pub fn predecessor_mut<'a>(t: &'a mut X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a mut $v)> { VebTree::predecessor_mut(t, k) }
            pub fn successor<'a>(t: &'a X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a $v)> { VebTree::successor(t, k) }
            pub fn successor_mut<'a>(t: &'a mut X, k: &$k) -> Option<(MaybeBorrowed<'a, $k>, &'a mut $v)> { VebTree::successor_mut(t, k) }
            pub fn insert(t: &mut X, k: $k, v: $v) -> Option<($k, $v)> { VebTree::insert(t, k, v) }
            pub fn remove(t: X, k: &$k) -> Result<(Option<X>, ($k, $v)), X> { VebTree::remove(t, k) }
            pub fn remove_min(t: X) -> (Option<X>, ($k, $v)) { VebTree::remove_min(t) }
            pub fn remove_max(t: X) -> (Option<X>, ($k, $v)) { VebTree::remove_max(t) }
        }
    };
}
veb_roots!(tree, T, AKey, AVal);
veb_roots!(byteset, ByteSet, u8, ());
veb_roots!(bytemap, ByteMap<AList>, u8, AVal);
veb_roots!(sized, SizedVebTree<ATree>, AKey, AVal);
veb_roots!(boxed, Box<ATree>, AKey, AVal);
veb_roots!(btree, BTreeMap<AKey, AVal>, AKey, AVal);

pub fn sized_len(t: &SizedVebTree<ATree>) -> NonZeroUsize { t.len() }
pub fn byteset_len(t: &ByteSet) -> NonZeroUsize { t.len() }
pub fn byteset_lowest(t: &ByteSet) -> u8 { t.lowest() }
pub fn byteset_highest(t: &ByteSet) -> u8 { t.highest() }
pub fn byteset_clone(t: &ByteSet) -> ByteSet { t.clone() }
pub fn byteset_eq(t: &ByteSet, o: &ByteSet) -> bool { t == o }
pub fn byteset_clone_from(t: &mut ByteSet, o: &ByteSet) { t.clone_from(o) }
pub fn byteset_ne(t: &ByteSet, o: &ByteSet) -> bool { t != o }
pub fn tree_clone(t: &T) -> T { t.clone() }
pub fn tree_clone_from(t: &mut T, o: &T) { t.clone_from(o) }

macro_rules! coll_roots {
    ($m:ident, $t:ty, $h:ty, $tree:ty) => {
        pub mod $m {
            use super::*;
            type X = $t;
            pub fn create(h: &$h, t: $tree) -> X { <X as TreeCollection>::create(h, t) }
            pub fn get<'a>(c: &'a X, h: &$h) -> Option<&'a $tree> { TreeCollection::get(c, h) }
            pub fn get_mut<'a>(c: &'a mut X, h: &$h) -> Option<&'a mut $tree> { TreeCollection::get_mut(c, h) }
            pub fn insert_key(c: &mut X, h: $h, kv: (ALo, AVal)) -> Result<$h, ($h, Option<(ALo, AVal)>)> { TreeCollection::insert_key(c, h, kv) }
            pub fn remove_key(c: X, h: &$h) -> (Option<(X, bool)>, (ALo, AVal)) { TreeCollection::remove_key(c, h, removal) }
            pub fn maybe_remove_key(c: X, h: &$h) -> Result<(Option<(X, bool)>, (ALo, AVal)), X> { TreeCollection::maybe_remove_key(c, h, maybe_removal) }
        }
    };
}
coll_roots!(coll_boxed, Box<AColl>, AHi, AChild);
coll_roots!(coll_array, ArrayTreeCollection<AIdx, Box<[Option<AChild>]>>, AIdx, AChild);
coll_roots!(coll_garray, ArrayTreeCollection<AIdx, GenericArray<Option<AChild>, typenum::U4294967296>>, AIdx, AChild);
coll_roots!(coll_hash, HashMap<AHi, AChild, AHash>, AHi, AChild);
coll_roots!(coll_byte, ByteMap<ATreeList>, u8, AChild);

pub mod list_tree {
    use super::*;
    type X = VecDeque<AChild>;
    pub fn from_monad(v: AChild) -> X { <X as TreeList>::from_monad(v) }
    pub fn len(l: &X) -> NonZeroUsize { TreeList::len(l) }
    pub fn get(l: &X, i: usize) -> &AChild { TreeList::get(l, i) }
    pub fn get_mut(l: &mut X, i: usize) -> &mut AChild { TreeList::get_mut(l, i) }
    pub fn insert_tree(l: &mut X, i: usize, v: AChild) { TreeList::insert_tree(l, i, v) }
    pub fn remove_key(l: X, i: usize) -> (Option<(X, bool)>, (ALo, AVal)) { TreeList::remove_key(l, i, removal) }
    pub fn maybe_remove_key(l: X, i: usize) -> Result<(Option<(X, bool)>, (ALo, AVal)), X> { TreeList::maybe_remove_key(l, i, maybe_removal) }
}
pub mod list_val {
    use super::*;
    type X = VecDeque<AVal>;
    pub fn from_monad(v: AVal) -> X { <X as List>::from_monad(v) }
    pub fn len(l: &X) -> usize { List::len(l) }
    pub fn is_empty(l: &X) -> bool { List::is_empty(l) }
    pub fn get(l: &X, i: usize) -> &AVal { List::get(l, i) }
    pub fn get_mut(l: &mut X, i: usize) -> &mut AVal { List::get_mut(l, i) }
    pub fn insert_value(l: &mut X, i: usize, v: AVal) { List::insert_value(l, i, v) }
    pub fn remove_value(l: X, i: usize) -> (Option<X>, AVal) { List::remove_value(l, i) }
}

type Item<'a> = Option<(MaybeBorrowed<'a, AKey>, &'a AVal)>;
pub type Seen<'a> = (Item<'a>, Item<'a>, Item<'a>, Item<'a>);
macro_rules! iter_roots {
    ($m:ident, $t:ty) => {
        pub mod $m {
            use super::*;
            type X = $t;
            pub fn from(t: &X) -> Iter<'_, X> { Iter::from(t) }
            pub fn next<'a>(i: &mut Iter<'a, X>) -> Option<(MaybeBorrowed<'a, AKey>, &'a AVal)> { Iterator::next(i) }
            pub fn next_back<'a>(i: &mut Iter<'a, X>) -> Option<(MaybeBorrowed<'a, AKey>, &'a AVal)> { DoubleEndedIterator::next_back(i) }
            pub fn size_hint(i: &Iter<'_, X>) -> (usize, Option<usize>) { Iterator::size_hint(i) }
            // provided methods, which the crate could replace
            pub fn nth<'a>(i: &mut Iter<'a, X>, n: usize) -> Option<(MaybeBorrowed<'a, AKey>, &'a AVal)> { Iterator::nth(i, n) }
            pub fn nth_back<'a>(i: &mut Iter<'a, X>, n: usize) -> Option<(MaybeBorrowed<'a, AKey>, &'a AVal)> { DoubleEndedIterator::nth_back(i, n) }
            pub fn last(i: Iter<'_, X>) -> Option<(MaybeBorrowed<'_, AKey>, &AVal)> { Iterator::last(i) }
            pub fn count(i: Iter<'_, X>) -> usize { Iterator::count(i) }
            pub fn fold(i: Iter<'_, X>) -> Seen<'_> { Iterator::fold(i, (None, None, None, None), |(a, b, c, _), x| (Some(x), a, b, c)) }
            pub fn rfold(i: Iter<'_, X>) -> Seen<'_> { DoubleEndedIterator::rfold(i, (None, None, None, None), |(a, b, c, _), x| (Some(x), a, b, c)) }
        }
    };
}
iter_roots!(iter, ATree);
iter_roots!(iter_sized, SizedVebTree<ATree>);
pub fn iter_sized_len(i: &Iter<'_, SizedVebTree<ATree>>) -> usize { ExactSizeIterator::len(i) }

macro_rules! key_roots {
    ($($m:ident $t:ty, $hi:ty, $lo:ty;)*) => {$(
        pub mod $m {
            use super::*;
            type X = $t;
            pub fn split_val(k: X) -> ($hi, $lo) { VebKey::split_val(k) }
            pub fn join(hi: $hi, lo: $lo) -> X { <X as VebKey>::join(MaybeBorrowed::Owned(hi), MaybeBorrowed::Owned(lo)) }
            pub fn join_ref(hi: &$hi, lo: &$lo) -> X { <X as VebKey>::join(MaybeBorrowed::Borrowed(hi), MaybeBorrowed::Borrowed(lo)) }
            pub fn split_ref(k: &X) -> ($hi, $lo) { VebKeyRef::<$hi, $lo>::split_ref(k, |h: &$hi, l: &$lo| (h.clone(), l.clone())) }
            pub fn cmp(a: &X, b: &X) -> Ordering { Ord::cmp(a, b) }
        }
    )*};
}
key_roots! {
    key_unit (), (), ();
    key_u128 u128, u64, u64;
    key_i128 i128, u64, u64;
    key_u64 u64, u32, u32;
    key_i64 i64, u32, u32;
    key_u32 u32, u16, u16;
    key_i32 i32, u16, u16;
    key_u16 u16, u8, u8;
    key_i16 i16, u8, u8;
    key_u8 u8, U4, U4;
    key_i8 i8, U4, U4;
    key_u4 U4, U2, U2;
    key_u2 U2, bool, bool;
    key_a2 [AElem; 2], AElem, AElem;
    key_a3 [AElem; 3], AElem, [AElem; 2];
    key_a4 [AElem; 4], [AElem; 2], [AElem; 2];
    key_a5 [AElem; 5], [AElem; 2], [AElem; 3];
    key_a6 [AElem; 6], [AElem; 3], [AElem; 3];
    key_a7 [AElem; 7], [AElem; 3], [AElem; 4];
    key_a8 [AElem; 8], [AElem; 4], [AElem; 4];
    key_a16 [AElem; 16], [AElem; 8], [AElem; 8];
}

macro_rules! idx_roots {
    ($($m:ident $t:ty;)*) => {$(
        pub mod $m {
            use super::*;
            pub fn index(k: &$t) -> usize { SizedVebKey::index(k) }
            pub fn cardinality() -> usize { <$t as SizedVebKey>::CARDINALITY }
            pub fn cardinality_type() -> core::marker::PhantomData<<$t as SizedVebKey>::Cardinality> { core::marker::PhantomData }
        }
    )*};
}
idx_roots! {
    idx_unit ();
    idx_u64 u64;
    idx_i64 i64;
    idx_u32 u32;
    idx_i32 i32;
    idx_u16 u16;
    idx_i16 i16;
    idx_u8 u8;
    idx_i8 i8;
    idx_u4 U4;
    idx_u2 U2;
}

pub mod small {
    use super::*;
    pub fn u4_from_u8(x: u8) -> U4 { U4::from(x) }
    pub fn u8_from_u4(x: U4) -> u8 { u8::from(x) }
    pub fn u4_or(a: U4, b: U4) -> U4 { a | b }
    pub fn u4_shl(a: U4, n: usize) -> U4 { a << n }
    pub fn u4_shr(a: U4, n: usize) -> U4 { a >> n }
    pub fn u2_from_u8(x: u8) -> U2 { U2::from(x) }
    pub fn u2_from_u4(x: U4) -> U2 { U2::from(x) }
    pub fn u4_from_u2(x: U2) -> U4 { U4::from(x) }
    pub fn bool_from_u2(x: U2) -> bool { bool::from(x) }
    pub fn u2_or(a: U2, b: U2) -> U2 { a | b }
    pub fn u2_shl(a: U2, n: usize) -> U2 { a << n }
    pub fn u2_shr(a: U2, n: usize) -> U2 { a >> n }
    pub fn u4_eq(a: &U4, b: &U4) -> bool { a == b }
    pub fn u2_eq(a: &U2, b: &U2) -> bool { a == b }
    pub fn u4_compare(a: &U4, b: &U4) -> (bool, bool, bool, bool, bool, Option<Ordering>, Ordering) { (a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b), a.cmp(b)) }
    pub fn u2_compare(a: &U2, b: &U2) -> (bool, bool, bool, bool, bool, Option<Ordering>, Ordering) { (a != b, a < b, a <= b, a > b, a >= b, a.partial_cmp(b), a.cmp(b)) }
    pub fn u4_ends(a: U4, b: U4) -> (U4, U4) { (a.min(b), a.max(b)) }
    pub fn u2_ends(a: U2, b: U2) -> (U2, U2) { (a.min(b), a.max(b)) }
}

pub mod mb {
    use super::*;
    pub fn from_val(k: AKey) -> MaybeBorrowed<'static, AKey> { MaybeBorrowed::from(k) }
    pub fn from_ref(k: &AKey) -> MaybeBorrowed<'_, AKey> { MaybeBorrowed::from(k) }
    pub fn deref<'a>(m: &'a MaybeBorrowed<'a, AKey>) -> &'a AKey { &**m }
    pub fn borrow_trait<'a>(m: &'a MaybeBorrowed<'a, AKey>) -> &'a AKey { core::borrow::Borrow::borrow(m) }
    pub fn borrow_inherent<'a>(m: &'a MaybeBorrowed<'a, AKey>) -> MaybeBorrowed<'a, AKey> { MaybeBorrowed::borrow(m) }
    pub fn into_or_clone(m: MaybeBorrowed<'_, AKey>) -> AKey { m.into_or_clone() }
    pub fn eq(a: &MaybeBorrowed<'_, AKey>, b: &MaybeBorrowed<'_, AKey>) -> bool { a == b }
    pub fn ne(a: &MaybeBorrowed<'_, AKey>, b: &MaybeBorrowed<'_, AKey>) -> bool { a != b }
    pub fn clone_from<'a>(a: &mut MaybeBorrowed<'a, AKey>, b: &MaybeBorrowed<'a, AKey>) { a.clone_from(b) }
    pub fn clone<'a>(a: &MaybeBorrowed<'a, AKey>) -> MaybeBorrowed<'a, AKey> { a.clone() }

    // What a key handed back may implement one day: the method found is the
    // implementation if there is one, and the answer "none" otherwise.
    use core::cmp::Ordering;
    use core::hash::Hash;
    pub struct Two<'x, T>(pub &'x T, pub &'x T);
    pub trait HasOrd { fn order(&self) -> Option<Ordering>; }
    impl<T: Ord> HasOrd for Two<'_, T> { fn order(&self) -> Option<Ordering> { Some(self.0.cmp(self.1)) } }
    pub trait NoOrd { fn order(&self) -> Option<Ordering>; }
    impl<T> NoOrd for &Two<'_, T> { fn order(&self) -> Option<Ordering> { None } }
    pub trait HasPartial { fn partial(&self) -> Option<Option<Ordering>>; }
    impl<T: PartialOrd> HasPartial for Two<'_, T> { fn partial(&self) -> Option<Option<Ordering>> { Some(self.0.partial_cmp(self.1)) } }
    pub trait NoPartial { fn partial(&self) -> Option<Option<Ordering>>; }
    impl<T> NoPartial for &Two<'_, T> { fn partial(&self) -> Option<Option<Ordering>> { None } }
    pub struct One<'x, T>(pub &'x T);
    pub trait HasHash { fn feed(&self, h: &mut AHasher) -> bool; }
    impl<T: Hash> HasHash for One<'_, T> { fn feed(&self, h: &mut AHasher) -> bool { self.0.hash(h); true } }
    pub trait NoHash { fn feed(&self, h: &mut AHasher) -> bool; }
    impl<T> NoHash for &One<'_, T> { fn feed(&self, _: &mut AHasher) -> bool { false } }
    pub trait HasAsRef<'x> { fn as_key(&self) -> Option<&'x AKey>; }
    impl<'x, T: AsRef<AKey>> HasAsRef<'x> for One<'x, T> { fn as_key(&self) -> Option<&'x AKey> { Some(self.0.as_ref()) } }
    pub trait NoAsRef<'x> { fn as_key(&self) -> Option<&'x AKey>; }
    impl<'x, T> NoAsRef<'x> for &One<'x, T> { fn as_key(&self) -> Option<&'x AKey> { None } }
    pub trait HasSame { fn same(&self, k: &AKey) -> Option<bool>; }
    impl<T: PartialEq<AKey>> HasSame for One<'_, T> { fn same(&self, k: &AKey) -> Option<bool> { Some(self.0 == k) } }
    pub trait NoSame { fn same(&self, k: &AKey) -> Option<bool>; }
    impl<T> NoSame for &One<'_, T> { fn same(&self, _: &AKey) -> Option<bool> { None } }
    pub fn order<'a>(a: &MaybeBorrowed<'a, AKey>, b: &MaybeBorrowed<'a, AKey>) -> Option<Ordering> { (&Two(a, b)).order() }
    pub fn partial<'a>(a: &MaybeBorrowed<'a, AKey>, b: &MaybeBorrowed<'a, AKey>) -> Option<Option<Ordering>> { (&Two(a, b)).partial() }
    pub fn feed(a: &MaybeBorrowed<'_, AKey>, h: &mut AHasher) -> bool { (&One(a)).feed(h) }
    pub fn as_key<'x>(a: &'x MaybeBorrowed<'_, AKey>) -> Option<&'x AKey> { (&One(a)).as_key() }
    pub fn same(a: &MaybeBorrowed<'_, AKey>, k: &AKey) -> Option<bool> { (&One(a)).same(k) }
}

/// Loops and recursions the termination rule must tell apart (never run).
pub mod loops {
    use super::*;
    pub fn bad_successor(t: &ATree, mut k: AKey, end: &AKey) -> AKey {
        while let Some((n, _)) = VebTree::successor(t, &k) {
            k = n.into_or_clone();
            if k == *end { break; }
        }
        k
    }
    pub fn bad_retry(a: &AKey, b: &AKey) -> bool {
        loop { if a < b { return true; } }
    }
    pub fn bad_endless(n: usize) -> usize {
        let mut m = n;
        loop { m = m.wrapping_add(1); }
    }
    pub fn bad_collect(t: &ATree) -> usize { Iter::from(t).count() }
    pub fn bad_recursion(t: &ATree, k: &AKey) -> bool {
        match VebTree::predecessor(t, k) { Some((p, _)) => bad_recursion(t, &p.into_or_clone()), None => true }
    }
    pub fn good_for(v: &[AKey], k: &AKey) -> usize {
        let mut n = 0;
        for x in v { if x == k { n += 1; } }
        n
    }
    pub fn good_count(n: usize, a: &AKey, b: &AKey) -> usize {
        let mut i = 0;
        while i < n && a < b { i += 1; }
        i
    }
    pub fn good_bits(mut w: u64) -> u32 {
        let mut n = 0;
        while w != 0 { w &= w - 1; n += 1; }
        n
    }
    pub fn good_bounded(t: &ATree, n: usize) -> usize { Iter::from(t).take(n).count() }
}

/// Controls of the walk rule.
pub mod sweeps {
    use super::*;
    type H = HashMap<AHi, AChild, AHash>;
    type S = Box<[Option<AChild>]>;
    pub fn bad_values(m: &H, k: &AHi) -> bool { m.keys().any(|x| x == k) }
    pub fn bad_loop(m: &mut H) -> usize {
        let mut n = 0;
        for v in m.values_mut() { n += VebTree::len_hint(v).0; }
        n
    }
    pub fn bad_retain(m: &mut H, k: &AHi) { m.retain(|x, _| x == k) }
    pub fn bad_slots(s: &S) -> usize { s.iter().filter(|x| x.is_some()).count() }
    pub fn good_one(m: &H) -> bool { m.values().next().is_some() }
    pub fn good_get(m: &H, k: &AHi) -> bool { m.get(k).is_some() }
    pub fn good_slot(s: &S, i: usize) -> bool { s[i].as_ref().iter().all(|t| VebTree::len_hint(*t).0 > 0) }
}
