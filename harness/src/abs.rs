//! Opaque parameter types (contracts live in the analyzer).
use core::borrow::Borrow;
use core::cmp::Ordering;
use core::hash::{BuildHasher, Hash, Hasher};
use core::num::NonZeroUsize;
use veb_tree::bitset::{List, TreeList};
use veb_tree::collection::{TreeCollection, VebTreeCollectionMarker};
use veb_tree::key::{MaybeBorrowed, SizedVebKey, VebKey, VebKeyRef};
use veb_tree::tree::VebTreeMarker;
use veb_tree::VebTree;

macro_rules! opaque_ord {
    ($($t:ident)*) => {$(
        pub struct $t(());
        impl Clone for $t { fn clone(&self) -> Self { loop {} } }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { loop {} } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { loop {} } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> Ordering { loop {} } }
        impl Hash for $t { fn hash<H: Hasher>(&self, h: &mut H) { loop {} } }
    )*};
}
opaque_ord!(AKey AHi ALo AIdx AElem);

/// An opaque value type.
pub struct AVal(());
impl Clone for AVal { fn clone(&self) -> Self { loop {} } }

impl VebKey for AKey {
    type Hi = AHi;
    type Lo = ALo;
    fn split_val(self) -> (AHi, ALo) { loop {} }
    fn join<'a>(hi: MaybeBorrowed<'a, AHi>, lo: MaybeBorrowed<'a, ALo>) -> Self { loop {} }
}
impl VebKeyRef<AHi, ALo> for AKey {
    fn split_ref<F, R>(&self, f: F) -> R where F: FnOnce(&AHi, &ALo) -> R { loop {} }
}
impl SizedVebKey for AIdx {
    const CARDINALITY: usize = 1 << 32;
    type Cardinality = typenum::U4294967296;
    fn index(&self) -> usize { loop {} }
}

macro_rules! opaque_veb {
    ($($t:ident $k:ty, $v:ty;)*) => {$(
        pub struct $t(());
        impl Clone for $t { fn clone(&self) -> Self { loop {} } }
        impl VebTree for $t {
            type Key = $k;
            type Value = $v;
            fn from_monad(key: $k, val: $v) -> Self { loop {} }
            fn is_monad(&self) -> bool { loop {} }
            fn len_hint(&self) -> (usize, Option<usize>) { loop {} }
            fn into_monad(self) -> Result<($k, $v), Self> { loop {} }
            fn min_val(&self) -> (MaybeBorrowed<'_, $k>, &$v) { loop {} }
            fn min_val_mut(&mut self) -> (MaybeBorrowed<'_, $k>, &mut $v) { loop {} }
            fn max_val(&self) -> (MaybeBorrowed<'_, $k>, &$v) { loop {} }
            fn max_val_mut(&mut self) -> (MaybeBorrowed<'_, $k>, &mut $v) { loop {} }
            fn find<Q: Borrow<$k>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &$v)> { loop {} }
            fn find_mut<Q: Borrow<$k>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &mut $v)> { loop {} }
            fn predecessor<Q: Borrow<$k>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &$v)> { loop {} }
            fn predecessor_mut<Q: Borrow<$k>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &mut $v)> { loop {} }
            fn successor<Q: Borrow<$k>>(&self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &$v)> { loop {} }
            fn successor_mut<Q: Borrow<$k>>(&mut self, k: Q) -> Option<(MaybeBorrowed<'_, $k>, &mut $v)> { loop {} }
            fn insert(&mut self, k: $k, v: $v) -> Option<($k, $v)> { loop {} }
            fn remove<Q: Borrow<$k>>(self, k: Q) -> Result<(Option<Self>, ($k, $v)), Self> { loop {} }
            fn remove_min(self) -> (Option<Self>, ($k, $v)) { loop {} }
            fn remove_max(self) -> (Option<Self>, ($k, $v)) { loop {} }
        }
    )*};
}
opaque_veb! {
    ASum AHi, ();
    AChild ALo, AVal;
    ATree AKey, AVal;
}

pub struct ASumMarker;
impl VebTreeMarker<AHi, ()> for ASumMarker { type Tree = ASum; }
pub struct ACollMarker;
impl VebTreeCollectionMarker<AKey, AVal> for ACollMarker { type TreeCollection = AColl; }

/// An opaque collection of subtrees.
pub struct AColl(());
impl Clone for AColl { fn clone(&self) -> Self { loop {} } }
impl TreeCollection for AColl {
    type Hi = AHi;
    type Tree = AChild;
    fn create(h: &AHi, tree: AChild) -> Self { loop {} }
    fn get(&self, h: &AHi) -> Option<&AChild> { loop {} }
    fn get_mut(&mut self, h: &AHi) -> Option<&mut AChild> { loop {} }
    fn insert_key(&mut self, h: AHi, lv: (ALo, AVal)) -> Result<AHi, (AHi, Option<(ALo, AVal)>)> { loop {} }
    fn remove_key<Q, R>(self, h: Q, r: R) -> (Option<(Self, bool)>, (ALo, AVal))
    where Q: Borrow<AHi>, R: FnOnce(AChild) -> (Option<AChild>, (ALo, AVal)) { loop {} }
    fn maybe_remove_key<Q, R>(self, h: Q, r: R) -> Result<(Option<(Self, bool)>, (ALo, AVal)), Self>
    where Q: Borrow<AHi>, R: FnOnce(AChild) -> Result<(Option<AChild>, (ALo, AVal)), AChild> { loop {} }
}

/// An opaque list of values.
pub struct AList(());
impl List for AList {
    type Value = AVal;
    fn from_monad(v0: AVal) -> Self { loop {} }
    fn len(&self) -> usize { loop {} }
    fn is_empty(&self) -> bool { loop {} }
    fn get(&self, i: usize) -> &AVal { loop {} }
    fn get_mut(&mut self, i: usize) -> &mut AVal { loop {} }
    fn insert_value(&mut self, i: usize, v: AVal) { loop {} }
    fn remove_value(self, i: usize) -> (Option<Self>, AVal) { loop {} }
}
/// An opaque list of subtrees.
pub struct ATreeList(());
impl TreeList for ATreeList {
    type Tree = AChild;
    fn from_monad(v: AChild) -> Self { loop {} }
    fn len(&self) -> NonZeroUsize { loop {} }
    fn get(&self, i: usize) -> &AChild { loop {} }
    fn get_mut(&mut self, i: usize) -> &mut AChild { loop {} }
    fn insert_tree(&mut self, i: usize, v: AChild) { loop {} }
    fn remove_key<F>(self, i: usize, f: F) -> (Option<(Self, bool)>, (ALo, AVal))
    where F: FnOnce(AChild) -> (Option<AChild>, (ALo, AVal)) { loop {} }
    fn maybe_remove_key<F>(self, i: usize, f: F) -> Result<(Option<(Self, bool)>, (ALo, AVal)), Self>
    where F: FnOnce(AChild) -> Result<(Option<AChild>, (ALo, AVal)), AChild> { loop {} }
}

#[derive(Default)]
pub struct AHash(());
impl BuildHasher for AHash {
    type Hasher = AHasher;
    fn build_hasher(&self) -> AHasher { loop {} }
}
pub struct AHasher(());
impl Hasher for AHasher {
    fn finish(&self) -> u64 { loop {} }
    fn write(&mut self, b: &[u8]) { loop {} }
}

/// A removal the caller of a collection hands in.
pub fn removal(t: AChild) -> (Option<AChild>, (ALo, AVal)) { loop {} }
/// A removal which may find nothing.
pub fn maybe_removal(t: AChild) -> Result<(Option<AChild>, (ALo, AVal)), AChild> { loop {} }
