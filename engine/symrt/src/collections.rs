//! `std::collections` stand-in: hash containers whose key equality is decided symbolically and whose
//! iteration order is a bounded non-deterministic choice. Everything else is the real one.
pub use std::collections::*;

use crate::engine::{self, tick};
use crate::{is_token, sos, token_value, S};
use std::borrow::Borrow;
use std::cell::Cell;
use std::cell::RefCell;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

pub mod hash_map {
    pub use super::{Entry, HashMap, OccupiedEntry, RandomState, SymHasher as DefaultHasher, VacantEntry};
    pub type Iter<'a, K, V> = std::vec::IntoIter<(&'a K, &'a V)>;
    pub type IterMut<'a, K, V> = std::vec::IntoIter<(&'a K, &'a mut V)>;
    pub type IntoIter<K, V> = std::vec::IntoIter<(K, V)>;
    pub type Keys<'a, K, V> = std::iter::Map<std::vec::IntoIter<(&'a K, &'a V)>, fn((&'a K, &'a V)) -> &'a K>;
    pub type Values<'a, K, V> = std::iter::Map<std::vec::IntoIter<(&'a K, &'a V)>, fn((&'a K, &'a V)) -> &'a V>;
}
pub mod hash_set {
    pub use super::HashSet;
    pub type Iter<'a, T> = std::vec::IntoIter<&'a T>;
    pub type IntoIter<T> = std::vec::IntoIter<T>;
}

#[derive(Clone, Copy, Default, Debug)]
pub struct RandomState;
impl RandomState {
    pub fn new() -> RandomState {
        RandomState
    }
}
impl std::hash::BuildHasher for RandomState {
    type Hasher = SymHasher;
    fn build_hasher(&self) -> SymHasher {
        SymHasher::default()
    }
}

#[derive(Default, Clone, Debug)]
pub struct SymHasher(Vec<u64>);
impl SymHasher {
    pub fn new() -> SymHasher {
        SymHasher(vec![])
    }
}
const LIST: u64 = 0x5A5A_A5A5_0000_0000;
thread_local! { static LISTS: RefCell<Vec<Vec<u64>>> = RefCell::new(vec![]); }
/// forget the hashes of the previous path
pub fn reset_lists() {
    LISTS.with(|l| l.borrow_mut().clear())
}
fn list_of(w: u64) -> Option<Vec<u64>> {
    if w & 0xFFFF_FFFF_0000_0000 == LIST {
        LISTS.with(|l| l.borrow().get(w as u32 as usize).cloned())
    } else {
        None
    }
}
impl Hasher for SymHasher {
    fn finish(&self) -> u64 {
        if engine::active() {
            let known = LISTS.with(|l| l.borrow().clone());
            let i = known.iter().position(|x| *x == self.0).or_else(|| known.iter().position(|x| words_eq(x, &self.0)));
            let i = i.unwrap_or_else(|| {
                LISTS.with(|l| l.borrow_mut().push(self.0.clone()));
                known.len()
            });
            LIST | i as u64
        } else {
            #[allow(deprecated)]
            let mut h = std::hash::SipHasher::new();
            self.0.hash(&mut h);
            h.finish()
        }
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut w = 0u64;
            for (i, x) in c.iter().enumerate() {
                w |= (*x as u64) << (8 * i);
            }
            self.0.push(w);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.0.push(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.0.push(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.0.push(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push(i)
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push(i as u64)
    }
    fn write_i8(&mut self, i: i8) {
        self.0.push(i as u64)
    }
    fn write_i16(&mut self, i: i16) {
        self.0.push(i as u64)
    }
    fn write_i32(&mut self, i: i32) {
        self.0.push(i as u64)
    }
    fn write_i64(&mut self, i: i64) {
        self.0.push(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.0.push(i as u64)
    }
}

pub fn words<Q: Hash + ?Sized>(k: &Q) -> Vec<u64> {
    let mut h = SymHasher::default();
    k.hash(&mut h);
    h.0
}

/// pairs of tokens that must be equal for the two streams to be equal; None: known different
fn pairs(a: &[u64], b: &[u64], out: &mut Vec<(usize, u32, u32)>, n: &mut usize) -> bool {
    if a.len() != b.len() {
        return false;
    }
    for (x, y) in a.iter().zip(b) {
        match (is_token(*x), is_token(*y)) {
            (Some(i), Some(j)) => {
                if i != j {
                    out.push((*n / 2, i, j));
                }
                *n += 1;
            }
            _ => {
                if x != y {
                    match (list_of(*x), list_of(*y)) {
                        (Some(l), Some(m)) => {
                            if !pairs(&l, &m, out, n) {
                                return false;
                            }
                        }
                        _ => return false,
                    }
                }
            }
        }
    }
    true
}

/// do the two hash streams agree?
pub fn words_eq(a: &[u64], b: &[u64]) -> bool {
    if a == b {
        return true;
    }
    if !engine::active() {
        return false;
    }
    let mut ps = vec![];
    let mut n = 0;
    if !pairs(a, b, &mut ps, &mut n) {
        return false;
    }
    let mut groups: Vec<S> = vec![];
    let mut i = 0;
    while i < ps.len() {
        let mut ds = vec![];
        let g = ps[i].0;
        while i < ps.len() && ps[i].0 == g {
            let (x, y) = (token_value(ps[i].1), token_value(ps[i].2));
            if let (S::C(p), S::C(q)) = (x, y) {
                if p.to_bits() != q.to_bits() {
                    return false;
                }
            } else {
                if matches!(x, S::C(p) if !p.is_finite()) || matches!(y, S::C(p) if !p.is_finite()) {
                    return false;
                }
                ds.push(x - y);
            }
            i += 1;
        }
        if ds.iter().any(|d| matches!(d, S::C(f) if *f != 0.0)) {
            return false;
        }
        groups.push(match ds.len() {
            0 => continue,
            1 => ds[0],
            _ => sos(&ds),
        });
    }
    if groups.iter().any(|g| crate::known_nonzero(*g)) {
        return false;
    }
    groups.iter().all(|g| crate::sign_in(*g, engine::ZERO))
}

pub struct HashMap<K, V, H = RandomState> {
    e: Vec<(Vec<u64>, K, V)>,
    order: Cell<Option<(usize, bool)>>,
    h: PhantomData<H>,
}

impl<K, V, H> HashMap<K, V, H> {
    fn touched(&mut self) {
        self.order.set(None);
    }
    fn index_order(&self) -> Vec<usize> {
        let n = self.e.len();
        tick(n as u64 + 1);
        if n <= 1 {
            return (0..n).collect();
        }
        let (k, rev) = match self.order.get() {
            Some(x) => x,
            None => {
                let x = engine::order_choice(n);
                self.order.set(Some(x));
                x
            }
        };
        let mut v: Vec<usize> = if rev { (0..n).rev().collect() } else { (0..n).collect() };
        if k > 0 && k < n {
            let x = v.remove(k);
            v.insert(0, x);
        }
        v
    }
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self {
        HashMap { e: vec![], order: Cell::new(None), h: PhantomData }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<K, V, H> HashMap<K, V, H> {
    pub fn with_hasher(_: H) -> Self {
        HashMap { e: vec![], order: Cell::new(None), h: PhantomData }
    }
    pub fn with_capacity_and_hasher(_: usize, _: H) -> Self {
        HashMap { e: vec![], order: Cell::new(None), h: PhantomData }
    }
    pub fn len(&self) -> usize {
        self.e.len()
    }
    pub fn is_empty(&self) -> bool {
        self.e.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.e.capacity()
    }
    pub fn clear(&mut self) {
        self.e.clear();
        self.touched();
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> std::vec::IntoIter<(&K, &V)> {
        let o = self.index_order();
        o.into_iter().map(|i| (&self.e[i].1, &self.e[i].2)).collect::<Vec<_>>().into_iter()
    }
    pub fn iter_mut(&mut self) -> std::vec::IntoIter<(&K, &mut V)> {
        let o = self.index_order();
        let mut tmp: Vec<Option<(&K, &mut V)>> = self.e.iter_mut().map(|t| Some((&t.1, &mut t.2))).collect();
        o.into_iter().map(|i| tmp[i].take().unwrap()).collect::<Vec<_>>().into_iter()
    }
    pub fn keys(&self) -> hash_map::Keys<'_, K, V> {
        fn f<'a, K, V>(x: (&'a K, &'a V)) -> &'a K {
            x.0
        }
        self.iter().map(f as fn(_) -> _)
    }
    pub fn values(&self) -> hash_map::Values<'_, K, V> {
        fn f<'a, K, V>(x: (&'a K, &'a V)) -> &'a V {
            x.1
        }
        self.iter().map(f as fn(_) -> _)
    }
    pub fn values_mut(&mut self) -> std::vec::IntoIter<&mut V> {
        self.iter_mut().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    fn take_all(&mut self) -> Vec<(K, V)> {
        let o = self.index_order();
        let mut tmp: Vec<Option<(K, V)>> = std::mem::take(&mut self.e).into_iter().map(|t| Some((t.1, t.2))).collect();
        self.touched();
        o.into_iter().map(|i| tmp[i].take().unwrap()).collect()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<(K, V)> {
        self.take_all().into_iter()
    }
    pub fn into_keys(mut self) -> std::vec::IntoIter<K> {
        self.take_all().into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn into_values(mut self) -> std::vec::IntoIter<V> {
        self.take_all().into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter()
    }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let o = self.index_order();
        let mut keep = vec![true; self.e.len()];
        for i in o {
            let t = &mut self.e[i];
            keep[i] = f(&t.1, &mut t.2);
        }
        if keep.iter().all(|k| *k) {
            return;
        }
        let mut it = keep.into_iter();
        self.e.retain(|_| it.next().unwrap());
        self.touched();
    }
}
impl<K: Eq + Hash, V, H> HashMap<K, V, H> {
    fn find<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        if self.e.is_empty() {
            return None;
        }
        let w = words(k);
        self.find_w(&w, k)
    }
    fn find_w<Q: ?Sized + Hash + Eq>(&self, w: &[u64], k: &Q) -> Option<usize>
    where
        K: Borrow<Q>,
    {
        tick(1);
        for (i, t) in self.e.iter().enumerate() {
            if t.0 == w && t.1.borrow() == k {
                return Some(i);
            }
        }
        if engine::active() {
            for (i, t) in self.e.iter().enumerate() {
                if t.0 != w && words_eq(&t.0, w) && t.1.borrow() == k {
                    return Some(i);
                }
            }
        }
        None
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<&V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| &self.e[i].2)
    }
    pub fn get_key_value<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> Option<(&K, &V)>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(|i| (&self.e[i].1, &self.e[i].2))
    }
    pub fn get_mut<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<&mut V>
    where
        K: Borrow<Q>,
    {
        self.find(k).map(move |i| &mut self.e[i].2)
    }
    pub fn contains_key<Q: ?Sized + Hash + Eq>(&self, k: &Q) -> bool
    where
        K: Borrow<Q>,
    {
        self.find(k).is_some()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let w = words(&k);
        match self.find_w(&w, &k) {
            Some(i) => Some(std::mem::replace(&mut self.e[i].2, v)),
            None => {
                self.e.push((w, k, v));
                self.touched();
                None
            }
        }
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<V>
    where
        K: Borrow<Q>,
    {
        self.remove_entry(k).map(|x| x.1)
    }
    pub fn remove_entry<Q: ?Sized + Hash + Eq>(&mut self, k: &Q) -> Option<(K, V)>
    where
        K: Borrow<Q>,
    {
        match self.find(k) {
            Some(i) => {
                let t = self.e.remove(i);
                self.touched();
                Some((t.1, t.2))
            }
            None => None,
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, H> {
        let w = words(&k);
        match self.find_w(&w, &k) {
            Some(i) => Entry::Occupied(OccupiedEntry { m: self, i, k }),
            None => Entry::Vacant(VacantEntry { m: self, w, k }),
        }
    }
}

pub enum Entry<'a, K, V, H = RandomState> {
    Occupied(OccupiedEntry<'a, K, V, H>),
    Vacant(VacantEntry<'a, K, V, H>),
}
pub struct OccupiedEntry<'a, K, V, H = RandomState> {
    m: &'a mut HashMap<K, V, H>,
    i: usize,
    k: K,
}
pub struct VacantEntry<'a, K, V, H = RandomState> {
    m: &'a mut HashMap<K, V, H>,
    w: Vec<u64>,
    k: K,
}
impl<'a, K, V, H> OccupiedEntry<'a, K, V, H> {
    pub fn get(&self) -> &V {
        &self.m.e[self.i].2
    }
    pub fn get_mut(&mut self) -> &mut V {
        &mut self.m.e[self.i].2
    }
    pub fn into_mut(self) -> &'a mut V {
        &mut self.m.e[self.i].2
    }
    pub fn insert(&mut self, v: V) -> V {
        std::mem::replace(&mut self.m.e[self.i].2, v)
    }
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn remove(self) -> V {
        self.remove_entry().1
    }
    pub fn remove_entry(self) -> (K, V) {
        let t = self.m.e.remove(self.i);
        self.m.touched();
        (t.1, t.2)
    }
}
impl<'a, K, V, H> VacantEntry<'a, K, V, H> {
    pub fn insert(self, v: V) -> &'a mut V {
        self.m.e.push((self.w, self.k, v));
        self.m.touched();
        let n = self.m.e.len() - 1;
        &mut self.m.e[n].2
    }
    pub fn key(&self) -> &K {
        &self.k
    }
    pub fn into_key(self) -> K {
        self.k
    }
}
impl<'a, K, V, H> Entry<'a, K, V, H> {
    pub fn or_insert(self, v: V) -> &'a mut V {
        self.or_insert_with(|| v)
    }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
        match self {
            Entry::Occupied(o) => o.into_mut(),
            Entry::Vacant(v) => v.insert(f()),
        }
    }
    pub fn or_default(self) -> &'a mut V
    where
        V: Default,
    {
        self.or_insert_with(V::default)
    }
    pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
        if let Entry::Occupied(o) = &mut self {
            f(o.get_mut())
        }
        self
    }
    pub fn key(&self) -> &K {
        match self {
            Entry::Occupied(o) => o.key(),
            Entry::Vacant(v) => v.key(),
        }
    }
}

impl<K, V> Default for HashMap<K, V, RandomState> {
    fn default() -> Self {
        Self::new()
    }
}
impl<K: Clone, V: Clone, H> Clone for HashMap<K, V, H> {
    fn clone(&self) -> Self {
        HashMap { e: self.e.clone(), order: Cell::new(self.order.get()), h: PhantomData }
    }
}
impl<K: Debug, V: Debug, H> Debug for HashMap<K, V, H> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_map().entries(self.e.iter().map(|t| (&t.1, &t.2))).finish()
    }
}
impl<K: Eq + Hash, V: PartialEq, H> PartialEq for HashMap<K, V, H> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.e.iter().all(|t| o.get(&t.1).map_or(false, |v| *v == t.2))
    }
}
impl<K: Eq + Hash, V: Eq, H> Eq for HashMap<K, V, H> {}
impl<K: Eq + Hash, V> std::iter::FromIterator<(K, V)> for HashMap<K, V, RandomState> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = HashMap::new();
        m.extend(it);
        m
    }
}
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> {
    fn from(a: [(K, V); N]) -> Self {
        IntoIterator::into_iter(a).collect()
    }
}
impl<K: Eq + Hash, V, H> Extend<(K, V)> for HashMap<K, V, H> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<'a, K: Eq + Hash + Copy, V: Copy, H> Extend<(&'a K, &'a V)> for HashMap<K, V, H> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(*k, *v);
        }
    }
}
impl<K, V, H> IntoIterator for HashMap<K, V, H> {
    type Item = (K, V);
    type IntoIter = std::vec::IntoIter<(K, V)>;
    fn into_iter(mut self) -> Self::IntoIter {
        self.take_all().into_iter()
    }
}
impl<'a, K, V, H> IntoIterator for &'a HashMap<K, V, H> {
    type Item = (&'a K, &'a V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<'a, K, V, H> IntoIterator for &'a mut HashMap<K, V, H> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = std::vec::IntoIter<(&'a K, &'a mut V)>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter_mut()
    }
}
impl<'a, K: Eq + Hash + Borrow<Q>, Q: ?Sized + Eq + Hash, V, H> std::ops::Index<&'a Q> for HashMap<K, V, H> {
    type Output = V;
    fn index(&self, k: &'a Q) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

pub struct HashSet<T, H = RandomState> {
    m: HashMap<T, (), H>,
}
impl<T> HashSet<T, RandomState> {
    pub fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::new()
    }
}
impl<T, H> HashSet<T, H> {
    pub fn with_hasher(h: H) -> Self {
        HashSet { m: HashMap::with_hasher(h) }
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn capacity(&self) -> usize {
        self.m.capacity()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn iter(&self) -> std::vec::IntoIter<&T> {
        self.m.keys().collect::<Vec<_>>().into_iter()
    }
    pub fn drain(&mut self) -> std::vec::IntoIter<T> {
        self.m.take_all().into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter()
    }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, mut f: F) {
        self.m.retain(|k, _| f(k))
    }
}
impl<T: Eq + Hash, H> HashSet<T, H> {
    pub fn insert(&mut self, t: T) -> bool {
        let w = words(&t);
        if self.m.find_w(&w, &t).is_some() {
            return false;
        }
        self.m.e.push((w, t, ()));
        self.m.touched();
        true
    }
    pub fn replace(&mut self, t: T) -> Option<T> {
        let w = words(&t);
        match self.m.find_w(&w, &t) {
            Some(i) => Some(std::mem::replace(&mut self.m.e[i].1, t)),
            None => {
                self.m.e.push((w, t, ()));
                self.m.touched();
                None
            }
        }
    }
    pub fn contains<Q: ?Sized + Hash + Eq>(&self, t: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.contains_key(t)
    }
    pub fn get<Q: ?Sized + Hash + Eq>(&self, t: &Q) -> Option<&T>
    where
        T: Borrow<Q>,
    {
        self.m.get_key_value(t).map(|x| x.0)
    }
    pub fn remove<Q: ?Sized + Hash + Eq>(&mut self, t: &Q) -> bool
    where
        T: Borrow<Q>,
    {
        self.m.remove(t).is_some()
    }
    pub fn take<Q: ?Sized + Hash + Eq>(&mut self, t: &Q) -> Option<T>
    where
        T: Borrow<Q>,
    {
        self.m.remove_entry(t).map(|x| x.0)
    }
    pub fn union<'a>(&'a self, o: &'a HashSet<T, H>) -> std::vec::IntoIter<&'a T> {
        let mut v: Vec<&T> = self.iter().collect();
        v.extend(o.iter().filter(|x| !self.contains(*x)));
        v.into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a HashSet<T, H>) -> std::vec::IntoIter<&'a T> {
        self.iter().filter(|x| o.contains(*x)).collect::<Vec<_>>().into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a HashSet<T, H>) -> std::vec::IntoIter<&'a T> {
        self.iter().filter(|x| !o.contains(*x)).collect::<Vec<_>>().into_iter()
    }
    pub fn symmetric_difference<'a>(&'a self, o: &'a HashSet<T, H>) -> std::vec::IntoIter<&'a T> {
        let mut v: Vec<&T> = self.iter().filter(|x| !o.contains(*x)).collect();
        v.extend(o.iter().filter(|x| !self.contains(*x)));
        v.into_iter()
    }
    pub fn is_subset(&self, o: &HashSet<T, H>) -> bool {
        self.m.e.iter().all(|t| o.contains(&t.1))
    }
    pub fn is_superset(&self, o: &HashSet<T, H>) -> bool {
        o.is_subset(self)
    }
    pub fn is_disjoint(&self, o: &HashSet<T, H>) -> bool {
        self.m.e.iter().all(|t| !o.contains(&t.1))
    }
}
impl<T> Default for HashSet<T, RandomState> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: Clone, H> Clone for HashSet<T, H> {
    fn clone(&self) -> Self {
        HashSet { m: self.m.clone() }
    }
}
impl<T: Debug, H> Debug for HashSet<T, H> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.debug_set().entries(self.m.e.iter().map(|t| &t.1)).finish()
    }
}
impl<T: Eq + Hash, H> PartialEq for HashSet<T, H> {
    fn eq(&self, o: &Self) -> bool {
        self.len() == o.len() && self.is_subset(o)
    }
}
impl<T: Eq + Hash, H> Eq for HashSet<T, H> {}
impl<T: Eq + Hash> std::iter::FromIterator<T> for HashSet<T, RandomState> {
    fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
        let mut s = HashSet::new();
        s.extend(it);
        s
    }
}
impl<T: Eq + Hash, const N: usize> From<[T; N]> for HashSet<T, RandomState> {
    fn from(a: [T; N]) -> Self {
        IntoIterator::into_iter(a).collect()
    }
}
impl<T: Eq + Hash, H> Extend<T> for HashSet<T, H> {
    fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
        for t in it {
            self.insert(t);
        }
    }
}
impl<'a, T: Eq + Hash + Copy + 'a, H> Extend<&'a T> for HashSet<T, H> {
    fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
        for t in it {
            self.insert(*t);
        }
    }
}
impl<T, H> IntoIterator for HashSet<T, H> {
    type Item = T;
    type IntoIter = std::vec::IntoIter<T>;
    fn into_iter(mut self) -> Self::IntoIter {
        self.drain()
    }
}
impl<'a, T, H> IntoIterator for &'a HashSet<T, H> {
    type Item = &'a T;
    type IntoIter = std::vec::IntoIter<&'a T>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
macro_rules! setop {
    ($tr:ident, $f:ident, $m:ident) => {
        impl<'a, 'b, T: Eq + Hash + Clone> std::ops::$tr<&'b HashSet<T>> for &'a HashSet<T> {
            type Output = HashSet<T>;
            fn $f(self, o: &'b HashSet<T>) -> HashSet<T> {
                self.$m(o).cloned().collect()
            }
        }
    };
}
setop!(BitOr, bitor, union);
setop!(BitAnd, bitand, intersection);
setop!(Sub, sub, difference);
setop!(BitXor, bitxor, symmetric_difference);
