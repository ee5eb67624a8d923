//! Bounded model of `std::collections::HashMap` for the model checker: at most N entries, linear search.
//! Only the interface matters; iteration order of the real map is unspecified, here it is slot order.
#![allow(dead_code)]
use std::borrow::Borrow;
pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub const N: usize = 4;
#[derive(Clone, Debug)]
pub struct HashMap<K, V> { slots: [Option<(K, V)>; N] }
impl<K: PartialEq, V: PartialEq> PartialEq for HashMap<K, V> {
    fn eq(&self, o: &Self) -> bool {
        if self.len() != o.len() { return false; }
        let mut i = 0;
        while i < N {
            if let Some((k, v)) = &self.slots[i] {
                match o.find(k) { Some(j) => { if o.slots[j].as_ref().unwrap().1 != *v { return false; } } None => return false }
            }
            i += 1;
        }
        true
    }
}
impl<K, V> Default for HashMap<K, V> { fn default() -> Self { HashMap { slots: [None, None, None, None] } } }
pub mod hash_map {
    pub use super::*;
}
impl<K, V> HashMap<K, V> {
    pub fn new() -> Self { Self::default() }
    pub fn with_capacity(_n: usize) -> Self { Self::default() }
    pub fn capacity(&self) -> usize { N }
    pub fn len(&self) -> usize { let mut n = 0; let mut i = 0; while i < N { if self.slots[i].is_some() { n += 1; } i += 1; } n }
    pub fn is_empty(&self) -> bool { self.len() == 0 }
    pub fn clear(&mut self) { let mut i = 0; while i < N { self.slots[i] = None; i += 1; } }
    pub fn shrink_to_fit(&mut self) {}
    pub fn reserve(&mut self, _n: usize) {}
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        let mut i = 0;
        while i < N {
            let keep = match &mut self.slots[i] { Some((k, v)) => f(k, v), None => true };
            if !keep { self.slots[i] = None; }
            i += 1;
        }
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> + '_ { self.slots.iter().filter_map(|s| s.as_ref().map(|(k, v)| (k, v))) }
    pub fn iter_mut(&mut self) -> impl Iterator<Item = (&K, &mut V)> + '_ { self.slots.iter_mut().filter_map(|s| s.as_mut().map(|(k, v)| (&*k, v))) }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ { self.slots.iter().filter_map(|s| s.as_ref().map(|(k, _)| k)) }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ { self.slots.iter().filter_map(|s| s.as_ref().map(|(_, v)| v)) }
}
impl<K: PartialEq, V> HashMap<K, V> {
    fn find<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<usize> where K: Borrow<Q> {
        let mut i = 0;
        while i < N {
            if let Some((kk, _)) = &self.slots[i] { if kk.borrow() == k { return Some(i); } }
            i += 1;
        }
        None
    }
    fn free(&self) -> usize {
        let mut i = 0;
        while i < N { if self.slots[i].is_none() { return i; } i += 1; }
        kani::assume(false); // more than N entries: outside the bound
        0
    }
    pub fn get<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => self.slots[i].as_ref().map(|e| &e.1), None => None }
    }
    pub fn get_mut<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => self.slots[i].as_mut().map(|e| &mut e.1), None => None }
    }
    pub fn get_key_value<Q: ?Sized + PartialEq>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        match self.find(k) { Some(i) => self.slots[i].as_ref().map(|e| (&e.0, &e.1)), None => None }
    }
    pub fn contains_key<Q: ?Sized + PartialEq>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_some() }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => { let old = self.slots[i].take(); self.slots[i] = Some((k, v)); old.map(|e| e.1) }
            None => { let i = self.free(); self.slots[i] = Some((k, v)); None }
        }
    }
    pub fn remove<Q: ?Sized + PartialEq>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        match self.find(k) { Some(i) => self.slots[i].take().map(|e| e.1), None => None }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => Entry::Occupied(OccupiedEntry { m: self, i }),
            None => Entry::Vacant(VacantEntry { m: self, k }),
        }
    }
}
impl<K: PartialEq, V, Q: ?Sized + PartialEq> std::ops::Index<&Q> for HashMap<K, V> where K: Borrow<Q> {
    type Output = V;
    fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
}
impl<K: PartialEq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
}
impl<K: PartialEq, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m }
}
pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub struct OccupiedEntry<'a, K, V> { m: &'a mut HashMap<K, V>, i: usize }
pub struct VacantEntry<'a, K, V> { m: &'a mut HashMap<K, V>, k: K }
impl<'a, K, V> OccupiedEntry<'a, K, V> {
    pub fn get(&self) -> &V { &self.m.slots[self.i].as_ref().unwrap().1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.slots[self.i].as_mut().unwrap().1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.slots[self.i].as_mut().unwrap().1 }
    pub fn key(&self) -> &K { &self.m.slots[self.i].as_ref().unwrap().0 }
    pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.m.slots[self.i].take().unwrap().1 }
}
impl<'a, K: PartialEq, V> VacantEntry<'a, K, V> {
    pub fn key(&self) -> &K { &self.k }
    pub fn insert(self, v: V) -> &'a mut V { let i = self.m.free(); self.m.slots[i] = Some((self.k, v)); &mut self.m.slots[i].as_mut().unwrap().1 }
}
impl<'a, K: PartialEq, V> Entry<'a, K, V> {
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => { let v = f(&e.k); e.insert(v) } } }
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self { match self { Entry::Occupied(mut o) => { f(o.get_mut()); Entry::Occupied(o) } e => e } }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(e) => &e.k } }
}
