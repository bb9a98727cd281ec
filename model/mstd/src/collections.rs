//! `HashMap`/`HashSet` as small association tables.  With `ghost::k().any_order` an insertion goes
//! to either end, so that the iteration order is not the insertion order.
pub use std::collections::*;

use std::mem::MaybeUninit;

/// Number of sources a table can hold (a bound of the exploration).
pub const CAP: usize = if cfg!(verif_replay) { ghost::NUSER } else { 3 };

/// (The order of iteration is not modelled.)
pub type BTreeMap<K, V> = HashMap<K, V>;
pub type BTreeSet<K> = HashSet<K>;
pub mod btree_map {
    pub use super::hash_map::*;
    pub use super::HashMap as BTreeMap;
}

pub struct HashMap<K, V> {
    keys: [MaybeUninit<K>; CAP],
    vals: [MaybeUninit<V>; CAP],
    n: usize,
}

impl<K, V> Drop for HashMap<K, V> {
    fn drop(&mut self) {
        if std::mem::needs_drop::<K>() || std::mem::needs_drop::<V>() {
            self.clear()
        }
    }
}

impl<K, V> std::fmt::Debug for HashMap<K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HashMap")
    }
}

impl<K, V> Default for HashMap<K, V> {
    fn default() -> Self {
        HashMap::new()
    }
}

impl<K, V> HashMap<K, V> {
    pub const fn new() -> Self {
        HashMap {
            keys: [const { MaybeUninit::uninit() }; CAP],
            vals: [const { MaybeUninit::uninit() }; CAP],
            n: 0,
        }
    }
    pub fn with_capacity(_n: usize) -> Self {
        HashMap::new()
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn reserve(&mut self, _n: usize) {}
    pub fn try_reserve(&mut self, _n: usize) -> Result<(), TryReserveError> {
        Ok(())
    }
    pub fn shrink_to_fit(&mut self) {}
    pub fn shrink_to(&mut self, _n: usize) {}
    pub fn capacity(&self) -> usize {
        CAP
    }
    pub fn clear(&mut self) {
        while self.n > 0 {
            drop(self.del(self.n - 1));
        }
    }
    pub fn iter(&self) -> Iter<'_, K, V> {
        Iter { m: self, i: 0 }
    }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        IterMut { m: self, i: 0, _p: std::marker::PhantomData }
    }
    pub fn drain(&mut self) -> IntoIter<K, V> {
        std::mem::take(self).into_iter()
    }
    pub fn into_values(self) -> impl Iterator<Item = V> {
        self.into_iter().map(|x| x.1)
    }
    pub fn into_keys(self) -> impl Iterator<Item = K> {
        self.into_iter().map(|x| x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> + '_ {
        self.iter().map(|(_, v)| v)
    }
    pub fn values_mut(&mut self) -> impl Iterator<Item = &mut V> + '_ {
        self.iter_mut().map(|(_, v)| v)
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> + '_ {
        self.iter().map(|(k, _)| k)
    }
    /// The occupied slots are always the first ones; a new entry goes to either end.
    fn put(&mut self, k: K, v: V) -> usize {
        ghost::nd::assume(self.n < CAP);
        let front = self.n > 0 && ghost::k().any_order && ghost::nd::bool();
        let i = self.n;
        self.n = i + 1;
        if front {
            #[cfg(verif_replay)]
            for j in (2..i).rev() {
                self.mv(j, j + 1);
            }
            self.mv(1, 2);
            self.mv(0, 1);
            self.set(0, k, v);
            0
        } else {
            self.set(i, k, v);
            i
        }
    }
    #[inline]
    fn set(&mut self, i: usize, k: K, v: V) {
        self.keys[i] = MaybeUninit::new(k);
        self.vals[i] = MaybeUninit::new(v);
    }
    #[inline]
    fn mv(&mut self, from: usize, to: usize) {
        unsafe {
            let k = std::ptr::read(&self.keys[from]);
            let v = std::ptr::read(&self.vals[from]);
            self.keys[to] = k;
            self.vals[to] = v;
        }
    }
    fn del(&mut self, i: usize) -> (K, V) {
        self.n -= 1;
        unsafe {
            let k = self.keys[i].assume_init_read();
            let v = self.vals[i].assume_init_read();
            if i == 0 {
                self.mv(1, 0);
            }
            if i <= 1 {
                self.mv(2, 1);
            }
            #[cfg(verif_replay)]
            for j in i.max(2)..self.n {
                self.mv(j + 1, j);
            }
            (k, v)
        }
    }
    #[inline]
    fn val(&self, i: usize) -> &V {
        unsafe { self.vals[i].assume_init_ref() }
    }
    #[inline]
    fn val_mut(&mut self, i: usize) -> &mut V {
        unsafe { self.vals[i].assume_init_mut() }
    }
}

impl<K: PartialEq, V> HashMap<K, V> {
    #[inline]
    fn is_at(&self, i: usize, k: &K) -> bool {
        i < self.n && unsafe { self.keys[i].assume_init_ref() == k }
    }
    fn find(&self, k: &K) -> Option<usize> {
        if self.is_at(0, k) {
            return Some(0);
        }
        if self.is_at(1, k) {
            return Some(1);
        }
        if self.is_at(2, k) {
            return Some(2);
        }
        #[cfg(verif_replay)]
        for i in 3..self.n {
            if self.is_at(i, k) {
                return Some(i);
            }
        }
        None
    }
    pub fn contains_key(&self, k: &K) -> bool {
        self.find(k).is_some()
    }
    pub fn get(&self, k: &K) -> Option<&V> {
        match self.find(k) {
            Some(i) => Some(self.val(i)),
            None => None,
        }
    }
    pub fn get_key_value(&self, k: &K) -> Option<(&K, &V)> {
        self.iter().find(|x| x.0 == k)
    }
    pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
        match self.find(k) {
            Some(i) => Some(self.val_mut(i)),
            None => None,
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Some(i) => Some(std::mem::replace(self.val_mut(i), v)),
            None => {
                self.put(k, v);
                None
            }
        }
    }
    pub fn remove(&mut self, k: &K) -> Option<V> {
        match self.find(k) {
            Some(i) => Some(self.del(i).1),
            None => None,
        }
    }
    pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
        match self.find(k) {
            Some(i) => Some(self.del(i)),
            None => None,
        }
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K, &mut V) -> bool) {
        let mut i = CAP;
        while i > 0 {
            i -= 1;
            let keep = i >= self.n
                || unsafe { f(self.keys[i].assume_init_ref(), self.vals[i].assume_init_mut()) };
            if !keep {
                self.del(i);
            }
        }
    }
    pub fn extract_if<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) -> IntoIter<K, V> {
        let mut out = HashMap::new();
        let mut i = CAP;
        while i > 0 {
            i -= 1;
            let take = i < self.n
                && unsafe { f(self.keys[i].assume_init_ref(), self.vals[i].assume_init_mut()) };
            if take {
                let (k, v) = self.del(i);
                out.put(k, v);
            }
        }
        out.into_iter()
    }
    pub fn entry(&mut self, k: K) -> hash_map::Entry<'_, K, V> {
        match self.find(&k) {
            Some(i) => hash_map::Entry::Occupied(hash_map::OccupiedEntry { m: self, i, k }),
            None => hash_map::Entry::Vacant(hash_map::VacantEntry { m: self, k }),
        }
    }
}

impl<K: PartialEq, V> std::ops::Index<&K> for HashMap<K, V> {
    type Output = V;
    fn index(&self, k: &K) -> &V {
        self.get(k).expect("no entry found for key")
    }
}

impl<'a, K, V> IntoIterator for &'a HashMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = Iter<'a, K, V>;
    fn into_iter(self) -> Iter<'a, K, V> {
        self.iter()
    }
}
impl<'a, K, V> IntoIterator for &'a mut HashMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = IterMut<'a, K, V>;
    fn into_iter(self) -> IterMut<'a, K, V> {
        self.iter_mut()
    }
}

impl<K, V> IntoIterator for HashMap<K, V> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(self) -> IntoIter<K, V> {
        IntoIter { m: self }
    }
}
/// What is left of a table that is consumed.
pub struct IntoIter<K, V> {
    m: HashMap<K, V>,
}
impl<K, V> Iterator for IntoIter<K, V> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        if self.m.n == 0 {
            return None;
        }
        self.m.n -= 1;
        let i = self.m.n;
        Some(unsafe { (self.m.keys[i].assume_init_read(), self.m.vals[i].assume_init_read()) })
    }
}
impl<K: PartialEq, V> Extend<(K, V)> for HashMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) {
        for (k, v) in it {
            self.insert(k, v);
        }
    }
}
impl<K: PartialEq, V> std::iter::FromIterator<(K, V)> for HashMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self {
        let mut m = HashMap::new();
        m.extend(it);
        m
    }
}

pub mod hash_map {
    pub use super::{HashMap, IntoIter, Iter, IterMut};
    pub enum Entry<'a, K, V> {
        Occupied(OccupiedEntry<'a, K, V>),
        Vacant(VacantEntry<'a, K, V>),
    }
    impl<'a, K: PartialEq, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(v),
            }
        }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => e.insert(f()),
            }
        }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V {
            match self {
                Entry::Occupied(o) => o.into_mut(),
                Entry::Vacant(e) => {
                    let v = f(&e.k);
                    e.insert(v)
                }
            }
        }
        pub fn insert_entry(self, v: V) -> OccupiedEntry<'a, K, V>
        where
            K: Clone,
        {
            match self {
                Entry::Occupied(mut o) => {
                    o.insert(v);
                    o
                }
                Entry::Vacant(e) => {
                    let k = e.k.clone();
                    let i = e.m.put(e.k, v);
                    OccupiedEntry { m: e.m, i, k }
                }
            }
        }
        pub fn or_default(self) -> &'a mut V
        where
            V: Default,
        {
            self.or_insert_with(V::default)
        }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self {
            if let Entry::Occupied(o) = &mut self {
                f(o.get_mut())
            }
            self
        }
        pub fn key(&self) -> &K {
            match self {
                Entry::Occupied(o) => &o.k,
                Entry::Vacant(e) => &e.k,
            }
        }
    }
    pub struct OccupiedEntry<'a, K, V> {
        pub(super) m: &'a mut HashMap<K, V>,
        pub(super) i: usize,
        pub(super) k: K,
    }
    pub struct VacantEntry<'a, K, V> {
        pub(super) m: &'a mut HashMap<K, V>,
        pub(super) k: K,
    }
    impl<'a, K: PartialEq, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn get(&self) -> &V {
            self.m.val(self.i)
        }
        pub fn get_mut(&mut self) -> &mut V {
            self.m.val_mut(self.i)
        }
        pub fn into_mut(self) -> &'a mut V {
            self.m.val_mut(self.i)
        }
        pub fn insert(&mut self, v: V) -> V {
            std::mem::replace(self.get_mut(), v)
        }
        pub fn remove(self) -> V {
            self.m.del(self.i).1
        }
        pub fn remove_entry(self) -> (K, V) {
            self.m.del(self.i)
        }
    }
    impl<'a, K: PartialEq, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K {
            &self.k
        }
        pub fn into_key(self) -> K {
            self.k
        }
        pub fn insert(self, v: V) -> &'a mut V {
            let i = self.m.put(self.k, v);
            self.m.val_mut(i)
        }
    }
}

pub struct Iter<'a, K, V> {
    m: &'a HashMap<K, V>,
    i: usize,
}
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        if self.i < CAP && self.i < self.m.n {
            let i = self.i;
            self.i += 1;
            Some(unsafe { (self.m.keys[i].assume_init_ref(), self.m.vals[i].assume_init_ref()) })
        } else {
            self.i = CAP;
            None
        }
    }
}
pub struct IterMut<'a, K, V> {
    m: *mut HashMap<K, V>,
    i: usize,
    _p: std::marker::PhantomData<&'a mut (K, V)>,
}
impl<'a, K, V> Iterator for IterMut<'a, K, V> {
    type Item = (&'a K, &'a mut V);
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        let m: &'a mut HashMap<K, V> = unsafe { &mut *self.m };
        if self.i < CAP && self.i < m.n {
            let i = self.i;
            self.i += 1;
            Some(unsafe { (m.keys[i].assume_init_ref(), m.vals[i].assume_init_mut()) })
        } else {
            self.i = CAP;
            None
        }
    }
}

pub struct HashSet<K> {
    m: HashMap<K, ()>,
}
impl<K> std::fmt::Debug for HashSet<K> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("HashSet")
    }
}
impl<K> Default for HashSet<K> {
    fn default() -> Self {
        HashSet::new()
    }
}
impl<K> HashSet<K> {
    pub const fn new() -> Self {
        HashSet { m: HashMap::new() }
    }
    pub fn with_capacity(_n: usize) -> Self {
        HashSet::new()
    }
    pub fn len(&self) -> usize {
        self.m.len()
    }
    pub fn is_empty(&self) -> bool {
        self.m.is_empty()
    }
    pub fn clear(&mut self) {
        self.m.clear()
    }
    pub fn iter(&self) -> impl Iterator<Item = &K> + '_ {
        self.m.keys()
    }
}
impl<K: PartialEq> HashSet<K> {
    pub fn insert(&mut self, k: K) -> bool {
        if self.m.contains_key(&k) {
            false
        } else {
            self.m.insert(k, ());
            true
        }
    }
    pub fn contains(&self, k: &K) -> bool {
        self.m.contains_key(k)
    }
    pub fn remove(&mut self, k: &K) -> bool {
        self.m.remove(k).is_some()
    }
    pub fn get(&self, k: &K) -> Option<&K> {
        self.iter().find(|x| *x == k)
    }
    pub fn take(&mut self, k: &K) -> Option<K> {
        self.m.remove_entry(k).map(|x| x.0)
    }
    pub fn retain(&mut self, mut f: impl FnMut(&K) -> bool) {
        self.m.retain(|k, _| f(k))
    }
}
impl<K> IntoIterator for HashSet<K> {
    type Item = K;
    type IntoIter = std::iter::Map<IntoIter<K, ()>, fn((K, ())) -> K>;
    fn into_iter(self) -> Self::IntoIter {
        self.m.into_iter().map(|x| x.0)
    }
}
impl<K: PartialEq> Extend<K> for HashSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) {
        for k in it {
            self.insert(k);
        }
    }
}
