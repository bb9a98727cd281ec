//! `Vec` with inline storage for at most `MAX` elements (a bound of the exploration).  The logical
//! capacity follows the contract of `std`: at least what was asked for, never shrinking on its own.
//! The native builds (replays and histories) run the real `Vec`.
#[cfg(verif_replay)]
pub use std::vec::*;

#[cfg(not(verif_replay))]
pub use model::*;

#[cfg(not(verif_replay))]
mod model {
    use std::mem::MaybeUninit;
    use std::ops::{Deref, DerefMut};

    pub const MAX: usize = 4;

    pub struct Vec<T> {
        a: [MaybeUninit<T>; MAX],
        len: usize,
        cap: usize,
    }

    impl<T> Vec<T> {
        #[inline]
        pub const fn new() -> Vec<T> {
            Vec { a: [const { MaybeUninit::uninit() }; MAX], len: 0, cap: 0 }
        }
        #[inline]
        pub fn with_capacity(cap: usize) -> Vec<T> {
            Vec { a: [const { MaybeUninit::uninit() }; MAX], len: 0, cap }
        }
        #[inline]
        pub fn capacity(&self) -> usize {
            self.cap
        }
        #[inline]
        pub fn len(&self) -> usize {
            self.len
        }
        #[inline]
        pub fn is_empty(&self) -> bool {
            self.len == 0
        }
        pub fn reserve(&mut self, n: usize) {
            let need = self.len.checked_add(n).expect("capacity overflow");
            if need > self.cap {
                let dbl = self.cap.saturating_mul(2);
                self.cap = if dbl > need { dbl } else { need };
            }
        }
        pub fn reserve_exact(&mut self, n: usize) {
            self.reserve(n)
        }
        pub fn shrink_to_fit(&mut self) {
            self.cap = self.len
        }
        /// (The contract of `std`: at least the length and what was asked for; never more than before.)
        pub fn shrink_to(&mut self, n: usize) {
            let want = if n > self.len { n } else { self.len };
            if want < self.cap {
                self.cap = want
            }
        }
        pub fn try_reserve(&mut self, n: usize) -> Result<(), std::collections::TryReserveError> {
            self.reserve(n);
            Ok(())
        }
        pub fn try_reserve_exact(&mut self, n: usize) -> Result<(), std::collections::TryReserveError> {
            self.reserve_exact(n);
            Ok(())
        }
        pub fn pop_if(&mut self, f: impl FnOnce(&mut T) -> bool) -> Option<T> {
            match self.last_mut() {
                Some(x) => {
                    if f(x) {
                        self.pop()
                    } else {
                        None
                    }
                }
                None => None,
            }
        }
        pub fn resize_with(&mut self, n: usize, mut f: impl FnMut() -> T) {
            self.truncate(n);
            while self.len < n {
                self.push(f());
            }
        }
        pub fn dedup_by(&mut self, mut f: impl FnMut(&mut T, &mut T) -> bool) {
            let mut i = 1;
            while i < self.len {
                let (a, b) = self.split_at_mut(i);
                if f(&mut b[0], &mut a[i - 1]) {
                    drop(self.remove(i));
                } else {
                    i += 1;
                }
            }
        }
        pub fn dedup_by_key<K: PartialEq>(&mut self, mut f: impl FnMut(&mut T) -> K) {
            self.dedup_by(|a, b| f(a) == f(b))
        }
        pub fn dedup(&mut self)
        where
            T: PartialEq,
        {
            self.dedup_by(|a, b| a == b)
        }
        pub fn extend_from_within(&mut self, r: impl std::ops::RangeBounds<usize>)
        where
            T: Clone,
        {
            let (mut i, b) = self.bounds(r);
            while i < b {
                let x = self[i].clone();
                self.push(x);
                i += 1;
            }
        }
        /// (Replaces the range at once.)
        pub fn splice<I: IntoIterator<Item = T>>(
            &mut self,
            r: impl std::ops::RangeBounds<usize>,
            with: I,
        ) -> IntoIter<T> {
            let (a, b) = self.bounds(r);
            let tail = self.split_off(b);
            let old = self.split_off(a);
            self.extend(with);
            self.extend(tail);
            old.into_iter()
        }
        pub fn extract_if<F: FnMut(&mut T) -> bool>(
            &mut self,
            r: impl std::ops::RangeBounds<usize>,
            mut f: F,
        ) -> IntoIter<T> {
            let (mut i, mut b) = self.bounds(r);
            let mut v = Vec::new();
            while i < b {
                if f(&mut self[i]) {
                    v.push(self.remove(i));
                    b -= 1;
                } else {
                    i += 1;
                }
            }
            v.into_iter()
        }
        pub fn into_boxed_slice(self) -> Box<[T]> {
            self.into_iter().collect()
        }
        pub fn from_elem(x: T, n: usize) -> Vec<T>
        where
            T: Clone,
        {
            let mut v = Vec::with_capacity(n);
            v.resize(n, x);
            v
        }
        fn bounds(&self, r: impl std::ops::RangeBounds<usize>) -> (usize, usize) {
            use std::ops::Bound::*;
            let a = match r.start_bound() {
                Included(x) => *x,
                Excluded(x) => *x + 1,
                Unbounded => 0,
            };
            let b = match r.end_bound() {
                Included(x) => *x + 1,
                Excluded(x) => *x,
                Unbounded => self.len,
            };
            assert!(a <= b && b <= self.len, "range out of bounds");
            (a, b)
        }
        #[inline]
        pub fn push(&mut self, v: T) {
            ghost::nd::assume(self.len < MAX);
            if self.len == self.cap {
                self.reserve(1)
            }
            self.a[self.len] = MaybeUninit::new(v);
            self.len += 1;
        }
        pub fn pop(&mut self) -> Option<T> {
            if self.len == 0 {
                None
            } else {
                self.len -= 1;
                Some(unsafe { self.a[self.len].assume_init_read() })
            }
        }
        pub fn swap_remove(&mut self, i: usize) -> T {
            assert!(i < self.len, "swap_remove index out of range");
            let last = self.len - 1;
            unsafe {
                let v = self.a[i].assume_init_read();
                if i != last {
                    let l = self.a[last].assume_init_read();
                    self.a[i] = MaybeUninit::new(l);
                }
                self.len = last;
                v
            }
        }
        pub fn remove(&mut self, i: usize) -> T {
            assert!(i < self.len, "removal index out of range");
            unsafe {
                let v = self.a[i].assume_init_read();
                let mut j = i;
                while j + 1 < MAX {
                    if j + 1 < self.len {
                        let l = self.a[j + 1].assume_init_read();
                        self.a[j] = MaybeUninit::new(l);
                    }
                    j += 1;
                }
                self.len -= 1;
                v
            }
        }
        pub fn insert(&mut self, i: usize, v: T) {
            assert!(i <= self.len);
            ghost::nd::assume(self.len < MAX);
            if self.len == self.cap {
                self.reserve(1)
            }
            unsafe {
                let mut j = MAX - 1;
                while j > 0 {
                    if j > i && j <= self.len {
                        let l = self.a[j - 1].assume_init_read();
                        self.a[j] = MaybeUninit::new(l);
                    }
                    j -= 1;
                }
            }
            self.a[i] = MaybeUninit::new(v);
            self.len += 1;
        }
        pub fn truncate(&mut self, n: usize) {
            while self.len > n {
                drop(self.pop());
            }
        }
        #[inline]
        pub fn clear(&mut self) {
            if std::mem::needs_drop::<T>() {
                self.truncate(0)
            }
            self.len = 0;
        }
        pub fn retain(&mut self, mut f: impl FnMut(&T) -> bool) {
            let mut i = 0;
            while i < self.len {
                if f(&self[i]) {
                    i += 1;
                } else {
                    drop(self.remove(i));
                }
            }
        }
        pub fn retain_mut(&mut self, mut f: impl FnMut(&mut T) -> bool) {
            let mut i = 0;
            while i < self.len {
                if f(&mut self[i]) {
                    i += 1;
                } else {
                    drop(self.remove(i));
                }
            }
        }
        pub fn append(&mut self, o: &mut Vec<T>) {
            self.extend(std::mem::take(o))
        }
        pub fn split_off(&mut self, at: usize) -> Vec<T> {
            let mut v = Vec::new();
            while self.len > at {
                v.push(self.remove(at));
            }
            v
        }
        /// (Removes the range at once.)
        pub fn drain(&mut self, r: impl std::ops::RangeBounds<usize>) -> IntoIter<T> {
            let (a, b) = self.bounds(r);
            let mut v = Vec::new();
            let mut i = a;
            while i < b {
                v.push(self.remove(a));
                i += 1;
            }
            v.into_iter()
        }
        pub fn resize(&mut self, n: usize, x: T)
        where
            T: Clone,
        {
            self.truncate(n);
            while self.len < n {
                self.push(x.clone());
            }
        }
        pub fn extend_from_slice(&mut self, s: &[T])
        where
            T: Clone,
        {
            let mut i = 0;
            while i < s.len() {
                self.push(s[i].clone());
                i += 1;
            }
        }
        /// (An iterator with a fixed upper bound instead of the pointer pair of a slice iterator.)
        #[inline]
        pub fn iter(&self) -> Iter<'_, T> {
            Iter { v: self, i: 0, end: self.len }
        }
        #[inline]
        pub fn iter_mut(&mut self) -> IterMut<'_, T> {
            let end = self.len;
            IterMut { v: self, i: 0, end, _p: std::marker::PhantomData }
        }
        pub fn get(&self, i: usize) -> Option<&T> {
            if i < self.len {
                Some(unsafe { self.a[i].assume_init_ref() })
            } else {
                None
            }
        }
        pub fn get_mut(&mut self, i: usize) -> Option<&mut T> {
            if i < self.len {
                Some(unsafe { self.a[i].assume_init_mut() })
            } else {
                None
            }
        }
        pub fn as_slice(&self) -> &[T] {
            self
        }
        pub fn as_mut_slice(&mut self) -> &mut [T] {
            self
        }
        pub fn from_array<const N: usize>(arr: [T; N]) -> Vec<T> {
            let arr = std::mem::ManuallyDrop::new(arr);
            let mut v = Vec::with_capacity(N);
            let mut i = 0;
            while i < N {
                v.push(unsafe { std::ptr::read(&arr[i]) });
                i += 1;
            }
            v
        }
        pub unsafe fn set_len(&mut self, n: usize) {
            self.len = n
        }
    }

    impl<T> Drop for Vec<T> {
        #[inline]
        fn drop(&mut self) {
            if std::mem::needs_drop::<T>() {
                self.truncate(0)
            }
        }
    }
    impl<T> Deref for Vec<T> {
        type Target = [T];
        #[inline]
        fn deref(&self) -> &[T] {
            unsafe { std::slice::from_raw_parts(self.a.as_ptr() as *const T, self.len) }
        }
    }
    impl<T> DerefMut for Vec<T> {
        #[inline]
        fn deref_mut(&mut self) -> &mut [T] {
            unsafe { std::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.len) }
        }
    }
    impl<T> Default for Vec<T> {
        fn default() -> Self {
            Vec::new()
        }
    }
    impl<T> AsRef<[T]> for Vec<T> {
        fn as_ref(&self) -> &[T] {
            self
        }
    }
    impl<T> AsMut<[T]> for Vec<T> {
        fn as_mut(&mut self) -> &mut [T] {
            self
        }
    }
    impl<T> std::fmt::Debug for Vec<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("Vec")
        }
    }
    impl<T: Clone> Clone for Vec<T> {
        fn clone(&self) -> Self {
            let mut v = Vec::with_capacity(self.len);
            v.extend_from_slice(self);
            v
        }
    }
    pub struct Iter<'a, T> {
        v: &'a Vec<T>,
        i: usize,
        end: usize,
    }
    impl<'a, T> Iterator for Iter<'a, T> {
        type Item = &'a T;
        #[inline]
        fn next(&mut self) -> Option<&'a T> {
            if self.i < MAX && self.i < self.end {
                let i = self.i;
                self.i += 1;
                Some(unsafe { self.v.a[i].assume_init_ref() })
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.end.saturating_sub(self.i);
            (n, Some(n))
        }
    }
    impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
        fn next_back(&mut self) -> Option<&'a T> {
            if self.i < self.end {
                self.end -= 1;
                Some(unsafe { self.v.a[self.end].assume_init_ref() })
            } else {
                None
            }
        }
    }
    impl<'a, T> ExactSizeIterator for Iter<'a, T> {}
    impl<'a, T> Clone for Iter<'a, T> {
        fn clone(&self) -> Self {
            Iter { v: self.v, i: self.i, end: self.end }
        }
    }
    pub struct IterMut<'a, T> {
        v: *mut Vec<T>,
        i: usize,
        end: usize,
        _p: std::marker::PhantomData<&'a mut T>,
    }
    impl<'a, T> Iterator for IterMut<'a, T> {
        type Item = &'a mut T;
        #[inline]
        fn next(&mut self) -> Option<&'a mut T> {
            let v: &'a mut Vec<T> = unsafe { &mut *self.v };
            if self.i < MAX && self.i < self.end {
                let i = self.i;
                self.i += 1;
                Some(unsafe { v.a[i].assume_init_mut() })
            } else {
                None
            }
        }
        fn size_hint(&self) -> (usize, Option<usize>) {
            let n = self.end.saturating_sub(self.i);
            (n, Some(n))
        }
    }
    impl<'a, T> DoubleEndedIterator for IterMut<'a, T> {
        fn next_back(&mut self) -> Option<&'a mut T> {
            let v: &'a mut Vec<T> = unsafe { &mut *self.v };
            if self.i < self.end {
                self.end -= 1;
                Some(unsafe { v.a[self.end].assume_init_mut() })
            } else {
                None
            }
        }
    }
    impl<'a, T> ExactSizeIterator for IterMut<'a, T> {}
    impl<T: PartialEq> PartialEq for Vec<T> {
        fn eq(&self, o: &Vec<T>) -> bool {
            self[..] == o[..]
        }
    }
    impl<T: Eq> Eq for Vec<T> {}
    impl<'a, T: Copy + 'a> Extend<&'a T> for Vec<T> {
        fn extend<I: IntoIterator<Item = &'a T>>(&mut self, it: I) {
            for x in it {
                self.push(*x)
            }
        }
    }
    impl<T, const N: usize> From<[T; N]> for Vec<T> {
        fn from(a: [T; N]) -> Vec<T> {
            Vec::from_array(a)
        }
    }
    impl<T: Clone> From<&[T]> for Vec<T> {
        fn from(a: &[T]) -> Vec<T> {
            let mut v = Vec::new();
            v.extend_from_slice(a);
            v
        }
    }
    impl<'a, T> IntoIterator for &'a Vec<T> {
        type Item = &'a T;
        type IntoIter = Iter<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter()
        }
    }
    impl<'a, T> IntoIterator for &'a mut Vec<T> {
        type Item = &'a mut T;
        type IntoIter = IterMut<'a, T>;
        fn into_iter(self) -> Self::IntoIter {
            self.iter_mut()
        }
    }
    pub struct IntoIter<T> {
        v: Vec<T>,
        i: usize,
    }
    impl<T> Iterator for IntoIter<T> {
        type Item = T;
        fn next(&mut self) -> Option<T> {
            if self.i < self.v.len {
                self.i += 1;
                Some(unsafe { self.v.a[self.i - 1].assume_init_read() })
            } else {
                self.v.len = 0;
                None
            }
        }
    }
    impl<T> IntoIterator for Vec<T> {
        type Item = T;
        type IntoIter = IntoIter<T>;
        fn into_iter(self) -> IntoIter<T> {
            IntoIter { v: self, i: 0 }
        }
    }
    impl<T> Extend<T> for Vec<T> {
        fn extend<I: IntoIterator<Item = T>>(&mut self, it: I) {
            for x in it {
                self.push(x)
            }
        }
    }
    impl<T> std::iter::FromIterator<T> for Vec<T> {
        fn from_iter<I: IntoIterator<Item = T>>(it: I) -> Self {
            let mut v = Vec::new();
            v.extend(it);
            v
        }
    }
}
