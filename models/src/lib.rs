//! What the analysis knows about the standard library and `text-size`: small reference bodies, dumped
//! by the same driver as the analysed crate and interpreted in place of the real functions.
//! `rules/names.py` maps the real names to these. Never executed.
#![feature(try_trait_v2)]
#![allow(dead_code, clippy::all)]

/// Interpreted by the engine, not by these bodies.
pub mod prim {
    pub fn slice_elem<T>(_s: &[T], _i: usize) -> &T {
        loop {}
    }
    pub fn slice_len<T>(_s: &[T]) -> usize {
        loop {}
    }
    pub fn vec_empty<T>() -> Vec<T> {
        loop {}
    }
    pub fn vec_push<T>(_v: &mut Vec<T>, _x: T) {
        loop {}
    }
    pub fn vec_elem<T>(_v: &mut Vec<T>, _i: usize) -> T {
        loop {}
    }
    pub fn panic_option() -> ! {
        loop {}
    }
    pub fn panic_range() -> ! {
        loop {}
    }
}

pub mod option {
    use super::prim::panic_option;
    pub fn map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> {
        match o {
            Some(x) => Some(f(x)),
            None => None,
        }
    }
    pub fn and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> {
        match o {
            Some(x) => f(x),
            None => None,
        }
    }
    pub fn and<T, U>(o: Option<T>, b: Option<U>) -> Option<U> {
        match o {
            Some(_) => b,
            None => None,
        }
    }
    pub fn or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> {
        match o {
            Some(x) => Some(x),
            None => f(),
        }
    }
    pub fn or<T>(o: Option<T>, b: Option<T>) -> Option<T> {
        match o {
            Some(x) => Some(x),
            None => b,
        }
    }
    pub fn unwrap<T>(o: Option<T>) -> T {
        match o {
            Some(x) => x,
            None => panic_option(),
        }
    }
    pub fn expect<T>(o: Option<T>, _m: &str) -> T {
        match o {
            Some(x) => x,
            None => panic_option(),
        }
    }
    pub fn unwrap_or<T>(o: Option<T>, d: T) -> T {
        match o {
            Some(x) => x,
            None => d,
        }
    }
    pub fn unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T {
        match o {
            Some(x) => x,
            None => f(),
        }
    }
    pub fn unwrap_or_default<T: Default>(o: Option<T>) -> T {
        match o {
            Some(x) => x,
            None => T::default(),
        }
    }
    pub fn map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U {
        match o {
            Some(x) => f(x),
            None => d,
        }
    }
    pub fn map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U {
        match o {
            Some(x) => f(x),
            None => d(),
        }
    }
    pub fn is_some<T>(o: &Option<T>) -> bool {
        match o {
            Some(_) => true,
            None => false,
        }
    }
    pub fn is_none<T>(o: &Option<T>) -> bool {
        match o {
            Some(_) => false,
            None => true,
        }
    }
    pub fn is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o {
            Some(x) => f(x),
            None => false,
        }
    }
    pub fn is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool {
        match o {
            Some(x) => f(x),
            None => true,
        }
    }
    pub fn as_ref<T>(o: &Option<T>) -> Option<&T> {
        match o {
            Some(x) => Some(x),
            None => None,
        }
    }
    pub fn as_mut<T>(o: &mut Option<T>) -> Option<&mut T> {
        match o {
            Some(x) => Some(x),
            None => None,
        }
    }
    pub fn as_deref<T: core::ops::Deref>(o: &Option<T>) -> Option<&T::Target> {
        match o {
            Some(x) => Some(x.deref()),
            None => None,
        }
    }
    pub fn take<T>(o: &mut Option<T>) -> Option<T> {
        core::mem::replace(o, None)
    }
    pub fn replace<T>(o: &mut Option<T>, x: T) -> Option<T> {
        core::mem::replace(o, Some(x))
    }
    pub fn insert<T>(o: &mut Option<T>, x: T) -> &mut T {
        *o = Some(x);
        match o {
            Some(x) => x,
            None => panic_option(),
        }
    }
    pub fn take_if<T, P: FnOnce(&mut T) -> bool>(o: &mut Option<T>, p: P) -> Option<T> {
        let t = match o {
            Some(x) => p(x),
            None => false,
        };
        if t { core::mem::replace(o, None) } else { None }
    }
    pub fn get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
        if let None = o {
            *o = Some(f());
        }
        match o {
            Some(x) => x,
            None => panic_option(),
        }
    }
    pub fn filter<T, P: FnOnce(&T) -> bool>(o: Option<T>, p: P) -> Option<T> {
        match o {
            Some(x) => {
                if p(&x) {
                    Some(x)
                } else {
                    None
                }
            }
            None => None,
        }
    }
    pub fn flatten<T>(o: Option<Option<T>>) -> Option<T> {
        match o {
            Some(x) => x,
            None => None,
        }
    }
    pub fn inspect<T, F: FnOnce(&T)>(o: Option<T>, f: F) -> Option<T> {
        match o {
            Some(x) => {
                f(&x);
                Some(x)
            }
            None => None,
        }
    }
    pub fn ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> {
        match o {
            Some(x) => Ok(x),
            None => Err(e),
        }
    }
    pub fn ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> {
        match o {
            Some(x) => Ok(x),
            None => Err(f()),
        }
    }
    pub fn zip<T, U>(o: Option<T>, b: Option<U>) -> Option<(T, U)> {
        match (o, b) {
            (Some(x), Some(y)) => Some((x, y)),
            _ => None,
        }
    }
    pub fn copied<T: Copy>(o: Option<&T>) -> Option<T> {
        match o {
            Some(x) => Some(*x),
            None => None,
        }
    }
    pub fn cloned<T: Clone>(o: Option<&T>) -> Option<T> {
        match o {
            Some(x) => Some(x.clone()),
            None => None,
        }
    }
    pub fn clone<T: Clone>(o: &Option<T>) -> Option<T> {
        match o {
            Some(x) => Some(x.clone()),
            None => None,
        }
    }
    pub fn eq<T: PartialEq>(o: &Option<T>, b: &Option<T>) -> bool {
        match (o, b) {
            (Some(x), Some(y)) => x.eq(y),
            (None, None) => true,
            _ => false,
        }
    }
    pub fn into_iter<T>(o: Option<T>) -> super::OptIter<T> {
        super::OptIter { o }
    }
    pub fn branch<T>(o: Option<T>) -> core::ops::ControlFlow<Option<core::convert::Infallible>, T> {
        match o {
            Some(x) => core::ops::ControlFlow::Continue(x),
            None => core::ops::ControlFlow::Break(None),
        }
    }
    pub fn from_residual<T>(_o: Option<core::convert::Infallible>) -> Option<T> {
        None
    }
    pub fn from_output<T>(x: T) -> Option<T> {
        Some(x)
    }
}

pub mod boolean {
    pub fn then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> {
        if b { Some(f()) } else { None }
    }
    pub fn then_some<T>(b: bool, x: T) -> Option<T> {
        if b { Some(x) } else { None }
    }
}

pub mod result {
    use super::prim::panic_option;
    pub fn is_ok<T, E>(r: &Result<T, E>) -> bool {
        match r {
            Ok(_) => true,
            Err(_) => false,
        }
    }
    pub fn is_err<T, E>(r: &Result<T, E>) -> bool {
        match r {
            Ok(_) => false,
            Err(_) => true,
        }
    }
    pub fn ok<T, E>(r: Result<T, E>) -> Option<T> {
        match r {
            Ok(x) => Some(x),
            Err(_) => None,
        }
    }
    pub fn err<T, E>(r: Result<T, E>) -> Option<E> {
        match r {
            Ok(_) => None,
            Err(e) => Some(e),
        }
    }
    pub fn map<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, f: F) -> Result<U, E> {
        match r {
            Ok(x) => Ok(f(x)),
            Err(e) => Err(e),
        }
    }
    pub fn map_err<T, E, G, F: FnOnce(E) -> G>(r: Result<T, E>, f: F) -> Result<T, G> {
        match r {
            Ok(x) => Ok(x),
            Err(e) => Err(f(e)),
        }
    }
    pub fn and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(r: Result<T, E>, f: F) -> Result<U, E> {
        match r {
            Ok(x) => f(x),
            Err(e) => Err(e),
        }
    }
    pub fn and<T, E, U>(r: Result<T, E>, b: Result<U, E>) -> Result<U, E> {
        match r {
            Ok(_) => b,
            Err(e) => Err(e),
        }
    }
    pub fn unwrap<T, E>(r: Result<T, E>) -> T {
        match r {
            Ok(x) => x,
            Err(_) => panic_option(),
        }
    }
    pub fn expect<T, E>(r: Result<T, E>, _m: &str) -> T {
        match r {
            Ok(x) => x,
            Err(_) => panic_option(),
        }
    }
    pub fn unwrap_or<T, E>(r: Result<T, E>, d: T) -> T {
        match r {
            Ok(x) => x,
            Err(_) => d,
        }
    }
    pub fn unwrap_or_else<T, E, F: FnOnce(E) -> T>(r: Result<T, E>, f: F) -> T {
        match r {
            Ok(x) => x,
            Err(e) => f(e),
        }
    }
    pub fn map_or<T, E, U, F: FnOnce(T) -> U>(r: Result<T, E>, d: U, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(_) => d,
        }
    }
    pub fn map_or_else<T, E, U, D: FnOnce(E) -> U, F: FnOnce(T) -> U>(r: Result<T, E>, d: D, f: F) -> U {
        match r {
            Ok(x) => f(x),
            Err(e) => d(e),
        }
    }
    pub fn branch<T, E>(r: Result<T, E>) -> core::ops::ControlFlow<Result<core::convert::Infallible, E>, T> {
        match r {
            Ok(x) => core::ops::ControlFlow::Continue(x),
            Err(e) => core::ops::ControlFlow::Break(Err(e)),
        }
    }
    pub fn from_residual<T, E, F: From<E>>(r: Result<core::convert::Infallible, E>) -> Result<T, F> {
        match r {
            Ok(_) => panic_option(),
            Err(e) => Err(F::from(e)),
        }
    }
    pub fn from_output<T, E>(x: T) -> Result<T, E> {
        Ok(x)
    }
}

// ---------------------------------------------------------------- iterators

pub struct OptIter<T> {
    o: Option<T>,
}
impl<T> Iterator for OptIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        core::mem::replace(&mut self.o, None)
    }
}
impl<T> DoubleEndedIterator for OptIter<T> {
    fn next_back(&mut self) -> Option<T> {
        core::mem::replace(&mut self.o, None)
    }
}
impl<T> ExactSizeIterator for OptIter<T> {
    fn len(&self) -> usize {
        match &self.o {
            Some(_) => 1,
            None => 0,
        }
    }
}

pub struct SliceIter<'a, T> {
    s: &'a [T],
    lo: usize,
    hi: usize,
}
impl<'a, T> Iterator for SliceIter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.lo < self.hi {
            let r = prim::slice_elem(self.s, self.lo);
            self.lo += 1;
            Some(r)
        } else {
            None
        }
    }
    fn nth(&mut self, n: usize) -> Option<&'a T> {
        if self.lo + n < self.hi {
            let r = prim::slice_elem(self.s, self.lo + n);
            self.lo += n + 1;
            Some(r)
        } else {
            self.lo = self.hi;
            None
        }
    }
    fn count(self) -> usize {
        self.hi - self.lo
    }
    fn last(mut self) -> Option<&'a T> {
        self.next_back()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.hi - self.lo;
        (n, Some(n))
    }
}
impl<'a, T> DoubleEndedIterator for SliceIter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.lo < self.hi {
            self.hi -= 1;
            Some(prim::slice_elem(self.s, self.hi))
        } else {
            None
        }
    }
    fn nth_back(&mut self, n: usize) -> Option<&'a T> {
        if self.lo + n < self.hi {
            self.hi -= n + 1;
            Some(prim::slice_elem(self.s, self.hi))
        } else {
            self.hi = self.lo;
            None
        }
    }
}
impl<'a, T> ExactSizeIterator for SliceIter<'a, T> {
    fn len(&self) -> usize {
        self.hi - self.lo
    }
}
impl<'a, T> SliceIter<'a, T> {
    pub fn as_slice(&self) -> &'a [T] {
        slice::subslice(self.s, self.lo, self.hi)
    }
}
impl<'a, T> Clone for SliceIter<'a, T> {
    fn clone(&self) -> Self {
        SliceIter { s: self.s, lo: self.lo, hi: self.hi }
    }
}

pub mod slice {
    use super::{SliceIter, prim};
    pub fn iter<T>(s: &[T]) -> SliceIter<'_, T> {
        SliceIter { s, lo: 0, hi: prim::slice_len(s) }
    }
    pub fn into_iter<T>(s: &[T]) -> SliceIter<'_, T> {
        SliceIter { s, lo: 0, hi: prim::slice_len(s) }
    }
    pub fn len<T>(s: &[T]) -> usize {
        prim::slice_len(s)
    }
    pub fn is_empty<T>(s: &[T]) -> bool {
        prim::slice_len(s) == 0
    }
    pub fn first<T>(s: &[T]) -> Option<&T> {
        if prim::slice_len(s) == 0 { None } else { Some(prim::slice_elem(s, 0)) }
    }
    pub fn last<T>(s: &[T]) -> Option<&T> {
        let n = prim::slice_len(s);
        if n == 0 { None } else { Some(prim::slice_elem(s, n - 1)) }
    }
    /// `get` with an index
    pub fn get_usize<T>(s: &[T], i: usize) -> Option<&T> {
        if i < prim::slice_len(s) { Some(prim::slice_elem(s, i)) } else { None }
    }
    pub fn index_usize<T>(s: &[T], i: usize) -> &T {
        if i < prim::slice_len(s) { prim::slice_elem(s, i) } else { prim::panic_range() }
    }
    /// intrinsic
    pub fn subslice<T>(_s: &[T], _lo: usize, _hi: usize) -> &[T] {
        loop {}
    }
    /// any answer is possible, the comparator is called on some elements
    pub fn binary_search_by<T, F: FnMut(&T) -> core::cmp::Ordering>(s: &[T], mut f: F) -> Result<usize, usize> {
        let n = prim::slice_len(s);
        let i = any_index(n);
        if i < n {
            match f(prim::slice_elem(s, i)) {
                core::cmp::Ordering::Equal => return Ok(i),
                _ => (),
            }
        }
        Err(any_upto(n))
    }
    pub fn partition_point<T, F: FnMut(&T) -> bool>(s: &[T], mut f: F) -> usize {
        let n = prim::slice_len(s);
        let i = any_upto(n);
        if i < n {
            if f(prim::slice_elem(s, i)) {
                super::unreached()
            }
        }
        if i > 0 {
            if !f(prim::slice_elem(s, i - 1)) {
                super::unreached()
            }
        }
        i
    }
    /// intrinsic: some index below n
    pub fn any_index(_n: usize) -> usize {
        loop {}
    }
    /// intrinsic: some index up to n
    pub fn any_upto(_n: usize) -> usize {
        loop {}
    }
}
/// intrinsic: this path cannot happen
pub fn unreached() -> ! {
    loop {}
}

pub struct Enumerate<I> {
    i: I,
    n: usize,
}
impl<I: Iterator> Iterator for Enumerate<I> {
    type Item = (usize, I::Item);
    fn next(&mut self) -> Option<(usize, I::Item)> {
        match self.i.next() {
            Some(x) => {
                let n = self.n;
                self.n += 1;
                Some((n, x))
            }
            None => None,
        }
    }
    fn nth(&mut self, k: usize) -> Option<(usize, I::Item)> {
        match self.i.nth(k) {
            Some(x) => {
                let n = self.n + k;
                self.n = n + 1;
                Some((n, x))
            }
            None => None,
        }
    }
    fn count(self) -> usize {
        self.i.count()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.i.size_hint()
    }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> DoubleEndedIterator for Enumerate<I> {
    fn next_back(&mut self) -> Option<(usize, I::Item)> {
        match self.i.next_back() {
            Some(x) => Some((self.n + self.i.len(), x)),
            None => None,
        }
    }
    fn nth_back(&mut self, k: usize) -> Option<(usize, I::Item)> {
        match self.i.nth_back(k) {
            Some(x) => Some((self.n + self.i.len(), x)),
            None => None,
        }
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Enumerate<I> {
    fn len(&self) -> usize {
        self.i.len()
    }
}

pub struct Rev<I> {
    i: I,
}
impl<I: DoubleEndedIterator> Iterator for Rev<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.i.next_back()
    }
    fn nth(&mut self, k: usize) -> Option<I::Item> {
        self.i.nth_back(k)
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.i.size_hint()
    }
}
impl<I: DoubleEndedIterator> DoubleEndedIterator for Rev<I> {
    fn next_back(&mut self) -> Option<I::Item> {
        self.i.next()
    }
    fn nth_back(&mut self, k: usize) -> Option<I::Item> {
        self.i.nth(k)
    }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> ExactSizeIterator for Rev<I> {
    fn len(&self) -> usize {
        self.i.len()
    }
}

pub struct Skip<I> {
    i: I,
    n: usize,
}
impl<I: Iterator> Iterator for Skip<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        let n = self.n;
        if n > 0 {
            self.n = 0;
            self.i.nth(n)
        } else {
            self.i.next()
        }
    }
    fn nth(&mut self, k: usize) -> Option<I::Item> {
        let n = self.n;
        self.n = 0;
        self.i.nth(n + k)
    }
    fn find_map<B, F: FnMut(I::Item) -> Option<B>>(&mut self, f: F) -> Option<B> {
        if self.n > 0 {
            let n = self.n;
            self.n = 0;
            if let None = self.i.nth(n - 1) {
                return None;
            }
        }
        self.i.find_map(f)
    }
    fn find<P: FnMut(&I::Item) -> bool>(&mut self, p: P) -> Option<I::Item> {
        if self.n > 0 {
            let n = self.n;
            self.n = 0;
            if let None = self.i.nth(n - 1) {
                return None;
            }
        }
        self.i.find(p)
    }
}
impl<I: ExactSizeIterator + DoubleEndedIterator> DoubleEndedIterator for Skip<I> {
    fn next_back(&mut self) -> Option<I::Item> {
        if self.i.len() > self.n { self.i.next_back() } else { None }
    }
}
impl<I: ExactSizeIterator> ExactSizeIterator for Skip<I> {
    fn len(&self) -> usize {
        let l = self.i.len();
        if l > self.n { l - self.n } else { 0 }
    }
}

pub struct Take<I> {
    i: I,
    n: usize,
}
impl<I: Iterator> Iterator for Take<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.n > 0 {
            self.n -= 1;
            self.i.next()
        } else {
            None
        }
    }
}

pub struct Map<I, F> {
    i: I,
    f: F,
}
impl<B, I: Iterator, F: FnMut(I::Item) -> B> Iterator for Map<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() {
            Some(x) => Some((self.f)(x)),
            None => None,
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.i.size_hint()
    }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> B> DoubleEndedIterator for Map<I, F> {
    fn next_back(&mut self) -> Option<B> {
        match self.i.next_back() {
            Some(x) => Some((self.f)(x)),
            None => None,
        }
    }
}
impl<B, I: ExactSizeIterator, F: FnMut(I::Item) -> B> ExactSizeIterator for Map<I, F> {
    fn len(&self) -> usize {
        self.i.len()
    }
}

pub struct Filter<I, P> {
    i: I,
    p: P,
}
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for Filter<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        while let Some(x) = self.i.next() {
            if (self.p)(&x) {
                return Some(x);
            }
        }
        None
    }
}
impl<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool> DoubleEndedIterator for Filter<I, P> {
    fn next_back(&mut self) -> Option<I::Item> {
        while let Some(x) = self.i.next_back() {
            if (self.p)(&x) {
                return Some(x);
            }
        }
        None
    }
}

pub struct FilterMap<I, F> {
    i: I,
    f: F,
}
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for FilterMap<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        while let Some(x) = self.i.next() {
            if let Some(y) = (self.f)(x) {
                return Some(y);
            }
        }
        None
    }
}
impl<B, I: DoubleEndedIterator, F: FnMut(I::Item) -> Option<B>> DoubleEndedIterator for FilterMap<I, F> {
    fn next_back(&mut self) -> Option<B> {
        while let Some(x) = self.i.next_back() {
            if let Some(y) = (self.f)(x) {
                return Some(y);
            }
        }
        None
    }
}

pub struct MapWhile<I, F> {
    i: I,
    f: F,
}
impl<B, I: Iterator, F: FnMut(I::Item) -> Option<B>> Iterator for MapWhile<I, F> {
    type Item = B;
    fn next(&mut self) -> Option<B> {
        match self.i.next() {
            Some(x) => (self.f)(x),
            None => None,
        }
    }
}

pub struct TakeWhile<I, P> {
    i: I,
    done: bool,
    p: P,
}
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for TakeWhile<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.done {
            return None;
        }
        match self.i.next() {
            Some(x) => {
                if (self.p)(&x) {
                    Some(x)
                } else {
                    self.done = true;
                    None
                }
            }
            None => None,
        }
    }
}

pub struct SkipWhile<I, P> {
    i: I,
    started: bool,
    p: P,
}
impl<I: Iterator, P: FnMut(&I::Item) -> bool> Iterator for SkipWhile<I, P> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        if self.started {
            return self.i.next();
        }
        while let Some(x) = self.i.next() {
            if !(self.p)(&x) {
                self.started = true;
                return Some(x);
            }
        }
        None
    }
}

pub struct Zip<A, B> {
    a: A,
    b: B,
}
impl<A: Iterator, B: Iterator> Iterator for Zip<A, B> {
    type Item = (A::Item, B::Item);
    fn next(&mut self) -> Option<(A::Item, B::Item)> {
        match self.a.next() {
            Some(x) => match self.b.next() {
                Some(y) => Some((x, y)),
                None => None,
            },
            None => None,
        }
    }
}

pub struct Chain<A, B> {
    a: Option<A>,
    b: B,
}
impl<A: Iterator, B: Iterator<Item = A::Item>> Iterator for Chain<A, B> {
    type Item = A::Item;
    fn next(&mut self) -> Option<A::Item> {
        if let Some(a) = &mut self.a {
            match a.next() {
                Some(x) => return Some(x),
                None => self.a = None,
            }
        }
        self.b.next()
    }
}

pub struct Cloned<I> {
    i: I,
}
impl<'a, T: Clone + 'a, I: Iterator<Item = &'a T>> Iterator for Cloned<I> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match self.i.next() {
            Some(x) => Some(x.clone()),
            None => None,
        }
    }
}
impl<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>> DoubleEndedIterator for Cloned<I> {
    fn next_back(&mut self) -> Option<T> {
        match self.i.next_back() {
            Some(x) => Some(x.clone()),
            None => None,
        }
    }
}
impl<'a, T: Clone + 'a, I: ExactSizeIterator<Item = &'a T>> ExactSizeIterator for Cloned<I> {
    fn len(&self) -> usize {
        self.i.len()
    }
}

pub struct Inspect<I, F> {
    i: I,
    f: F,
}
impl<I: Iterator, F: FnMut(&I::Item)> Iterator for Inspect<I, F> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.i.next() {
            Some(x) => {
                (self.f)(&x);
                Some(x)
            }
            None => None,
        }
    }
}

pub struct Fuse<I> {
    i: Option<I>,
}
impl<I: Iterator> Iterator for Fuse<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match &mut self.i {
            Some(i) => match i.next() {
                Some(x) => Some(x),
                None => {
                    self.i = None;
                    None
                }
            },
            None => None,
        }
    }
}

pub struct Peekable<I: Iterator> {
    i: I,
    p: Option<Option<I::Item>>,
}
impl<I: Iterator> Iterator for Peekable<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match core::mem::replace(&mut self.p, None) {
            Some(x) => x,
            None => self.i.next(),
        }
    }
}
impl<I: Iterator> Peekable<I> {
    pub fn peek(&mut self) -> Option<&I::Item> {
        if let None = self.p {
            self.p = Some(self.i.next());
        }
        match &self.p {
            Some(Some(x)) => Some(x),
            _ => None,
        }
    }
}

pub struct Successors<T, F> {
    next: Option<T>,
    succ: F,
}
impl<T, F: FnMut(&T) -> Option<T>> Iterator for Successors<T, F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        match core::mem::replace(&mut self.next, None) {
            Some(x) => {
                self.next = (self.succ)(&x);
                Some(x)
            }
            None => None,
        }
    }
}

pub struct FromFn<F> {
    f: F,
}
impl<T, F: FnMut() -> Option<T>> Iterator for FromFn<F> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        (self.f)()
    }
}

pub struct Once<T> {
    o: Option<T>,
}
impl<T> Iterator for Once<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        core::mem::replace(&mut self.o, None)
    }
}
impl<T> ExactSizeIterator for Once<T> {
    fn len(&self) -> usize {
        match &self.o {
            Some(_) => 1,
            None => 0,
        }
    }
}
pub struct Empty<T> {
    m: core::marker::PhantomData<T>,
}
impl<T> Iterator for Empty<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        None
    }
}
impl<T> ExactSizeIterator for Empty<T> {
    fn len(&self) -> usize {
        0
    }
}

pub struct Range<T> {
    pub start: T,
    pub end: T,
}
impl Iterator for Range<usize> {
    type Item = usize;
    fn next(&mut self) -> Option<usize> {
        if self.start < self.end {
            let r = self.start;
            self.start += 1;
            Some(r)
        } else {
            None
        }
    }
}
impl DoubleEndedIterator for Range<usize> {
    fn next_back(&mut self) -> Option<usize> {
        if self.start < self.end {
            self.end -= 1;
            Some(self.end)
        } else {
            None
        }
    }
}
impl ExactSizeIterator for Range<usize> {
    fn len(&self) -> usize {
        if self.start < self.end { self.end - self.start } else { 0 }
    }
}
pub mod range {
    pub fn contains(r: &core::ops::Range<usize>, i: &usize) -> bool {
        r.start <= *i && *i < r.end
    }
    pub fn contains_inclusive(lo: usize, hi: usize, i: &usize) -> bool {
        lo <= *i && *i <= hi
    }
    pub fn is_empty(r: &core::ops::Range<usize>) -> bool {
        !(r.start < r.end)
    }
    pub fn next(r: &mut core::ops::Range<usize>) -> Option<usize> {
        if r.start < r.end {
            let x = r.start;
            r.start += 1;
            Some(x)
        } else {
            None
        }
    }
    pub fn next_back(r: &mut core::ops::Range<usize>) -> Option<usize> {
        if r.start < r.end {
            r.end -= 1;
            Some(r.end)
        } else {
            None
        }
    }
    pub fn len(r: &core::ops::Range<usize>) -> usize {
        if r.start < r.end { r.end - r.start } else { 0 }
    }
}

/// An owned sequence being consumed (vec::IntoIter, vec::Drain)
pub struct VecIter<T> {
    v: Vec<T>,
    lo: usize,
    hi: usize,
}
impl<T> Iterator for VecIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.lo < self.hi {
            let r = prim::vec_elem(&mut self.v, self.lo);
            self.lo += 1;
            Some(r)
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.hi - self.lo;
        (n, Some(n))
    }
}
impl<T> DoubleEndedIterator for VecIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.lo < self.hi {
            self.hi -= 1;
            Some(prim::vec_elem(&mut self.v, self.hi))
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for VecIter<T> {
    fn len(&self) -> usize {
        self.hi - self.lo
    }
}
pub mod vec {
    use super::VecIter;
    pub fn into_iter<T>(v: Vec<T>) -> VecIter<T> {
        let hi = v.len();
        VecIter { v, lo: 0, hi }
    }
}

/// Adaptors and consumers of `Iterator`, under the name of the method and with its generics
pub mod iter {
    use super::*;
    pub fn map<I, B, F>(i: I, f: F) -> Map<I, F> {
        Map { i, f }
    }
    pub fn filter<I, P>(i: I, p: P) -> Filter<I, P> {
        Filter { i, p }
    }
    pub fn filter_map<I, B, F>(i: I, f: F) -> FilterMap<I, F> {
        FilterMap { i, f }
    }
    pub fn map_while<I, B, F>(i: I, f: F) -> MapWhile<I, F> {
        MapWhile { i, f }
    }
    pub fn take_while<I, P>(i: I, p: P) -> TakeWhile<I, P> {
        TakeWhile { i, done: false, p }
    }
    pub fn skip_while<I, P>(i: I, p: P) -> SkipWhile<I, P> {
        SkipWhile { i, started: false, p }
    }
    pub fn enumerate<I>(i: I) -> Enumerate<I> {
        Enumerate { i, n: 0 }
    }
    pub fn rev<I>(i: I) -> Rev<I> {
        Rev { i }
    }
    pub fn skip<I>(i: I, n: usize) -> Skip<I> {
        Skip { i, n }
    }
    pub fn take<I>(i: I, n: usize) -> Take<I> {
        Take { i, n }
    }
    pub fn zip<A, U: IntoIterator>(a: A, b: U) -> Zip<A, U::IntoIter> {
        Zip { a, b: b.into_iter() }
    }
    pub fn chain<A, U: IntoIterator>(a: A, b: U) -> Chain<A, U::IntoIter> {
        Chain { a: Some(a), b: b.into_iter() }
    }
    pub fn cloned<I>(i: I) -> Cloned<I> {
        Cloned { i }
    }
    pub fn copied<I>(i: I) -> Cloned<I> {
        Cloned { i }
    }
    pub fn inspect<I, F>(i: I, f: F) -> Inspect<I, F> {
        Inspect { i, f }
    }
    pub fn fuse<I>(i: I) -> Fuse<I> {
        Fuse { i: Some(i) }
    }
    pub fn peekable<I: Iterator>(i: I) -> Peekable<I> {
        Peekable { i, p: None }
    }
    pub fn by_ref<I>(i: &mut I) -> &mut I {
        i
    }
    pub fn nth<I: Iterator>(i: &mut I, mut n: usize) -> Option<I::Item> {
        loop {
            match i.next() {
                None => return None,
                Some(x) => {
                    if n == 0 {
                        return Some(x);
                    }
                    n -= 1;
                }
            }
        }
    }
    pub fn nth_back<I: DoubleEndedIterator>(i: &mut I, mut n: usize) -> Option<I::Item> {
        loop {
            match i.next_back() {
                None => return None,
                Some(x) => {
                    if n == 0 {
                        return Some(x);
                    }
                    n -= 1;
                }
            }
        }
    }
    pub fn find<I: Iterator, P: FnMut(&I::Item) -> bool>(i: &mut I, mut p: P) -> Option<I::Item> {
        while let Some(x) = i.next() {
            if p(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn rfind<I: DoubleEndedIterator, P: FnMut(&I::Item) -> bool>(i: &mut I, mut p: P) -> Option<I::Item> {
        while let Some(x) = i.next_back() {
            if p(&x) {
                return Some(x);
            }
        }
        None
    }
    pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(i: &mut I, mut f: F) -> Option<B> {
        while let Some(x) = i.next() {
            if let Some(y) = f(x) {
                return Some(y);
            }
        }
        None
    }
    pub fn position<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> Option<usize> {
        let mut n = 0;
        while let Some(x) = i.next() {
            if p(x) {
                return Some(n);
            }
            n += 1;
        }
        None
    }
    pub fn all<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> bool {
        while let Some(x) = i.next() {
            if !p(x) {
                return false;
            }
        }
        true
    }
    pub fn any<I: Iterator, P: FnMut(I::Item) -> bool>(i: &mut I, mut p: P) -> bool {
        while let Some(x) = i.next() {
            if p(x) {
                return true;
            }
        }
        false
    }
    pub fn count<I: Iterator>(mut i: I) -> usize {
        let mut n = 0;
        while let Some(_) = i.next() {
            n += 1;
        }
        n
    }
    pub fn last<I: Iterator>(mut i: I) -> Option<I::Item> {
        let mut r = None;
        while let Some(x) = i.next() {
            r = Some(x);
        }
        r
    }
    pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut i: I, mut f: F) {
        while let Some(x) = i.next() {
            f(x);
        }
    }
    pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, b: B, mut f: F) -> B {
        let mut b = b;
        while let Some(x) = i.next() {
            b = f(b, x);
        }
        b
    }
    pub fn rfold<I: DoubleEndedIterator, B, F: FnMut(B, I::Item) -> B>(mut i: I, b: B, mut f: F) -> B {
        let mut b = b;
        while let Some(x) = i.next_back() {
            b = f(b, x);
        }
        b
    }
    pub fn try_fold<I: Iterator, B, F: FnMut(B, I::Item) -> R, R: core::ops::Try<Output = B>>(
        i: &mut I,
        b: B,
        mut f: F,
    ) -> R {
        let mut b = b;
        while let Some(x) = i.next() {
            match f(b, x).branch() {
                core::ops::ControlFlow::Continue(c) => b = c,
                core::ops::ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(b)
    }
    pub fn try_for_each<I: Iterator, F: FnMut(I::Item) -> R, R: core::ops::Try<Output = ()>>(
        i: &mut I,
        mut f: F,
    ) -> R {
        while let Some(x) = i.next() {
            match f(x).branch() {
                core::ops::ControlFlow::Continue(()) => (),
                core::ops::ControlFlow::Break(r) => return R::from_residual(r),
            }
        }
        R::from_output(())
    }
    pub fn eq<I: Iterator, J: IntoIterator>(mut i: I, j: J) -> bool
    where
        I::Item: PartialEq<J::Item>,
    {
        let mut j = j.into_iter();
        loop {
            match i.next() {
                None => {
                    return match j.next() {
                        None => true,
                        Some(_) => false,
                    };
                }
                Some(x) => match j.next() {
                    None => return false,
                    Some(y) => {
                        if !(x == y) {
                            return false;
                        }
                    }
                },
            }
        }
    }
    pub fn collect<I: Iterator, B>(mut i: I) -> Vec<I::Item> {
        let mut v = prim::vec_empty();
        while let Some(x) = i.next() {
            prim::vec_push(&mut v, x);
        }
        v
    }
    pub fn successors<T, F>(first: Option<T>, succ: F) -> Successors<T, F> {
        Successors { next: first, succ }
    }
    pub fn from_fn<T, F>(f: F) -> FromFn<F> {
        FromFn { f }
    }
    pub fn once<T>(x: T) -> Once<T> {
        Once { o: Some(x) }
    }
    pub fn empty<T>() -> Empty<T> {
        Empty { m: core::marker::PhantomData }
    }
}

// ---------------------------------------------------------------- text-size

#[derive(Clone, Copy)]
pub struct TextRange {
    start: u32,
    end: u32,
}
impl TextRange {
    pub fn new(start: u32, end: u32) -> TextRange {
        if start <= end { TextRange { start, end } } else { prim::panic_range() }
    }
    pub fn at(offset: u32, len: u32) -> TextRange {
        TextRange { start: offset, end: offset + len }
    }
    pub fn empty(offset: u32) -> TextRange {
        TextRange { start: offset, end: offset }
    }
    pub fn up_to(end: u32) -> TextRange {
        TextRange { start: 0, end }
    }
    pub fn start(self) -> u32 {
        self.start
    }
    pub fn end(self) -> u32 {
        self.end
    }
    pub fn len(self) -> u32 {
        self.end - self.start
    }
    pub fn is_empty(self) -> bool {
        self.start == self.end
    }
    pub fn contains(self, o: u32) -> bool {
        self.start <= o && o < self.end
    }
    pub fn contains_inclusive(self, o: u32) -> bool {
        self.start <= o && o <= self.end
    }
    pub fn contains_range(self, o: TextRange) -> bool {
        self.start <= o.start && o.end <= self.end
    }
    pub fn intersect(self, o: TextRange) -> Option<TextRange> {
        let start = if self.start < o.start { o.start } else { self.start };
        let end = if self.end < o.end { self.end } else { o.end };
        if end < start {
            return None;
        }
        Some(TextRange { start, end })
    }
    pub fn cover(self, o: TextRange) -> TextRange {
        let start = if self.start < o.start { self.start } else { o.start };
        let end = if self.end < o.end { o.end } else { self.end };
        TextRange { start, end }
    }
    pub fn ordering(self, o: TextRange) -> core::cmp::Ordering {
        if self.end <= o.start {
            core::cmp::Ordering::Less
        } else if o.end <= self.start {
            core::cmp::Ordering::Greater
        } else {
            core::cmp::Ordering::Equal
        }
    }
    pub fn add(self, o: u32) -> TextRange {
        TextRange { start: self.start + o, end: self.end + o }
    }
    pub fn sub(self, o: u32) -> TextRange {
        if self.start < o {
            prim::panic_range()
        }
        TextRange { start: self.start - o, end: self.end - o }
    }
    pub fn eq(&self, o: &TextRange) -> bool {
        self.start == o.start && self.end == o.end
    }
    pub fn ne(&self, o: &TextRange) -> bool {
        !(self.start == o.start && self.end == o.end)
    }
}
