// Reference semantics of the library combinators that the analysed crate uses, as plain code.
// Only compiled to MIR (never run): the analysis inlines these bodies where the crate calls
// the combinator of the same name, so a closure-based loop and a hand-written loop look alike.
// Field order matters: analysis/lib.py builds the adaptor values by position.
#![allow(dead_code)]
#![crate_type = "lib"]

use std::cmp::Ordering;

// ---------------------------------------------------------------- adaptors
pub struct Map<I, F> { it: I, f: F }
pub fn map_next<I: Iterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.it.next() { Some(x) => Some((s.f)(x)), None => None }
}
pub struct Filter<I, F> { it: I, f: F }
pub fn filter_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> {
    while let Some(x) = s.it.next() { if (s.f)(&x) { return Some(x); } }
    None
}
pub struct FilterMap<I, F> { it: I, f: F }
pub fn filter_map_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    while let Some(x) = s.it.next() { if let Some(y) = (s.f)(x) { return Some(y); } }
    None
}
pub struct Enumerate<I> { it: I, n: usize }
pub fn enumerate_next<I: Iterator>(s: &mut Enumerate<I>) -> Option<(usize, I::Item)> {
    match s.it.next() { Some(x) => { let n = s.n; s.n = n + 1; Some((n, x)) } None => None }
}
pub struct TakeWhile<I, F> { it: I, f: F, done: bool }
pub fn take_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut TakeWhile<I, F>) -> Option<I::Item> {
    if s.done { return None; }
    match s.it.next() {
        Some(x) => { if (s.f)(&x) { Some(x) } else { s.done = true; None } }
        None => None,
    }
}
pub struct SkipWhile<I, F> { it: I, f: F, done: bool }
pub fn skip_while_next<I: Iterator, F: FnMut(&I::Item) -> bool>(s: &mut SkipWhile<I, F>) -> Option<I::Item> {
    while let Some(x) = s.it.next() {
        if s.done { return Some(x); }
        if !(s.f)(&x) { s.done = true; return Some(x); }
    }
    None
}
pub struct MapWhile<I, F> { it: I, f: F }
pub fn map_while_next<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut MapWhile<I, F>) -> Option<B> {
    match s.it.next() { Some(x) => (s.f)(x), None => None }
}
pub struct Inspect<I, F> { it: I, f: F }
pub fn inspect_next<I: Iterator, F: FnMut(&I::Item)>(s: &mut Inspect<I, F>) -> Option<I::Item> {
    match s.it.next() { Some(x) => { (s.f)(&x); Some(x) } None => None }
}
pub struct Zip<A, B> { a: A, b: B }
pub fn zip_next<A: Iterator, B: Iterator>(s: &mut Zip<A, B>) -> Option<(A::Item, B::Item)> {
    match s.a.next() {
        Some(x) => match s.b.next() { Some(y) => Some((x, y)), None => None },
        None => None,
    }
}
pub struct Chain<A, B> { a: A, b: B, second: bool }
pub fn chain_next<A: Iterator, B: Iterator<Item = A::Item>>(s: &mut Chain<A, B>) -> Option<A::Item> {
    if !s.second {
        if let Some(x) = s.a.next() { return Some(x); }
        s.second = true;
    }
    s.b.next()
}
pub struct FlatMap<I, F, U> { it: I, f: F, cur: Option<U> }
pub fn flat_map_next<I: Iterator, U: Iterator, V: IntoIterator<IntoIter = U, Item = U::Item>, F: FnMut(I::Item) -> V>(s: &mut FlatMap<I, F, U>) -> Option<U::Item> {
    loop {
        if let Some(ref mut u) = s.cur {
            if let Some(x) = u.next() { return Some(x); }
        }
        match s.it.next() {
            Some(x) => s.cur = Some((s.f)(x).into_iter()),
            None => return None,
        }
    }
}
pub struct Flatten<I, U> { it: I, cur: Option<U> }
pub fn flatten_next<I: Iterator<Item = V>, U: Iterator, V: IntoIterator<IntoIter = U, Item = U::Item>>(s: &mut Flatten<I, U>) -> Option<U::Item> {
    loop {
        if let Some(ref mut u) = s.cur {
            if let Some(x) = u.next() { return Some(x); }
        }
        match s.it.next() {
            Some(x) => s.cur = Some(x.into_iter()),
            None => return None,
        }
    }
}
pub struct Cloned<I> { it: I }
pub fn cloned_next<'a, T: Clone + 'a, I: Iterator<Item = &'a T>>(s: &mut Cloned<I>) -> Option<T> {
    match s.it.next() { Some(x) => Some(x.clone()), None => None }
}
pub struct Rev<I> { it: I }
pub fn rev_next<I: DoubleEndedIterator>(s: &mut Rev<I>) -> Option<I::Item> { s.it.next_back() }
pub fn map_next_back<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> B>(s: &mut Map<I, F>) -> Option<B> {
    match s.it.next_back() { Some(x) => Some((s.f)(x)), None => None }
}
pub fn filter_next_back<I: DoubleEndedIterator, F: FnMut(&I::Item) -> bool>(s: &mut Filter<I, F>) -> Option<I::Item> {
    while let Some(x) = s.it.next_back() { if (s.f)(&x) { return Some(x); } }
    None
}
pub fn filter_map_next_back<I: DoubleEndedIterator, B, F: FnMut(I::Item) -> Option<B>>(s: &mut FilterMap<I, F>) -> Option<B> {
    while let Some(x) = s.it.next_back() { if let Some(y) = (s.f)(x) { return Some(y); } }
    None
}
pub fn cloned_next_back<'a, T: Clone + 'a, I: DoubleEndedIterator<Item = &'a T>>(s: &mut Cloned<I>) -> Option<T> {
    match s.it.next_back() { Some(x) => Some(x.clone()), None => None }
}
pub struct Take<I> { it: I, n: usize }
pub fn take_next<I: Iterator>(s: &mut Take<I>) -> Option<I::Item> {
    if s.n == 0 { return None; }
    s.n -= 1;
    s.it.next()
}
pub struct Skip<I> { it: I, n: usize }
pub fn skip_next<I: Iterator>(s: &mut Skip<I>) -> Option<I::Item> {
    while s.n > 0 {
        s.n -= 1;
        if s.it.next().is_none() { return None; }
    }
    s.it.next()
}
pub struct Peekable<I: Iterator> { it: I, peeked: Option<Option<I::Item>> }
pub fn peekable_next<I: Iterator>(s: &mut Peekable<I>) -> Option<I::Item> {
    match s.peeked.take() { Some(x) => x, None => s.it.next() }
}
pub fn peekable_peek<I: Iterator>(s: &mut Peekable<I>) -> Option<&I::Item> {
    if s.peeked.is_none() { s.peeked = Some(s.it.next()); }
    match s.peeked { Some(Some(ref x)) => Some(x), _ => None }
}
pub struct FromFn<F> { f: F }
pub fn from_fn_next<T, F: FnMut() -> Option<T>>(s: &mut FromFn<F>) -> Option<T> { (s.f)() }

// ---------------------------------------------------------------- consumers
pub fn for_each<I: Iterator, F: FnMut(I::Item)>(mut it: I, mut f: F) { while let Some(x) = it.next() { f(x); } }
pub fn fold<I: Iterator, B, F: FnMut(B, I::Item) -> B>(mut it: I, init: B, mut f: F) -> B {
    let mut acc = init;
    while let Some(x) = it.next() { acc = f(acc, x); }
    acc
}
pub fn any<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if f(x) { return true; } }
    false
}
pub fn all<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() { if !f(x) { return false; } }
    true
}
pub fn find<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<I::Item> {
    while let Some(x) = it.next() { if f(&x) { return Some(x); } }
    None
}
pub fn find_map<I: Iterator, B, F: FnMut(I::Item) -> Option<B>>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() { if let Some(y) = f(x) { return Some(y); } }
    None
}
pub fn position<I: Iterator, F: FnMut(I::Item) -> bool>(it: &mut I, mut f: F) -> Option<usize> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(x) { return Some(n); } n += 1; }
    None
}
pub fn find_position<I: Iterator, F: FnMut(&I::Item) -> bool>(it: &mut I, mut f: F) -> Option<(usize, I::Item)> {
    let mut n = 0;
    while let Some(x) = it.next() { if f(&x) { return Some((n, x)); } n += 1; }
    None
}
pub fn count<I: Iterator>(mut it: I) -> usize {
    let mut n = 0;
    while let Some(_) = it.next() { n += 1; }
    n
}
pub fn last<I: Iterator>(mut it: I) -> Option<I::Item> {
    let mut r = None;
    while let Some(x) = it.next() { r = Some(x); }
    r
}
pub fn nth<I: Iterator>(it: &mut I, mut n: usize) -> Option<I::Item> {
    while n > 0 { n -= 1; if it.next().is_none() { return None; } }
    it.next()
}
pub fn sum<I: Iterator<Item = usize>>(mut it: I) -> usize {
    let mut acc = 0;
    while let Some(x) = it.next() { acc += x; }
    acc
}
pub fn min_by_key<I: Iterator, K: PartialOrd, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    let mut key = f(&best);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k < key { best = x; key = k; }
    }
    Some(best)
}
pub fn min_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = it.next()?;
    while let Some(x) = it.next() { match f(&best, &x) { Ordering::Greater => { best = x; } _ => {} } }
    Some(best)
}
pub fn max_by<I: Iterator, F: FnMut(&I::Item, &I::Item) -> Ordering>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = it.next()?;
    while let Some(x) = it.next() { match f(&best, &x) { Ordering::Greater => {} _ => { best = x; } } }
    Some(best)
}
pub fn max_by_key<I: Iterator, K: PartialOrd, F: FnMut(&I::Item) -> K>(mut it: I, mut f: F) -> Option<I::Item> {
    let mut best = match it.next() { Some(x) => x, None => return None };
    let mut key = f(&best);
    while let Some(x) = it.next() {
        let k = f(&x);
        if k >= key { best = x; key = k; }
    }
    Some(best)
}
pub fn max<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: PartialOrd {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { if x >= best { best = x; } }
    Some(best)
}
pub fn min<I: Iterator>(mut it: I) -> Option<I::Item> where I::Item: PartialOrd {
    let mut best = match it.next() { Some(x) => x, None => return None };
    while let Some(x) = it.next() { if x < best { best = x; } }
    Some(best)
}
pub fn collect_vec<I: Iterator>(mut it: I) -> Vec<I::Item> {
    let mut v = Vec::new();
    while let Some(x) = it.next() { v.push(x); }
    v
}
pub fn collect_result_vec<T, E, I: Iterator<Item = Result<T, E>>>(mut it: I) -> Result<Vec<T>, E> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Ok(x) => v.push(x), Err(e) => return Err(e) }
    }
    Ok(v)
}
pub fn collect_option_vec<T, I: Iterator<Item = Option<T>>>(mut it: I) -> Option<Vec<T>> {
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x { Some(x) => v.push(x), None => return None }
    }
    Some(v)
}
pub fn extend_option<T>(v: &mut Vec<T>, o: Option<T>) { if let Some(x) = o { v.push(x); } }
pub fn extend<T, I: Iterator<Item = T>>(v: &mut Vec<T>, mut it: I) { while let Some(x) = it.next() { v.push(x); } }
pub fn try_for_each<E, I: Iterator, F: FnMut(I::Item) -> Result<(), E>>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) { Ok(_) => {} Err(e) => return Err(e) }
    }
    Ok(())
}
pub fn try_fold<B, E, I: Iterator, F: FnMut(B, I::Item) -> Result<B, E>>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) { Ok(a) => acc = a, Err(e) => return Err(e) }
    }
    Ok(acc)
}
pub fn partition<I: Iterator, F: FnMut(&I::Item) -> bool>(mut it: I, mut f: F) -> (Vec<I::Item>, Vec<I::Item>) {
    let mut a = Vec::new();
    let mut b = Vec::new();
    while let Some(x) = it.next() { if f(&x) { a.push(x) } else { b.push(x) } }
    (a, b)
}
pub fn retain<T, F: FnMut(&T) -> bool>(v: &mut Vec<T>, mut f: F) {
    let mut r = Vec::new();
    for x in std::mem::replace(v, Vec::new()) { if f(&x) { r.push(x); } }
    *v = r;
}

// ---------------------------------------------------------------- Ordering
pub fn ord_reverse(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub fn ord_then(o: Ordering, p: Ordering) -> Ordering { match o { Ordering::Equal => p, _ => o } }
pub fn ord_then_with<F: FnOnce() -> Ordering>(o: Ordering, f: F) -> Ordering { match o { Ordering::Equal => f(), _ => o } }
pub fn ord_is_lt(o: Ordering) -> bool { match o { Ordering::Less => true, _ => false } }
pub fn ord_is_le(o: Ordering) -> bool { match o { Ordering::Greater => false, _ => true } }
pub fn ord_is_gt(o: Ordering) -> bool { match o { Ordering::Greater => true, _ => false } }
pub fn ord_is_ge(o: Ordering) -> bool { match o { Ordering::Less => false, _ => true } }
pub fn ord_is_eq(o: Ordering) -> bool { match o { Ordering::Equal => true, _ => false } }
pub fn ord_is_ne(o: Ordering) -> bool { match o { Ordering::Equal => false, _ => true } }

// ---------------------------------------------------------------- Option
pub fn opt_map<T, U, F: FnOnce(T) -> U>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => Some(f(x)), None => None } }
pub fn opt_map_or<T, U, F: FnOnce(T) -> U>(o: Option<T>, d: U, f: F) -> U { match o { Some(x) => f(x), None => d } }
pub fn opt_map_or_else<T, U, D: FnOnce() -> U, F: FnOnce(T) -> U>(o: Option<T>, d: D, f: F) -> U { match o { Some(x) => f(x), None => d() } }
pub fn opt_is_some_and<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => false } }
pub fn opt_is_none_or<T, F: FnOnce(T) -> bool>(o: Option<T>, f: F) -> bool { match o { Some(x) => f(x), None => true } }
pub fn opt_and_then<T, U, F: FnOnce(T) -> Option<U>>(o: Option<T>, f: F) -> Option<U> { match o { Some(x) => f(x), None => None } }
pub fn opt_and<T, U>(o: Option<T>, p: Option<U>) -> Option<U> { match o { Some(_) => p, None => None } }
pub fn opt_or<T>(o: Option<T>, p: Option<T>) -> Option<T> { match o { Some(x) => Some(x), None => p } }
pub fn opt_or_else<T, F: FnOnce() -> Option<T>>(o: Option<T>, f: F) -> Option<T> { match o { Some(x) => Some(x), None => f() } }
pub fn opt_filter<T, F: FnOnce(&T) -> bool>(o: Option<T>, f: F) -> Option<T> { if let Some(x) = o { if f(&x) { return Some(x); } } None }
pub fn opt_unwrap_or<T>(o: Option<T>, d: T) -> T { match o { Some(x) => x, None => d } }
pub fn opt_unwrap_or_else<T, F: FnOnce() -> T>(o: Option<T>, f: F) -> T { match o { Some(x) => x, None => f() } }
pub fn opt_ok_or<T, E>(o: Option<T>, e: E) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(e) } }
pub fn opt_ok_or_else<T, E, F: FnOnce() -> E>(o: Option<T>, f: F) -> Result<T, E> { match o { Some(x) => Ok(x), None => Err(f()) } }
pub fn opt_cloned<T: Clone>(o: Option<&T>) -> Option<T> { match o { Some(x) => Some(x.clone()), None => None } }
pub fn opt_zip<T, U>(o: Option<T>, p: Option<U>) -> Option<(T, U)> { match o { Some(x) => match p { Some(y) => Some((x, y)), None => None }, None => None } }
pub fn opt_flatten<T>(o: Option<Option<T>>) -> Option<T> { match o { Some(x) => x, None => None } }
pub fn opt_transpose<T, E>(o: Option<Result<T, E>>) -> Result<Option<T>, E> { match o { Some(Ok(x)) => Ok(Some(x)), Some(Err(e)) => Err(e), None => Ok(None) } }
pub fn opt_get_or_insert_with<T, F: FnOnce() -> T>(o: &mut Option<T>, f: F) -> &mut T {
    if o.is_none() { *o = Some(f()); }
    match o { Some(x) => x, None => loop {} }
}
pub fn bool_then<T, F: FnOnce() -> T>(b: bool, f: F) -> Option<T> { if b { Some(f()) } else { None } }
pub fn bool_then_some<T>(b: bool, x: T) -> Option<T> { if b { Some(x) } else { None } }

// ---------------------------------------------------------------- Result
pub fn res_map<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => Ok(f(x)), Err(e) => Err(e) } }
pub fn res_map_err<T, E, U, F: FnOnce(E) -> U>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => Err(f(e)) } }
pub fn res_and_then<T, E, U, F: FnOnce(T) -> Result<U, E>>(o: Result<T, E>, f: F) -> Result<U, E> { match o { Ok(x) => f(x), Err(e) => Err(e) } }
pub fn res_and<T, E, U>(o: Result<T, E>, p: Result<U, E>) -> Result<U, E> { match o { Ok(_) => p, Err(e) => Err(e) } }
pub fn res_or_else<T, E, U, F: FnOnce(E) -> Result<T, U>>(o: Result<T, E>, f: F) -> Result<T, U> { match o { Ok(x) => Ok(x), Err(e) => f(e) } }
pub fn res_unwrap_or<T, E>(o: Result<T, E>, d: T) -> T { match o { Ok(x) => x, Err(_) => d } }
pub fn res_unwrap_or_else<T, E, F: FnOnce(E) -> T>(o: Result<T, E>, f: F) -> T { match o { Ok(x) => x, Err(e) => f(e) } }
pub fn res_map_or<T, E, U, F: FnOnce(T) -> U>(o: Result<T, E>, d: U, f: F) -> U { match o { Ok(x) => f(x), Err(_) => d } }
pub fn res_ok<T, E>(o: Result<T, E>) -> Option<T> { match o { Ok(x) => Some(x), Err(_) => None } }
pub fn res_err<T, E>(o: Result<T, E>) -> Option<E> { match o { Ok(_) => None, Err(e) => Some(e) } }
pub fn res_is_ok_and<T, E, F: FnOnce(T) -> bool>(o: Result<T, E>, f: F) -> bool { match o { Ok(x) => f(x), Err(_) => false } }

// ---------------------------------------------------------------- consumers of a flat map, as nested loops
pub fn flat_any<I: Iterator, T, V: IntoIterator<Item = T>, F: FnMut(I::Item) -> V, P: FnMut(T) -> bool>(mut it: I, mut f: F, mut p: P) -> bool {
    while let Some(x) = it.next() {
        let mut u = f(x).into_iter();
        while let Some(y) = u.next() { if p(y) { return true; } }
    }
    false
}
pub fn flat_all<I: Iterator, T, V: IntoIterator<Item = T>, F: FnMut(I::Item) -> V, P: FnMut(T) -> bool>(mut it: I, mut f: F, mut p: P) -> bool {
    while let Some(x) = it.next() {
        let mut u = f(x).into_iter();
        while let Some(y) = u.next() { if !p(y) { return false; } }
    }
    true
}
pub fn flat_find<I: Iterator, T, V: IntoIterator<Item = T>, F: FnMut(I::Item) -> V, P: FnMut(&T) -> bool>(mut it: I, mut f: F, mut p: P) -> Option<T> {
    while let Some(x) = it.next() {
        let mut u = f(x).into_iter();
        while let Some(y) = u.next() { if p(&y) { return Some(y); } }
    }
    None
}
pub fn flat_for_each<I: Iterator, T, V: IntoIterator<Item = T>, F: FnMut(I::Item) -> V, P: FnMut(T)>(mut it: I, mut f: F, mut p: P) {
    while let Some(x) = it.next() {
        let mut u = f(x).into_iter();
        while let Some(y) = u.next() { p(y); }
    }
}
pub fn no_map<T>(x: T) -> T { x }
