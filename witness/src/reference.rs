//! What the iterator methods of the standard library that are specialised there mean, written out
//! as the loops they stand for.  Calls of those methods are analysed as calls of these functions.
//! The last type parameter is always the item type.

pub fn find<I: Iterator<Item = T>, P: FnMut(&T) -> bool, T>(it: &mut I, mut p: P) -> Option<T> {
    while let Some(x) = it.next() {
        if p(&x) {
            return Some(x);
        }
    }
    None
}
pub fn find_map<I: Iterator<Item = T>, B, F: FnMut(T) -> Option<B>, T>(it: &mut I, mut f: F) -> Option<B> {
    while let Some(x) = it.next() {
        if let Some(b) = f(x) {
            return Some(b);
        }
    }
    None
}
pub fn any<I: Iterator<Item = T>, F: FnMut(T) -> bool, T>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if f(x) {
            return true;
        }
    }
    false
}
pub fn all<I: Iterator<Item = T>, F: FnMut(T) -> bool, T>(it: &mut I, mut f: F) -> bool {
    while let Some(x) = it.next() {
        if !f(x) {
            return false;
        }
    }
    true
}
pub fn position<I: Iterator<Item = T>, P: FnMut(T) -> bool, T>(it: &mut I, mut p: P) -> Option<usize> {
    let mut i = 0;
    while let Some(x) = it.next() {
        if p(x) {
            return Some(i);
        }
        i += 1;
    }
    None
}
pub fn for_each<I: Iterator<Item = T>, F: FnMut(T), T>(it: I, mut f: F) {
    let mut it = it;
    while let Some(x) = it.next() {
        f(x);
    }
}
pub fn fold<I: Iterator<Item = T>, B, F: FnMut(B, T) -> B, T>(it: I, init: B, mut f: F) -> B {
    let mut it = it;
    let mut acc = init;
    while let Some(x) = it.next() {
        acc = f(acc, x);
    }
    acc
}
pub fn try_for_each<I: Iterator<Item = T>, F: FnMut(T) -> Result<(), E>, E, T>(it: &mut I, mut f: F) -> Result<(), E> {
    while let Some(x) = it.next() {
        match f(x) {
            Ok(()) => {}
            Err(e) => return Err(e),
        }
    }
    Ok(())
}
pub fn try_fold<I: Iterator<Item = T>, B, F: FnMut(B, T) -> Result<B, E>, E, T>(it: &mut I, init: B, mut f: F) -> Result<B, E> {
    let mut acc = init;
    while let Some(x) = it.next() {
        match f(acc, x) {
            Ok(a) => acc = a,
            Err(e) => return Err(e),
        }
    }
    Ok(acc)
}
pub fn last<I: Iterator<Item = T>, T>(it: I) -> Option<T> {
    let mut it = it;
    let mut r = None;
    while let Some(x) = it.next() {
        r = Some(x);
    }
    r
}
pub fn collect<I: Iterator<Item = T>, T>(it: I) -> Vec<T> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        v.push(x);
    }
    v
}
pub fn collect_hashmap<I: Iterator<Item = (K, V)>, K: Eq + std::hash::Hash, V>(it: I) -> std::collections::HashMap<K, V> {
    let mut it = it;
    let mut m = std::collections::HashMap::new();
    while let Some((k, v)) = it.next() {
        m.insert(k, v);
    }
    m
}
pub fn collect_result<I: Iterator<Item = Result<T, E>>, T, E>(it: I) -> Result<Vec<T>, E> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Ok(x) => v.push(x),
            Err(e) => return Err(e),
        }
    }
    Ok(v)
}
pub fn collect_option<I: Iterator<Item = Option<T>>, T>(it: I) -> Option<Vec<T>> {
    let mut it = it;
    let mut v = Vec::new();
    while let Some(x) = it.next() {
        match x {
            Some(x) => v.push(x),
            None => return None,
        }
    }
    Some(v)
}
pub fn extend<I: Iterator<Item = T>, T>(v: &mut Vec<T>, it: I) {
    let mut it = it;
    while let Some(x) = it.next() {
        v.push(x);
    }
}

/// makes the bodies of the adapters available
pub fn adapters(v: &[usize]) -> usize {
    let mut n = 0;
    for x in v.iter().rev() {
        n = *x;
    }
    for x in v.iter().cloned() {
        n = x;
    }
    for x in v.iter().copied() {
        n = x;
    }
    for (i, x) in v.iter().enumerate() {
        n = i + x;
    }
    for x in v.iter().map(|x| *x) {
        n = x;
    }
    for x in v.iter().filter(|x| **x > 1) {
        n = *x;
    }
    for x in v.iter().filter_map(|x| x.checked_sub(1)) {
        n = x;
    }
    for x in v.iter().take(3) {
        n = *x;
    }
    for x in v.iter().skip(3) {
        n = *x;
    }
    for x in v.iter().chain(v.iter()) {
        n = *x;
    }
    for x in v.iter().take_while(|x| **x > 1) {
        n = *x;
    }
    for x in v.iter().skip_while(|x| **x > 1) {
        n = *x;
    }
    for x in v.iter().inspect(|_| {}) {
        n = *x;
    }
    for x in v.iter().fuse() {
        n = *x;
    }
    let mut p = v.iter().peekable();
    while let Some(x) = p.next() {
        if p.peek().is_none() {
            n = *x;
        }
    }
    n
}
