use ::std::borrow::Borrow;
use ::std::cell::RefCell;
use ::std::collections::hash_map::RandomState;
use ::std::hash::{Hash, Hasher};
use ::std::marker::PhantomData;
use ::std::ops::Index;

extern "C" {
    fn sx_fix(x: u64) -> u64;
    fn sx_concrete(x: u64) -> bool;
    fn sx_env_choose(n: u64) -> u64;
    fn sx_param(p: *const u8, n: usize) -> i64;
}
fn choose(n: usize) -> usize { if n <= 1 { 0 } else { unsafe { sx_env_choose(n as u64) as usize } } }
fn param(s: &str) -> i64 { unsafe { sx_param(s.as_ptr(), s.len()) } }

/// Not the real SipHash: any function of the key will do, since the order is modelled separately.
struct H { h: u64, sym: bool, fix: bool }
impl H {
    fn add(&mut self, x: u64) {
        if self.sym { return; }
        let x = if self.fix { unsafe { sx_fix(x) } } else { x };
        if !unsafe { sx_concrete(x) } { self.sym = true; return; }
        self.h = (self.h.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}
impl Hasher for H {
    fn finish(&self) -> u64 { self.h }
    fn write(&mut self, b: &[u8]) { for x in b { self.add(*x as u64) } }
    fn write_u8(&mut self, i: u8) { self.add(i as u64) }
    fn write_u16(&mut self, i: u16) { self.add(i as u64) }
    fn write_u32(&mut self, i: u32) { self.add(i as u64) }
    fn write_u64(&mut self, i: u64) { self.add(i) }
    fn write_usize(&mut self, i: usize) { self.add(i as u64) }
    fn write_i8(&mut self, i: i8) { self.add(i as u8 as u64) }
    fn write_i16(&mut self, i: i16) { self.add(i as u16 as u64) }
    fn write_i32(&mut self, i: i32) { self.add(i as u32 as u64) }
    fn write_i64(&mut self, i: i64) { self.add(i as u64) }
}

pub struct HashMap<K, V, S = RandomState> {
    ents: Vec<Option<(K, V)>>,
    live: usize,
    idx: Vec<u32>,      // open addressing over the entries whose key is concrete (0 = empty, else 1 + entry)
    nidx: usize,
    sym: Vec<u32>,      // the entries whose key is symbolic
    order: RefCell<Option<Vec<u32>>>,
    s: PhantomData<S>,
}

fn hash<Q: Hash + ?Sized>(k: &Q, fix: bool) -> Option<u64> {
    let mut h = H { h: 0x9E37_79B9_7F4A_7C15, sym: false, fix };
    k.hash(&mut h);
    if h.sym { None } else { Some(h.h ^ (h.h >> 29)) }
}

impl<K, V> HashMap<K, V, RandomState> {
    pub fn new() -> Self { Self::make() }
    pub fn with_capacity(_: usize) -> Self { Self::make() }
}
impl<K, V, S> HashMap<K, V, S> {
    fn make() -> Self { HashMap { ents: Vec::new(), live: 0, idx: Vec::new(), nidx: 0, sym: Vec::new(), order: RefCell::new(None), s: PhantomData } }
    pub fn with_hasher(_: S) -> Self { Self::make() }
    pub fn with_capacity_and_hasher(_: usize, _: S) -> Self { Self::make() }
    pub fn len(&self) -> usize { self.live }
    pub fn is_empty(&self) -> bool { self.live == 0 }
    pub fn capacity(&self) -> usize { self.live.next_power_of_two() }
    pub fn reserve(&mut self, _: usize) {}
    pub fn shrink_to_fit(&mut self) {}
    pub fn clear(&mut self) { self.ents.clear(); self.idx.clear(); self.nidx = 0; self.sym.clear(); self.live = 0; *self.order.borrow_mut() = None; }
    /// the order in which the map is iterated: chosen by the environment
    fn ordering(&self) -> Vec<u32> {
        if let Some(o) = &*self.order.borrow() { return o.clone(); }
        let mut v: Vec<u32> = (0..self.ents.len() as u32).filter(|i| self.ents[*i as usize].is_some()).collect();
        let n = v.len();
        if n > 1 {
            if n as i64 <= param("perm") {
                for i in 0..n - 1 { let j = i + choose(n - i); v[i..=j].rotate_right(1); }
            } else {
                match choose(param("orders").max(1) as usize) {
                    0 => {}
                    1 => v.reverse(),
                    2 => v.rotate_left(n / 2),
                    3 => { v.rotate_left(1); v.reverse(); }
                    _ => { let (a, b): (Vec<u32>, Vec<u32>) = v.iter().partition(|x| **x % 2 == 0); v = b; v.extend(a); }
                }
            }
        }
        *self.order.borrow_mut() = Some(v.clone());
        v
    }
    pub fn iter(&self) -> Iter<'_, K, V> { Iter { ents: &self.ents, ord: self.ordering().into_iter() } }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> {
        let o = self.ordering();
        let mut slots: Vec<Option<(&K, &mut V)>> = self.ents.iter_mut().map(|e| e.as_mut().map(|(k, v)| (&*k, v))).collect();
        let v: Vec<(&K, &mut V)> = o.into_iter().map(|i| slots[i as usize].take().unwrap()).collect();
        IterMut { v: v.into_iter() }
    }
    pub fn keys(&self) -> Keys<'_, K, V> { Keys { i: self.iter() } }
    pub fn values(&self) -> Values<'_, K, V> { Values { i: self.iter() } }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { ValuesMut { i: self.iter_mut() } }
    pub fn into_keys(self) -> ::std::vec::IntoIter<K> { self.into_iter().map(|x| x.0).collect::<Vec<_>>().into_iter() }
    pub fn into_values(self) -> ::std::vec::IntoIter<V> { self.into_iter().map(|x| x.1).collect::<Vec<_>>().into_iter() }
    pub fn drain(&mut self) -> ::std::vec::IntoIter<(K, V)> {
        let o = self.ordering();
        let v: Vec<(K, V)> = o.into_iter().map(|i| self.ents[i as usize].take().unwrap()).collect();
        self.clear();
        v.into_iter()
    }
}
impl<K: Eq + Hash, V, S> HashMap<K, V, S> {
    fn find<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Result<usize, Option<u64>> where K: Borrow<Q> {
        // many concrete keys: split on the value of the key instead of comparing one by one
        let h = hash(k, self.nidx > 24);
        match h {
            Some(h) => {
                if !self.idx.is_empty() {
                    let m = self.idx.len() - 1;
                    let mut p = h as usize & m;
                    while self.idx[p] != 0 {
                        let e = self.idx[p] as usize - 1;
                        if let Some((x, _)) = &self.ents[e] { if x.borrow() == k { return Ok(e); } }
                        p = (p + 1) & m;
                    }
                }
                for e in &self.sym { if let Some((x, _)) = &self.ents[*e as usize] { if x.borrow() == k { return Ok(*e as usize); } } }
            }
            None => for (e, x) in self.ents.iter().enumerate() { if let Some((x, _)) = x { if x.borrow() == k { return Ok(e); } } },
        }
        Err(h)
    }
    fn put(&mut self, h: u64, e: u32) { let m = self.idx.len() - 1; let mut p = h as usize & m; while self.idx[p] != 0 { p = (p + 1) & m; } self.idx[p] = e + 1; }
    fn add(&mut self, h: Option<u64>, k: K, v: V) -> usize {
        let e = self.ents.len();
        self.ents.push(Some((k, v)));
        self.live += 1;
        *self.order.borrow_mut() = None;
        match h {
            Some(h) => {
                self.nidx += 1;
                if self.nidx * 2 > self.idx.len() {
                    let n = (self.idx.len() * 2).max(8);
                    let old = ::std::mem::replace(&mut self.idx, vec![0; n]);
                    for x in old { if x != 0 { if let Some((k, _)) = &self.ents[x as usize - 1] { let h = hash(k, true).unwrap_or(0); self.put(h, x - 1); } } }
                }
                self.put(h, e as u32);
            }
            None => self.sym.push(e as u32),
        }
        e
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Ok(e) => Some(::std::mem::replace(&mut self.ents[e].as_mut().unwrap().1, v)),
            Err(h) => { self.add(h, k, v); None }
        }
    }
    pub fn get<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> { self.find(k).ok().map(|e| &self.ents[e].as_ref().unwrap().1) }
    pub fn get_key_value<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> { self.find(k).ok().map(|e| { let x = self.ents[e].as_ref().unwrap(); (&x.0, &x.1) }) }
    pub fn get_mut<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> { match self.find(k) { Ok(e) => Some(&mut self.ents[e].as_mut().unwrap().1), Err(_) => None } }
    pub fn contains_key<Q: Eq + Hash + ?Sized>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_ok() }
    pub fn remove_entry<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> { match self.find(k) { Ok(e) => self.take(e), Err(_) => None } }
    pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> { self.remove_entry(k).map(|x| x.1) }
    fn take(&mut self, e: usize) -> Option<(K, V)> { self.live -= 1; *self.order.borrow_mut() = None; self.ents[e].take() }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) {
        for i in self.ordering() { let e = self.ents[i as usize].as_mut().unwrap(); if !f(&e.0, &mut e.1) { self.take(i as usize); } }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V, S> {
        match self.find(&k) {
            Ok(e) => Entry::Occupied(OccupiedEntry { m: self, e, k }),
            Err(h) => Entry::Vacant(VacantEntry { m: self, h, k }),
        }
    }
}
pub enum Entry<'a, K, V, S = RandomState> { Occupied(OccupiedEntry<'a, K, V, S>), Vacant(VacantEntry<'a, K, V, S>) }
pub struct OccupiedEntry<'a, K, V, S = RandomState> { m: &'a mut HashMap<K, V, S>, e: usize, k: K }
pub struct VacantEntry<'a, K, V, S = RandomState> { m: &'a mut HashMap<K, V, S>, h: Option<u64>, k: K }
impl<'a, K: Eq + Hash, V, S> Entry<'a, K, V, S> {
    pub fn and_modify<F: FnOnce(&mut V)>(self, f: F) -> Self { match self { Entry::Occupied(mut o) => { f(o.get_mut()); Entry::Occupied(o) } v => v } }
    pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(v) } }
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => x.insert(f()) } }
    pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(x) => { let v = f(&x.k); x.insert(v) } } }
    pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
    pub fn key(&self) -> &K { match self { Entry::Occupied(o) => &o.k, Entry::Vacant(v) => &v.k } }
}
impl<'a, K: Eq + Hash, V, S> OccupiedEntry<'a, K, V, S> {
    pub fn get(&self) -> &V { &self.m.ents[self.e].as_ref().unwrap().1 }
    pub fn get_mut(&mut self) -> &mut V { &mut self.m.ents[self.e].as_mut().unwrap().1 }
    pub fn into_mut(self) -> &'a mut V { &mut self.m.ents[self.e].as_mut().unwrap().1 }
    pub fn insert(&mut self, v: V) -> V { ::std::mem::replace(self.get_mut(), v) }
    pub fn remove(self) -> V { self.m.take(self.e).unwrap().1 }
    pub fn remove_entry(self) -> (K, V) { self.m.take(self.e).unwrap() }
    pub fn key(&self) -> &K { &self.k }
}
impl<'a, K: Eq + Hash, V, S> VacantEntry<'a, K, V, S> {
    pub fn insert(self, v: V) -> &'a mut V { let e = self.m.add(self.h, self.k, v); &mut self.m.ents[e].as_mut().unwrap().1 }
    pub fn key(&self) -> &K { &self.k }
    pub fn into_key(self) -> K { self.k }
}
pub struct Iter<'a, K, V> { ents: &'a Vec<Option<(K, V)>>, ord: ::std::vec::IntoIter<u32> }
impl<'a, K, V> Iterator for Iter<'a, K, V> {
    type Item = (&'a K, &'a V);
    fn next(&mut self) -> Option<Self::Item> { self.ord.next().map(|i| { let e = self.ents[i as usize].as_ref().unwrap(); (&e.0, &e.1) }) }
    fn size_hint(&self) -> (usize, Option<usize>) { self.ord.size_hint() }
}
impl<'a, K, V> ExactSizeIterator for Iter<'a, K, V> {}
impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter { ents: self.ents, ord: self.ord.clone() } } }
pub struct IterMut<'a, K, V> { v: ::std::vec::IntoIter<(&'a K, &'a mut V)> }
impl<'a, K, V> Iterator for IterMut<'a, K, V> { type Item = (&'a K, &'a mut V); fn next(&mut self) -> Option<Self::Item> { self.v.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() } }
pub struct Keys<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Iterator for Keys<'a, K, V> { type Item = &'a K; fn next(&mut self) -> Option<&'a K> { self.i.next().map(|x| x.0) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
pub struct Values<'a, K, V> { i: Iter<'a, K, V> }
impl<'a, K, V> Iterator for Values<'a, K, V> { type Item = &'a V; fn next(&mut self) -> Option<&'a V> { self.i.next().map(|x| x.1) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
pub struct ValuesMut<'a, K, V> { i: IterMut<'a, K, V> }
impl<'a, K, V> Iterator for ValuesMut<'a, K, V> { type Item = &'a mut V; fn next(&mut self) -> Option<&'a mut V> { self.i.next().map(|x| x.1) } fn size_hint(&self) -> (usize, Option<usize>) { self.i.size_hint() } }
pub struct IntoIter<K, V> { v: ::std::vec::IntoIter<(K, V)> }
impl<K, V> Iterator for IntoIter<K, V> { type Item = (K, V); fn next(&mut self) -> Option<(K, V)> { self.v.next() } fn size_hint(&self) -> (usize, Option<usize>) { self.v.size_hint() } }
impl<K, V> ExactSizeIterator for IntoIter<K, V> {}
impl<K, V, S> IntoIterator for HashMap<K, V, S> {
    type Item = (K, V);
    type IntoIter = IntoIter<K, V>;
    fn into_iter(mut self) -> IntoIter<K, V> { IntoIter { v: self.drain() } }
}
impl<'a, K, V, S> IntoIterator for &'a HashMap<K, V, S> { type Item = (&'a K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { self.iter() } }
impl<'a, K, V, S> IntoIterator for &'a mut HashMap<K, V, S> { type Item = (&'a K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { self.iter_mut() } }
impl<K: Eq + Hash, V, S> FromIterator<(K, V)> for HashMap<K, V, S> { fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self { let mut m = Self::make(); for (k, v) in i { m.insert(k, v); } m } }
impl<K: Eq + Hash, V, const N: usize> From<[(K, V); N]> for HashMap<K, V, RandomState> { fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() } }
impl<K: Eq + Hash, V, S> Extend<(K, V)> for HashMap<K, V, S> { fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, i: I) { for (k, v) in i { self.insert(k, v); } } }
impl<K: Eq + Hash, Q: Eq + Hash + ?Sized, V, S> Index<&Q> for HashMap<K, V, S> where K: Borrow<Q> { type Output = V; fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") } }
impl<K, V, S> Default for HashMap<K, V, S> { fn default() -> Self { Self::make() } }
impl<K: Clone, V: Clone, S> Clone for HashMap<K, V, S> { fn clone(&self) -> Self { HashMap { ents: self.ents.clone(), live: self.live, idx: self.idx.clone(), nidx: self.nidx, sym: self.sym.clone(), order: RefCell::new(self.order.borrow().clone()), s: PhantomData } } }
impl<K: Eq + Hash, V: PartialEq, S> PartialEq for HashMap<K, V, S> { fn eq(&self, o: &Self) -> bool { self.live == o.live && self.ents.iter().flatten().all(|(k, v)| o.get(k).map_or(false, |w| w == v)) } }
impl<K: Eq + Hash, V: Eq, S> Eq for HashMap<K, V, S> {}
impl<K: ::std::fmt::Debug, V: ::std::fmt::Debug, S> ::std::fmt::Debug for HashMap<K, V, S> { fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result { f.debug_map().entries(self.ents.iter().flatten().map(|e| (&e.0, &e.1))).finish() } }

pub struct HashSet<T, S = RandomState> { m: HashMap<T, (), S> }
impl<T> HashSet<T, RandomState> { pub fn new() -> Self { HashSet { m: HashMap::new() } } pub fn with_capacity(_: usize) -> Self { Self::new() } }
impl<T, S> HashSet<T, S> {
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> Keys<'_, T, ()> { self.m.keys() }
}
impl<T: Eq + Hash, S> HashSet<T, S> {
    pub fn insert(&mut self, t: T) -> bool { self.m.insert(t, ()).is_none() }
    pub fn contains<Q: Eq + Hash + ?Sized>(&self, q: &Q) -> bool where T: Borrow<Q> { self.m.contains_key(q) }
    pub fn remove<Q: Eq + Hash + ?Sized>(&mut self, q: &Q) -> bool where T: Borrow<Q> { self.m.remove(q).is_some() }
}
impl<T, S> Default for HashSet<T, S> { fn default() -> Self { HashSet { m: HashMap::make() } } }
impl<T: Eq + Hash, S> FromIterator<T> for HashSet<T, S> { fn from_iter<I: IntoIterator<Item = T>>(i: I) -> Self { HashSet { m: i.into_iter().map(|t| (t, ())).collect() } } }
impl<T: Eq + Hash, S> Extend<T> for HashSet<T, S> { fn extend<I: IntoIterator<Item = T>>(&mut self, i: I) { for t in i { self.insert(t); } } }
impl<T, S> IntoIterator for HashSet<T, S> { type Item = T; type IntoIter = ::std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.m.into_keys() } }
impl<'a, T, S> IntoIterator for &'a HashSet<T, S> { type Item = &'a T; type IntoIter = Keys<'a, T, ()>; fn into_iter(self) -> Self::IntoIter { self.m.keys() } }
