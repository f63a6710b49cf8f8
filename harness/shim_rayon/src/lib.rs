//! `rayon` as the code under test sees it: the items of a parallel iterator are worked on one after another, in an
//! arbitrary (solver-chosen) order; an item's work is not interleaved with another's.
use std::rc::Rc;
extern "C" { fn sx_env_choose(n: u64) -> u64; }
pub struct Par<'a, T>(Vec<Box<dyn FnOnce() -> T + 'a>>);
/// (place, result), in the order of execution
fn run<T>(v: Vec<Box<dyn FnOnce() -> T + '_>>, mut each: impl FnMut(usize, T) -> bool) {
    let mut left: Vec<_> = v.into_iter().enumerate().collect();
    while !left.is_empty() {
        let i = if left.len() > 1 { unsafe { sx_env_choose(left.len() as u64) as usize } } else { 0 };
        let (at, f) = left.remove(i);
        if !each(at, f()) { break; }
    }
}
impl<'a, T: 'a> Par<'a, T> {
    fn of<I: Iterator<Item = T>>(i: I) -> Self { Par(i.map(|x| Box::new(move || x) as Box<dyn FnOnce() -> T + 'a>).collect()) }
    fn done(self) -> Vec<T> {
        let mut r: Vec<(usize, T)> = vec![];
        run(self.0, |at, x| { r.push((at, x)); true });
        let mut out = vec![];
        for k in 0..r.len() { let j = r.iter().position(|y| y.0 == k).unwrap(); out.push(r.swap_remove(j).1); }
        out
    }
    pub fn map<U: 'a, F: Fn(T) -> U + 'a>(self, f: F) -> Par<'a, U> {
        let f = Rc::new(f);
        Par(self.0.into_iter().map(|g| { let f = f.clone(); Box::new(move || f(g())) as Box<dyn FnOnce() -> U + 'a> }).collect())
    }
    pub fn inspect<F: Fn(&T) + 'a>(self, f: F) -> Par<'a, T> { self.map(move |x| { f(&x); x }) }
    pub fn enumerate(self) -> Par<'a, (usize, T)> { Par(self.0.into_iter().enumerate().map(|(i, g)| Box::new(move || (i, g())) as Box<dyn FnOnce() -> (usize, T) + 'a>).collect()) }
    pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> { Par::of(self.map(move |x| if f(&x) { Some(x) } else { None }).done().into_iter().flatten()) }
    pub fn filter_map<U: 'a, F: Fn(T) -> Option<U> + 'a>(self, f: F) -> Par<'a, U> { Par::of(self.map(f).done().into_iter().flatten()) }
    pub fn flat_map<I: IntoIterator + 'a, F: Fn(T) -> I + 'a>(self, f: F) -> Par<'a, I::Item> where I::Item: 'a { Par::of(self.map(f).done().into_iter().flatten()) }
    pub fn for_each<F: Fn(T) + 'a>(self, f: F) { run(self.0, |_, x| { f(x); true }) }
    pub fn try_for_each<E, F: Fn(T) -> Result<(), E> + 'a>(self, f: F) -> Result<(), E> {
        let mut r = Ok(());
        run(self.0, |_, x| match f(x) { Ok(()) => true, e => { r = e; false } });
        r
    }
    pub fn collect<C: FromIterator<T>>(self) -> C { self.done().into_iter().collect() }
    pub fn sum<S: std::iter::Sum<T>>(self) -> S { self.done().into_iter().sum() }
    pub fn count(self) -> usize { self.done().len() }
    pub fn with_min_len(self, _: usize) -> Self { self }
    pub fn with_max_len(self, _: usize) -> Self { self }
}
pub trait IntoParallelIterator: IntoIterator + Sized { fn into_par_iter<'a>(self) -> Par<'a, Self::Item> where Self::Item: 'a { Par::of(self.into_iter()) } }
impl<I: IntoIterator> IntoParallelIterator for I {}
pub trait IntoParallelRefIterator { type X; fn par_iter(&self) -> Par<'_, &Self::X>; }
impl<T> IntoParallelRefIterator for [T] { type X = T; fn par_iter(&self) -> Par<'_, &T> { Par::of(self.iter()) } }
impl<T> IntoParallelRefIterator for Vec<T> { type X = T; fn par_iter(&self) -> Par<'_, &T> { Par::of(self.iter()) } }
pub trait ParallelBridge: Iterator + Sized { fn par_bridge<'a>(self) -> Par<'a, Self::Item> where Self::Item: 'a { Par::of(self) } }
impl<I: Iterator> ParallelBridge for I {}
pub trait ParallelIterator {}
pub trait IndexedParallelIterator {}
pub mod iter { pub use crate::*; }
pub mod prelude { pub use crate::{IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, ParallelBridge, ParallelIterator}; }
pub fn current_num_threads() -> usize { 8 }
