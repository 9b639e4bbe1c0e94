//! rayon as its documentation specifies it, with the schedule in the hands of
//! the caller: every place where the real library leaves the outcome to the
//! scheduler (which task runs next, how a reduction is bracketed, which match
//! is found first, how many threads there are) asks `model::decide(n)`.
//! Tasks run one at a time; they are atomic.
#![allow(clippy::all)]
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::sync::Arc;

pub mod model {
	use std::cell::RefCell;
	thread_local! {
		static DECIDER: RefCell<Option<Box<dyn Fn(usize) -> usize>>> = RefCell::new(None);
		static THREADS: RefCell<Vec<usize>> = RefCell::new(vec![1]);
	}
	/// `f(n)` is called for a decision between n alternatives; without it
	/// tasks run in order
	pub fn set(f: Option<Box<dyn Fn(usize) -> usize>>) {
		DECIDER.with(|d| *d.borrow_mut() = f);
	}
	/// the numbers of threads there may be; the first use decides
	pub fn set_threads(n: &[usize]) {
		THREADS.with(|t| *t.borrow_mut() = n.to_vec());
	}
	pub fn threads() -> usize {
		let l = THREADS.with(|t| t.borrow().clone());
		let n = l[decide(l.len())];
		set_threads(&[n]);
		n
	}
	pub fn decide(n: usize) -> usize {
		if n < 2 {
			return 0;
		}
		DECIDER.with(|d| match &*d.borrow() {
			Some(f) => f(n) % n,
			None => 0,
		})
	}
	/// an order of n tasks; with one thread tasks may still run in any order
	pub fn order(n: usize) -> Vec<usize> {
		let mut left: Vec<usize> = (0..n).collect();
		let mut out = vec![];
		while !left.is_empty() {
			// long lists: the front, the back or the middle
			let k = if left.len() <= 4 { decide(left.len()) } else { [0, left.len() - 1, left.len() / 2][decide(3)] };
			out.push(left.remove(k));
		}
		out
	}
}
use model::{decide, order};

type Thunk<'a, T> = Box<dyn FnOnce() -> Vec<T> + 'a>;

/// A parallel iterator: tasks by index; each yields some items.
pub struct Par<'a, T> {
	tasks: Vec<Thunk<'a, T>>,
	/// items come in no particular order (par_bridge)
	unordered: bool,
}

impl<'a, T: 'a> Par<'a, T> {
	fn of<I: IntoIterator<Item = T>>(it: I) -> Self {
		Par { tasks: it.into_iter().map(|x| Box::new(move || vec![x]) as Thunk<'a, T>).collect(), unordered: false }
	}
	fn each<U: 'a>(self, f: impl Fn(usize, Vec<T>) -> Vec<U> + 'a) -> Par<'a, U> {
		let f = Arc::new(f);
		Par {
			unordered: self.unordered,
			tasks: self
				.tasks
				.into_iter()
				.enumerate()
				.map(|(i, t)| {
					let f = f.clone();
					Box::new(move || f(i, t())) as Thunk<'a, U>
				})
				.collect(),
		}
	}
	/// items with the index of their task, in the order of execution, until
	/// `stop` says so; tasks that are already running may still be executed
	fn execute(self, mut stop: impl FnMut(&T) -> bool) -> Vec<(usize, Vec<T>)> {
		let mut tasks: Vec<Option<Thunk<'a, T>>> = self.tasks.into_iter().map(Some).collect();
		let mut out = vec![];
		let mut stopped = false;
		for i in order(tasks.len()) {
			if stopped && decide(2) == 0 {
				continue;
			}
			let v = tasks[i].take().unwrap()();
			for x in v.iter() {
				stopped = stop(x) || stopped;
			}
			out.push((i, v));
		}
		out
	}
	/// all items in the order of the iterator
	fn items(self) -> Vec<T> {
		let u = self.unordered;
		let mut v = self.execute(|_| false);
		if !u {
			v.sort_by_key(|(i, _)| *i);
		}
		v.into_iter().flat_map(|(_, v)| v).collect()
	}
	/// all items in the order of execution
	fn arrived(self) -> Vec<T> {
		self.execute(|_| false).into_iter().flat_map(|(_, v)| v).collect()
	}
	pub fn map<U: 'a, F: Fn(T) -> U + 'a>(self, f: F) -> Par<'a, U> {
		self.each(move |_, v| v.into_iter().map(&f).collect())
	}
	pub fn filter<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> {
		self.each(move |_, v| v.into_iter().filter(|x| f(x)).collect())
	}
	pub fn filter_map<U: 'a, F: Fn(T) -> Option<U> + 'a>(self, f: F) -> Par<'a, U> {
		self.each(move |_, v| v.into_iter().filter_map(&f).collect())
	}
	pub fn flat_map<U: 'a, I: IntoParallelIterator<'a, Item = U>, F: Fn(T) -> I + 'a>(self, f: F) -> Par<'a, U> {
		self.each(move |_, v| v.into_iter().flat_map(|x| f(x).into_par_iter().items()).collect())
	}
	pub fn flat_map_iter<U: 'a, I: IntoIterator<Item = U>, F: Fn(T) -> I + 'a>(self, f: F) -> Par<'a, U> {
		self.each(move |_, v| v.into_iter().flat_map(&f).collect())
	}
	pub fn flatten<U: 'a>(self) -> Par<'a, U>
	where
		T: IntoParallelIterator<'a, Item = U>,
	{
		self.each(|_, v| v.into_iter().flat_map(|x| x.into_par_iter().items()).collect())
	}
	pub fn flatten_iter<U: 'a>(self) -> Par<'a, U>
	where
		T: IntoIterator<Item = U>,
	{
		self.each(|_, v| v.into_iter().flatten().collect())
	}
	pub fn inspect<F: Fn(&T) + 'a>(self, f: F) -> Par<'a, T> {
		self.each(move |_, v| v.into_iter().inspect(|x| f(x)).collect())
	}
	pub fn update<F: Fn(&mut T) + 'a>(self, f: F) -> Par<'a, T> {
		self.each(move |_, mut v| {
			v.iter_mut().for_each(|x| f(x));
			v
		})
	}
	pub fn map_init<S: 'a, U: 'a, I: Fn() -> S + 'a, F: Fn(&mut S, T) -> U + 'a>(self, init: I, f: F) -> Par<'a, U> {
		// a thread keeps its value from one task to the next, or does not
		let s = std::cell::RefCell::new(None);
		self.each(move |_, v| {
			let mut s = s.borrow_mut();
			if s.is_none() || decide(2) == 1 {
				*s = Some(init());
			}
			v.into_iter().map(|x| f(s.as_mut().unwrap(), x)).collect()
		})
	}
	pub fn map_with<S: Clone + 'a, U: 'a, F: Fn(&mut S, T) -> U + 'a>(self, s: S, f: F) -> Par<'a, U> {
		self.map_init(move || s.clone(), f)
	}
	pub fn for_each_with<S: Clone + 'a, F: Fn(&mut S, T) + 'a>(self, s: S, f: F) {
		self.map_with(s, f).arrived();
	}
	pub fn for_each_init<S: 'a, I: Fn() -> S + 'a, F: Fn(&mut S, T) + 'a>(self, s: I, f: F) {
		self.map_init(s, f).arrived();
	}
	pub fn enumerate(self) -> Par<'a, (usize, T)> {
		self.each(|i, v| v.into_iter().map(|x| (i, x)).collect())
	}
	pub fn zip<U: 'a, J: IntoParallelIterator<'a, Item = U>>(self, o: J) -> Par<'a, (T, U)> {
		let o = o.into_par_iter();
		Par {
			unordered: false,
			tasks: self.tasks.into_iter().zip(o.tasks).map(|(a, b)| Box::new(move || a().into_iter().zip(b()).collect()) as Thunk<'a, (T, U)>).collect(),
		}
	}
	pub fn chain<J: IntoParallelIterator<'a, Item = T>>(mut self, o: J) -> Par<'a, T> {
		self.tasks.extend(o.into_par_iter().tasks);
		self
	}
	pub fn take(mut self, n: usize) -> Par<'a, T> {
		self.tasks.truncate(n);
		self
	}
	pub fn skip(mut self, n: usize) -> Par<'a, T> {
		let n = n.min(self.tasks.len());
		self.tasks.drain(..n).count();
		self
	}
	pub fn rev(mut self) -> Par<'a, T> {
		self.tasks.reverse();
		self
	}
	pub fn step_by(mut self, n: usize) -> Par<'a, T> {
		self.tasks = self.tasks.into_iter().step_by(n).collect();
		self
	}
	pub fn with_min_len(self, _: usize) -> Self {
		self
	}
	pub fn with_max_len(self, _: usize) -> Self {
		self
	}
	pub fn panic_fuse(self) -> Self {
		self
	}
	pub fn len(&self) -> usize {
		self.tasks.len()
	}
	pub fn chunks(self, n: usize) -> Par<'a, Vec<T>> {
		let mut out: Vec<Thunk<'a, Vec<T>>> = vec![];
		let mut it = self.tasks.into_iter();
		loop {
			let c: Vec<Thunk<'a, T>> = it.by_ref().take(n).collect();
			if c.is_empty() {
				break;
			}
			out.push(Box::new(move || vec![Par { tasks: c, unordered: false }.items()]));
		}
		Par { tasks: out, unordered: false }
	}
	pub fn collect<C: FromParallelIterator<T>>(self) -> C {
		C::from_par_iter(self)
	}
	pub fn collect_into_vec(self, v: &mut Vec<T>) {
		*v = self.items();
	}
	pub fn for_each<F: Fn(T) + 'a>(self, f: F) {
		self.map(f).arrived();
	}
	pub fn try_for_each<E: 'a, F: Fn(T) -> Result<(), E> + 'a>(self, f: F) -> Result<(), E> {
		self.map(f).collect::<Result<Vec<()>, E>>().map(|_| ())
	}
	pub fn count(self) -> usize {
		self.arrived().len()
	}
	pub fn sum<S: std::iter::Sum<T>>(self) -> S {
		self.items().into_iter().sum()
	}
	pub fn product<S: std::iter::Product<T>>(self) -> S {
		self.items().into_iter().product()
	}
	pub fn min_by<F: Fn(&T, &T) -> std::cmp::Ordering>(self, f: F) -> Option<T> {
		self.items().into_iter().min_by(|a, b| f(a, b))
	}
	pub fn max_by<F: Fn(&T, &T) -> std::cmp::Ordering>(self, f: F) -> Option<T> {
		self.items().into_iter().max_by(|a, b| f(a, b))
	}
	pub fn min_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> Option<T> {
		self.items().into_iter().min_by_key(|a| f(a))
	}
	pub fn max_by_key<K: Ord, F: Fn(&T) -> K>(self, f: F) -> Option<T> {
		self.items().into_iter().max_by_key(|a| f(a))
	}
	pub fn min(self) -> Option<T>
	where
		T: Ord,
	{
		self.items().into_iter().min()
	}
	pub fn max(self) -> Option<T>
	where
		T: Ord,
	{
		self.items().into_iter().max()
	}
	pub fn reduce<I: Fn() -> T, F: Fn(T, T) -> T>(self, id: I, f: F) -> T {
		let v = self.items();
		if v.is_empty() {
			return id();
		}
		bracket(v.into_iter().map(|x| if decide(2) == 1 { f(id(), x) } else { x }).collect(), &f)
	}
	pub fn reduce_with<F: Fn(T, T) -> T>(self, f: F) -> Option<T> {
		let v = self.items();
		if v.is_empty() {
			None
		} else {
			Some(bracket(v, &f))
		}
	}
	pub fn try_reduce_with<U: 'a, E: 'a, F: Fn(U, U) -> Result<U, E>>(self, f: F) -> Option<Result<U, E>>
	where
		T: Into<Result<U, E>>,
	{
		self.map(|x| x.into()).reduce_with(|a: Result<U, E>, b| f(a?, b?))
	}
	pub fn fold<S: 'a, I: Fn() -> S + 'a, F: Fn(S, T) -> S + 'a>(self, id: I, f: F) -> Par<'a, S> {
		let f = Arc::new((id, f));
		let mut out: Vec<Thunk<'a, S>> = vec![];
		let mut cur: Vec<Thunk<'a, T>> = vec![];
		let n = self.tasks.len();
		for (i, t) in self.tasks.into_iter().enumerate() {
			cur.push(t);
			if i + 1 == n || decide(2) == 1 {
				let c = std::mem::take(&mut cur);
				let f = f.clone();
				out.push(Box::new(move || vec![c.into_iter().flat_map(|t| t()).fold(f.0(), |s, x| f.1(s, x))]));
			}
		}
		Par { tasks: out, unordered: self.unordered }
	}
	pub fn find_any<F: Fn(&T) -> bool + 'a>(self, f: F) -> Option<T> {
		self.arrived().into_iter().find(|x| f(x))
	}
	pub fn find_first<F: Fn(&T) -> bool + 'a>(self, f: F) -> Option<T> {
		self.items().into_iter().find(|x| f(x))
	}
	pub fn find_last<F: Fn(&T) -> bool + 'a>(self, f: F) -> Option<T> {
		self.items().into_iter().filter(|x| f(x)).last()
	}
	pub fn find_map_any<U: 'a, F: Fn(T) -> Option<U> + 'a>(self, f: F) -> Option<U> {
		self.filter_map(f).arrived().into_iter().next()
	}
	pub fn find_map_first<U: 'a, F: Fn(T) -> Option<U> + 'a>(self, f: F) -> Option<U> {
		self.filter_map(f).items().into_iter().next()
	}
	pub fn any<F: Fn(T) -> bool + 'a>(self, f: F) -> bool {
		self.arrived().into_iter().any(f)
	}
	pub fn all<F: Fn(T) -> bool + 'a>(self, f: F) -> bool {
		self.arrived().into_iter().all(f)
	}
	pub fn position_any<F: Fn(T) -> bool + 'a>(self, f: F) -> Option<usize> {
		self.enumerate().arrived().into_iter().find_map(|(i, x)| if f(x) { Some(i) } else { None })
	}
	pub fn position_first<F: Fn(T) -> bool + 'a>(self, f: F) -> Option<usize> {
		self.items().into_iter().position(f)
	}
	pub fn partition<A: Default + Extend<T>, F: Fn(&T) -> bool>(self, f: F) -> (A, A) {
		let (mut a, mut b) = (A::default(), A::default());
		for x in self.items() {
			if f(&x) {
				a.extend(Some(x))
			} else {
				b.extend(Some(x))
			}
		}
		(a, b)
	}
	pub fn fold_with<S: Clone + 'a, F: Fn(S, T) -> S + 'a>(self, s: S, f: F) -> Par<'a, S> {
		self.fold(move || s.clone(), f)
	}
	pub fn fold_chunks<S: 'a, I: Fn() -> S + 'a, F: Fn(S, T) -> S + 'a>(self, n: usize, id: I, f: F) -> Par<'a, S> {
		self.chunks(n).map(move |c| c.into_iter().fold(id(), |s, x| f(s, x)))
	}
	pub fn find_map_last<U: 'a, F: Fn(T) -> Option<U> + 'a>(self, f: F) -> Option<U> {
		self.filter_map(f).items().into_iter().last()
	}
	pub fn position_last<F: Fn(T) -> bool + 'a>(self, f: F) -> Option<usize> {
		self.enumerate().items().into_iter().filter_map(|(i, x)| if f(x) { Some(i) } else { None }).last()
	}
	pub fn positions<F: Fn(T) -> bool + 'a>(self, f: F) -> Par<'a, usize> {
		self.enumerate().filter_map(move |(i, x)| if f(x) { Some(i) } else { None })
	}
	pub fn interleave<J: IntoParallelIterator<'a, Item = T>>(self, o: J) -> Par<'a, T> {
		let (mut a, mut b) = (self.tasks.into_iter(), o.into_par_iter().tasks.into_iter());
		let mut t = vec![];
		loop {
			let n = t.len();
			t.extend(a.next());
			t.extend(b.next());
			if t.len() == n {
				break;
			}
		}
		Par { tasks: t, unordered: false }
	}
	pub fn skip_any(self, n: usize) -> Par<'a, T> {
		let v: Vec<T> = self.arrived().into_iter().skip(n).collect();
		Par::of(v)
	}
	pub fn take_any_while<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> {
		let v: Vec<T> = self.arrived().into_iter().take_while(|x| f(x)).collect();
		Par::of(v)
	}
	pub fn skip_any_while<F: Fn(&T) -> bool + 'a>(self, f: F) -> Par<'a, T> {
		let v: Vec<T> = self.arrived().into_iter().skip_while(|x| f(x)).collect();
		Par::of(v)
	}
	pub fn by_exponential_blocks(self) -> Self {
		self
	}
	pub fn by_uniform_blocks(self, _: usize) -> Self {
		self
	}
	pub fn collect_vec_list(self) -> LinkedList<Vec<T>> {
		let u = self.unordered;
		let mut v = self.execute(|_| false);
		if !u {
			v.sort_by_key(|(i, _)| *i);
		}
		v.into_iter().map(|(_, v)| v).collect()
	}
	pub fn take_any(self, n: usize) -> Par<'a, T> {
		let v: Vec<T> = self.arrived().into_iter().take(n).collect();
		Par::of(v)
	}
	pub fn while_some<U: 'a>(self) -> Par<'a, U>
	where
		T: Into<Option<U>>,
	{
		let mut v = vec![];
		for x in self.arrived() {
			match x.into() {
				Some(x) => v.push(x),
				None => break,
			}
		}
		Par::of(v)
	}
}

impl<'a, A: 'a, B: 'a> Par<'a, (A, B)> {
	pub fn unzip<X: Default + Extend<A>, Y: Default + Extend<B>>(self) -> (X, Y) {
		let (mut x, mut y) = (X::default(), Y::default());
		for (a, b) in self.items() {
			x.extend(Some(a));
			y.extend(Some(b));
		}
		(x, y)
	}
}

impl<'a, 'b: 'a, T: Clone + 'b> Par<'a, &'b T> {
	pub fn cloned(self) -> Par<'a, T> {
		self.map(|x| x.clone())
	}
	pub fn copied(self) -> Par<'a, T>
	where
		T: Copy,
	{
		self.map(|x| *x)
	}
}

fn bracket<T>(mut v: Vec<T>, f: &impl Fn(T, T) -> T) -> T {
	if v.len() == 1 {
		return v.pop().unwrap();
	}
	let k = 1 + decide(v.len() - 1);
	let r = v.split_off(k);
	let (a, b) = (bracket(v, f), bracket(r, f));
	f(a, b)
}

pub trait FromParallelIterator<T>: Sized {
	fn from_par_iter<'a>(p: Par<'a, T>) -> Self
	where
		T: 'a;
}
macro_rules! from_std {
	($t:ty, $item:ty, [$($g:tt)*]) => {
		impl<$($g)*> FromParallelIterator<$item> for $t {
			fn from_par_iter<'a>(p: Par<'a, $item>) -> Self where $item: 'a {
				p.items().into_iter().collect()
			}
		}
	};
}
from_std!(Vec<T>, T, [T]);
from_std!(VecDeque<T>, T, [T]);
from_std!(LinkedList<T>, T, [T]);
from_std!(Box<[T]>, T, [T]);
from_std!(BTreeSet<T>, T, [T: Ord]);
from_std!(BinaryHeap<T>, T, [T: Ord]);
from_std!(BTreeMap<K, V>, (K, V), [K: Ord, V]);
from_std!(HashSet<T, S>, T, [T: Hash + Eq, S: BuildHasher + Default]);
from_std!(HashMap<K, V, S>, (K, V), [K: Hash + Eq, V, S: BuildHasher + Default]);
from_std!(String, char, []);
impl FromParallelIterator<()> for () {
	fn from_par_iter<'a>(p: Par<'a, ()>) -> Self
	where
		(): 'a,
	{
		p.arrived();
	}
}
impl<T, E, C: FromParallelIterator<T>> FromParallelIterator<Result<T, E>> for Result<C, E> {
	/// the error that comes first is kept
	fn from_par_iter<'a>(p: Par<'a, Result<T, E>>) -> Self
	where
		Result<T, E>: 'a,
	{
		let u = p.unordered;
		let mut v = p.execute(|x| x.is_err());
		if let Some(i) = v.iter().position(|(_, l)| l.iter().any(|x| x.is_err())) {
			return Err(v.swap_remove(i).1.into_iter().find_map(|x| x.err()).unwrap());
		}
		if !u {
			v.sort_by_key(|(i, _)| *i);
		}
		let ok: Vec<T> = v.into_iter().flat_map(|(_, l)| l).filter_map(|x| x.ok()).collect();
		Ok(C::from_par_iter(done(ok)))
	}
}
impl<T, C: FromParallelIterator<T>> FromParallelIterator<Option<T>> for Option<C> {
	fn from_par_iter<'a>(p: Par<'a, Option<T>>) -> Self
	where
		Option<T>: 'a,
	{
		let u = p.unordered;
		let mut v = p.execute(|x| x.is_none());
		if v.iter().any(|(_, l)| l.iter().any(|x| x.is_none())) {
			return None;
		}
		if !u {
			v.sort_by_key(|(i, _)| *i);
		}
		Some(C::from_par_iter(done(v.into_iter().flat_map(|(_, l)| l).flatten().collect())))
	}
}
/// items that are there already: one task
fn done<'a, T: 'a>(v: Vec<T>) -> Par<'a, T> {
	Par { tasks: vec![Box::new(move || v)], unordered: false }
}

pub trait IntoParallelIterator<'a>: Sized {
	type Item: 'a;
	fn into_par_iter(self) -> Par<'a, Self::Item>;
}
impl<'a, T: 'a> IntoParallelIterator<'a> for Par<'a, T> {
	type Item = T;
	fn into_par_iter(self) -> Par<'a, T> {
		self
	}
}
macro_rules! into_std {
	($t:ty, $item:ty, [$($g:tt)*]) => {
		impl<'a, $($g)*> IntoParallelIterator<'a> for $t {
			type Item = $item;
			fn into_par_iter(self) -> Par<'a, $item> {
				Par::of(self)
			}
		}
	};
}
into_std!(Vec<T>, T, [T: 'a]);
into_std!(VecDeque<T>, T, [T: 'a]);
into_std!(Option<T>, T, [T: 'a]);
into_std!(BTreeSet<T>, T, [T: 'a]);
into_std!(HashSet<T>, T, [T: 'a]);
into_std!(HashMap<K, V>, (K, V), [K: 'a, V: 'a]);
into_std!(BTreeMap<K, V>, (K, V), [K: 'a, V: 'a]);
into_std!(std::ops::Range<usize>, usize, []);
into_std!(std::ops::Range<i32>, i32, []);
into_std!(std::ops::Range<u32>, u32, []);
into_std!(std::ops::Range<u64>, u64, []);
into_std!(std::ops::RangeInclusive<usize>, usize, []);
into_std!(&'a Vec<T>, &'a T, [T: 'a]);
into_std!(&'a [T], &'a T, [T: 'a]);
into_std!(&'a mut Vec<T>, &'a mut T, [T: 'a]);
into_std!(&'a mut [T], &'a mut T, [T: 'a]);
into_std!(&'a BTreeSet<T>, &'a T, [T: 'a]);
into_std!(&'a HashSet<T>, &'a T, [T: 'a]);
into_std!(&'a HashMap<K, V>, (&'a K, &'a V), [K: 'a, V: 'a]);
into_std!(&'a BTreeMap<K, V>, (&'a K, &'a V), [K: 'a, V: 'a]);
impl<'a, T: 'a, const N: usize> IntoParallelIterator<'a> for [T; N] {
	type Item = T;
	fn into_par_iter(self) -> Par<'a, T> {
		Par::of(self)
	}
}

pub trait IntoParallelRefIterator<'a> {
	type Item: 'a;
	fn par_iter(&'a self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefIterator<'a> for C
where
	&'a C: IntoParallelIterator<'a>,
{
	type Item = <&'a C as IntoParallelIterator<'a>>::Item;
	fn par_iter(&'a self) -> Par<'a, Self::Item> {
		self.into_par_iter()
	}
}
pub trait IntoParallelRefMutIterator<'a> {
	type Item: 'a;
	fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item>;
}
impl<'a, C: ?Sized + 'a> IntoParallelRefMutIterator<'a> for C
where
	&'a mut C: IntoParallelIterator<'a>,
{
	type Item = <&'a mut C as IntoParallelIterator<'a>>::Item;
	fn par_iter_mut(&'a mut self) -> Par<'a, Self::Item> {
		self.into_par_iter()
	}
}
pub trait ParallelBridge: Iterator + Sized {
	/// the order of the items is lost
	fn par_bridge<'a>(self) -> Par<'a, Self::Item>
	where
		Self::Item: 'a,
	{
		let mut p = Par::of(self.collect::<Vec<_>>());
		p.unordered = true;
		p
	}
}
impl<I: Iterator> ParallelBridge for I {}
pub trait ParallelSlice<T> {
	fn par_chunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>;
	fn par_windows<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>;
	fn par_chunks_exact<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>;
	fn par_rchunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>;
	fn par_rchunks_exact<'a>(&'a self, n: usize) -> Par<'a, &'a [T]>;
	fn par_split<'a, F: Fn(&T) -> bool>(&'a self, f: F) -> Par<'a, &'a [T]>;
	fn par_chunk_by<'a, F: Fn(&T, &T) -> bool>(&'a self, f: F) -> Par<'a, &'a [T]>;
}
impl<T> ParallelSlice<T> for [T] {
	fn par_chunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> {
		Par::of(self.chunks(n))
	}
	fn par_windows<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> {
		Par::of(self.windows(n))
	}
	fn par_chunks_exact<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> {
		Par::of(self.chunks_exact(n))
	}
	fn par_rchunks<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> {
		Par::of(self.rchunks(n))
	}
	fn par_rchunks_exact<'a>(&'a self, n: usize) -> Par<'a, &'a [T]> {
		Par::of(self.rchunks_exact(n))
	}
	fn par_split<'a, F: Fn(&T) -> bool>(&'a self, f: F) -> Par<'a, &'a [T]> {
		Par::of(self.split(|x| f(x)))
	}
	fn par_chunk_by<'a, F: Fn(&T, &T) -> bool>(&'a self, f: F) -> Par<'a, &'a [T]> {
		Par::of(self.chunk_by(|a, b| f(a, b)))
	}
}
pub trait ParallelSliceMut<T> {
	fn par_chunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]>;
	fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F);
	fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F);
	fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
	fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
	fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F);
	fn par_sort(&mut self)
	where
		T: Ord;
	fn par_sort_unstable(&mut self)
	where
		T: Ord;
	fn par_chunks_exact_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]>;
	fn par_rchunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]>;
}
impl<T> ParallelSliceMut<T> for [T] {
	fn par_chunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]> {
		Par::of(self.chunks_mut(n))
	}
	fn par_sort_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		self.sort_by(f)
	}
	/// equal items end up in any order
	fn par_sort_unstable_by<F: Fn(&T, &T) -> std::cmp::Ordering>(&mut self, f: F) {
		if decide(2) == 1 {
			self.reverse()
		}
		self.sort_by(f)
	}
	fn par_sort_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
		self.sort_by_key(f)
	}
	fn par_sort_by_cached_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
		self.sort_by_cached_key(f)
	}
	fn par_sort_unstable_by_key<K: Ord, F: Fn(&T) -> K>(&mut self, f: F) {
		self.par_sort_unstable_by(|a, b| f(a).cmp(&f(b)))
	}
	fn par_sort(&mut self)
	where
		T: Ord,
	{
		self.sort()
	}
	fn par_sort_unstable(&mut self)
	where
		T: Ord,
	{
		self.par_sort_unstable_by(|a, b| a.cmp(b))
	}
	fn par_chunks_exact_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]> {
		Par::of(self.chunks_exact_mut(n))
	}
	fn par_rchunks_mut<'a>(&'a mut self, n: usize) -> Par<'a, &'a mut [T]> {
		Par::of(self.rchunks_mut(n))
	}
}
pub trait ParallelExtend<T> {
	fn par_extend<'a, I: IntoParallelIterator<'a, Item = T>>(&mut self, it: I);
}
impl<T, C: Extend<T>> ParallelExtend<T> for C {
	fn par_extend<'a, I: IntoParallelIterator<'a, Item = T>>(&mut self, it: I) {
		self.extend(it.into_par_iter().items())
	}
}
/// Names only; everything is a method of `Par`.
pub trait ParallelIterator {}
impl<'a, T> ParallelIterator for Par<'a, T> {}
pub trait IndexedParallelIterator {}
impl<'a, T> IndexedParallelIterator for Par<'a, T> {}

pub mod iter {
	pub use crate::{
		FromParallelIterator, IndexedParallelIterator, IntoParallelIterator, IntoParallelRefIterator, IntoParallelRefMutIterator, ParallelBridge, ParallelExtend,
		ParallelIterator,
	};
	use crate::Par;
	pub fn repeat<'a, T: Clone + 'a>(x: T) -> RepeatModel<T> {
		RepeatModel(x)
	}
	pub fn repeatn<'a, T: Clone + 'a>(x: T, n: usize) -> Par<'a, T> {
		Par::of(std::iter::repeat(x).take(n).collect::<Vec<_>>())
	}
	pub fn repeat_n<'a, T: Clone + 'a>(x: T, n: usize) -> Par<'a, T> {
		repeatn(x, n)
	}
	pub struct RepeatModel<T>(T);
	impl<T: Clone> RepeatModel<T> {
		pub fn take<'a>(self, n: usize) -> Par<'a, T>
		where
			T: 'a,
		{
			repeatn(self.0, n)
		}
	}
	pub fn once<'a, T: 'a>(x: T) -> Par<'a, T> {
		Par::of(Some(x))
	}
	pub fn empty<'a, T: 'a>() -> Par<'a, T> {
		Par::of(None)
	}
}
pub mod slice {
	pub use crate::{ParallelSlice, ParallelSliceMut};
}
pub mod prelude {
	pub use crate::iter::*;
	pub use crate::slice::*;
}

pub fn current_num_threads() -> usize {
	model::threads()
}
pub fn max_num_threads() -> usize {
	1 << 16
}
/// any of the threads
pub fn current_thread_index() -> Option<usize> {
	Some(decide(model::threads()))
}
pub fn join<A, B>(a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
	if decide(2) == 0 {
		let a = a();
		(a, b())
	} else {
		let b = b();
		(a(), b)
	}
}
pub fn spawn(f: impl FnOnce() + 'static) {
	f()
}
pub struct Scope<'s>(std::cell::RefCell<Vec<Box<dyn FnOnce(&Scope<'s>) + 's>>>);
impl<'s> Scope<'s> {
	pub fn spawn(&self, f: impl FnOnce(&Scope<'s>) + 's) {
		self.0.borrow_mut().push(Box::new(f));
	}
}
/// the tasks run after the body, in any order
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
	let s = Scope(Default::default());
	let r = f(&s);
	loop {
		let n = s.0.borrow().len();
		if n == 0 {
			return r;
		}
		let t = s.0.borrow_mut().remove(decide(n));
		t(&s);
	}
}
pub fn in_place_scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
	scope(f)
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl std::fmt::Display for ThreadPoolBuildError {
	fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
		write!(f, "no pool")
	}
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Default)]
pub struct ThreadPoolBuilder {
	stack: Option<usize>,
	threads: usize,
}
impl ThreadPoolBuilder {
	pub fn new() -> Self {
		Self::default()
	}
	pub fn num_threads(mut self, n: usize) -> Self {
		self.threads = n;
		self
	}
	pub fn stack_size(mut self, n: usize) -> Self {
		self.stack = Some(n);
		self
	}
	pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
		Ok(ThreadPool(self))
	}
	pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
		Ok(())
	}
}
pub struct ThreadPool(ThreadPoolBuilder);
impl ThreadPool {
	/// on a thread of its own if a size of the stack is asked for
	pub fn install<R: Send>(&self, f: impl FnOnce() -> R + Send) -> R {
		match self.0.stack {
			Some(n) => std::thread::scope(|s| {
				match std::thread::Builder::new().stack_size(n).spawn_scoped(s, f).expect("thread").join() {
					Ok(r) => r,
					Err(e) => std::panic::resume_unwind(e),
				}
			}),
			None => f(),
		}
	}
	pub fn current_num_threads(&self) -> usize {
		if self.0.threads == 0 {
			model::threads()
		} else {
			self.0.threads
		}
	}
	pub fn join<A, B>(&self, a: impl FnOnce() -> A, b: impl FnOnce() -> B) -> (A, B) {
		join(a, b)
	}
	pub fn scope<'s, R>(&self, f: impl FnOnce(&Scope<'s>) -> R) -> R {
		scope(f)
	}
}
