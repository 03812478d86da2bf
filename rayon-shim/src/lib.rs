//! A stand-in for rayon whose scheduler is controlled by the model checker.
//!
//! A parallel iterator is the list of its items. Consuming one is a *scheduling point* with as many
//! tasks as items: the checker picks the order in which they run. `mc::begin(choices)` replays the
//! given choices and takes choice 0 after them; `mc::end()` returns how many options every point had,
//! so that a depth-first search over all schedules can be driven from outside.
//!
//! Tasks run on the calling thread, one after the other. The closures handed to a parallel iterator
//! share nothing mutable (`Fn + Sync + Send` in safe code), so the order of whole tasks is what a
//! schedule can change.

pub mod mc {
    use std::cell::RefCell;

    #[derive(Default)]
    pub struct Sched {
        pub choices: Vec<usize>,
        /// last task first at every scheduling point
        pub reverse: bool,
        /// options at every scheduling point met
        pub options: Vec<usize>,
        /// tasks at every scheduling point met
        pub tasks: Vec<usize>,
    }
    thread_local! {
        static S: RefCell<Sched> = RefCell::new(Sched::default());
    }
    /// Up to this many tasks every permutation is a schedule.
    pub const FULL: usize = 4;

    pub fn begin(choices: &[usize]) {
        S.with(|s| *s.borrow_mut() = Sched { choices: choices.to_vec(), ..Default::default() });
    }
    pub fn begin_reverse() {
        S.with(|s| *s.borrow_mut() = Sched { reverse: true, ..Default::default() });
    }
    pub fn end() -> Sched {
        S.with(|s| std::mem::take(&mut *s.borrow_mut()))
    }
    fn options(n: usize) -> usize {
        match n {
            0 | 1 => 1,
            n if n <= FULL => (1..=n).product(),
            // forward, backward, odd tasks before even ones, second half first, two interleaved streams
            _ => 5,
        }
    }
    fn order(n: usize, choice: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        if n <= FULL {
            // choice-th permutation in the factorial number system
            let mut c = choice;
            let mut out = vec![];
            while !v.is_empty() {
                let k = v.len();
                out.push(v.remove(c % k));
                c /= k;
            }
            return out;
        }
        match choice {
            0 => {}
            1 => v.reverse(),
            2 => v.sort_by_key(|i| (i % 2 == 0, *i)),
            3 => v.rotate_left(n / 2),
            _ => v.sort_by_key(|i| if *i < n / 2 { 2 * i } else { 2 * (n - 1 - i) + 1 }),
        }
        v
    }
    /// The order the `n` tasks of the scheduling point just reached run in.
    pub fn point(n: usize) -> Vec<usize> {
        S.with(|s| {
            let mut s = s.borrow_mut();
            let k = s.options.len();
            let o = options(n);
            let c = s.choices.get(k).copied().unwrap_or(0) % o;
            s.options.push(o);
            s.tasks.push(n);
            if s.reverse {
                return (0..n).rev().collect();
            }
            order(n, c)
        })
    }
    /// Run `f` on every item in the chosen order.
    #[inline(never)]
    pub fn run_unit<T>(items: Vec<T>, f: &dyn Fn(T)) {
        let ord = point(items.len());
        let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
        for i in ord {
            f(items[i].take().unwrap());
        }
    }
    /// Run `f` on every item in the chosen order; results in item order.
    pub fn run<T, R>(items: Vec<T>, f: impl Fn(T) -> R) -> Vec<R> {
        let n = items.len();
        let ord = point(n);
        let mut items: Vec<Option<T>> = items.into_iter().map(Some).collect();
        let mut out: Vec<Option<R>> = (0..n).map(|_| None).collect();
        for i in ord {
            out[i] = Some(f(items[i].take().unwrap()));
        }
        out.into_iter().map(|r| r.unwrap()).collect()
    }
}

pub mod iter {
    use crate::mc;

    /// The items of a parallel iterator.
    pub struct Par<T>(pub Vec<T>);

    pub trait IntoParallelIterator {
        type Item;
        type Iter: ParallelIterator<Item = Self::Item>;
        fn into_par_iter(self) -> Self::Iter;
    }
    impl<T> IntoParallelIterator for Par<T> {
        type Item = T;
        type Iter = Par<T>;
        fn into_par_iter(self) -> Par<T> {
            self
        }
    }
    impl<T> IntoParallelIterator for Vec<T> {
        type Item = T;
        type Iter = Par<T>;
        fn into_par_iter(self) -> Par<T> {
            Par(self)
        }
    }
    impl<'a, T> IntoParallelIterator for &'a [T] {
        type Item = &'a T;
        type Iter = Par<&'a T>;
        fn into_par_iter(self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut [T] {
        type Item = &'a mut T;
        type Iter = Par<&'a mut T>;
        fn into_par_iter(self) -> Par<&'a mut T> {
            Par(self.iter_mut().collect())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a Vec<T> {
        type Item = &'a T;
        type Iter = Par<&'a T>;
        fn into_par_iter(self) -> Par<&'a T> {
            Par(self.iter().collect())
        }
    }
    impl<'a, T> IntoParallelIterator for &'a mut Vec<T> {
        type Item = &'a mut T;
        type Iter = Par<&'a mut T>;
        fn into_par_iter(self) -> Par<&'a mut T> {
            Par(self.iter_mut().collect())
        }
    }
    impl<T> IntoParallelIterator for std::ops::Range<T>
    where
        std::ops::Range<T>: Iterator<Item = T>,
    {
        type Item = T;
        type Iter = Par<T>;
        fn into_par_iter(self) -> Par<T> {
            Par(self.collect())
        }
    }
    impl<T> IntoParallelIterator for std::ops::RangeInclusive<T>
    where
        std::ops::RangeInclusive<T>: Iterator<Item = T>,
    {
        type Item = T;
        type Iter = Par<T>;
        fn into_par_iter(self) -> Par<T> {
            Par(self.collect())
        }
    }

    pub trait IntoParallelRefIterator<'d> {
        type Item: 'd;
        fn par_iter(&'d self) -> Par<Self::Item>;
    }
    impl<'d, T: 'd> IntoParallelRefIterator<'d> for [T] {
        type Item = &'d T;
        fn par_iter(&'d self) -> Par<&'d T> {
            Par(self.iter().collect())
        }
    }
    impl<'d, T: 'd> IntoParallelRefIterator<'d> for Vec<T> {
        type Item = &'d T;
        fn par_iter(&'d self) -> Par<&'d T> {
            Par(self.iter().collect())
        }
    }
    pub trait IntoParallelRefMutIterator<'d> {
        type Item: 'd;
        fn par_iter_mut(&'d mut self) -> Par<Self::Item>;
    }
    impl<'d, T: 'd> IntoParallelRefMutIterator<'d> for [T] {
        type Item = &'d mut T;
        fn par_iter_mut(&'d mut self) -> Par<&'d mut T> {
            Par(self.iter_mut().collect())
        }
    }
    impl<'d, T: 'd> IntoParallelRefMutIterator<'d> for Vec<T> {
        type Item = &'d mut T;
        fn par_iter_mut(&'d mut self) -> Par<&'d mut T> {
            Par(self.iter_mut().collect())
        }
    }
    pub trait ParallelBridge: Sized + Iterator {
        fn par_bridge(self) -> Par<Self::Item> {
            Par(self.collect())
        }
    }
    impl<I: Iterator> ParallelBridge for I {}

    pub trait ParallelIterator: Sized {
        type Item;
        fn items(self) -> Vec<Self::Item>;

        fn for_each<F: Fn(Self::Item) + Sync + Send>(self, f: F) {
            mc::run_unit(self.items(), &f);
        }
        fn for_each_with<T: Send + Clone, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: T, f: F) {
            mc::run(self.items(), |x| f(&mut init.clone(), x));
        }
        fn for_each_init<T, I: Fn() -> T + Sync + Send, F: Fn(&mut T, Self::Item) + Sync + Send>(self, init: I, f: F) {
            mc::run(self.items(), |x| f(&mut init(), x));
        }
        fn try_for_each<E, F: Fn(Self::Item) -> Result<(), E> + Sync + Send>(self, f: F) -> Result<(), E> {
            mc::run(self.items(), f).into_iter().collect()
        }
        fn map<R, F: Fn(Self::Item) -> R + Sync + Send>(self, f: F) -> Par<R> {
            Par(mc::run(self.items(), f))
        }
        fn filter<F: Fn(&Self::Item) -> bool + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par(self.items().into_iter().filter(|x| f(x)).collect())
        }
        fn filter_map<R, F: Fn(Self::Item) -> Option<R> + Sync + Send>(self, f: F) -> Par<R> {
            Par(mc::run(self.items(), f).into_iter().flatten().collect())
        }
        fn inspect<F: Fn(&Self::Item) + Sync + Send>(self, f: F) -> Par<Self::Item> {
            Par(mc::run(self.items(), |x| {
                f(&x);
                x
            }))
        }
        fn collect<C: FromIterator<Self::Item>>(self) -> C {
            self.items().into_iter().collect()
        }
        fn count(self) -> usize {
            self.items().len()
        }
        fn sum<S: std::iter::Sum<Self::Item>>(self) -> S {
            self.items().into_iter().sum()
        }
        fn min(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().min()
        }
        fn max(self) -> Option<Self::Item>
        where
            Self::Item: Ord,
        {
            self.items().into_iter().max()
        }
        fn any<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            mc::run(self.items(), f).into_iter().any(|b| b)
        }
        fn all<F: Fn(Self::Item) -> bool + Sync + Send>(self, f: F) -> bool {
            mc::run(self.items(), f).into_iter().all(|b| b)
        }
        fn reduce<I: Fn() -> Self::Item, F: Fn(Self::Item, Self::Item) -> Self::Item>(self, id: I, f: F) -> Self::Item {
            self.items().into_iter().fold(id(), f)
        }
    }
    impl<T> ParallelIterator for Par<T> {
        type Item = T;
        fn items(self) -> Vec<T> {
            self.0
        }
    }

    pub trait IndexedParallelIterator: ParallelIterator {
        #[inline(never)]
        fn zip<Z: IntoParallelIterator>(self, o: Z) -> Par<(Self::Item, Z::Item)> {
            Par(self.items().into_iter().zip(o.into_par_iter().items()).collect())
        }
        fn zip_eq<Z: IntoParallelIterator>(self, o: Z) -> Par<(Self::Item, Z::Item)> {
            let (a, b) = (self.items(), o.into_par_iter().items());
            assert_eq!(a.len(), b.len());
            Par(a.into_iter().zip(b).collect())
        }
        fn chain<Z: IntoParallelIterator<Item = Self::Item>>(self, o: Z) -> Par<Self::Item> {
            Par(self.items().into_iter().chain(o.into_par_iter().items()).collect())
        }
        fn enumerate(self) -> Par<(usize, Self::Item)> {
            Par(self.items().into_iter().enumerate().collect())
        }
        fn skip(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().skip(n).collect())
        }
        fn take(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().take(n).collect())
        }
        fn step_by(self, n: usize) -> Par<Self::Item> {
            Par(self.items().into_iter().step_by(n).collect())
        }
        fn rev(self) -> Par<Self::Item> {
            Par(self.items().into_iter().rev().collect())
        }
        fn chunks(self, n: usize) -> Par<Vec<Self::Item>> {
            let mut out = vec![];
            let mut it = self.items().into_iter().peekable();
            while it.peek().is_some() {
                out.push(it.by_ref().take(n).collect());
            }
            Par(out)
        }
        fn with_min_len(self, _: usize) -> Self {
            self
        }
        fn with_max_len(self, _: usize) -> Self {
            self
        }
        fn len(&self) -> usize;
    }
    impl<T> IndexedParallelIterator for Par<T> {
        fn len(&self) -> usize {
            self.0.len()
        }
    }
}

pub mod slice {
    use crate::iter::Par;
    pub trait ParallelSlice<T> {
        fn as_parallel_slice(&self) -> &[T];
        fn par_chunks(&self, n: usize) -> Par<&[T]> {
            Par(self.as_parallel_slice().chunks(n).collect())
        }
        fn par_chunks_exact(&self, n: usize) -> Par<&[T]> {
            Par(self.as_parallel_slice().chunks_exact(n).collect())
        }
        fn par_rchunks(&self, n: usize) -> Par<&[T]> {
            Par(self.as_parallel_slice().rchunks(n).collect())
        }
        fn par_windows(&self, n: usize) -> Par<&[T]> {
            Par(self.as_parallel_slice().windows(n).collect())
        }
    }
    impl<T> ParallelSlice<T> for [T] {
        fn as_parallel_slice(&self) -> &[T] {
            self
        }
    }
    pub trait ParallelSliceMut<T> {
        fn as_parallel_slice_mut(&mut self) -> &mut [T];
        fn par_chunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_parallel_slice_mut().chunks_mut(n).collect())
        }
        fn par_chunks_exact_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_parallel_slice_mut().chunks_exact_mut(n).collect())
        }
        fn par_rchunks_mut(&mut self, n: usize) -> Par<&mut [T]> {
            Par(self.as_parallel_slice_mut().rchunks_mut(n).collect())
        }
    }
    impl<T> ParallelSliceMut<T> for [T] {
        fn as_parallel_slice_mut(&mut self) -> &mut [T] {
            self
        }
    }
}

pub mod prelude {
    pub use crate::iter::*;
    pub use crate::slice::{ParallelSlice, ParallelSliceMut};
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
{
    if mc::point(2)[0] == 0 {
        let x = a();
        (x, b())
    } else {
        let y = b();
        (a(), y)
    }
}

/// Spawned tasks run when the scope ends, in the order the checker chooses.
pub struct Scope<'s>(std::sync::Mutex<Vec<Box<dyn FnOnce(&Scope<'s>) + Send + 's>>>);
impl<'s> Scope<'s> {
    pub fn spawn<F: FnOnce(&Scope<'s>) + Send + 's>(&self, f: F) {
        self.0.lock().unwrap().push(Box::new(f));
    }
}
pub fn scope<'s, R>(f: impl FnOnce(&Scope<'s>) -> R) -> R {
    let s = Scope(Default::default());
    let r = f(&s);
    loop {
        let t = std::mem::take(&mut *s.0.lock().unwrap());
        if t.is_empty() {
            return r;
        }
        let n = t.len();
        let mut t: Vec<Option<_>> = t.into_iter().map(Some).collect();
        for i in mc::point(n) {
            (t[i].take().unwrap())(&s);
        }
    }
}
pub fn current_num_threads() -> usize {
    4
}
