//! Parameter types used to drive the crate's generic parts.
use crate::graph::*;
use graph_safe_compare::basic::modes::{limited::{LimitReached, Limited}, unlimited::Unlimited};
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::deep_safe::recursion::queue::{self, RecurQueue};
use graph_safe_compare::generic::equiv::{self, CounterpartsResult, DescendMode, EdgesIter, Equiv, RecurMode};
use graph_safe_compare::generic::equiv_classes::{self, Class, Table};
use graph_safe_compare::generic::precheck_interleave::{self, InterleaveError, PrecheckError};
use graph_safe_compare::wide_safe::recursion::stack::{self, RecurStack};
use graph_safe_compare::{Cmp, Node};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::convert::Infallible;
use std::marker::PhantomData;
use std::num::NonZeroU16;
use std::ops::Deref;

// ---- random numbers: scripted
thread_local! {
    pub static SCRIPT: RefCell<Vec<u16>> = RefCell::new(vec![0]);
    pub static SCRIPT_AT: Cell<usize> = Cell::new(0);
    pub static ASKED: RefCell<Vec<u16>> = RefCell::new(vec![]);
    pub static TABLE_OPS: Cell<u64> = Cell::new(0);
    pub static CLASSES: RefCell<Vec<MyRc>> = RefCell::new(vec![]);
    pub static KEEP: Cell<bool> = Cell::new(false);
    pub static DESCENDED: Cell<u64> = Cell::new(0);
    pub static PHASES: RefCell<Vec<bool>> = RefCell::new(vec![]);
}
#[derive(Default)]
pub struct Scripted;
impl NumberGenerator for Scripted {
    fn rand_upto(&mut self, end: NonZeroU16) -> u16 {
        ASKED.with(|a| a.borrow_mut().push(end.get()));
        SCRIPT.with(|s| { let s = s.borrow(); let i = SCRIPT_AT.get(); SCRIPT_AT.set(i + 1); (s[i % s.len()]) % end.get() })
    }
}
// ---- class records
#[derive(Clone)]
pub struct MyRc(std::rc::Rc<Cell<Class<MyRc>>>);
impl Deref for MyRc { type Target = Cell<Class<MyRc>>; fn deref(&self) -> &Self::Target { &self.0 } }
impl equiv_classes::Rc for MyRc {
    fn new(v: Cell<Class<Self>>) -> Self { let r = MyRc(std::rc::Rc::new(v)); if KEEP.get() { CLASSES.with(|c| c.borrow_mut().push(r.clone())) } r }
}
impl MyRc {
    pub fn chain(&self) -> usize {
        let mut n = 0; let mut cur = self.clone();
        loop {
            let v = cur.replace(Class::default()); let w = v.clone(); cur.set(v);
            match w { Class::Link { next, .. } => { n += 1; cur = next; assert!(n < 1_000_000, "link chain too long or cyclic") }, _ => return n }
        }
    }
}
pub struct MyTable<N: Node>(HashMap<usize, MyRc>, PhantomData<fn() -> N>);
impl<N: Node> Default for MyTable<N> { fn default() -> Self { MyTable(HashMap::new(), PhantomData) } }
impl<N: Node<Id = usize>> Table for MyTable<N> {
    type Node = N; type Rc = MyRc;
    fn get(&self, k: &usize) -> Option<&MyRc> { TABLE_OPS.set(TABLE_OPS.get() + 1); self.0.get(k) }
    fn insert(&mut self, k: usize, v: MyRc) { TABLE_OPS.set(TABLE_OPS.get() + 1); let _ = self.0.insert(k, v); }
}
// ---- interleave parameters
pub struct Cfg<N, const P: u16, const F: u16, const S: u16>(PhantomData<fn() -> N>);
impl<N: Node<Id = usize>, const P: u16, const F: u16, const S: u16> interleave::Params for Cfg<N, P, F, S> {
    const PRECHECK_LIMIT: u16 = P; const FAST_LIMIT_MAX: u16 = F; const SLOW_LIMIT: u16 = S;
    type Node = N; type Table = MyTable<N>; type RNG = Scripted;
}
/// only the precheck limit given
pub struct Der<N, const P: u16>(PhantomData<fn() -> N>);
impl<N: Node<Id = usize>, const P: u16> interleave::Params for Der<N, P> {
    const PRECHECK_LIMIT: u16 = P;
    type Node = N; type Table = MyTable<N>; type RNG = Scripted;
}
/// `Interleave`, counting the pairs it lets be descended
pub struct Counted<I: interleave::Params>(Interleave<I>);
impl<I: interleave::Params> Default for Counted<I> { fn default() -> Self { Counted(Interleave::default()) } }
pub struct ForInner<I, M>(PhantomData<fn() -> (I, M)>);
impl<I: interleave::Params> equiv::Params for ForInner<I, ()> { type Node = I::Node; type DescendMode = Interleave<I>; type RecurMode = CallStack; type Error = Infallible; }
impl<I, E> DescendMode<E> for Counted<I> where I: interleave::Params, E: equiv::Params<Node = I::Node>, Infallible: Into<E::Error> {
    type Error = Infallible;
    fn do_edges(&mut self, a: &E::Node, b: &E::Node) -> Result<bool, Infallible> {
        let r = <Interleave<I> as DescendMode<ForInner<I, ()>>>::do_edges(&mut self.0, a, b)?;
        if r { DESCENDED.set(DESCENDED.get() + 1) }
        Ok(r)
    }
    fn do_traverse(&mut self) -> Result<bool, Infallible> { <Interleave<I> as DescendMode<ForInner<I, ()>>>::do_traverse(&mut self.0) }
}
// ---- what a comparison is made of: interleave parameters and a recursion component
pub struct ByCall; pub struct ByQueue; pub struct ByStack;
pub struct Full<I, M>(PhantomData<fn() -> (I, M)>);
impl<I: interleave::Params> equiv::Params for Full<I, ByCall> { type Node = I::Node; type DescendMode = Counted<I>; type RecurMode = CallStack; type Error = Infallible; }
impl<I: interleave::Params> equiv::Params for Full<I, ByQueue> { type Node = I::Node; type DescendMode = Counted<I>; type RecurMode = RecurQueue<Self>; type Error = Infallible; }
impl<I: interleave::Params> equiv::Params for Full<I, ByStack> { type Node = I::Node; type DescendMode = Counted<I>; type RecurMode = RecurStack<Self>; type Error = Infallible; }
impl<I: interleave::Params, M> queue::Params for Full<I, M> { type Node = I::Node; }
impl<I: interleave::Params, M> stack::Params for Full<I, M> { type Node = I::Node; }
pub struct Pre<I, M>(PhantomData<fn() -> (I, M)>);
macro_rules! pre { ($m:ty, $p:ty, $i:ty) => {
    impl<N: Node, I: interleave::Params<Node = N>> precheck_interleave::Params<N> for Pre<I, $m> {
        type PrecheckRecurMode = $p; type InterleaveRecurMode = $i; type InterleaveParams = I; type Error = Infallible;
    }
} }
impl<I: interleave::Params, M> queue::Params for Pre<I, M> { type Node = I::Node; }
impl<I: interleave::Params, M> stack::Params for Pre<I, M> { type Node = I::Node; }
pub struct CallQueue; pub struct CallStk;
pre!(ByCall, CallStack, CallStack);
pre!(ByQueue, RecurQueue<Self>, RecurQueue<Self>);
pre!(ByStack, RecurStack<Self>, RecurStack<Self>);
pre!(CallQueue, CallStack, RecurQueue<Self>);
pre!(CallStk, CallStack, RecurStack<Self>);

pub type Func<C> = (String, Box<dyn Fn(Nd<C>, Nd<C>) -> C>);
fn full<C: MkCmp, I: interleave::Params<Node = Nd<C>> + 'static>(name: &str, v: &mut Vec<Func<C>>) {
    v.push((format!("{name} interleave on the call stack"), Box::new(|a, b| Equiv::<Full<I, ByCall>>::default().equiv(a, b).unwrap())));
    v.push((format!("{name} interleave with queue"), Box::new(|a, b| Equiv::<Full<I, ByQueue>>::default().equiv(a, b).unwrap())));
    v.push((format!("{name} interleave with stack"), Box::new(|a, b| Equiv::<Full<I, ByStack>>::default().equiv(a, b).unwrap())));
}
/// the comparison alone that each of `prec`'s takes over with
fn prec_full<C: MkCmp, I: interleave::Params<Node = Nd<C>> + 'static>(v: &mut Vec<Func<C>>) {
    let mut f = vec![]; full::<C, I>("", &mut f);
    let mut f = f.into_iter(); let (c, q, s) = (f.next().unwrap(), f.next().unwrap(), f.next().unwrap());
    v.extend([c, q, s]);
    let mut f = vec![]; full::<C, I>("", &mut f);
    let mut f = f.into_iter(); let (_, q, s) = (f.next(), f.next().unwrap(), f.next().unwrap());
    v.extend([q, s]);
}
fn prec<C: MkCmp, I: interleave::Params<Node = Nd<C>> + 'static>(name: &str, v: &mut Vec<Func<C>>) {
    v.push((format!("{name} precheck_interleave on the call stack"), Box::new(|a, b| precheck_interleave::equiv::<_, Pre<I, ByCall>>(a, b).unwrap())));
    v.push((format!("{name} precheck_interleave with queue"), Box::new(|a, b| precheck_interleave::equiv::<_, Pre<I, ByQueue>>(a, b).unwrap())));
    v.push((format!("{name} precheck_interleave with stack"), Box::new(|a, b| precheck_interleave::equiv::<_, Pre<I, ByStack>>(a, b).unwrap())));
    v.push((format!("{name} precheck_interleave call stack then queue"), Box::new(|a, b| precheck_interleave::equiv::<_, Pre<I, CallQueue>>(a, b).unwrap())));
    v.push((format!("{name} precheck_interleave call stack then stack"), Box::new(|a, b| precheck_interleave::equiv::<_, Pre<I, CallStk>>(a, b).unwrap())));
}
/// (fast limit, slow limit, functions)
pub fn interleaves<C: MkCmp>() -> Vec<(u64, u64, Vec<Func<C>>)> {
    let mut r = vec![];
    macro_rules! c { ($p:literal, $f:literal, $s:literal) => {{ let mut v = vec![]; full::<C, Cfg<Nd<C>, $p, $f, $s>>(concat!("limits ", $p, "/", $f, "/", $s), &mut v); r.push(($f, $s, v)) }} }
    c!(400, 800, 40); c!(1, 0, 1); c!(1, 1, 1); c!(1, 7, 1); c!(1, 0, 3); c!(1, 2, 2); c!(1, 65534, 1); c!(1, 3, 65535); c!(1, 65534, 65535); c!(1, 1, 5);
    macro_rules! d { ($p:literal) => {{ let mut v = vec![]; full::<C, Der<Nd<C>, $p>>(concat!("derived from ", $p), &mut v); r.push((2 * $p, ($p / 10).max(1), v)) }} }
    d!(0); d!(1); d!(9); d!(10); d!(25); d!(400); d!(32767);
    r
}
pub fn prechecks<C: MkCmp>() -> Vec<(u16, u64, u64, Vec<Func<C>>, Vec<Func<C>>)> {
    let mut r = vec![];
    macro_rules! c { ($p:literal, $f:literal, $s:literal) => {{ let mut v = vec![]; prec::<C, Cfg<Nd<C>, $p, $f, $s>>(concat!("limits ", $p, "/", $f, "/", $s), &mut v); let mut w = vec![]; prec_full::<C, Cfg<Nd<C>, $p, $f, $s>>(&mut w); r.push(($p, $f, $s, v, w)) }} }
    c!(0, 0, 1); c!(1, 0, 1); c!(2, 1, 1); c!(3, 2, 1); c!(4, 0, 2); c!(5, 3, 1); c!(7, 0, 1); c!(10, 20, 1); c!(65535, 5, 2); c!(32768, 0, 1); c!(6, 65534, 65535);
    macro_rules! d { ($p:literal) => {{ let mut v = vec![]; prec::<C, Der<Nd<C>, $p>>(concat!("derived from ", $p), &mut v); let mut w = vec![]; prec_full::<C, Der<Nd<C>, $p>>(&mut w); r.push(($p, 2 * $p, ($p / 10).max(1), v, w)) }} }
    d!(0); d!(1); d!(5); d!(8); d!(20); d!(400);
    r
}
/// the ready-made functions: (name, is it depth first (plain ones only), the function)
pub fn premade<C: MkCmp>() -> Vec<(&'static str, Option<bool>, Box<dyn Fn(Nd<C>, Nd<C>) -> C>)> {
    use graph_safe_compare::*;
    vec![
        ("basic::equiv", Some(true), Box::new(|a, b| basic::equiv(a, b))),
        ("wide_safe::equiv", Some(true), Box::new(|a, b| wide_safe::equiv(a, b))),
        ("deep_safe::equiv", Some(false), Box::new(|a, b| deep_safe::equiv(a, b))),
        ("cycle_safe::equiv", None, Box::new(|a, b| cycle_safe::equiv(a, b))),
        ("cycle_safe::precheck_equiv", None, Box::new(|a, b| cycle_safe::precheck_equiv(a, b))),
        ("robust::equiv", None, Box::new(|a, b| robust::equiv(a, b))),
        ("robust::precheck_equiv", None, Box::new(|a, b| robust::precheck_equiv(a, b))),
    ]
}
pub fn limited<C: MkCmp, I: Ix>() -> Vec<(&'static str, bool, Box<dyn Fn(u128, u8, Nd<C, I>, Nd<C, I>) -> Option<Result<C, ()>>>)> {
    use graph_safe_compare::*;
    macro_rules! l { ($f:path) => { Box::new(|l: u128, t: u8, a, b| {
        macro_rules! go { ($t:ty) => { if l <= <$t>::MAX as u128 { Some($f(l as $t, a, b).map_err(|_| ())) } else { None } } }
        match t { 0 => go!(u8), 1 => go!(u16), 2 => go!(u32), 3 => go!(u64), 4 => go!(u128), _ => go!(usize) } }) } }
    vec![("basic::limited_equiv", true, l!(basic::limited_equiv)), ("wide_safe::limited_equiv", true, l!(wide_safe::limited_equiv)), ("deep_safe::limited_equiv", false, l!(deep_safe::limited_equiv))]
}
// ---- plain comparisons over any index type, through the generic parts
pub struct Plain<N, M>(PhantomData<fn() -> (N, M)>);
impl<N: Node> equiv::Params for Plain<N, ByCall> { type Node = N; type DescendMode = Unlimited; type RecurMode = CallStack; type Error = Infallible; }
impl<N: Node> equiv::Params for Plain<N, ByQueue> { type Node = N; type DescendMode = Unlimited; type RecurMode = RecurQueue<Self>; type Error = Infallible; }
impl<N: Node> equiv::Params for Plain<N, ByStack> { type Node = N; type DescendMode = Unlimited; type RecurMode = RecurStack<Self>; type Error = Infallible; }
impl<N: Node, M> queue::Params for Plain<N, M> { type Node = N; }
impl<N: Node, M> stack::Params for Plain<N, M> { type Node = N; }

// ---- a recursion component that takes the edges of one pair out and keeps what it got
thread_local! { pub static GOT: RefCell<Vec<Result<(usize, usize, u8, u8), String>>> = RefCell::new(vec![]); }
#[derive(Default)]
pub struct Take;
pub struct TakeArgs<N>(PhantomData<fn() -> N>);
impl<C: MkCmp, I: Ix> equiv::Params for TakeArgs<Nd<C, I>> { type Node = Nd<C, I>; type DescendMode = Unlimited; type RecurMode = Take; type Error = Infallible; }
impl<C: MkCmp, I: Ix> RecurMode<TakeArgs<Nd<C, I>>> for Take {
    type Error = Infallible;
    fn recur(_: &mut Equiv<TakeArgs<Nd<C, I>>>, mut edges: EdgesIter<Nd<C, I>>) -> Result<C, Infallible> {
        for _ in 0..2000 {
            match edges.next() {
                None => break,
                Some(Ok([a, b])) => GOT.with(|g| g.borrow_mut().push(Ok((a.n, b.n, a.side, b.side)))),
                Some(Err(c)) => { GOT.with(|g| g.borrow_mut().push(Err(format!("{c:?}")))); break }
            }
        }
        Ok(C::new_equiv())
    }
    fn next(&mut self) -> Option<CounterpartsResult<Nd<C, I>>> { None }
    fn reset(self) -> Self { self }
}
// ---- components that fail at a chosen call
thread_local! { pub static CALLS: Cell<u32> = Cell::new(0); pub static FAIL_AT: Cell<u32> = Cell::new(u32::MAX); pub static FAILED: Cell<u32> = Cell::new(0); }
fn call() -> Result<(), u32> { let n = CALLS.get(); CALLS.set(n + 1); if n == FAIL_AT.get() { FAILED.set(FAILED.get() + 1); Err(n) } else { Ok(()) } }
pub struct Raw(pub u32);
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
pub struct Declared(pub u32);
impl From<Raw> for Declared { fn from(r: Raw) -> Self { Declared(r.0 + 1000) } }
#[derive(Default)]
pub struct FailingMode;
pub struct Sub(pub u32);
impl From<Sub> for Declared { fn from(r: Sub) -> Self { Declared(r.0 + 5000) } }
impl<C: MkCmp, M> DescendMode<FailArgs<C, M>> for FailingMode where FailArgs<C, M>: equiv::Params<Node = Nd<C>, Error = Declared> {
    type Error = Raw;
    fn do_edges(&mut self, a: &Nd<C>, _: &Nd<C>) -> Result<bool, Raw> { a.g.mark(1); call().map_err(Raw)?; Ok(true) }
    fn do_traverse(&mut self) -> Result<bool, Raw> { call().map_err(Raw)?; Ok(true) }
}
pub struct FailArgs<C, M>(PhantomData<fn() -> (C, M)>);
impl<C: MkCmp> equiv::Params for FailArgs<C, ByCall> { type Node = Nd<C>; type DescendMode = FailingMode; type RecurMode = CallStack; type Error = Declared; }
impl<C: MkCmp> equiv::Params for FailArgs<C, ByQueue> { type Node = Nd<C>; type DescendMode = FailingMode; type RecurMode = FailingQueue<C>; type Error = Declared; }
pub struct FailingQueue<C: MkCmp>(std::collections::VecDeque<EdgesIter<Nd<C>>>);
impl<C: MkCmp> Default for FailingQueue<C> { fn default() -> Self { FailingQueue(Default::default()) } }
impl<C: MkCmp, P: equiv::Params<Node = Nd<C>, RecurMode = Self>> RecurMode<P> for FailingQueue<C> where Sub: Into<P::Error> {
    type Error = Sub;
    fn recur(it: &mut Equiv<P>, e: EdgesIter<Nd<C>>) -> Result<C, Sub> { call().map_err(Sub)?; it.recur_mode.0.push_back(e); Ok(C::new_equiv()) }
    fn next(&mut self) -> Option<CounterpartsResult<Nd<C>>> {
        while let Some(f) = self.0.front_mut() { let n = f.next(); if n.is_some() { return n } let _ = self.0.pop_front(); }
        None
    }
    fn reset(mut self) -> Self { self.0.clear(); self }
}
// ---- a descent control that answers by a script and records what it is asked
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Asked { Visit, Edges(usize, u8, usize, u8) }
thread_local! { pub static QUESTIONS: RefCell<Vec<Asked>> = RefCell::new(vec![]); pub static ANSWERS: RefCell<Vec<bool>> = RefCell::new(vec![true]); }
fn ask(q: Asked) -> Result<bool, Infallible> { let k = QUESTIONS.with(|v| { let mut v = v.borrow_mut(); v.push(q); v.len() - 1 }); Ok(ANSWERS.with(|a| { let a = a.borrow(); a[k % a.len()] })) }
#[derive(Default)]
pub struct Choosy;
pub struct ChoosyArgs<N, M>(PhantomData<fn() -> (N, M)>);
impl<C: MkCmp, M> DescendMode<ChoosyArgs<Nd<C>, M>> for Choosy where ChoosyArgs<Nd<C>, M>: equiv::Params<Node = Nd<C>, Error = Infallible> {
    type Error = Infallible;
    fn do_edges(&mut self, a: &Nd<C>, b: &Nd<C>) -> Result<bool, Infallible> { ask(Asked::Edges(a.n, a.side, b.n, b.side)) }
    fn do_traverse(&mut self) -> Result<bool, Infallible> { ask(Asked::Visit) }
}
impl<N: Node, M> queue::Params for ChoosyArgs<N, M> { type Node = N; }
impl<N: Node, M> stack::Params for ChoosyArgs<N, M> { type Node = N; }
impl<C: MkCmp> equiv::Params for ChoosyArgs<Nd<C>, ByCall> { type Node = Nd<C>; type DescendMode = Choosy; type RecurMode = CallStack; type Error = Infallible; }
impl<C: MkCmp> equiv::Params for ChoosyArgs<Nd<C>, ByQueue> { type Node = Nd<C>; type DescendMode = Choosy; type RecurMode = RecurQueue<Self>; type Error = Infallible; }
impl<C: MkCmp> equiv::Params for ChoosyArgs<Nd<C>, ByStack> { type Node = Nd<C>; type DescendMode = Choosy; type RecurMode = RecurStack<Self>; type Error = Infallible; }
impl From<Infallible> for Declared { fn from(_: Infallible) -> Self { unreachable!() } }
// precheck-first with failing recursion components
impl From<Sub> for PrecheckError<Declared> { fn from(s: Sub) -> Self { PrecheckError::RecurError(Declared(s.0 + 7000)) } }
impl From<Sub> for InterleaveError<Declared> { fn from(s: Sub) -> Self { InterleaveError(Declared(s.0 + 9000)) } }
pub struct FailPre<I>(PhantomData<fn() -> I>);
impl<C: MkCmp, I: interleave::Params<Node = Nd<C>>> precheck_interleave::Params<Nd<C>> for FailPre<I> {
    type PrecheckRecurMode = FailingQueue<C>; type InterleaveRecurMode = FailingQueue<C>; type InterleaveParams = I; type Error = Declared;
}
pub fn _unused(_: LimitReached, _: Limited<u8>) {}
