// src/basic.rs mod modes
// ---- the premade modes of descending and functions
//@selfty DescendMode<N, E> for Unlimited
//@selfty DescendMode<N, E> for Limited<T>
//@item unlimited @ Unlimited
//@ header pub struct Unlimited
//@end
//@item limited @ Limited
//@ header pub struct Limited<T>
//@end
//@item limited @ LimitReached
//@ header pub struct LimitReached
//@end
impl Possible for LimitReached { open spec fn can(&self) -> bool { true } }
impl VxInto<LimitReached> for LimitReached { open spec fn conv(&self) -> LimitReached { *self } fn vx_into(self) -> (r: LimitReached) { self } }
impl<N: Node, E: Possible> DescendMode<N, E> for Unlimited {
    type Error = Infallible;
    type St = ();
    open spec fn st(&self) -> () { () }
    open spec fn wf(&self) -> bool { true }
    open spec fn tick(s: ()) -> Act<(), Infallible> { Act::Go(()) }
    open spec fn desc(s: (), a: int, b: int) -> Act<(), Infallible> { Act::Go(()) }
//@fn Unlimited as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@end
//@fn Unlimited as DescendMode::do_traverse
//@ vis none
//@end
}
impl<T: Ticker, N: Node, E: Possible> DescendMode<N, E> for Limited<T> where LimitReached: VxInto<E> {
    type Error = LimitReached;
    type St = nat;
    open spec fn st(&self) -> nat { self.0.tv() }
    open spec fn wf(&self) -> bool { true }
    open spec fn tick(s: nat) -> Act<nat, LimitReached> { if s == 0 { Act::Fail(LimitReached, 0) } else { Act::Go((s - 1) as nat) } }
    open spec fn desc(s: nat, a: int, b: int) -> Act<nat, LimitReached> { Act::Go(s) }
//@fn Limited as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@end
//@fn Limited as DescendMode::do_traverse
//@ vis none
//@ pre proof { T::law_from(0); T::law_from(1); T::law_cmp(&self.0, &self.0); T::law_eq(&self.0, &self.0); T::law_sub(self.0, self.0);  }
    broadcast use tickers;
//@end
}
/// a limit allows exactly that many visits
pub proof fn limited_exact<N: Node, E: Possible, T: Ticker>(dfs: bool, q: Q, l: nat) where LimitReached: VxInto<E>
    ensures
        match run::<N, Infallible, Unlimited>(dfs, q, (), l) {
            Out::OutOfFuel => run::<N, E, Limited<T>>(dfs, q, l, l + 1) == Out::<N::Cmp, E, nat>::Fail(LimitReached.conv(), 0),
            Out::Equal(_) => run::<N, E, Limited<T>>(dfs, q, l, l + 1) is Equal,
            Out::Diff(c, _) => run::<N, E, Limited<T>>(dfs, q, l, l + 1) is Diff && run::<N, E, Limited<T>>(dfs, q, l, l + 1)->Diff_0 == c,
            Out::Fail(..) => true,
        }
    decreases l
{
    if q.len() > 0 { if let Item::Pair(a, b) = q[0] {
        if l > 0 { if let Visit::More(ks, _) = visit::<N, Infallible, Unlimited>((), a, b) { limited_exact::<N, E, T>(dfs, ins(dfs, q.drop_first(), ks), (l - 1) as nat); } }
    } }
}
/// without a limit nothing fails
pub proof fn no_fail<N: Node>(dfs: bool, q: Q, l: nat)
    ensures !(run::<N, Infallible, Unlimited>(dfs, q, (), l) is Fail)
    decreases l
{
    if q.len() > 0 && l > 0 { if let Item::Pair(a, b) = q[0] {
        if let Visit::More(ks, _) = visit::<N, Infallible, Unlimited>((), a, b) { no_fail::<N>(dfs, ins(dfs, q.drop_first(), ks), (l - 1) as nat); }
    } }
}

