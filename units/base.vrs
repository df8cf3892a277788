// What is assumed of the user's types: a lawful node's identity, edges and value comparison are functions of an abstract node number.
use core::cmp::Ordering;
use vstd::std_specs::cmp::*;
pub trait Cmp: Sized {
    spec fn eqv(&self) -> bool;
    spec fn of_ord(o: Ordering) -> Self;
    fn new_equiv() -> (r: Self) ensures r.eqv();
    fn is_equiv(&self) -> (r: bool) ensures r == self.eqv();
    fn from_ord(ord: Ordering) -> (r: Self) ensures r == Self::of_ord(ord);
}
/// a lawful identity: its equality is that of the abstract identity
pub trait IdLike: PartialEq + Sized {
    spec fn v(&self) -> int;
    fn clone(&self) -> (r: Self) ensures r.v() == self.v();
    proof fn law(a: &Self, b: &Self) ensures Self::obeys_eq_spec(), a.eq_spec(b) == (a.v() == b.v());
}
pub broadcast proof fn id_law<I: IdLike>(a: &I, b: &I) ensures #[trigger] a.eq_spec(b) == (a.v() == b.v()) { I::law(a, b); }
pub broadcast proof fn id_law2<I: IdLike>(a: &I) ensures #[trigger] a.v() == a.v(), I::obeys_eq_spec() { I::law(a, a); }
pub broadcast group id_laws { id_law, id_law2 }
/// a lawful index: counts from its default up to its maximum, if it has one (C13 proves this of the provided ones)
pub trait Step: Sized {
    spec fn ix(&self) -> nat;
    spec fn max_ix() -> Option<nat>;
    fn default() -> (r: Self) ensures r.ix() == 0;
    fn increment(&self) -> (r: Option<Self>)
        ensures match r { Some(j) => j.ix() == self.ix() + 1, None => Self::max_ix() == Some(self.ix()) };
}
// for loops that keep the outcome of a visit, as a result or as the value of one
pub trait Outcome<C: Cmp, E>: Sized { spec fn out(&self) -> Result<C, E>; }
impl<C: Cmp, E> Outcome<C, E> for C { open spec fn out(&self) -> Result<C, E> { Ok(*self) } }
impl<C: Cmp, E> Outcome<C, E> for Result<C, E> { open spec fn out(&self) -> Result<C, E> { *self } }
pub open spec fn goes_on<C: Cmp, E>(o: Result<C, E>) -> bool { o is Ok && o->Ok_0.eqv() }
/// whether a value of an error type can exist at all
pub trait Possible: Sized { spec fn can(&self) -> bool; }
pub trait VxInto<E: Possible>: Possible {
    spec fn conv(&self) -> E;
    fn vx_into(self) -> (r: E) requires self.can() ensures r == self.conv(), r.can();
}
/// the uninhabited error: no value of it `can` exist
pub struct Infallible { never: u8 }
#[verifier::external] impl core::fmt::Debug for Infallible { fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { Ok(()) } }
impl Possible for Infallible { open spec fn can(&self) -> bool { false } }
impl<E: Possible> VxInto<E> for Infallible { uninterp spec fn conv(&self) -> E; #[verifier::external_body] fn vx_into(self) -> (r: E) { panic!() } }
#[verifier::external_body]
pub fn vx_panic() -> ! requires false, { panic!() }
pub fn vx_drop<T>(x: T) { }
