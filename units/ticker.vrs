// the unsigned integers a limit can be
use vstd::std_specs::convert::*;
use vstd::std_specs::ops::*;
pub trait Ticker: Ord + From<u8> + SubAssign + Sized {
    spec fn tv(&self) -> nat;
    proof fn law_cmp(a: &Self, b: &Self) ensures Self::obeys_partial_cmp_spec(), a.partial_cmp_spec(b) == Some(if a.tv() < b.tv() { Ordering::Less } else if a.tv() == b.tv() { Ordering::Equal } else { Ordering::Greater });
    proof fn law_eq(a: &Self, b: &Self) ensures Self::obeys_eq_spec(), a.eq_spec(b) == (a.tv() == b.tv());
    proof fn law_from(x: u8) ensures <Self as FromSpec<u8>>::obeys_from_spec(), <Self as FromSpec<u8>>::from_spec(x).tv() == x;
    proof fn law_sub(a: Self, b: Self) ensures Self::obeys_sub_assign_spec(), b.tv() <= a.tv() ==> a.sub_assign_req(b) && a.sub_assign_spec(b).tv() == a.tv() - b.tv();
}
pub broadcast proof fn tk_cmp<T: Ticker>(a: &T, b: &T) ensures #[trigger] a.partial_cmp_spec(b) == Some(if a.tv() < b.tv() { Ordering::Less } else if a.tv() == b.tv() { Ordering::Equal } else { Ordering::Greater }) { T::law_cmp(a, b); }
pub broadcast proof fn tk_eq<T: Ticker>(a: &T, b: &T) ensures #[trigger] a.eq_spec(b) == (a.tv() == b.tv()) { T::law_eq(a, b); }
pub broadcast proof fn tk_sub<T: Ticker>(a: T, b: T) ensures b.tv() <= a.tv() ==> #[trigger] a.sub_assign_req(b) { T::law_sub(a, b); }
pub broadcast proof fn tk_sub2<T: Ticker>(a: T, b: T) ensures b.tv() <= a.tv() ==> (#[trigger] a.sub_assign_spec(b)).tv() == a.tv() - b.tv() { T::law_sub(a, b); }
pub broadcast proof fn tk_from<T: Ticker>(x: u8) ensures (#[trigger] <T as FromSpec<u8>>::from_spec(x)).tv() == x { T::law_from(x); }
pub broadcast group tickers { tk_cmp, tk_eq, tk_sub, tk_sub2, tk_from }
impl Ticker for u8 {
    open spec fn tv(&self) -> nat { *self as nat }
    proof fn law_cmp(a: &Self, b: &Self) {}
    proof fn law_eq(a: &Self, b: &Self) {}
    /// core's identity conversion, which vstd does not specify (the Kani harness c05_u8 goes through it)
    #[verifier::external_body] proof fn law_from(x: u8) {}
    proof fn law_sub(a: Self, b: Self) {}
}
//@for INT in u16 u32 u64 u128 usize
impl Ticker for ${INT} {
    open spec fn tv(&self) -> nat { *self as nat }
    proof fn law_cmp(a: &Self, b: &Self) {}
    proof fn law_eq(a: &Self, b: &Self) {}
    proof fn law_from(x: u8) {}
    proof fn law_sub(a: Self, b: Self) {}
}
//@done
