// What the interleave mode is generic over.
use vstd::std_specs::ops::*;
/// core's `NonZeroU16`
pub struct NonZeroU16(u16);
impl NonZeroU16 {
    pub closed spec fn v(&self) -> u16 { self.0 }
    pub fn new(n: u16) -> (r: Option<NonZeroU16>) ensures match r { Some(x) => n != 0 && x.v() == n, None => n == 0 } { if n == 0 { None } else { Some(NonZeroU16(n)) } }
    pub fn get(self) -> (r: u16) ensures r == self.v() { self.0 }
}
impl Possible for i32 { open spec fn can(&self) -> bool { true } }
impl Possible for u16 { open spec fn can(&self) -> bool { true } }
impl VxInto<i32> for u16 { open spec fn conv(&self) -> i32 { *self as i32 } fn vx_into(self) -> (r: i32) { let r = self as i32; assert(r == self as int); assert(r.can()); assert(r == VxInto::<i32>::conv(&self)); r } }
//@for T in i8 i16 u8
impl Possible for ${T} { open spec fn can(&self) -> bool { true } }
impl VxInto<i32> for ${T} { open spec fn conv(&self) -> i32 { *self as i32 } fn vx_into(self) -> (r: i32) { let r = self as i32; assert(r == self as int); assert(r.can()); assert(r == VxInto::<i32>::conv(&self)); r } }
//@done
/// a source of numbers below a given end; `G` stands for all that it will ever give
pub trait Random: Sized {
    type G;
    spec fn g(&self) -> Self::G;
    spec fn out(g: Self::G, end: int) -> int;
    spec fn nxt(g: Self::G, end: int) -> Self::G;
    proof fn in_range(g: Self::G, end: int) ensures end >= 1 ==> 0 <= Self::out(g, end) < end;
    fn default() -> Self;
    fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> (r: u16)
        requires exclusive_end.v() > 0,
        ensures r < exclusive_end.v(), r == Self::out(old(self).g(), exclusive_end.v() as int), final(self).g() == Self::nxt(old(self).g(), exclusive_end.v() as int);
}
