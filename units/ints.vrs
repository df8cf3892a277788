//@include std.vrs
// core's functions on integers that vstd does not specify
pub trait VxInt: Sized { spec fn vx_le(a: Self, b: Self) -> bool; fn vx_max(a: Self, b: Self) -> (r: Self) ensures r == (if Self::vx_le(a, b) { b } else { a }); fn vx_min(a: Self, b: Self) -> (r: Self) ensures r == (if Self::vx_le(a, b) { a } else { b }); }
//@for T in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
impl VxInt for ${T} { open spec fn vx_le(a: ${T}, b: ${T}) -> bool { a <= b } fn vx_max(a: ${T}, b: ${T}) -> (r: ${T}) { if a <= b { b } else { a } } fn vx_min(a: ${T}, b: ${T}) -> (r: ${T}) { if a <= b { a } else { b } } }
//@done
/// core::cmp::max on integers
pub fn max<T: VxInt>(a: T, b: T) -> (r: T) ensures r == (if T::vx_le(a, b) { b } else { a }) { T::vx_max(a, b) }
/// core::cmp::min on integers
pub fn min<T: VxInt>(a: T, b: T) -> (r: T) ensures r == (if T::vx_le(a, b) { a } else { b }) { T::vx_min(a, b) }
//@for T in u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize
pub assume_specification [ ${T}::overflowing_add ](a: ${T}, b: ${T}) -> (r: (${T}, bool))
    ensures r.1 == !(${T}::MIN <= a + b <= ${T}::MAX), r.0 == (if a + b > ${T}::MAX { a + b - ${T}::MAX - 1 + ${T}::MIN } else if a + b < ${T}::MIN { a + b + ${T}::MAX + 1 - ${T}::MIN } else { a + b });
pub assume_specification [ ${T}::overflowing_sub ](a: ${T}, b: ${T}) -> (r: (${T}, bool))
    ensures r.1 == !(${T}::MIN <= a - b <= ${T}::MAX), r.0 == (if a - b > ${T}::MAX { a - b - ${T}::MAX - 1 + ${T}::MIN } else if a - b < ${T}::MIN { a - b + ${T}::MAX + 1 - ${T}::MIN } else { a - b });
//@done
