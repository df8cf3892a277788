// what is assumed of functions of core and alloc that vstd does not specify
pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T, U>[ Option::<T>::and ](a: Option<T>, b: Option<U>) -> (r: Option<U>) ensures r == (if a is Some { b } else { None });
pub assume_specification<T>[ Option::<T>::xor ](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T>[ Option::<T>::replace ](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T, U>[ Option::<T>::zip ](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->0, b->0)) } else { None });
pub assume_specification<'a, T: Copy>[ Option::<&'a T>::copied ](a: Option<&'a T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None });
pub assume_specification<T, E>[ Result::<T, E>::unwrap_or ](a: Result<T, E>, d: T) -> (r: T) ensures r == (match a { Ok(x) => x, Err(_) => d });
pub assume_specification<T, E, U>[ Result::<T, E>::and ](a: Result<T, E>, b: Result<U, E>) -> (r: Result<U, E>) ensures r == (match a { Ok(_) => b, Err(e) => Err(e) });
pub assume_specification<T, E, F>[ Result::<T, E>::or ](a: Result<T, E>, b: Result<T, F>) -> (r: Result<T, F>) ensures r == (match a { Ok(x) => Ok(x), Err(_) => b });
pub assume_specification<T>[ core::mem::replace ](a: &mut T, v: T) -> (r: T) ensures r == *old(a), *final(a) == v;
pub assume_specification<T>[ core::mem::drop ](v: T);
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::front_mut ](v: &mut std::collections::VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@[0] && final(v)@ == old(v)@.update(0, *final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@ };
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::back_mut ](v: &mut std::collections::VecDeque<T, A>) -> (r: Option<&mut T>)
    ensures match r {
        Some(x) => old(v)@.len() > 0 && *x == old(v)@[old(v)@.len() - 1] && final(v)@ == old(v)@.update(old(v)@.len() - 1, *final(x)),
        None => old(v)@.len() == 0 && final(v)@ == old(v)@ };
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::front ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::back ](v: &std::collections::VecDeque<T, A>) -> (r: Option<&T>)
    ensures match r { Some(x) => v@.len() > 0 && *x == v@[v@.len() - 1], None => v@.len() == 0 };
pub assume_specification<T, A: std::alloc::Allocator>[ std::collections::VecDeque::<T, A>::is_empty ](v: &std::collections::VecDeque<T, A>) -> (r: bool) ensures r == (v@.len() == 0);
pub assume_specification<T>[ bool::then_some ](b: bool, v: T) -> (r: Option<T>) ensures r == (if b { Some(v) } else { None });
pub assume_specification [ <core::cmp::Ordering as PartialEq>::eq ](a: &core::cmp::Ordering, b: &core::cmp::Ordering) -> (r: bool) ensures r == (*a == *b);
pub assume_specification [ core::cmp::Ordering::reverse ](o: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Equal => core::cmp::Ordering::Equal, core::cmp::Ordering::Greater => core::cmp::Ordering::Less });
pub assume_specification [ core::cmp::Ordering::then ](a: core::cmp::Ordering, b: core::cmp::Ordering) -> (r: core::cmp::Ordering) ensures r == (match a { core::cmp::Ordering::Equal => b, a => a });
pub assume_specification [ core::cmp::Ordering::is_eq ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o is Equal);
pub assume_specification [ core::cmp::Ordering::is_ne ](o: core::cmp::Ordering) -> (r: bool) ensures r == !(o is Equal);
pub assume_specification [ core::cmp::Ordering::is_lt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o is Less);
pub assume_specification [ core::cmp::Ordering::is_gt ](o: core::cmp::Ordering) -> (r: bool) ensures r == (o is Greater);
pub assume_specification [ core::cmp::Ordering::is_le ](o: core::cmp::Ordering) -> (r: bool) ensures r == !(o is Greater);
pub assume_specification [ core::cmp::Ordering::is_ge ](o: core::cmp::Ordering) -> (r: bool) ensures r == !(o is Less);
pub assume_specification [ i32::saturating_sub ](a: i32, b: i32) -> (r: i32)
    ensures r == (if a - b > i32::MAX { i32::MAX as int } else if a - b < i32::MIN { i32::MIN as int } else { a - b });
pub assume_specification [ i32::saturating_add ](a: i32, b: i32) -> (r: i32)
    ensures r == (if a + b > i32::MAX { i32::MAX as int } else if a + b < i32::MIN { i32::MIN as int } else { a + b });
pub assume_specification [ i32::is_negative ](a: i32) -> (r: bool) ensures r == (a < 0);
pub assume_specification [ i32::is_positive ](a: i32) -> (r: bool) ensures r == (a > 0);
pub assume_specification [ i32::signum ](a: i32) -> (r: i32) ensures r == (if a < 0 { -1int } else if a > 0 { 1 } else { 0 });
