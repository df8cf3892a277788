// src/like_anticipated.rs mod into_ok
//@rename into_ok vx_into_ok
pub trait VxIntoOk: Sized { type T; spec fn okay(&self) -> bool; spec fn val(&self) -> Self::T; fn vx_into_ok(self) -> (r: Self::T) requires self.okay() ensures r == self.val(); }
impl<T> VxIntoOk for Result<T, Infallible> {
    type T = T;
    open spec fn okay(&self) -> bool { self is Ok }
    open spec fn val(&self) -> T { self->Ok_0 }
//@fn Result as IntoOk::into_ok
//@ vis none
//@end
}
