// src/generic.rs mod equiv
//@ifnot SECOND
/// parameters of the recursion mode
pub trait RParams: Sized { type Node: Node; fn vxc_INITIAL_CAPACITY() -> usize; }
pub trait Params: Sized { type Node: Node; type Error: VxInto<Self::Error>; type DescendMode: DescendMode<Self::Node, Self::Error>; type RP: RParams<Node = Self::Node>;
    /// the conversion of an error to its own type is core's `impl From<T> for T`
    proof fn law_refl(e: &Self::Error) ensures e.can() ==> VxInto::<Self::Error>::conv(e) == *e; }
//@fi
//@selfty Equiv<P>
//@ifeq MODE queue stack
//@include lazy.vrs
//@include recur_lazy.vrs
//@else
//@include recur_call.vrs
//@fi

//@ifnot SECOND
pub trait Fresh: Sized { spec fn fresh(&self) -> bool; fn default() -> (r: Self) ensures r.fresh(); }
//@fi
//@selfty Default for Equiv<P>
impl<P: Params> Equiv<P> {
//@fn Equiv::new
//@ params descend_mode
//@ spec ensures r.q() == Seq::<Item>::empty(), r.tidy(), r.st() == descend_mode.st(), r.wf() == descend_mode.wf(),
//@end
}
impl<P: Params> Equiv<P> where P::DescendMode: Fresh {
//@fn Equiv as Default::default
//@ spec ensures r.q() == Seq::<Item>::empty(), r.tidy(), exists|d: P::DescendMode| #[trigger] d.fresh() && r.st() == d.st() && r.wf() == d.wf(),
//@end
}

