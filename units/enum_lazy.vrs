// src/utils.rs mod lazy_collections, for KIND = LazyVecQueue | LazyVecStack, and the recursion mode over it
//@ifeq KIND LazyVecQueue
//@def COLL=VecDeque
pub open spec fn cur(len: nat) -> int { 0 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_first() }
//@else
//@def COLL=Vec
pub open spec fn cur(len: nat) -> int { len - 1 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_last() }
//@fi
pub open spec fn all_ready<N: Node>(s: Seq<EdgesIter<N>>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).ready() }
//@selfty ${KIND}<EdgesIter<N>>
//@selfty LazierIterator for ${KIND}<EdgesIter<N>>
//@item ${KIND}
//@ header pub struct ${KIND}<N: Node>
//@end
//@subst ${KIND}<EdgesIter<N>> => ${KIND}<N>
//@subst Self::SubIter => EdgesIter<N>
impl<N: Node> ${KIND}<N> {
    pub closed spec fn pend(&self) -> bool { all_ready(self.0@) }
//@fn ${KIND}::with_capacity
//@ spec ensures r.pend(),
//@end
//@fn ${KIND}::clear
//@ spec ensures final(self).pend(),
//@end
//@fn ${KIND} as LazierIterator::extend
//@ params subiter
//@ spec ensures old(self).pend() && subiter.ready() ==> final(self).pend(),
//@end
//@fn ${KIND} as LazierIterator::next_subiter_as_mut
//@ spec ensures match r { Some(x) => old(self).0@.len() > 0 && *x == old(self).0@[cur(old(self).0@.len())] && final(self).0@ == old(self).0@.update(cur(old(self).0@.len()), *final(x)), None => old(self).0@.len() == 0 && final(self).0@ == old(self).0@ }
//@end
//@fn ${KIND} as LazierIterator::next_subiter
//@ spec ensures old(self).0@.len() > 0 ==> final(self).0@ == less(old(self).0@), old(self).0@.len() == 0 ==> final(self).0@ == old(self).0@
//@end
//@fn ${KIND} as LazierIterator::next | trait LazierIterator::next
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires old(self).pend(), law_cmp::<N>(),
        // after a difference the enumerations are not asked again
        ensures r is Some && r->Some_0 is Err || final(self).pend(), r is Some && r->Some_0 is Err ==> !r->Some_0->Err_0.eqv(),
//@ loop invariant self.pend(),
//@end
}
//@subst ${KIND}<EdgesIter<V::Node>> => ${KIND}<V::Node>
//@selfty ${RM}<V>
//@selfty RecurMode<E> for ${RM}<V>
//@item ${RMOD} @ ${RM}
//@ header pub struct ${RM}<V: RParams>
//@end
impl<V: RParams> ${RM}<V> {
    pub closed spec fn pend(&self) -> bool { self.0.pend() }
//@fn ${RMOD} @ ${RM} as Default::default
//@ spec ensures r.pend(),
//@end
//@fn ${RM} as RecurMode::recur
//@ generics <E: Params<RP = V, Node = V::Node>>
//@ params it edges_iter
//@ rettype Result<<E::Node as Node>::Cmp, Infallible>
//@ spec requires edges_iter.ready(), law_cmp::<V::Node>(), old(it).pend(),
        ensures r is Ok, final(it).pend(),
//@end
//@fn ${RM} as RecurMode::next
//@ rettype Option<CounterpartsResult<V::Node>>
//@ spec requires old(self).pend(), law_cmp::<V::Node>(),
        ensures r is Some && r->Some_0 is Err || final(self).pend(), r is Some && r->Some_0 is Err ==> !r->Some_0->Err_0.eqv(),
//@end
//@fn ${RM} as RecurMode::reset
//@ spec ensures r.pend(),
//@end
}
