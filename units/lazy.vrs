// src/utils.rs mod lazy_collections, for KIND = LazyVecQueue | LazyVecStack
//@ifeq KIND LazyVecQueue
//@def COLL=VecDeque
pub open spec fn flat<N: Node>(s: Seq<EdgesIter<N>>) -> Q decreases s.len() { if s.len() == 0 { Seq::empty() } else { s[0].rest() + flat(s.drop_first()) } }
pub open spec fn cur(len: nat) -> int { 0 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_first() }
pub broadcast proof fn flat_push<N: Node>(s: Seq<EdgesIter<N>>, x: EdgesIter<N>) ensures #[trigger] flat(s.push(x)) == flat(s) + x.rest() decreases s.len() {
    if s.len() == 0 { assert(s.push(x).drop_first() =~= s); assert(flat(s.push(x)) =~= x.rest()); assert(flat(s) + x.rest() =~= x.rest()); }
    else { flat_push(s.drop_first(), x); assert(s.push(x).drop_first() =~= s.drop_first().push(x)); assert(flat(s.push(x)) =~= flat(s) + x.rest()); }
}
//@else
//@def COLL=Vec
pub open spec fn flat<N: Node>(s: Seq<EdgesIter<N>>) -> Q decreases s.len() { if s.len() == 0 { Seq::empty() } else { s.last().rest() + flat(s.drop_last()) } }
pub open spec fn cur(len: nat) -> int { len - 1 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_last() }
pub broadcast proof fn flat_push<N: Node>(s: Seq<EdgesIter<N>>, x: EdgesIter<N>) ensures #[trigger] flat(s.push(x)) == x.rest() + flat(s) {
    assert(s.push(x).drop_last() =~= s);
}
//@fi
pub broadcast proof fn flat_update<N: Node>(s: Seq<EdgesIter<N>>, x: EdgesIter<N>) requires s.len() > 0 ensures #[trigger] flat(s.update(cur(s.len()), x)) == x.rest() + flat(less(s))
    { assert(less(s.update(cur(s.len()), x)) =~= less(s)); }
pub broadcast proof fn less_update<T>(s: Seq<T>, x: T) requires s.len() > 0 ensures less(#[trigger] s.update(cur(s.len()), x)) == less(s) { assert(less(s.update(cur(s.len()), x)) =~= less(s)); }
pub open spec fn popped<N: Node>(q0: Q, r: Option<CounterpartsResult<N>>, q1: Q) -> bool { took(q0, r, q1) }
//@selfty ${KIND}<EdgesIter<N>>
//@selfty LazierIterator for ${KIND}<EdgesIter<N>>
//@item ${KIND}
//@ header pub struct ${KIND}<N: Node>
//@end
//@subst ${KIND}<EdgesIter<N>> => ${KIND}<N>
//@subst Self::SubIter => EdgesIter<N>
impl<N: Node> ${KIND}<N> {
    pub closed spec fn flat(&self) -> Q { flat(self.0@) }
    /// no pending sequence is exhausted
    pub closed spec fn tidy(&self) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).rest().len() > 0 }
//@fn ${KIND}::with_capacity
//@ spec ensures r.flat() == Seq::<Item>::empty(), r.tidy(),
//@end
//@fn ${KIND}::clear
//@ spec ensures final(self).flat() == Seq::<Item>::empty(), final(self).tidy(),
//@end
//@fn ${KIND} as LazierIterator::extend
//@ params subiter
//@ spec ensures final(self).flat() == ins(${DFS}, old(self).flat(), subiter.rest()), old(self).tidy() && subiter.rest().len() > 0 ==> final(self).tidy(),
//@ pre broadcast use flat_push;
//@end
//@fn ${KIND} as LazierIterator::next_subiter_as_mut
//@ spec ensures match r { Some(x) => old(self).0@.len() > 0 && *x == old(self).0@[cur(old(self).0@.len())] && final(self).0@ == old(self).0@.update(cur(old(self).0@.len()), *final(x)), None => old(self).0@.len() == 0 && final(self).0@ == old(self).0@ }
//@end
//@fn ${KIND} as LazierIterator::next_subiter
//@ spec ensures old(self).0@.len() > 0 ==> final(self).0@ == less(old(self).0@), old(self).0@.len() == 0 ==> final(self).0@ == old(self).0@
//@end
//@fn ${KIND} as LazierIterator::next | trait LazierIterator::next
//@ attr #[verifier::loop_isolation(false)]
//@ rettype Option<CounterpartsResult<N>>
//@ spec ensures popped(old(self).flat(), r, final(self).flat()), old(self).tidy() ==> final(self).tidy(),
//@ pre broadcast use {flat_update, less_update, add_drop, add_empty};
//@ loop invariant self.flat() == old(self).flat(), old(self).tidy() ==> self.tidy(),
       decreases self.0@.len(),
//@end
}
