// src/utils.rs mod lazy_collections, for KIND = LazyVecQueue | LazyVecStack, and the recursion mode over it
//@ifeq KIND LazyVecQueue
//@def COLL=VecDeque
pub open spec fn cur(len: nat) -> int { 0 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_first() }
//@else
//@def COLL=Vec
pub open spec fn cur(len: nat) -> int { len - 1 }
pub open spec fn less<T>(s: Seq<T>) -> Seq<T> { s.drop_last() }
//@fi
pub open spec fn all_open<N: Node>(s: Seq<EdgesIter<N>>, open: Pairs) -> bool { forall|i: int| 0 <= i < s.len() ==> open.contains((#[trigger] s[i]).pair()) }
//@selfty ${KIND}<EdgesIter<N>>
//@selfty LazierIterator for ${KIND}<EdgesIter<N>>
//@item ${KIND}
//@ header pub struct ${KIND}<N: Node>
//@end
//@subst ${KIND}<EdgesIter<N>> => ${KIND}<N>
//@subst Self::SubIter => EdgesIter<N>
impl<N: Node> ${KIND}<N> {
    pub closed spec fn pend(&self, open: Pairs) -> bool { all_open(self.0@, open) }
//@fn ${KIND}::with_capacity
//@ spec ensures r.pend(Set::empty()),
//@end
//@fn ${KIND}::clear
//@ spec ensures final(self).pend(Set::empty()),
//@end
//@fn ${KIND} as LazierIterator::extend
//@ params subiter
//@ spec ensures forall|o: Pairs| old(self).pend(o) && o.contains(subiter.pair()) ==> #[trigger] final(self).pend(o),
//@end
//@fn ${KIND} as LazierIterator::next_subiter_as_mut
//@ spec ensures match r { Some(x) => old(self).0@.len() > 0 && *x == old(self).0@[cur(old(self).0@.len())] && final(self).0@ == old(self).0@.update(cur(old(self).0@.len()), *final(x)), None => old(self).0@.len() == 0 && final(self).0@ == old(self).0@ }
//@end
//@fn ${KIND} as LazierIterator::next_subiter
//@ spec ensures old(self).0@.len() > 0 ==> final(self).0@ == less(old(self).0@), old(self).0@.len() == 0 ==> final(self).0@ == old(self).0@
//@end
//@fn ${KIND} as LazierIterator::next | trait LazierIterator::next
//@ calls next_no_adv look_no_adv
//@ attr #[verifier::loop_isolation(false)] #[verifier::exec_allows_no_decreases_clause]
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires old(log).live(), old(self).pend(old(log).open), law_cmp::<N>(),
        ensures final(log).grew(old(log)), final(log).open == old(log).open, final(log).err is None, final(self).pend(final(log).open), match r { Some(Err(c)) => !c.eqv() && final(log).diff == Some(c), _ => final(log).diff is None },
//@ loop invariant *log == *old(log), self.pend(log.open),
//@end
}
//@subst ${KIND}<EdgesIter<V::Node>> => ${KIND}<V::Node>
//@selfty ${RM}<V>
//@selfty RecurMode<E> for ${RM}<V>
//@item ${RMOD} @ ${RM}
//@ header pub struct ${RM}<V: RParams>
//@end
impl<V: RParams> ${RM}<V> {
    pub closed spec fn pend(&self, open: Pairs) -> bool { self.0.pend(open) }
//@fn ${RMOD} @ ${RM} as Default::default
//@ spec ensures r.pend(Set::empty()),
//@end
//@fn ${RM} as RecurMode::recur
//@ generics <E: Params<RP = V, Node = V::Node>>
//@ params it edges_iter
//@ ghost Tracked(log): Tracked<&mut Log<<V::Node as Node>::Cmp>>
//@ rettype Result<<E::Node as Node>::Cmp, Infallible>
//@ spec requires old(log).live(), old(log).open.contains(edges_iter.pair()), old(it).pend(old(log).open),
        ensures r is Ok, r->Ok_0.eqv(), *final(log) == *old(log), final(it).pend(final(log).open),
//@end
//@fn ${RM} as RecurMode::next
//@ ghost Tracked(log): Tracked<&mut Log<<V::Node as Node>::Cmp>>
//@ rettype Option<CounterpartsResult<V::Node>>
//@ spec requires old(log).live(), old(self).pend(old(log).open), law_cmp::<V::Node>(),
        ensures final(log).grew(old(log)), final(log).err is None, final(self).pend(final(log).open), match r { Some(Err(c)) => !c.eqv() && final(log).diff == Some(c), _ => final(log).diff is None },
//@end
//@fn ${RM} as RecurMode::reset
//@ spec ensures r.pend(Set::empty()),
//@end
}
