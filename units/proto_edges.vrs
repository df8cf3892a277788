// src/generic.rs mod edges_iter, src/utils.rs mod non_advancing_iterator
pub type Counterparts<N> = (N, N);
pub type CounterpartsResult<N> = Result<Counterparts<N>, <N as Node>::Cmp>;
//@subst <N::Index as Default>::default => N::Index::default
//@selfty EdgesIter<N>
//@selfty Iterator for EdgesIter<N>
//@selfty NonAdvancingIterator for EdgesIter<N>
//@item edges_iter @ EdgesIter
//@ header pub struct EdgesIter<N: Node>
//@ fields counterparts:Counterparts<N> next_index:Option<N::Index>
//@end
/// the edges of pair p may be requested
pub open spec fn asks<C>(l: &Log<C>, p: (int, int)) -> bool { l.err is None && l.open.contains(p) && (l.diff is None || l.at == p) }
pub open spec fn taken<N: Node>(l0: &Log<N::Cmp>, p: (int, int), r: Option<CounterpartsResult<N>>, l1: &Log<N::Cmp>) -> bool {
    match r { Some(Err(c)) => !c.eqv() && *l1 == (if l0.live() { Log { diff: Some(c), at: p, ..*l0 } } else { *l0 }), _ => *l1 == *l0 }
}
impl<N: Node> EdgesIter<N> {
    pub open spec fn pair(&self) -> (int, int) { (self.counterparts.0.n(), self.counterparts.1.n()) }
//@fn EdgesIter::new
//@ params counterparts
//@ spec ensures r.counterparts == counterparts,
//@end
//@fn EdgesIter::get_next
//@ optional
//@ sig (&mutself,bool)->Option<<SelfasIterator>::Item>
//@ params advance
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires asks(old(log), old(self).pair()), law_cmp::<N>(),
         ensures final(self).counterparts == old(self).counterparts, *final(log) == *old(log), r is Some && r->Some_0 is Err ==> !r->Some_0->Err_0.eqv(),
//@end
//@fn EdgesIter as Iterator::next
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires asks(old(log), old(self).pair()), law_cmp::<N>(),
         ensures final(self).counterparts == old(self).counterparts, taken(old(log), old(self).pair(), r, final(log)),
//@ post proof { if vx_r is Some && vx_r->Some_0 is Err && log.diff is None { log.diff = Some(vx_r->Some_0->Err_0); log.at = self.pair(); } }
//@end
//@fn EdgesIter as NonAdvancingIterator::next_no_adv
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires asks(old(log), old(self).pair()), law_cmp::<N>(),
         ensures final(self).counterparts == old(self).counterparts, taken(old(log), old(self).pair(), r, final(log)),
//@ post proof { if vx_r is Some && vx_r->Some_0 is Err && log.diff is None { log.diff = Some(vx_r->Some_0->Err_0); log.at = self.pair(); } }
//@end
// the same, where what it gives is only looked for (in the collections), not met
//@fn EdgesIter as NonAdvancingIterator::next_no_adv
//@ name look_no_adv
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires asks(old(log), old(self).pair()), law_cmp::<N>(),
         ensures final(self).counterparts == old(self).counterparts, *final(log) == *old(log), r is Some && r->Some_0 is Err ==> !r->Some_0->Err_0.eqv(),
//@ pre let ghost vx_l0 = *log;
//@ post proof { log.diff = vx_l0.diff; log.at = vx_l0.at; }
//@end
//@fn EdgesIter as NonAdvancingIterator::has_next | trait NonAdvancingIterator::has_next
//@ ghost Tracked(log): Tracked<&mut Log<N::Cmp>>
//@ spec requires asks(old(log), old(self).pair()), law_cmp::<N>(),
         ensures final(self).counterparts == old(self).counterparts, *final(log) == *old(log),
//@ pre let ghost vx_l0 = *log;
//@ post proof { // a difference that is only looked for is not met yet
               log.diff = vx_l0.diff; log.at = vx_l0.at; }
//@end
}
//@fn edges_iter @ zero
//@ optional
//@ generics <T: Step>
//@end
//@fn edges_iter @ increment_index
//@ optional
//@ generics <T: Step>
//@ params i
//@end
