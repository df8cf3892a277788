// src/generic.rs mod edges_iter, src/utils.rs mod non_advancing_iterator
pub type Counterparts<N> = (N, N);
pub type CounterpartsResult<N> = Result<Counterparts<N>, <N as Node>::Cmp>;
//@subst <N::Index as Default>::default => N::Index::default
//@selfty EdgesIter<N>
//@selfty Iterator for EdgesIter<N>
//@selfty NonAdvancingIterator for EdgesIter<N>
//@item edges_iter @ EdgesIter
//@ header pub struct EdgesIter<N: Node>
//@ fields counterparts:Counterparts<N> next_index:Option<N::Index>
//@end
pub open spec fn yielded<N: Node>(q0: Q, r: Option<CounterpartsResult<N>>) -> bool {
    match r {
        None => q0.len() == 0,
        Some(Ok(p)) => q0.len() > 0 && q0[0] == Item::Pair(p.0.n(), p.1.n()),
        Some(Err(c)) => q0.len() == 1 && q0[0] is Stop && c == N::Cmp::of_ord(q0[0]->Stop_0),
    }
}
impl<N: Node> EdgesIter<N> {
    pub open spec fn rest(&self) -> Q { match self.next_index { None => Seq::empty(), Some(i) => items(N::g_kids(self.counterparts.0.n()), N::g_kids(self.counterparts.1.n()), i.ix()) } }
//@fn EdgesIter::new
//@ params counterparts
//@ spec ensures r.rest() == kid_items::<N>(counterparts.0.n(), counterparts.1.n()), r.counterparts == counterparts,
//@end
//@fn EdgesIter::get_next
//@ optional
//@ sig (&mutself,bool)->Option<<SelfasIterator>::Item>
//@ params advance
//@ rettype Option<CounterpartsResult<N>>
//@ spec ensures final(self).counterparts == old(self).counterparts,
            yielded(old(self).rest(), r),
            final(self).rest() == (if advance && r is Some && r->Some_0 is Ok { old(self).rest().drop_first() } else { old(self).rest() }),
//@ pre proof { N::kids_bound(self.counterparts.0.n()); N::kids_bound(self.counterparts.1.n()); reveal_with_fuel(items, 2);
              assert forall|x: Item, s: Q| (#[trigger] (seq![x] + s)).drop_first() == s by { assert((seq![x] + s).drop_first() =~= s); }; }
//@end
//@fn EdgesIter as Iterator::next
//@ rettype Option<CounterpartsResult<N>>
//@ pre broadcast use cons_pop;
//@ pre proof { N::kids_bound(self.counterparts.0.n()); N::kids_bound(self.counterparts.1.n()); reveal_with_fuel(items, 2);
              assert forall|x: Item, s: Q| (#[trigger] (seq![x] + s)).drop_first() == s by { assert((seq![x] + s).drop_first() =~= s); }; }
//@ spec ensures took::<N>(old(self).rest(), r, final(self).rest()), r is Some && r->Some_0 is Ok ==> old(self).rest() == cons(r->Some_0->Ok_0.0.n(), r->Some_0->Ok_0.1.n(), final(self).rest()), final(self).counterparts == old(self).counterparts,
            yielded(old(self).rest(), r),
            final(self).rest() == (if r is Some && r->Some_0 is Ok { old(self).rest().drop_first() } else { old(self).rest() }),
//@end
//@fn EdgesIter as NonAdvancingIterator::next_no_adv
//@ rettype Option<CounterpartsResult<N>>
//@ pre proof { N::kids_bound(self.counterparts.0.n()); N::kids_bound(self.counterparts.1.n()); reveal_with_fuel(items, 2);
              assert forall|x: Item, s: Q| (#[trigger] (seq![x] + s)).drop_first() == s by { assert((seq![x] + s).drop_first() =~= s); }; }
//@ spec ensures final(self).counterparts == old(self).counterparts, yielded(old(self).rest(), r), final(self).rest() == old(self).rest(),
//@end
//@fn EdgesIter as NonAdvancingIterator::has_next | trait NonAdvancingIterator::has_next
//@ spec ensures final(self).counterparts == old(self).counterparts, r == (old(self).rest().len() > 0), final(self).rest() == old(self).rest(),
//@end
}
//@fn edges_iter @ zero
//@ optional
//@ generics <T: Step>
//@ spec ensures r.ix() == 0
//@end
//@fn edges_iter @ increment_index
//@ optional
//@ generics <T: Step>
//@ spec ensures match r { Some(j) => j.ix() == i.ix() + 1, None => T::max_ix() == Some(i.ix()) }
//@ params i
//@end
