// src/generic.rs mod edges_iter, src/utils.rs mod non_advancing_iterator
pub type Counterparts<N> = (N, N);
pub type CounterpartsResult<N> = Result<Counterparts<N>, <N as Node>::Cmp>;
//@subst <N::Index as Default>::default => N::Index::default
//@selfty EdgesIter<N>
//@selfty Iterator for EdgesIter<N>
//@selfty NonAdvancingIterator for EdgesIter<N>
//@literal EdgesIter reqs: Tracked(Reqs { a: counterparts.0.n(), b: counterparts.1.n(), i: 0, ca: 0, cb: 0, la: None, lb: None, d: false })
//@item edges_iter @ EdgesIter
//@ header pub struct EdgesIter<N: Node>
//@ extra pub reqs: Tracked<Reqs>
//@ fields counterparts:Counterparts<N> next_index:Option<N::Index>
//@end
/// what is yielded is what the nodes answered when asked at the index requested last
pub open spec fn told<N: Node>(r: Option<CounterpartsResult<N>>, l: Reqs) -> bool {
    match r {
        Some(Ok(p)) => l.la == Some(p.0.n()) && l.lb == Some(p.1.n()),
        Some(Err(c)) => (l.la is None && l.lb is Some && c == N::Cmp::of_ord(Ordering::Less)) || (l.la is Some && l.lb is None && c == N::Cmp::of_ord(Ordering::Greater)),
        None => l.la is None && l.lb is None,
    }
}
impl<N: Node> EdgesIter<N> {
    pub open spec fn l(&self) -> Reqs { self.reqs@ }
    /// the index that the enumeration is at, if it has not ended
    pub open spec fn idx(&self) -> Option<nat> { match self.next_index { Some(i) => Some(i.ix()), None => None } }
    pub open spec fn wf(&self) -> bool {
        &&& self.l().a == self.counterparts.0.n() && self.l().b == self.counterparts.1.n() && self.l().a != self.l().b && self.l().ca == self.l().cb
        &&& self.idx() is Some ==> self.idx()->0 == self.l().i || (self.idx()->0 == self.l().i + 1 && self.l().both())
    }
    /// how often each node was asked at the index that the enumeration is at
    pub open spec fn p(&self) -> nat { match self.idx() { Some(i) => self.l().at(i).ca, None => 0 } }
    pub open spec fn may(&self) -> bool { self.wf() && (self.p() < 2 || (self.p() < 3 && self.l().d && self.idx() == Some(self.l().i))) }
    /// next and then has_next may be called
    pub open spec fn ready(&self) -> bool { self.wf() && self.p() < 2 }
    pub open spec fn got(&self, advance: bool, r: Option<CounterpartsResult<N>>, e: &Self) -> bool {
        &&& e.wf() && e.counterparts == self.counterparts
        &&& self.idx() is None ==> r is None && e.idx() is None && e.reqs == self.reqs
        &&& self.idx() is Some ==> {
            &&& told(r, e.l()) && e.l().i == self.idx()->0
            &&& if advance && r is Some && r->Some_0 is Ok { e.p() == 0 && match e.idx() { Some(i) => i == self.idx()->0 + 1, None => N::Index::max_ix() == self.idx() } }
                else if advance && r is None { e.idx() is None }
                else { e.p() <= self.p() + 1 && (e.idx() == self.idx() || (e.idx() is None && !(r is Some && r->Some_0 is Ok))) }
            &&& r is Some && r->Some_0 is Err ==> e.l().d
        }
    }
//@fn EdgesIter::new
//@ params counterparts
//@ ghost Tracked(begin): Tracked<&mut Begin>
//@ spec requires counterparts.0.n() != counterparts.1.n(), !old(begin).done,
      ensures final(begin).done, r.counterparts == counterparts, r.wf(), r.idx() == Some(0nat), r.p() == 0,
//@ pre proof { begin.done = true; }
//@end
//@fn EdgesIter::get_next
//@ optional
//@ sig (&mutself,bool)->Option<<SelfasIterator>::Item>
//@ params advance
//@ ghostexpr Tracked(self.reqs.borrow_mut())
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires old(self).may(), ensures old(self).got(advance, r, final(self)),
//@end
//@fn EdgesIter as Iterator::next
//@ ghostexpr Tracked(self.reqs.borrow_mut())
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires old(self).may(), ensures old(self).got(true, r, final(self)),
//@end
//@fn EdgesIter as NonAdvancingIterator::next_no_adv
//@ ghostexpr Tracked(self.reqs.borrow_mut())
//@ rettype Option<CounterpartsResult<N>>
//@ spec requires old(self).may(), ensures old(self).got(false, r, final(self)),
//@end
//@fn EdgesIter as NonAdvancingIterator::has_next | trait NonAdvancingIterator::has_next
//@ spec requires old(self).may(),
      ensures exists|x: Option<CounterpartsResult<N>>| #[trigger] old(self).got(false, x, final(self)) && r == (x is Some),
//@end
}
//@fn edges_iter @ zero
//@ optional
//@ generics <T: Step>
//@ spec ensures r.ix() == 0,
//@end
//@fn edges_iter @ increment_index
//@ optional
//@ generics <T: Step>
//@ params i
//@ spec ensures match r { Some(j) => j.ix() == i.ix() + 1, None => T::max_ix() == Some(i.ix()) },
//@end
