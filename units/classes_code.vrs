// src/generic/equiv_classes.rs
//@selfty Class<R>
//@selfty EquivClasses<T>
//@thread new replace set clone_inner get_rep_and_weight get_rep eq_rep set_rep set_link all_seen
//@known clone same_place get insert default
//@literal EquivClasses heap: Tracked(Heap { m: Map::empty() })

//@item Class
//@ header pub enum Class<R>
//@end

impl<R: Rc> Class<R> {
//@fn Class as Clone::clone
//@ spec ensures r@ == self@
//@end
//@fn Class as Default::default
//@ifnot HEIGHT
//@ spec ensures r@ is Rep
//@else
//@ spec ensures r@ == Cls::Rep(1)
//@fi
//@end
//@fn Class::new
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires fit(old(heap).m),
      ensures fit(final(heap).m), grown(old(heap).m, final(heap).m, r.loc())
//@end
//@fn Class::clone_inner
//@ sig (&R)->Self
//@ params it
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires old(heap).m.dom().contains(it.loc()),
      ensures r@ == old(heap).m[it.loc()], final(heap).m == old(heap).m,
//@end
//@fn Class::get_rep_and_weight
//@ sig (&R)->(R,usize)
//@ params it
//@ attr #[verifier::loop_isolation(false)]
//@ role next = arg:clone_inner:0:loop
//@ role cur = recv:set:loop
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires fit(old(heap).m), old(heap).m.dom().contains(it.loc()),
      ensures fit(final(heap).m), same_roots(old(heap).m, final(heap).m), r.0.loc() == root(old(heap).m, it.loc()),
          final(heap).m[r.0.loc()] == Cls::Rep(r.1),
//@ loop invariant fit(heap.m), same_roots(old(heap).m, heap.m), heap.m.dom().contains(@next.loc()), heap.m.dom().contains(@cur.loc()),
                     above(heap.m, @cur.loc(), @next.loc()), root(heap.m, @next.loc()) == root(old(heap).m, it.loc()),
                     heap.m[@cur.loc()] is Lnk, heap.m[@cur.loc()]->Lnk_0 == @next.loc(),
         decreases dist(heap.m, @next.loc()),
//@ alt
//@ role next = arg:clone_inner:0
//@ role cur = recv:set|arg:set_link:0
//@ role inner = res:clone_inner
//@ loop invariant fit(heap.m), same_roots(old(heap).m, heap.m), heap.m.dom().contains(@next.loc()), heap.m.dom().contains(@cur.loc()), @inner@ == heap.m[@next.loc()],
                     above(heap.m, @cur.loc(), @next.loc()), root(heap.m, @next.loc()) == root(old(heap).m, it.loc()),
                     heap.m[@cur.loc()] is Lnk, heap.m[@cur.loc()]->Lnk_0 == @next.loc(),
         decreases dist(heap.m, @next.loc()),
//@ alt
//@ role next = arg:clone_inner:0
//@ role cur = recv:set|arg:set_link:0
//@ loop invariant fit(heap.m), same_roots(old(heap).m, heap.m), heap.m.dom().contains(@next.loc()), heap.m.dom().contains(@cur.loc()),
                     above(heap.m, @cur.loc(), @next.loc()), root(heap.m, @next.loc()) == root(old(heap).m, it.loc()),
                     heap.m[@cur.loc()] is Lnk, heap.m[@cur.loc()]->Lnk_0 == @next.loc(),
         decreases dist(heap.m, @next.loc()),
//@ alt
//@ role cur = recv:set|arg:set_link:0
//@ loop invariant fit(heap.m), same_roots(old(heap).m, heap.m), heap.m.dom().contains(@cur.loc()), root(heap.m, @cur.loc()) == root(old(heap).m, it.loc()),
         decreases dist(heap.m, @cur.loc()),
//@end
//@fn Class::get_rep
//@ sig (&R)->R
//@ params it
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires fit(old(heap).m), old(heap).m.dom().contains(it.loc()),
       ensures fit(final(heap).m), same_roots(old(heap).m, final(heap).m), r.loc() == root(old(heap).m, it.loc()),
//@end
//@fn Class::eq_rep
//@ sig (&R,&R)->bool
//@ params it other
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires
         old(heap).m.dom().contains(it.loc()), old(heap).m[it.loc()] is Rep,
         old(heap).m.dom().contains(other.loc()), old(heap).m[other.loc()] is Rep,
       ensures final(heap).m == old(heap).m, r == (it.loc() == other.loc()),
//@end
//@fn Class::set_rep
//@ sig (&R,usize)->()
//@ params it weight
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires old(heap).m.dom().contains(it.loc()), ensures stored(old(heap).m, final(heap).m, it.loc(), Cls::Rep(weight)),
//@end
//@fn Class::set_link
//@ sig (&R,R)->()
//@ params it next
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires old(heap).m.dom().contains(it.loc()), ensures stored(old(heap).m, final(heap).m, it.loc(), Cls::Lnk(next.loc())),
//@end
}

//@item EquivClasses
//@ header pub struct EquivClasses<T>
//@ fields table:T
//@ extra pub heap: Tracked<Heap>
//@end

pub open spec fn t_ok(t: Map<int, Loc>, m: HM) -> bool { fit(m) && forall|x: int| #[trigger] t.dom().contains(x) ==> m.dom().contains(t[x]) }
pub open spec fn t_known(t: Map<int, Loc>, m: HM, x: int, y: int) -> bool { t.dom().contains(x) && t.dom().contains(y) && root(m, t[x]) == root(m, t[y]) }

impl<T: Table> EquivClasses<T> {
    pub closed spec fn inv(&self) -> bool { t_ok(self.table.view(), self.heap@.m) }
    pub closed spec fn seen(&self, x: int) -> bool { self.table.view().dom().contains(x) }
    pub closed spec fn known(&self, x: int, y: int) -> bool { t_known(self.table.view(), self.heap@.m, x, y) }
    pub open spec fn sim(&self, x: int, y: int) -> bool { x == y || self.known(x, y) }
    /// `self` is `o` with the classes of a and b joined and nothing else changed
    pub open spec fn joins(&self, o: &Self, a: int, b: int) -> bool {
        &&& forall|x: int| #[trigger] self.seen(x) == (o.seen(x) || x == a || x == b)
        &&& forall|x: int, y: int| #[trigger] self.known(x, y) ==
               (self.seen(x) && self.seen(y) && (o.sim(x, y) || (o.sim(x, a) && o.sim(b, y)) || (o.sim(x, b) && o.sim(a, y))))
    }
    pub open spec fn same_as(&self, o: &Self) -> bool {
        &&& forall|x: int| #[trigger] self.seen(x) == o.seen(x)
        &&& forall|x: int, y: int| #[trigger] self.known(x, y) == o.known(x, y)
    }
//@if HEIGHT
    /// the chain from any record is no longer than the logarithm of the number of records
    pub proof fn short_chains(&self, x: int) requires self.inv(), self.seen(x) ensures p2(self.chain(x)) <= self.records() { chains_short(self.heap@.m, self.table.view()[x]); }
    pub proof fn short_links(&self, l: Loc) requires self.inv(), self.heap@.m.dom().contains(l) ensures p2(dist(self.heap@.m, l)) <= self.records() { chains_short(self.heap@.m, l); }
    pub closed spec fn chain(&self, x: int) -> nat { dist(self.heap@.m, self.table.view()[x]) }
    /// the number of class records ever made
    pub closed spec fn records(&self) -> nat { self.heap@.m.dom().len() }
//@fi
    /// the relation known is an equivalence on what was seen
    pub proof fn known_equivalence(&self)
        ensures forall|x: int| #[trigger] self.seen(x) == self.known(x, x),
            forall|x: int, y: int| #[trigger] self.known(x, y) ==> self.known(y, x) && self.seen(x) && self.seen(y),
            forall|x: int, y: int, z: int| #[trigger] self.known(x, y) && #[trigger] self.known(y, z) ==> self.known(x, z),
    {}

//@fn EquivClasses as Default::default
//@ subst Default::default => T::default
//@ spec ensures r.inv(), forall|x: int| !r.seen(x)
//@ pre proof { reveal(wf); assert(rk_ok(Map::<Loc, Cls>::empty(), |l: Loc| 0nat)); }
//@if HEIGHT
    proof { tall_empty(); }
//@fi
//@end
//@fn EquivClasses::none_seen
//@ sig (&mutself,&<T::NodeasNode>::Id,&<T::NodeasNode>::Id)->()
//@ params ak bk
//@ ghostexpr Tracked(self.heap.borrow_mut())
//@ spec requires old(self).inv(), !old(self).seen(ak.v()), !old(self).seen(bk.v()),
               ensures final(self).inv(), final(self).joins(old(self), ak.v(), bk.v()),
//@ pre proof { reveal(same_roots); reveal(same_links); reveal(merged); reveal(grown); }
//@end
//@fn EquivClasses::some_seen
//@ sig (&mutself,&T::Rc,&<T::NodeasNode>::Id)->()
//@ params oc k
//@ ghostexpr Tracked(self.heap.borrow_mut())
//@ spec requires old(self).inv(), !old(self).seen(k.v()), exists|o: int| old(self).seen(o) && #[trigger] old(self).table.view()[o] == oc.loc(),
               ensures final(self).inv(), forall|o: int| old(self).seen(o) && #[trigger] old(self).table.view()[o] == oc.loc() ==> final(self).joins(old(self), o, k.v()),
//@ pre proof { reveal(same_roots); reveal(same_links); reveal(merged); reveal(grown); }
//@end
//@fn EquivClasses::all_seen
//@ sig (&T::Rc,&T::Rc)->bool
//@ params ac bc
//@ ghost Tracked(heap): Tracked<&mut Heap>
//@ spec requires fit(old(heap).m), old(heap).m.dom().contains(ac.loc()), old(heap).m.dom().contains(bc.loc()),
              ensures fit(final(heap).m), r == (root(old(heap).m, ac.loc()) == root(old(heap).m, bc.loc())),
                  final(heap).m.dom() == old(heap).m.dom(),
                  r ==> forall|x: Loc| old(heap).m.dom().contains(x) ==> root(final(heap).m, x) == root(old(heap).m, x),
                  !r ==> (forall|x: Loc, y: Loc| old(heap).m.dom().contains(x) && old(heap).m.dom().contains(y) ==>
                    (root(final(heap).m, x) == root(final(heap).m, y)) ==
                      (root(old(heap).m, x) == root(old(heap).m, y) || (root(old(heap).m, x) == root(old(heap).m, ac.loc()) && root(old(heap).m, y) == root(old(heap).m, bc.loc()))
                       || (root(old(heap).m, x) == root(old(heap).m, bc.loc()) && root(old(heap).m, y) == root(old(heap).m, ac.loc())))),
//@ pre proof { reveal(same_roots); reveal(same_links); reveal(merged); reveal(grown); }
//@end
//@fn EquivClasses::same_class
//@ params ak bk
//@ ghostexpr Tracked(self.heap.borrow_mut())
//@ spec requires old(self).inv(),
               ensures final(self).inv(), r == old(self).known(ak.v(), bk.v()),
                 r ==> final(self).same_as(old(self)),
                 !r ==> final(self).joins(old(self), ak.v(), bk.v()),
//@end
}
