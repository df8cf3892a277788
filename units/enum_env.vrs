// The requests made of the edges of two nodes by one enumeration, as ghost state.
pub tracked struct Reqs {
    /// the nodes
    pub ghost a: int, pub ghost b: int,
    /// the index requested last, how often of each, and the last answers
    pub ghost i: nat, pub ghost ca: nat, pub ghost cb: nat, pub ghost la: Option<int>, pub ghost lb: Option<int>,
    /// one of the nodes had an edge there and the other had none
    pub ghost d: bool,
}
impl Reqs {
    /// both had an edge at the index requested last
    pub open spec fn both(&self) -> bool { self.ca > 0 && self.cb > 0 && self.la is Some && self.lb is Some }
    pub open spec fn at(&self, i: nat) -> Reqs { if i == self.i { *self } else { Reqs { i, ca: 0, cb: 0, la: None, lb: None, d: false, ..*self } } }
    pub open spec fn asked(&self, n: int, i: nat, k: Option<int>) -> Reqs {
        let m = self.at(i);
        let m = if n == self.a { Reqs { ca: m.ca + 1, la: k, ..m } } else { Reqs { cb: m.cb + 1, lb: k, ..m } };
        if m.ca == m.cb && (m.la is Some) != (m.lb is Some) { Reqs { d: true, ..m } } else { m }
    }
    /// may node n be asked for its edge at index i?
    pub open spec fn may(&self, n: int, i: nat) -> bool {
        let m = self.at(i);
        let c = if n == self.a { m.ca } else { m.cb };
        &&& n == self.a || n == self.b
        // at the same index again, or at the next one if both nodes had an edge at this one
        &&& i == self.i || (i == self.i + 1 && self.both())
        // at most twice, or three times where one node has an edge and the other has none
        &&& c < 2 || (c < 3 && m.d)
    }
}
/// a node, whose methods may give anything (its identity does not change)
pub trait Node: Sized {
    type Cmp: Cmp;
    type Id: IdLike;
    type Index: Step;
    spec fn n(&self) -> int;
    spec fn g_id(n: int) -> int;
    fn id(&self) -> (r: Self::Id) ensures r.v() == Self::g_id(self.n());
    fn get_edge(&self, index: &Self::Index, Tracked(reqs): Tracked<&mut Reqs>) -> (r: Option<Self>)
        requires old(reqs).may(self.n(), index.ix()),
        ensures *final(reqs) == old(reqs).asked(self.n(), index.ix(), match r { Some(k) => Some(k.n()), None => None });
    fn equiv_modulo_edges(&self, other: &Self) -> (r: Self::Cmp);
}
/// Less and Greater are not equivalent (C14 proves it of the provided results)
pub open spec fn law_cmp<N: Node>() -> bool { !N::Cmp::of_ord(Ordering::Less).eqv() && !N::Cmp::of_ord(Ordering::Greater).eqv() }
/// a component that controls descending, which may do and give anything
pub trait DescendMode<N: Node, E: Possible>: Sized {
    type Error: VxInto<E>;
    spec fn wf(&self) -> bool;
    fn do_edges(&mut self, a: &N, b: &N) -> (r: Result<bool, Self::Error>) requires old(self).wf(), ensures final(self).wf(), r is Err ==> r->Err_0.can();
    fn do_traverse(&mut self) -> (r: Result<bool, Self::Error>) requires old(self).wf(), ensures final(self).wf(), r is Err ==> r->Err_0.can();
}
/// the one enumeration that a visit of a pair may begin
pub tracked struct Begin { pub ghost done: bool }
