// What is recorded, as ghost state, of what is done to the nodes.
/// an error, as far as telling errors apart goes
pub uninterp spec fn tag<E>(e: E) -> int;
/// errors after which another comparison may begin
pub uninterp spec fn restartable(t: int) -> bool;
pub type Pairs = Set<(int, int)>;
pub tracked struct Log<C> {
    /// the pair that is visited, until its values are compared
    pub ghost cur: Option<(int, int)>,
    /// the pairs whose values were found equivalent
    pub ghost open: Pairs,
    /// the first difference met, and the pair it is of
    pub ghost diff: Option<C>,
    pub ghost at: (int, int),
    /// the error a component gave
    pub ghost err: Option<int>,
    /// the number of visits a component refused
    pub ghost skipped: nat,
}
impl<C> Log<C> {
    /// nothing that ends the comparison was met
    pub open spec fn live(&self) -> bool { self.diff is None && self.err is None }
    /// node n is one of a pair whose values were found equivalent
    pub open spec fn opened(&self, n: int) -> bool { exists|p: (int, int)| #[trigger] self.open.contains(p) && (p.0 == n || p.1 == n) }
    pub open spec fn same(&self, o: &Self) -> bool { *self == *o }
    /// r is what ended the comparison, or nothing did
    pub open spec fn ended<E>(&self, r: Result<C, E>) -> bool where C: Cmp {
        match r {
            Err(e) => self.err == Some(tag(e)) && self.diff is None,
            Ok(c) => self.err is None && self.diff == (if c.eqv() { None } else { Some(c) }),
        }
    }
    pub open spec fn grew(&self, o: &Self) -> bool { o.open.subset_of(self.open) && o.skipped <= self.skipped }
}
/// a node, whose methods may do and give anything (its identity does not change)
pub trait Node: Sized {
    type Cmp: Cmp;
    type Id: IdLike;
    type Index: Step;
    spec fn n(&self) -> int;
    spec fn g_id(n: int) -> int;
    fn id(&self, Tracked(log): Tracked<&mut Log<Self::Cmp>>) -> (r: Self::Id)
        requires old(log).live(),
        ensures *final(log) == *old(log), r.v() == Self::g_id(self.n());
    /// only the edges of nodes of pairs whose values were found equivalent are requested, and after a difference none of other nodes
    fn get_edge(&self, index: &Self::Index, Tracked(log): Tracked<&mut Log<Self::Cmp>>) -> (r: Option<Self>)
        requires old(log).err is None, old(log).opened(self.n()), old(log).diff is None || self.n() == old(log).at.0 || self.n() == old(log).at.1,
        ensures *final(log) == *old(log);
    /// the values of the pair visited are compared once, the first graph's node on the left, if their identities differ
    fn equiv_modulo_edges(&self, other: &Self, Tracked(log): Tracked<&mut Log<Self::Cmp>>) -> (r: Self::Cmp)
        requires old(log).live(), old(log).cur == Some((self.n(), other.n())), Self::g_id(self.n()) != Self::g_id(other.n()),
        ensures *final(log) == (if r.eqv() { Log { cur: None, open: old(log).open.insert((self.n(), other.n())), ..*old(log) } } else { Log { cur: None, diff: Some(r), at: (self.n(), other.n()), ..*old(log) } });
}
pub trait NodeClone: Node { fn clone(&self) -> (r: Self) ensures r.n() == self.n(); }
/// Less and Greater are not equivalent (C14 proves it of the provided results)
pub open spec fn law_cmp<N: Node>() -> bool { !N::Cmp::of_ord(Ordering::Less).eqv() && !N::Cmp::of_ord(Ordering::Greater).eqv() }
/// a component that controls descending, which may do and give anything
pub trait DescendMode<N: Node, E: Possible>: Sized {
    type Error: VxInto<E>;
    spec fn wf(&self) -> bool;
    fn do_edges(&mut self, a: &N, b: &N, Tracked(log): Tracked<&mut Log<N::Cmp>>) -> (r: Result<bool, Self::Error>)
        requires old(self).wf(), old(log).live(), old(log).open.contains((a.n(), b.n())),
        ensures final(self).wf(), *final(log) == (match r { Err(e) => Log { err: Some(tag(e.conv())), ..*old(log) }, Ok(_) => *old(log) }), r is Err ==> r->Err_0.can();
    fn do_traverse(&mut self, Tracked(log): Tracked<&mut Log<N::Cmp>>) -> (r: Result<bool, Self::Error>)
        requires old(self).wf(), old(log).live(),
        ensures final(self).wf(), *final(log) == (match r { Err(e) => Log { err: Some(tag(e.conv())), ..*old(log) }, Ok(false) => Log { skipped: old(log).skipped + 1, ..*old(log) }, Ok(true) => *old(log) }), r is Err ==> r->Err_0.can();
}
