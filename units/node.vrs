//@include base.vrs
pub trait Node: Sized {
    type Cmp: Cmp;
    type Id: IdLike;
    type Index: Step;
    spec fn n(&self) -> int;
    spec fn g_id(n: int) -> int;
    spec fn g_kids(n: int) -> Seq<int>;
    spec fn g_cmp(a: int, b: int) -> Self::Cmp;
    /// no node has more edges than its index type can count
    proof fn kids_bound(n: int) ensures Self::Index::max_ix() is Some ==> Self::g_kids(n).len() <= Self::Index::max_ix()->0 + 1;
    fn id(&self) -> (r: Self::Id) ensures r.v() == Self::g_id(self.n());
    fn get_edge(&self, index: &Self::Index) -> (r: Option<Self>)
        ensures match r {
            Some(k) => index.ix() < Self::g_kids(self.n()).len() && k.n() == Self::g_kids(self.n())[index.ix() as int],
            None => index.ix() >= Self::g_kids(self.n()).len(),
        };
    fn equiv_modulo_edges(&self, other: &Self) -> (r: Self::Cmp) ensures r == Self::g_cmp(self.n(), other.n());
}
/// nodes that can be cloned
pub trait NodeClone: Node { fn clone(&self) -> (r: Self) ensures r.n() == self.n(); }
/// Less and Greater are not equivalent (C14 proves it of the provided results)
pub open spec fn law_cmp<N: Node>() -> bool { !N::Cmp::of_ord(Ordering::Less).eqv() && !N::Cmp::of_ord(Ordering::Greater).eqv() }

/// what an enumeration of two nodes' edges has yet to give
pub ghost enum Item { Pair(int, int), Stop(Ordering) }
pub type Q = Seq<Item>;
pub open spec fn items(ka: Seq<int>, kb: Seq<int>, i: nat) -> Q
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() { seq![Item::Pair(ka[i as int], kb[i as int])] + items(ka, kb, i + 1) }
    else if i < ka.len() { seq![Item::Stop(Ordering::Greater)] }
    else if i < kb.len() { seq![Item::Stop(Ordering::Less)] }
    else { Seq::empty() }
}
pub open spec fn kid_items<N: Node>(a: int, b: int) -> Q { items(N::g_kids(a), N::g_kids(b), 0) }
pub broadcast proof fn add_drop(x: Q, y: Q) requires x.len() > 0 ensures #[trigger] (x + y).drop_first() == x.drop_first() + y { assert((x + y).drop_first() =~= x.drop_first() + y); }
pub broadcast proof fn add_empty(x: Q, y: Q) ensures x.len() == 0 ==> #[trigger] (x + y) == y, y.len() == 0 ==> x + y == x { if x.len() == 0 { assert(x + y =~= y); } if y.len() == 0 { assert(x + y =~= x); } }

