// src/cycle_safe.rs mod modes::interleave
/// known relations: k(x, x) says that x was seen
pub type K = spec_fn(int, int) -> bool;
pub open spec fn k_sim(k: K, x: int, y: int) -> bool { x == y || k(x, y) }
pub open spec fn joined(k: K, a: int, b: int) -> K {
    |x: int, y: int| (k(x, x) || x == a || x == b) && (k(y, y) || y == a || y == b)
        && (k_sim(k, x, y) || (k_sim(k, x, a) && k_sim(k, b, y)) || (k_sim(k, x, b) && k_sim(k, a, y)))
}
pub open spec fn k_none() -> K { |x: int, y: int| false }
pub open spec fn rel<T: Table>(e: EquivClasses<T>) -> K { |x: int, y: int| e.known(x, y) }
broadcast proof fn rel_joined<T: Table>(e0: EquivClasses<T>, e1: EquivClasses<T>, a: int, b: int)
    requires #[trigger] e1.joins(&e0, a, b),
    ensures rel(e1) == joined(rel(e0), a, b)
{
    e0.known_equivalence(); e1.known_equivalence();
    assert(rel(e1) =~= joined(rel(e0), a, b));
}
broadcast proof fn rel_same<T: Table>(e0: EquivClasses<T>, e1: EquivClasses<T>)
    requires #[trigger] e1.same_as(&e0),
    ensures rel(e1) == rel(e0)
{ assert(rel(e1) =~= rel(e0)); }
/// t: the numbers of branch pairs left of the fast phase, or minus the number done in the slow phase
#[verifier::reject_recursive_types(G)]
pub ghost struct IS<G> { pub t: int, pub k: K, pub g: G }
pub trait PLimit: Sized {
    spec fn precheck() -> u16;
    fn vxc_PRECHECK_LIMIT() -> (r: u16) ensures r == Self::precheck();
}
pub trait IParams: PLimit {
    type Node: Node;
    type Table: Table<Node = Self::Node>;
    type RNG: Random;
    spec fn fast() -> u16;
    spec fn slow() -> u16;
    fn vxc_FAST_LIMIT_MAX() -> (r: u16) ensures r == Self::fast();
    fn vxc_SLOW_LIMIT() -> (r: u16) ensures r == Self::slow();
    /// FAST_LIMIT_MAX + 1 is evaluated at compile time: the crate accepts no other configuration
    proof fn accepted() ensures Self::fast() < u16::MAX;
}
//@item interleave @ Interleave
//@ header #[verifier::reject_recursive_types(P)] pub struct Interleave<P: IParams>
//@ fields ticker equiv_classes rng
//@end
//@selfty Interleave<P>
//@selfty Default for Interleave<P>
//@selfty DescendMode<N, E> for Interleave<P>
impl<P: IParams> Interleave<P> {
    pub closed spec fn ist(&self) -> IS<<P::RNG as Random>::G> { IS { t: self.ticker as int, k: rel(self.equiv_classes), g: self.rng.g() } }
    pub closed spec fn ok(&self) -> bool { self.equiv_classes.inv() && -(P::slow() as int) <= self.ticker <= u16::MAX }
//@const Interleave::FAST_LIMIT_MAX_RANGE_END
//@ spec ensures r.v() == P::fast() + 1,
//@ pre proof { P::accepted(); }
//@end
//@const Interleave::SLOW_LIMIT_NEG
//@ spec ensures r == -(P::slow() as int),
//@end
}
pub open spec fn i_tick<P: IParams, X>(s: IS<<P::RNG as Random>::G>) -> Act<IS<<P::RNG as Random>::G>, X> { Act::Go(s) }
/// what the slow and the fast phase do with a branch pair of nodes identified by x and y
pub open spec fn i_desc<P: IParams, X>(s: IS<<P::RNG as Random>::G>, x: int, y: int) -> Act<IS<<P::RNG as Random>::G>, X> {
    let end = P::fast() as int + 1;
    if s.t > 0 { Act::Go(IS { t: s.t - 1, ..s }) }
    else if s.t == -(P::slow() as int) { Act::Go(IS { t: P::RNG::out(s.g, end), k: s.k, g: P::RNG::nxt(s.g, end) }) }
    else if (s.k)(x, y) { Act::Skip(IS { t: 0, ..s }) }
    else { Act::Go(IS { t: s.t - 1, k: joined(s.k, x, y), g: s.g }) }
}
impl<N: Node, E: Possible, P: IParams<Node = N>> DescendMode<N, E> for Interleave<P> where Infallible: VxInto<E> {
    type Error = Infallible;
    type St = IS<<P::RNG as Random>::G>;
    open spec fn st(&self) -> IS<<P::RNG as Random>::G> { self.ist() }
    open spec fn wf(&self) -> bool { self.ok() }
    open spec fn tick(s: IS<<P::RNG as Random>::G>) -> Act<IS<<P::RNG as Random>::G>, Infallible> { i_tick::<P, Infallible>(s) }
    open spec fn desc(s: IS<<P::RNG as Random>::G>, a: int, b: int) -> Act<IS<<P::RNG as Random>::G>, Infallible> { i_desc::<P, Infallible>(s, N::g_id(a), N::g_id(b)) }
//@fn Interleave as DescendMode::do_edges
//@ vis none
//@ params a b
//@ ptype a = &N
//@ ptype b = &N
//@ pre broadcast use {rel_joined, rel_same};
//@end
//@fn Interleave as DescendMode::do_traverse
//@ vis none
//@end
}
