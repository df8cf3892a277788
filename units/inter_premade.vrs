// ---- the premade functions: src/{cycle_safe,robust}.rs, src/generic.rs mod precheck_interleave
//@ifeq FN custom
//@else
//@ifnot WTABLE
//@fail no table
//@fi
//@fi
//@if OFAST | OSLOW | OCAP
//@fail the limits of ${FN} are not the default ones
//@fi
impl<P: IParams> Fresh for Interleave<P> {
    open spec fn fresh(&self) -> bool { self.ist().t == 0 && self.ist().k == k_none() && self.ok() }
//@fn Interleave as Default::default
//@ vis none
//@ pre proof { assert forall|e: EquivClasses<P::Table>, x: int, y: int| #[trigger] e.known(x, y) implies e.seen(x) by { e.known_equivalence(); }
      assert forall|e: EquivClasses<P::Table>| (forall|x: int| !(#[trigger] e.seen(x))) implies #[trigger] rel(e) == k_none() by { assert(rel(e) =~= k_none()); } }
//@end
}
/// the default limits
//@const trait Params::FAST_LIMIT_MAX
//@ name default_fast
//@ generics <P: PLimit>
//@ subst Self => P
//@ spec requires 2 * P::precheck() <= u16::MAX,
      ensures r == 2 * P::precheck(),
//@end
//@const trait Params::SLOW_LIMIT
//@ name default_slow
//@ generics <P: PLimit>
//@ subst Self => P
//@ spec ensures r == (if P::precheck() < 10 { 1 } else { P::precheck() / 10 }), r >= 1,
//@end
//@ifeq FN custom
//@else
/// the default configuration's precheck limit: any that is accepted at compile time
pub uninterp spec fn the_precheck() -> u16;
#[verifier::external_body] proof fn the_precheck_accepted() ensures 2 * the_precheck() < u16::MAX {}
#[verifier::external_body] fn vx_the_precheck() -> (r: u16) ensures r == the_precheck() { 400 }
/// the random numbers: any generator that keeps to its contract
#[verifier::external_body] pub struct ${WRNG} { x: u8 }
pub struct AnyG { x: u8 }
impl Random for ${WRNG} {
    type G = AnyG;
    uninterp spec fn g(&self) -> AnyG;
    uninterp spec fn out(g: AnyG, end: int) -> int;
    uninterp spec fn nxt(g: AnyG, end: int) -> AnyG;
    #[verifier::external_body] proof fn in_range(g: AnyG, end: int) {}
    #[verifier::external_body] fn default() -> Self { unimplemented!() }
    #[verifier::external_body] fn rand_upto(&mut self, exclusive_end: NonZeroU16) -> (r: u16) { unimplemented!() }
}
pub struct ${ARGS}<N>(N);
impl<N: Node> RParams for ${ARGS}<N> { type Node = N; #[verifier::external_body] fn vxc_INITIAL_CAPACITY() -> usize { 16 } }
impl<N: Node> hash_map::Params for ${ARGS}<N> { type Node = N; #[verifier::external_body] fn vxc_INITIAL_CAPACITY() -> usize { 16 } }
impl<N: Node> PLimit for ${ARGS}<N> {
    open spec fn precheck() -> u16 { the_precheck() }
    fn vxc_PRECHECK_LIMIT() -> (r: u16) { vx_the_precheck() }
}
impl<N: Node> IParams for ${ARGS}<N> {
    type Node = N; type Table = hash_map::${WTABLE}<Self>; type RNG = ${WRNG};
    open spec fn fast() -> u16 { (2 * the_precheck()) as u16 }
    open spec fn slow() -> u16 { if the_precheck() < 10 { 1 } else { the_precheck() / 10 } }
    fn vxc_FAST_LIMIT_MAX() -> (r: u16) { proof { the_precheck_accepted(); } default_fast::<Self>() }
    fn vxc_SLOW_LIMIT() -> (r: u16) { default_slow::<Self>() }
    proof fn accepted() { the_precheck_accepted(); }
}
//@fi
pub open spec fn finite_below<N: Node>(a: int, b: int) -> bool { exists|u: Set<int>| #[trigger] closed_under::<N>(u) && u.contains(a) && u.contains(b) }
pub open spec fn fresh_st<G>(s: IS<G>) -> bool { s.t == 0 && s.k == k_none() }
pub proof fn fresh_ends<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, a: int, b: int, s: IS<<P::RNG as Random>::G>)
    requires finite_below::<N>(a, b), fresh_st(s), P::slow() >= 1,
    ensures ends::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s)
{
    let u = choose|u: Set<int>| #[trigger] closed_under::<N>(u) && u.contains(a) && u.contains(b);
    let f = interleave_linear::<N, E, P>(dfs, a, b, s, u);
    ends_by::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, f);
}
pub proof fn interleave_never_fails<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, q: Q, s: IS<<P::RNG as Random>::G>, l: nat)
    ensures !(run::<N, E, Interleave<P>>(dfs, q, s, l) is Fail)
    decreases l
{
    if q.len() > 0 && l > 0 { if let Item::Pair(a, b) = q[0] {
        if let Visit::More(ks, s1) = visit::<N, E, Interleave<P>>(s, a, b) { interleave_never_fails::<N, E, P>(dfs, ins(dfs, q.drop_first(), ks), s1, (l - 1) as nat); }
    } }
}
/// the verdict is right: equivalent exactly if all counterparts match; not equivalent with the result of real counterparts
pub open spec fn right<N: Node>(a: int, b: int, c: N::Cmp) -> bool {
    (law_id::<N>() && law_val::<N>() ==> c.eqv() == same::<N>(a, b)) && (!c.eqv() ==> has_diff::<N>(a, b, c))
}
pub proof fn fresh_verdict<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, a: int, b: int, s: IS<<P::RNG as Random>::G>, r: Result<N::Cmp, E>, s1: IS<<P::RNG as Random>::G>)
    requires finite_below::<N>(a, b), fresh_st(s), P::slow() >= 1, law_cmp::<N>(), agrees::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, r, s1),
    ensures r is Ok, right::<N>(a, b, r->Ok_0),
{
    let q = cons(a, b, Seq::empty());
    fresh_ends::<N, E, P>(dfs, a, b, s);
    let f = need::<N, E, Interleave<P>>(dfs, q, s);
    need_is::<N, E, Interleave<P>>(dfs, q, s);
    assert(ends_in::<N, E, Interleave<P>>(dfs, q, s, f));
    agreed::<N, E, Interleave<P>>(dfs, q, s, r, s1, f);
    interleave_never_fails::<N, E, P>(dfs, q, s, f);
    one_diff_real::<N, E, Interleave<P>>(dfs, a, b, s, f);
    assert(no_equal_stop(q)) by { broadcast use cons_facts; }
    diffs::<N, E, Interleave<P>>(dfs, q, s, f);
    if law_id::<N>() && law_val::<N>() { interleave_exact::<N, E, P>(dfs, a, b, s, f); }
}
//@ifeq FN custom
//@ifnot WRM2
/// a user's own comparison: any table, generator and limits that are accepted at compile time, the slow one not zero
pub struct CustomArgs<P, RP>(P, RP);
impl<P: IParams, RP: RParams<Node = P::Node>> Params for CustomArgs<P, RP> { type Node = P::Node; type Error = Infallible; type DescendMode = Interleave<P>; type RP = RP; proof fn law_refl(e: &Self::Error) {} }
pub fn custom_equiv<P: IParams, RP: RParams<Node = P::Node>>(a: P::Node, b: P::Node) -> (r: Result<<P::Node as Node>::Cmp, Infallible>)
    requires law_cmp::<P::Node>(), finite_below::<P::Node>(a.n(), b.n()), P::slow() >= 1,
    ensures r is Ok, right::<P::Node>(a.n(), b.n(), r->Ok_0),
{
    proof {
        let q = cons(a.n(), b.n(), Seq::empty());
        assert forall|s: IS<<P::RNG as Random>::G>| fresh_st(s) implies #[trigger] ends::<P::Node, Infallible, Interleave<P>>(${DFS}, q, s) by { fresh_ends::<P::Node, Infallible, P>(${DFS}, a.n(), b.n(), s); }
        assert forall|s: IS<<P::RNG as Random>::G>, r: Result<<P::Node as Node>::Cmp, Infallible>, s1: IS<<P::RNG as Random>::G>| fresh_st(s) && #[trigger] agrees::<P::Node, Infallible, Interleave<P>>(${DFS}, q, s, r, s1) implies r is Ok && right::<P::Node>(a.n(), b.n(), r->Ok_0)
            by { fresh_verdict::<P::Node, Infallible, P>(${DFS}, a.n(), b.n(), s, r, s1); }
    }
    let mut e = Equiv::<CustomArgs<P, RP>>::default();
    e.equiv(a, b)
}
//@include precheck.vrs
//@else
// a precheck over the call stack and a full comparison over another recursion mode
}
pub mod full { use super::*; verus!{
//@clear
//@for SECOND in 1
//@include mixed_${WRM2}.vrs

//@done
}}
verus!{
//@fi
//@else
//@ifeq F equiv
//@wire WDM = ${FN}::${F} | equiv::Params | DescendMode
//@wire WERR = ${FN}::${F} | equiv::Params | Error
impl<N: Node> Params for ${ARGS}<N> { type Node = N; type Error = ${WERR}; type DescendMode = ${WDM}<Self>; type RP = Self; proof fn law_refl(e: &Self::Error) {} }
//@fn ${FN} @ equiv
//@ name premade_equiv
//@ params a b
//@ spec requires law_cmp::<N>(), finite_below::<N>(a.n(), b.n()),
      ensures right::<N>(a.n(), b.n(), r),
//@ pre proof {
        assert forall|s: IS<AnyG>| fresh_st(s) implies #[trigger] ends::<N, ${WERR}, ${WDM}<${ARGS}<N>>>(${DFS}, cons(a.n(), b.n(), Seq::empty()), s) by { fresh_ends::<N, ${WERR}, ${ARGS}<N>>(${DFS}, a.n(), b.n(), s); }
        assert forall|s: IS<AnyG>, r: Result<N::Cmp, ${WERR}>, s1: IS<AnyG>| fresh_st(s) && #[trigger] agrees::<N, ${WERR}, ${WDM}<${ARGS}<N>>>(${DFS}, cons(a.n(), b.n(), Seq::empty()), s, r, s1) implies r is Ok && right::<N>(a.n(), b.n(), r->Ok_0)
            by { fresh_verdict::<N, ${WERR}, ${ARGS}<N>>(${DFS}, a.n(), b.n(), s, r, s1); }
      }
//@end
//@else
//@include precheck.vrs
//@fi
//@fi
