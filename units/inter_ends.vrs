// Why the interleave mode ends: a bound of the number of pairs descended into.
pub open spec fn closed_under<N: Node>(u: Set<int>) -> bool { forall|a: int, i: int| u.contains(a) && 0 <= i < N::g_kids(a).len() ==> u.contains(#[trigger] N::g_kids(a)[i]) }
pub open spec fn within(u: Set<int>, q: Q) -> bool { forall|i: int| 0 <= i < q.len() ==> match #[trigger] q[i] { Item::Pair(a, b) => u.contains(a) && u.contains(b), Item::Stop(_) => true } }
/// w: the identities of nodes; every one of them is connected to one of c
pub open spec fn covered(k: K, w: Set<int>, c: Set<int>) -> bool { forall|x: int| #[trigger] w.contains(x) ==> exists|y: int| c.contains(y) && #[trigger] k_sim(k, x, y) }
pub open spec fn k_eq(k: K) -> bool {
    (forall|x: int, y: int| #[trigger] k(x, y) ==> k(y, x) && k(x, x))
        && (forall|x: int, y: int, z: int| #[trigger] k(x, y) && #[trigger] k(y, z) ==> k(x, z))
}
proof fn joined_eq(k: K, a: int, b: int)
    requires k_eq(k), ensures k_eq(joined(k, a, b)),
{
    let j = joined(k, a, b);
    assert forall|x: int, y: int, z: int| #[trigger] j(x, y) && #[trigger] j(y, z) implies j(x, z) by {
        sim_trans(k, x, y, z); sim_trans(k, x, a, b); sim_trans(k, x, y, a); sim_trans(k, x, y, b); sim_trans(k, b, y, z); sim_trans(k, a, y, z);
        sim_trans(k, a, y, b); sim_trans(k, b, y, a); sim_trans(k, x, a, z); sim_trans(k, x, b, z); 
    }
}
proof fn sim_trans(k: K, x: int, y: int, z: int)
    requires k_eq(k),
    ensures k_sim(k, x, y) && k_sim(k, y, z) ==> k_sim(k, x, z), k_sim(k, x, y) == k_sim(k, y, x), k_sim(k, y, z) == k_sim(k, z, y), k_sim(k, x, z) == k_sim(k, z, x),
{ let _ = (k(x, y), k(y, x), k(y, z), k(z, y), k(x, z), k(z, x)); }
/// joining what is not connected makes one representative superfluous
proof fn cover_joined(k: K, w: Set<int>, c: Set<int>, a: int, b: int) -> (c1: Set<int>)
    requires k_eq(k), covered(k, w, c), w.contains(a), w.contains(b), !k_sim(k, a, b),
    ensures covered(joined(k, a, b), w, c1), c1.len() == c.len() - 1, c.len() >= 2,
{
    let ra = choose|y: int| c.contains(y) && #[trigger] k_sim(k, a, y);
    let rb = choose|y: int| c.contains(y) && #[trigger] k_sim(k, b, y);
    sim_trans(k, b, rb, a); sim_trans(k, a, ra, b);
    assert(ra != rb);
    let c1 = c.remove(ra);
    let j = joined(k, a, b);
    assert(c1.contains(rb));
    assert forall|x: int| #[trigger] w.contains(x) implies exists|y: int| c1.contains(y) && #[trigger] k_sim(j, x, y) by {
        let y = choose|y: int| c.contains(y) && #[trigger] k_sim(k, x, y);
        if y == ra {
            sim_trans(k, x, ra, a); sim_trans(k, a, ra, x); sim_trans(k, x, a, a); sim_trans(k, b, rb, b);
            assert(k_sim(k, x, a) && k_sim(k, b, rb));
            let _ = (k(x, a), k(a, x), k(b, rb), k(rb, b));
            assert(j(x, rb));
            assert(c1.contains(rb) && k_sim(j, x, rb));
        } else {
            let _ = (k(x, y), k(y, x));
            assert(x == y || j(x, y));
            assert(c1.contains(y) && k_sim(j, x, y));
        }
    }
    assert(c1.len() >= 1);
    c1
}
pub open spec fn fastc<P: IParams>() -> int { P::fast() as int + 1 }
/// how often it can still descend, with m representatives more than one
#[verifier::opaque]
pub open spec fn budget<P: IParams>(t: int, m: int) -> int
{ if t > 0 { t + m + m / (P::slow() as int) * fastc::<P>() } else { m + (m - t) / (P::slow() as int) * fastc::<P>() } }
proof fn budget_steps<P: IParams>(t: int, m: int, r: int)
    requires P::slow() >= 1, m >= 0, -(P::slow() as int) <= t,
    ensures
        budget::<P>(t, m) >= 0,
        t > 0 ==> budget::<P>(t - 1, m) <= budget::<P>(t, m) - 1,
        t == -(P::slow() as int) && 0 <= r <= P::fast() ==> budget::<P>(r, m) <= budget::<P>(t, m) - 1,
        t <= 0 && m >= 1 ==> budget::<P>(t - 1, m - 1) <= budget::<P>(t, m) - 1,
        t <= 0 ==> budget::<P>(0, m) <= budget::<P>(t, m),
{
    reveal(budget);
    let (sl, f) = (P::slow() as int, fastc::<P>());
    assert(m / sl >= 0) by (nonlinear_arith) requires m >= 0, sl >= 1;
    assert(m / sl * f >= 0) by (nonlinear_arith) requires m / sl >= 0, f >= 1;
    if t <= 0 {
        assert((m - t) / sl >= m / sl) by (nonlinear_arith) requires m - t >= m, sl >= 1;
        assert((m - t) / sl * f >= m / sl * f) by (nonlinear_arith) requires (m - t) / sl >= m / sl, f >= 1;
    }
    if t == -sl {
        assert((m + sl) / sl == m / sl + 1) by (nonlinear_arith) requires m >= 0, sl >= 1;
        assert((m / sl + 1) * f == m / sl * f + f) by (nonlinear_arith);
    }
}
/// the number of pairs whose edges are descended into
pub open spec fn descents<N: Node, E: Possible, D: DescendMode<N, E>>(dfs: bool, q: Q, s: D::St, fuel: nat) -> nat
    decreases fuel
{
    if q.len() == 0 || fuel == 0 { 0 }
    else { match q[0] {
        Item::Stop(_) => 0,
        Item::Pair(a, b) => match visit::<N, E, D>(s, a, b) {
            Visit::More(ks, s1) => descents::<N, E, D>(dfs, ins(dfs, q.drop_first(), ks), s1, (fuel - 1) as nat) + if ks.len() > 0 { 1nat } else { 0 },
            _ => 0,
        },
    } }
}
pub open spec fn ids<N: Node>(u: Set<int>) -> Set<int> { u.map(|a: int| N::g_id(a)) }
proof fn kids_within<N: Node>(u: Set<int>, ka: Seq<int>, kb: Seq<int>, i: nat)
    requires forall|j: int| 0 <= j < ka.len() ==> u.contains(#[trigger] ka[j]), forall|j: int| 0 <= j < kb.len() ==> u.contains(#[trigger] kb[j]),
    ensures within(u, items(ka, kb, i)),
    decreases ka.len() - i
{
    if i < ka.len() && i < kb.len() {
        kids_within::<N>(u, ka, kb, i + 1);
        let (q, q2) = (items(ka, kb, i), items(ka, kb, i + 1));
        assert forall|m: int| 0 <= m < q.len() implies match #[trigger] q[m] { Item::Pair(a, b) => u.contains(a) && u.contains(b), Item::Stop(_) => true } by { if m > 0 { assert(q[m] == q2[m - 1]); } }
    }
}
proof fn within_add(u: Set<int>, x: Q, y: Q)
    requires within(u, x), within(u, y), ensures within(u, x + y),
{ assert forall|m: int| 0 <= m < (x + y).len() implies match #[trigger] (x + y)[m] { Item::Pair(a, b) => u.contains(a) && u.contains(b), Item::Stop(_) => true } by { if m < x.len() { assert((x + y)[m] == x[m]); } else { assert((x + y)[m] == y[m - x.len()]); } } }
pub proof fn interleave_ends<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, q: Q, s: IS<<P::RNG as Random>::G>, u: Set<int>, c: Set<int>) -> (f: nat)
    requires closed_under::<N>(u), within(u, q), P::slow() >= 1,
        k_eq(s.k), covered(s.k, ids::<N>(u), c), c.len() >= 1, -(P::slow() as int) <= s.t,
    ensures ends_in::<N, E, Interleave<P>>(dfs, q, s, f),
        forall|g: nat| #[trigger] descents::<N, E, Interleave<P>>(dfs, q, s, g) <= budget::<P>(s.t, c.len() - 1),
    decreases budget::<P>(s.t, c.len() - 1), q.len()
{
    let m = c.len() - 1;
    P::accepted();
    P::RNG::in_range(s.g, P::fast() as int + 1);
    budget_steps::<P>(s.t, m, P::RNG::out(s.g, P::fast() as int + 1));
    if q.len() == 0 { 0 }
    else { match q[0] {
        Item::Stop(_) => { 0 }
        Item::Pair(a, b) => {
            let t = q.drop_first();
            assert(within(u, t)) by { assert forall|i: int| 0 <= i < t.len() implies match #[trigger] t[i] { Item::Pair(a, b) => u.contains(a) && u.contains(b), Item::Stop(_) => true } by { let _ = q[i + 1]; } }
            kids_within::<N>(u, N::g_kids(a), N::g_kids(b), 0);
            match visit::<N, E, Interleave<P>>(s, a, b) {
                Visit::More(ks, s1) => {
                    let q1 = ins(dfs, t, ks);
                    within_add(u, ks, t); within_add(u, t, ks);
                    let (x, y) = (N::g_id(a), N::g_id(b));
                    assert(ids::<N>(u).contains(x) && ids::<N>(u).contains(y));
                    let joins = ks.len() > 0 && s.t <= 0 && s.t != -(P::slow() as int);
                    let c1 = if joins { joined_eq(s.k, x, y); cover_joined(s.k, ids::<N>(u), c, x, y) } else { c };
                    assert(budget::<P>(s1.t, c1.len() - 1) + (if ks.len() > 0 { 1int } else { 0 }) <= budget::<P>(s.t, m));
                    budget_steps::<P>(s1.t, c1.len() - 1, 0);
                    let f1 = interleave_ends::<N, E, P>(dfs, q1, s1, u, c1);
                    assert forall|g: nat| #[trigger] descents::<N, E, Interleave<P>>(dfs, q, s, g) <= budget::<P>(s.t, c.len() - 1) by {
                        if g > 0 { assert(descents::<N, E, Interleave<P>>(dfs, q1, s1, (g - 1) as nat) <= budget::<P>(s1.t, c1.len() - 1)); }
                    }
                    f1 + 1
                }
                _ => 1
            }
        }
    } }
}
/// the comparison of two roots within a finite graph of n identities descends at most n * (1 + (fast + 1) / slow) times
pub proof fn interleave_linear<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, a: int, b: int, s: IS<<P::RNG as Random>::G>, u: Set<int>) -> (f: nat)
    requires closed_under::<N>(u), u.contains(a), u.contains(b), P::slow() >= 1, s.k == k_none(), s.t == 0,
    ensures ends_in::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, f),
        forall|g: nat| P::slow() * #[trigger] descents::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, g) <= ids::<N>(u).len() * (P::slow() + P::fast() + 1),
{
    broadcast use cons_facts;
    let w = ids::<N>(u);
    assert(ids::<N>(u).contains(N::g_id(a)));
    assert(covered(s.k, w, w)) by { assert forall|x: int| #[trigger] w.contains(x) implies exists|y: int| w.contains(y) && #[trigger] k_sim(s.k, x, y) by { assert(k_sim(s.k, x, x)); } }
    assert(w.contains(N::g_id(a)));
    assert(w.len() >= 1);
    let q = cons(a, b, Seq::empty());
    assert(within(u, q));
    let f = interleave_ends::<N, E, P>(dfs, q, s, u, w);
    let (sl, fa, n) = (P::slow() as int, P::fast() as int, w.len() as int);
    assert forall|g: nat| sl * #[trigger] descents::<N, E, Interleave<P>>(dfs, q, s, g) <= n * (sl + fa + 1) by {
        let d = descents::<N, E, Interleave<P>>(dfs, q, s, g) as int;
        reveal(budget);
        let m = n - 1;
        assert(d <= m + m / sl * (fa + 1));
        let x = m / sl;
        assert(sl * x <= m) by (nonlinear_arith) requires x == m / sl, sl >= 1, m >= 0;
        assert(sl * d <= sl * m + sl * (x * (fa + 1))) by (nonlinear_arith) requires d <= m + x * (fa + 1), sl >= 1;
        assert(sl * (x * (fa + 1)) <= m * (fa + 1)) by (nonlinear_arith) requires sl * x <= m, fa >= 0;
        assert(sl * m + m * (fa + 1) <= n * (sl + fa + 1)) by (nonlinear_arith) requires m == n - 1, sl >= 1, fa >= 0, m >= 0;
    }
    f
}
