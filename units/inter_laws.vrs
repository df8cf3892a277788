// What the traversal under the interleave mode means, and why it ends.
/// nodes of the same identity or of equivalent values
pub open spec fn veq<N: Node>(a: int, b: int) -> bool { N::g_id(a) == N::g_id(b) || N::g_cmp(a, b).eqv() }
/// equivalence of values is an equivalence, consistent with identity
pub open spec fn law_val<N: Node>() -> bool {
    (forall|a: int, b: int| #[trigger] veq::<N>(a, b) ==> veq::<N>(b, a))
        && (forall|a: int, b: int, c: int| #[trigger] veq::<N>(a, b) && #[trigger] veq::<N>(b, c) ==> veq::<N>(a, c))
}
pub type T2 = spec_fn(int, int) -> bool;
pub open spec fn equivalence(t: T2) -> bool {
    (forall|a: int| #[trigger] t(a, a)) && (forall|a: int, b: int| #[trigger] t(a, b) ==> t(b, a)) && (forall|a: int, b: int, c: int| #[trigger] t(a, b) && #[trigger] t(b, c) ==> t(a, c))
}
/// t is an equivalence with the pairs x, those of the same identity and those k relates
pub open spec fn closes<N: Node>(t: T2, x: Set<(int, int)>, k: K) -> bool {
    equivalence(t)
        && (forall|a: int, b: int| #![trigger t(a, b)] x.contains((a, b)) || N::g_id(a) == N::g_id(b) || k(N::g_id(a), N::g_id(b)) ==> t(a, b))
}
/// the least such
pub open spec fn least_eq<N: Node>(x: Set<(int, int)>, k: K, a: int, b: int) -> bool { forall|t: T2| #[trigger] closes::<N>(t, x, k) ==> t(a, b) }
pub open spec fn in_least<N: Node>(x: Set<(int, int)>, k: K, i: Item) -> bool { match i { Item::Pair(a, b) => least_eq::<N>(x, k, a, b), Item::Stop(_) => false } }
pub open spec fn all_least<N: Node>(x: Set<(int, int)>, k: K, q: Q) -> bool { forall|i: int| 0 <= i < q.len() ==> in_least::<N>(x, k, #[trigger] q[i]) }
/// matches itself, with all edges' pairs in t
pub open spec fn holds<N: Node>(t: T2, a: int, b: int) -> bool {
    veq::<N>(a, b) && N::g_kids(a).len() == N::g_kids(b).len() && forall|i: int| 0 <= i < N::g_kids(a).len() ==> t(#[trigger] N::g_kids(a)[i], N::g_kids(b)[i])
}
pub open spec fn all_hold<N: Node>(x: Set<(int, int)>, k: K) -> bool { forall|a: int, b: int| #[trigger] x.contains((a, b)) ==> holds::<N>(|p: int, r: int| least_eq::<N>(x, k, p, r), a, b) }

proof fn closes_joined<N: Node>(t: T2, x1: Set<(int, int)>, x: Set<(int, int)>, k: K, a: int, b: int)
    requires closes::<N>(t, x, k), x1.subset_of(x), x.contains((a, b)),
    ensures closes::<N>(t, x1, joined(k, N::g_id(a), N::g_id(b))),
{
    let j = joined(k, N::g_id(a), N::g_id(b));
    assert forall|p: int, r: int| #![trigger t(p, r)] x1.contains((p, r)) || N::g_id(p) == N::g_id(r) || j(N::g_id(p), N::g_id(r)) implies t(p, r) by {
        assert(t(a, b)); assert(t(b, a));
        assert(k_sim(k, N::g_id(p), N::g_id(a)) ==> t(p, a)); assert(k_sim(k, N::g_id(b), N::g_id(r)) ==> t(b, r));
        assert(k_sim(k, N::g_id(p), N::g_id(b)) ==> t(p, b)); assert(k_sim(k, N::g_id(a), N::g_id(r)) ==> t(a, r));
        assert(k_sim(k, N::g_id(p), N::g_id(r)) ==> t(p, r));
    }
}
/// what is in the least relation of less is in that of more
proof fn least_more<N: Node>(x1: Set<(int, int)>, k1: K, x: Set<(int, int)>, k: K)
    requires forall|t: T2| #[trigger] closes::<N>(t, x, k) ==> closes::<N>(t, x1, k1),
    ensures forall|a: int, b: int| #[trigger] least_eq::<N>(x1, k1, a, b) ==> least_eq::<N>(x, k, a, b),
{}
proof fn hold_more<N: Node>(x1: Set<(int, int)>, k1: K, x: Set<(int, int)>, k: K)
    requires all_hold::<N>(x1, k1), forall|a: int, b: int| #[trigger] least_eq::<N>(x1, k1, a, b) ==> least_eq::<N>(x, k, a, b),
    ensures forall|a: int, b: int| #[trigger] x1.contains((a, b)) ==> holds::<N>(|p: int, r: int| least_eq::<N>(x, k, p, r), a, b),
{
    let (c1, c) = (|p: int, r: int| least_eq::<N>(x1, k1, p, r), |p: int, r: int| least_eq::<N>(x, k, p, r));
    assert forall|a: int, b: int| #[trigger] x1.contains((a, b)) implies holds::<N>(c, a, b) by {
        assert(holds::<N>(c1, a, b));
        assert forall|i: int| 0 <= i < N::g_kids(a).len() implies c(#[trigger] N::g_kids(a)[i], N::g_kids(b)[i]) by { assert(c1(N::g_kids(a)[i], N::g_kids(b)[i])); }
    }
}
proof fn all_least_items<N: Node>(x: Set<(int, int)>, k: K, ka: Seq<int>, kb: Seq<int>, i: nat)
    requires i <= ka.len(), i <= kb.len(), all_least::<N>(x, k, items(ka, kb, i)),
    ensures ka.len() == kb.len(), forall|j: int| i <= j < ka.len() && j < kb.len() ==> least_eq::<N>(x, k, #[trigger] ka[j], kb[j]),
    decreases ka.len() - i
{
    let q = items(ka, kb, i);
    if i < ka.len() && i < kb.len() {
        let q2 = items(ka, kb, i + 1);
        assert(in_least::<N>(x, k, q[0]));
        assert forall|m: int| 0 <= m < q2.len() implies in_least::<N>(x, k, #[trigger] q2[m]) by { assert(in_least::<N>(x, k, q[m + 1])); assert(q[m + 1] == q2[m]); }
        all_least_items::<N>(x, k, ka, kb, i + 1);
    } else if i < ka.len() || i < kb.len() { assert(in_least::<N>(x, k, q[0])); }
}
proof fn all_least_split<N: Node>(x: Set<(int, int)>, k: K, p: Q, r: Q)
    requires all_least::<N>(x, k, p + r),
    ensures all_least::<N>(x, k, p), all_least::<N>(x, k, r),
{
    assert forall|i: int| 0 <= i < p.len() implies in_least::<N>(x, k, #[trigger] p[i]) by { assert(in_least::<N>(x, k, (p + r)[i])); }
    assert forall|i: int| 0 <= i < r.len() implies in_least::<N>(x, k, #[trigger] r[i]) by { assert(in_least::<N>(x, k, (p + r)[i + p.len()])); }
}
/// the pairs whose values were found equivalent from here on, if no difference is found: they and what is recorded make everything pending equivalent
proof fn found_pairs<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, q: Q, s: IS<<P::RNG as Random>::G>, l: nat) -> (x: Set<(int, int)>)
    requires run::<N, E, Interleave<P>>(dfs, q, s, l) is Equal,
    ensures all_least::<N>(x, s.k, q), all_hold::<N>(x, s.k),
    decreases l
{
    if q.len() == 0 { Set::empty() }
    else { match q[0] {
        Item::Stop(_) => { Set::empty() }
        Item::Pair(a, b) => {
            let t = q.drop_first();
            match visit::<N, E, Interleave<P>>(s, a, b) {
                Visit::More(ks, s1) => {
                    let q1 = ins(dfs, t, ks);
                    let x1 = found_pairs::<N, E, P>(dfs, q1, s1, (l - 1) as nat);
                    let inspected = N::g_id(a) != N::g_id(b) && !(i_desc::<P, Infallible>(s, N::g_id(a), N::g_id(b)) is Skip && kid_items::<N>(a, b).len() > 0);
                    let x = if inspected { x1.insert((a, b)) } else { x1 };
                    if dfs { all_least_split::<N>(x1, s1.k, ks, t); } else { all_least_split::<N>(x1, s1.k, t, ks); }
                    assert forall|t: T2| #[trigger] closes::<N>(t, x, s.k) implies closes::<N>(t, x1, s1.k) by {
                        if inspected { closes_joined::<N>(t, x1, x, s.k, a, b); }
                        assert(s1.k == s.k || (inspected && s1.k == joined(s.k, N::g_id(a), N::g_id(b))));
                        if s1.k == s.k { assert forall|p: int, r: int| #![trigger t(p, r)] x1.contains((p, r)) implies t(p, r) by { assert(x.contains((p, r))); } }
                    }
                    least_more::<N>(x1, s1.k, x, s.k);
                    hold_more::<N>(x1, s1.k, x, s.k);
                    let c = |p: int, r: int| least_eq::<N>(x, s.k, p, r);
                    assert(least_eq::<N>(x, s.k, a, b));
                    if inspected {
                        assert(ks == kid_items::<N>(a, b));
                        all_least_items::<N>(x1, s1.k, N::g_kids(a), N::g_kids(b), 0);
                        assert(veq::<N>(a, b));
                        assert(holds::<N>(c, a, b));
                    }
                    assert forall|i: int| 0 <= i < q.len() implies in_least::<N>(x, s.k, #[trigger] q[i]) by {
                        if i > 0 { assert(in_least::<N>(x1, s1.k, t[i - 1])); }
                    }
                    assert forall|p: int, r: int| #[trigger] x.contains((p, r)) implies holds::<N>(c, p, r) by {
                        if (p, r) != (a, b) || !inspected { assert(x1.contains((p, r))); }
                    }
                    x
                }
                _ => Set::empty()
            }
        }
    } }
}
/// if all found pairs' edges are related by the least relation, then so are those of all pairs of it, and thus all counterparts below match
proof fn least_same<N: Node>(x: Set<(int, int)>, a: int, b: int)
    requires law_id::<N>(), law_val::<N>(), all_hold::<N>(x, k_none()), least_eq::<N>(x, k_none(), a, b),
    ensures same::<N>(a, b)
{
    let c = |p: int, r: int| least_eq::<N>(x, k_none(), p, r);
    let h = |p: int, r: int| holds::<N>(c, p, r);
    assert(equivalence(c));
    assert(closes::<N>(h, x, k_none())) by {
        assert forall|p: int| #[trigger] h(p, p) by { assert(veq::<N>(p, p)); assert forall|i: int| 0 <= i < N::g_kids(p).len() implies c(#[trigger] N::g_kids(p)[i], N::g_kids(p)[i]) by {} }
        assert forall|p: int, r: int| #[trigger] h(p, r) implies h(r, p) by {
            assert(veq::<N>(p, r));
            assert forall|i: int| 0 <= i < N::g_kids(r).len() implies c(#[trigger] N::g_kids(r)[i], N::g_kids(p)[i]) by { assert(c(N::g_kids(p)[i], N::g_kids(r)[i])); }
        }
        assert forall|p: int, r: int, m: int| #[trigger] h(p, r) && #[trigger] h(r, m) implies h(p, m) by {
            assert(veq::<N>(p, r) && veq::<N>(r, m));
            assert forall|i: int| 0 <= i < N::g_kids(p).len() implies c(#[trigger] N::g_kids(p)[i], N::g_kids(m)[i]) by { assert(c(N::g_kids(p)[i], N::g_kids(r)[i])); assert(c(N::g_kids(r)[i], N::g_kids(m)[i])); }
        }
        assert forall|p: int, r: int| #![trigger h(p, r)] x.contains((p, r)) || N::g_id(p) == N::g_id(r) || k_none()(N::g_id(p), N::g_id(r)) implies h(p, r) by {
            if !x.contains((p, r)) {
                assert(N::g_id(p) == N::g_id(r));
                assert forall|i: int| 0 <= i < N::g_kids(p).len() implies c(#[trigger] N::g_kids(p)[i], N::g_kids(r)[i]) by { assert(N::g_id(N::g_kids(p)[i]) == N::g_id(N::g_kids(r)[i])); }
            }
        }
    }
    assert forall|path: Seq<nat>| (#[trigger] walk::<N>(a, b, path)) is Some implies good::<N>(walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1) by {
        least_walk::<N>(x, a, b, path);
        let (y, z) = walk::<N>(a, b, path)->Some_0;
        assert(h(y, z));
    }
}
proof fn least_walk<N: Node>(x: Set<(int, int)>, a: int, b: int, path: Seq<nat>)
    requires least_eq::<N>(x, k_none(), a, b), walk::<N>(a, b, path) is Some,
        forall|p: int, r: int| #[trigger] least_eq::<N>(x, k_none(), p, r) ==> holds::<N>(|p: int, r: int| least_eq::<N>(x, k_none(), p, r), p, r),
    ensures least_eq::<N>(x, k_none(), walk::<N>(a, b, path)->Some_0.0, walk::<N>(a, b, path)->Some_0.1),
    decreases path.len()
{
    let c = |p: int, r: int| least_eq::<N>(x, k_none(), p, r);
    if path.len() > 0 {
        assert(holds::<N>(c, a, b));
        let i = path[0] as int;
        assert(c(N::g_kids(a)[i], N::g_kids(b)[i]));
        least_walk::<N>(x, N::g_kids(a)[i], N::g_kids(b)[i], path.drop_first());
    }
}
/// no difference found means that all counterparts match, whatever the limits and random numbers
pub proof fn interleave_exact<N: Node, E: Possible, P: IParams<Node = N>>(dfs: bool, a: int, b: int, s: IS<<P::RNG as Random>::G>, l: nat)
    requires law_cmp::<N>(), law_id::<N>(), law_val::<N>(), s.k == k_none(),
    ensures run::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, l) is Equal ==> same::<N>(a, b),
        run::<N, E, Interleave<P>>(dfs, cons(a, b, Seq::empty()), s, l) is Diff ==> !same::<N>(a, b),
{
    broadcast use cons_facts;
    let q = cons(a, b, Seq::empty());
    one_fine::<N>(a, b);
    run_matches::<N, E, Interleave<P>>(dfs, q, s, l);
    if run::<N, E, Interleave<P>>(dfs, q, s, l) is Equal {
        let x = found_pairs::<N, E, P>(dfs, q, s, l);
        assert(in_least::<N>(x, s.k, q[0]));
        least_same::<N>(x, a, b);
    }
}
