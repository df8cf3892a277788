//! Test graphs, what is observed of them, and the reference traversals.
use graph_safe_compare::{Cmp, Node, Step};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::{HashSet, VecDeque};
use std::marker::PhantomData;
use std::rc::Rc;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn chance(&mut self, pct: u64) -> bool { self.next() % 100 < pct }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ev { Id(usize), Cmp(usize, usize, bool), Edge(u8, usize, usize), Mark(u32) }

#[derive(Default)]
pub struct G {
    pub ids: Vec<usize>,
    pub labels: Vec<i64>,
    pub kids: Vec<Vec<usize>>,
    pub log: RefCell<Vec<Ev>>,
    pub logging: Cell<bool>,
    pub fuel: Cell<u64>,
    pub live: Cell<i64>,
    /// number of live node values at each visit (as seen by `id` calls)
    pub lives: RefCell<Vec<i64>>,
}
impl G {
    pub fn show(&self) -> String {
        let mut s = String::new();
        for n in 0..self.kids.len() {
            s += &format!("{}:id{} val{} {:?}; ", n, self.ids[n], self.labels[n], self.kids[n]);
        }
        s
    }
    fn ev(&self, e: Ev) {
        let f = self.fuel.get();
        if f == 0 { std::panic::panic_any(OutOfFuel) }
        self.fuel.set(f - 1);
        if self.logging.get() { self.log.borrow_mut().push(e) }
    }
    pub fn mark(&self, m: u32) { if self.logging.get() { self.log.borrow_mut().push(Ev::Mark(m)) } }
    pub fn reset(&self, fuel: u64, logging: bool) {
        self.fuel.set(fuel); self.logging.set(logging); self.log.borrow_mut().clear(); self.lives.borrow_mut().clear();
    }
}
pub struct OutOfFuel;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Res { Equiv, Val(usize, usize), Amount(Ordering) }
pub trait MkCmp: Cmp + Sized + PartialEq + std::fmt::Debug + 'static {
    fn make(g: &G, a: usize, b: usize) -> Self;
    fn of(g: &G, r: Res) -> Self {
        match r { Res::Equiv => Self::new_equiv(), Res::Val(a, b) => Self::make(g, a, b), Res::Amount(o) => Self::amount(o) }
    }
    /// what the reference takes an edge-amount result to be
    fn amount(o: Ordering) -> Self;
}
impl MkCmp for bool {
    fn make(g: &G, a: usize, b: usize) -> bool { g.labels[a] == g.labels[b] }
    fn amount(_: Ordering) -> bool { false }
}
impl MkCmp for Ordering {
    fn make(g: &G, a: usize, b: usize) -> Ordering { g.labels[a].cmp(&g.labels[b]) }
    fn amount(o: Ordering) -> Ordering { o }
}
/// tells exactly which difference it is
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Tag { Equiv, Val(usize, usize), Amount(Ordering) }
impl Cmp for Tag {
    fn new_equiv() -> Self { Tag::Equiv }
    fn is_equiv(&self) -> bool { *self == Tag::Equiv }
    fn from_ord(o: Ordering) -> Self { if o == Ordering::Equal { Tag::Equiv } else { Tag::Amount(o) } }
}
impl MkCmp for Tag {
    fn make(g: &G, a: usize, b: usize) -> Tag { if g.labels[a] == g.labels[b] { Tag::Equiv } else { Tag::Val(a, b) } }
    fn amount(o: Ordering) -> Tag { Tag::Amount(o) }
}

/// index types
pub trait Ix: Step + Default + Ord + 'static { fn at(&self) -> usize; fn top() -> Option<usize>; }
impl Ix for u32 { fn at(&self) -> usize { *self as usize } fn top() -> Option<usize> { None } }
impl Ix for u8 { fn at(&self) -> usize { *self as usize } fn top() -> Option<usize> { Some(255) } }
impl Ix for i8 { fn at(&self) -> usize { if *self < 0 { 999_999 } else { *self as usize } } fn top() -> Option<usize> { Some(127) } }
/// an index type with only four values
#[derive(Default, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Ix4(pub u8);
impl Step for Ix4 { fn increment(&self) -> Option<Self> { if self.0 >= 3 { None } else { Some(Ix4(self.0 + 1)) } } }
impl Ix for Ix4 { fn at(&self) -> usize { self.0 as usize } fn top() -> Option<usize> { Some(3) } }

pub struct Nd<C, I = u32> { pub g: Rc<G>, pub n: usize, pub side: u8, p: PhantomData<fn() -> (C, I)> }
impl<C, I> Nd<C, I> {
    pub fn new(g: &Rc<G>, n: usize, side: u8) -> Self { g.live.set(g.live.get() + 1); Nd { g: g.clone(), n, side, p: PhantomData } }
}
impl<C, I> Clone for Nd<C, I> { fn clone(&self) -> Self { Self::new(&self.g, self.n, self.side) } }
impl<C, I> Drop for Nd<C, I> { fn drop(&mut self) { self.g.live.set(self.g.live.get() - 1) } }
impl<C: MkCmp, I: Ix> Node for Nd<C, I> {
    type Cmp = C;
    type Id = usize;
    type Index = I;
    fn id(&self) -> usize { self.g.ev(Ev::Id(self.n)); if self.side == 0 { self.g.lives.borrow_mut().push(self.g.live.get()) } self.g.ids[self.n] }
    fn get_edge(&self, i: &I) -> Option<Self> {
        self.g.ev(Ev::Edge(self.side, self.n, i.at()));
        self.g.kids[self.n].get(i.at()).map(|k| Self::new(&self.g, *k, self.side))
    }
    fn equiv_modulo_edges(&self, o: &Self) -> C { let c = C::make(&self.g, self.n, o.n); self.g.ev(Ev::Cmp(self.n, o.n, c.is_equiv())); c }
}

// ---------------- generation ----------------
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Shape { Dag, Any }
/// A graph made as a cover of a small pattern (so that equivalent, differently shared parts are common), mutated now and then.
pub fn gen(r: &mut Rng, shape: Shape, size: usize, merge_ids: bool) -> (Rc<G>, usize, usize) {
    let qn = 1 + r.below(4.min(size));
    let maxdeg = [1, 2, 2, 3, 5][r.below(5)];
    let labs = 1 + r.below(3) as i64;
    let mut qk: Vec<Vec<usize>> = vec![];
    let ql: Vec<i64> = (0..qn).map(|_| (r.next() % labs as u64) as i64).collect();
    for i in 0..qn {
        let d = r.below(maxdeg + 1);
        let mut ks = vec![];
        for _ in 0..d {
            match shape { Shape::Any => ks.push(r.below(qn)), Shape::Dag => if i + 1 < qn { ks.push(i + 1 + r.below(qn - i - 1)) } }
        }
        qk.push(ks);
    }
    let m = qn + r.below(size.max(qn) - qn + 1);
    let of: Vec<usize> = (0..m).map(|i| if i < qn { i } else { r.below(qn) }).collect();
    let mut g = G::default();
    for i in 0..m {
        g.ids.push(i);
        g.labels.push(ql[of[i]]);
        let ks = qk[of[i]].iter().map(|q| { let c: Vec<usize> = (0..m).filter(|j| of[*j] == *q).collect(); c[r.below(c.len())] }).collect();
        g.kids.push(ks);
    }
    if r.chance(60) {
        for _ in 0..1 + r.below(2) {
            let n = r.below(m);
            // layer order keeps acyclic graphs acyclic
            let later: Vec<usize> = (0..m).filter(|j| shape == Shape::Any || of[*j] > of[n]).collect();
            match r.below(5) {
                0 => g.labels[n] = (r.next() % 3) as i64,
                1 => if !g.kids[n].is_empty() { let i = r.below(g.kids[n].len()); g.kids[n].remove(i); },
                2 => if !later.is_empty() { let i = r.below(g.kids[n].len() + 1); g.kids[n].insert(i, later[r.below(later.len())]) },
                3 => if !later.is_empty() && !g.kids[n].is_empty() { let i = r.below(g.kids[n].len()); g.kids[n][i] = later[r.below(later.len())] },
                _ => g.kids[n].clear(),
            }
        }
    }
    if merge_ids && r.chance(25) { let (x, y) = (r.below(m), r.below(m)); g.ids[x] = g.ids[y]; }
    let same: Vec<usize> = (0..m).filter(|j| of[*j] == of[0]).collect();
    let (a, b) = if r.chance(85) { (same[r.below(same.len())], same[r.below(same.len())]) } else { (r.below(m), r.below(m)) };
    (Rc::new(g), a, b)
}
/// two nodes with many edges into a large cover of a small cyclic pattern, different in at most one place: classes grow large
pub fn hub(r: &mut Rng) -> (Rc<G>, usize, usize) {
    let qn = 1 + r.below(3);
    let qk: Vec<Vec<usize>> = (0..qn).map(|_| (0..r.below(3)).map(|_| r.below(qn)).collect()).collect();
    let m = qn + 2 + r.below(20);
    let mut g = G::default();
    let of = |i: usize| (i - 2) % qn;
    let pick = |r: &mut Rng, q: usize| { let c: Vec<usize> = (2..m).filter(|j| of(*j) == q).collect(); c[r.below(c.len())] };
    let hubs: Vec<usize> = (0..2 + r.below(14)).map(|_| r.below(qn)).collect();
    for i in 0..m {
        g.ids.push(i);
        let ks = if i < 2 { hubs.iter().map(|q| pick(r, *q)).collect() } else { qk[of(i)].iter().map(|q| pick(r, *q)).collect() };
        g.labels.push(if i < 2 { 5 } else { of(i) as i64 % 2 });
        g.kids.push(ks);
    }
    if r.chance(80) {
        let n = 2 + r.below(m - 2);
        let x = r.below(m);
        match r.below(4) { 0 => g.kids[n].push(x), 1 => { let _ = g.kids[n].pop(); } 2 => if let Some(k) = g.kids[n].first_mut() { *k = x }, _ => g.labels[n] = 7 }
    }
    (Rc::new(g), 0, 1)
}
/// two long spines with small subtrees beside them, different in up to three places; with edges back to earlier places if `cyc`
pub fn comb(r: &mut Rng, cyc: bool, max: usize) -> (Rc<G>, usize, usize) {
    let n = 2 + r.below(max);
    let style = r.below(4);
    // kids of each spine node: -1 the next spine node, -2 a leaf, -3 a wide node, otherwise back to that spine node
    let plan: Vec<Vec<i64>> = (0..n).map(|i| {
        let mut k = vec![];
        if i + 1 < n { k.push(-1) }
        for _ in 0..match style { 0 => 1, 1 => r.below(2), 2 => if r.chance(5) { 12 } else { 0 }, _ => r.below(4) } {
            let x = if cyc && r.chance(20) { r.below(i + 1) as i64 } else if r.chance(10) { -3 } else { -2 };
            let at = if r.chance(70) { k.len() } else { r.below(k.len() + 1) };
            k.insert(at, x);
        }
        k
    }).collect();
    let mut g = G::default();
    let mut roots = [0, 0];
    for side in 0..2 {
        let base = g.kids.len();
        roots[side] = base;
        for _ in 0..n { g.ids.push(g.kids.len()); g.labels.push(0); g.kids.push(vec![]) }
        for i in 0..n {
            let ks = plan[i].iter().map(|x| match *x {
                -1 => base + i + 1,
                -2 | -3 => { let m = if *x == -3 { 1 + r.below(3) } else { 0 };
                    let first = g.kids.len();
                    for _ in 0..m + 1 { g.ids.push(g.kids.len()); g.labels.push(1); g.kids.push(vec![]) }
                    if side == 0 || r.chance(95) { g.kids[first] = (0..m).map(|k| first + 1 + k).collect() }
                    first }
                x => base + x as usize,
            }).collect();
            g.kids[base + i] = ks;
        }
    }
    for i in 0..n { if plan[i].contains(&-3) { // the same widths on both sides, mostly
        for p in 0..plan[i].len() { if plan[i][p] == -3 && r.chance(97) {
            let (x, y) = (g.kids[roots[0] + i][p], g.kids[roots[1] + i][p]);
            let w = g.kids[x].len();
            while g.kids[y].len() > w { let _ = g.kids[y].pop(); }
            while g.kids[y].len() < w { let z = g.kids.len(); g.ids.push(z); g.labels.push(1); g.kids.push(vec![]); g.kids[y].push(z) }
        } }
    } }
    for _ in 0..r.below(4) {
        let i = roots[1] + r.below(g.kids.len() - roots[1]);
        match r.below(4) { 0 | 1 => g.labels[i] = 5 + r.below(3) as i64, 2 => { let _ = g.kids[i].pop(); } _ => { let z = g.kids.len(); g.ids.push(z); g.labels.push(1); g.kids.push(vec![]); g.kids[i].push(z) } }
    }
    (Rc::new(g), roots[0], roots[1])
}
/// two copies of a large bushy tree (many edge sequences are pending at once), different in up to three places
pub fn bush(r: &mut Rng, max: usize) -> (Rc<G>, usize, usize) {
    let n = 2 + max / 4 + r.below(max);
    let (style, wide) = (r.below(4), 2 + r.below(max));
    let mut kids: Vec<Vec<usize>> = vec![vec![]];
    let mut at = 0;
    while kids.len() < n {
        if at >= kids.len() { at = kids.len() - 1 }
        // 0: few kids each, 1: wide at the root, then one or two each, 2: mixed, 3: a wide node now and then
        let d = match style { 0 => 1 + r.below(4), 1 => if at == 0 { wide } else { 1 + r.below(2) }, 2 => r.below(9), _ => if r.chance(3) { 40 } else { r.below(3) } };
        for _ in 0..d { if kids.len() < n { let x = kids.len(); kids[at].push(x); kids.push(vec![]) } }
        at += 1;
    }
    let mut g = G::default();
    for side in 0..2 { for k in &kids {
        g.ids.push(g.kids.len()); g.labels.push(0);
        g.kids.push(k.iter().map(|x| x + side * n).collect());
    } }
    for _ in 0..[0, 1, 2, 2, 3][r.below(5)] {
        // both early and late places
        let i = n + if r.chance(50) { r.below(n) } else { n - 1 - r.below(1 + n / 8) };
        match r.below(4) { 0 | 1 => g.labels[i] = 5 + r.below(3) as i64, 2 => { let _ = g.kids[i].pop(); } _ => { let z = g.kids.len(); g.ids.push(z); g.labels.push(1); g.kids.push(vec![]); g.kids[i].push(z) } }
    }
    (Rc::new(g), 0, n)
}
/// long and degenerate shapes
pub fn special(r: &mut Rng, kind: usize, n: usize) -> (Rc<G>, usize, usize) {
    let mut g = G::default();
    let mut put = |ks: Vec<usize>, l: i64| { g.ids.push(g.kids.len()); g.labels.push(l); g.kids.push(ks); g.kids.len() - 1 };
    let mut one = |put: &mut dyn FnMut(Vec<usize>, i64) -> usize, base: usize| -> usize {
        match kind {
            0 => { // list
                for i in 0..n { let _ = put(if i + 1 < n { vec![base + i + 1] } else { vec![] }, 0); } base }
            1 => { // list with leaf heads
                for i in 0..n { let _ = put(if i + 1 < n { vec![base + n, base + i + 1] } else { vec![] }, 0); } let _ = put(vec![], 1); base }
            2 => { // degenerate: both edges to the next
                for i in 0..n { let _ = put(if i + 1 < n { vec![base + i + 1, base + i + 1] } else { vec![] }, 0); } base }
            3 => { // degenerate cyclic: every edge to a random earlier or the next
                for i in 0..n { let x = base + r.below(n); let _ = put(vec![x, base + (i + 1) % n], 0); } base }
            4 => { // ring
                for i in 0..n { let _ = put(vec![base + (i + 1) % n], 0); } base }
            _ => { // wide
                let ks = (0..n).map(|i| base + 1 + i).collect(); let _ = put(ks, 0); for _ in 0..n { let _ = put(vec![], 1); } base }
        }
    };
    let a = one(&mut put, 0);
    let len = g_len(kind, n);
    let b = one(&mut put, len);
    (Rc::new(g), a, b)
}
fn g_len(kind: usize, n: usize) -> usize { match kind { 1 => n + 1, 0 | 2 | 3 | 4 => n, _ => n + 1 } }

// ---------------- reference ----------------
pub struct Run { pub res: Res, pub visits: u64, pub cmps: Vec<(usize, usize)>, pub pending: Vec<usize>, pub edges_left_at_visit: Vec<usize> }
fn kids<'a>(g: &'a G, n: usize, top: Option<usize>) -> &'a [usize] { let k = &g.kids[n]; match top { Some(t) if k.len() > t + 1 => &k[..t + 1], _ => k } }
/// the plain traversals; `None` when more than `max` visits are made
pub fn reference(g: &G, dfs: bool, a: usize, b: usize, top: Option<usize>, max: u64) -> Option<Run> {
    let mut q: VecDeque<(usize, usize, usize)> = VecDeque::new(); // (a, b, next index), nothing exhausted in it
    let mut cur = (a, b);
    let mut run = Run { res: Res::Equiv, visits: 0, cmps: vec![], pending: vec![], edges_left_at_visit: vec![] };
    let has = |x: &(usize, usize, usize)| { let (ka, kb) = (kids(g, x.0, top), kids(g, x.1, top)); x.2 < ka.len().max(kb.len()) };
    loop {
        if run.visits >= max { return None }
        run.visits += 1;
        run.pending.push(q.len());
        let (a, b) = cur;
        if g.ids[a] != g.ids[b] {
            run.cmps.push((a, b));
            if g.labels[a] != g.labels[b] { run.res = Res::Val(a, b); return Some(run) }
            let (ka, kb) = (kids(g, a, top), kids(g, b, top));
            match (ka.len(), kb.len()) {
                (0, 0) => (),
                (0, _) => { run.res = Res::Amount(Ordering::Less); return Some(run) }
                (_, 0) => { run.res = Res::Amount(Ordering::Greater); return Some(run) }
                _ => if dfs { q.push_front((a, b, 0)) } else { q.push_back((a, b, 0)) },
            }
        }
        let Some(x) = q.front_mut() else { return Some(run) };
        let (ka, kb) = (kids(g, x.0, top), kids(g, x.1, top));
        let i = x.2;
        if i >= ka.len() { run.res = Res::Amount(Ordering::Less); return Some(run) }
        if i >= kb.len() { run.res = Res::Amount(Ordering::Greater); return Some(run) }
        cur = (ka[i], kb[i]);
        x.2 += 1;
        let x = *x;
        if !has(&x) { let _ = q.pop_front(); }
    }
}
/// the traversal under a control that answers its k-th question with `ans[k % len]`: the result, the value comparisons and the questions about edges among the questions
pub fn controlled(g: &G, dfs: bool, a: usize, b: usize, ans: &[bool], max: usize) -> Option<(Res, Vec<(usize, usize)>, Vec<Option<(usize, usize)>>)> {
    let mut q: VecDeque<Result<(usize, usize), Ordering>> = VecDeque::from([Ok((a, b))]);
    let (mut cmps, mut asked) = (vec![], vec![]);
    while let Some(x) = q.pop_front() {
        let (a, b) = match x { Ok(p) => p, Err(o) => return Some((Res::Amount(o), cmps, asked)) };
        if asked.len() > max || q.len() > max { return None }
        asked.push(None);
        if !ans[(asked.len() - 1) % ans.len()] || g.ids[a] == g.ids[b] { continue }
        cmps.push((a, b));
        if g.labels[a] != g.labels[b] { return Some((Res::Val(a, b), cmps, asked)) }
        let (ka, kb) = (&g.kids[a], &g.kids[b]);
        match (ka.len(), kb.len()) {
            (0, 0) => continue,
            (0, _) => return Some((Res::Amount(Ordering::Less), cmps, asked)),
            (_, 0) => return Some((Res::Amount(Ordering::Greater), cmps, asked)),
            _ => (),
        }
        asked.push(Some((a, b)));
        if !ans[(asked.len() - 1) % ans.len()] { continue }
        let mut below: Vec<_> = ka.iter().zip(kb).map(|(x, y)| Ok((*x, *y))).collect();
        if ka.len() != kb.len() { below.push(Err(ka.len().cmp(&kb.len()))) }
        if dfs { for x in below.into_iter().rev() { q.push_front(x) } } else { q.extend(below) }
    }
    Some((Res::Equiv, cmps, asked))
}
/// all pairs reachable by a common path, and whether all match
pub fn pairs(g: &G, a: usize, b: usize) -> (HashSet<(usize, usize)>, bool) {
    let mut seen = HashSet::new();
    let mut todo = vec![(a, b)];
    let mut ok = true;
    while let Some((a, b)) = todo.pop() {
        if !seen.insert((a, b)) { continue }
        if g.ids[a] == g.ids[b] { continue }
        if g.labels[a] != g.labels[b] { ok = false }
        if g.kids[a].len() != g.kids[b].len() { ok = false }
        for (x, y) in g.kids[a].iter().zip(&g.kids[b]) { todo.push((*x, *y)) }
    }
    (seen, ok)
}
