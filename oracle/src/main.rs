//! oracle PROP SEED SECONDS CASEFILE [CASE]: runs the real crate on generated inputs and compares with a reference.
//! Exit 0: nothing found. Exit 1: a failing input was found and is printed. A crash of this process is judged by the caller.
mod config;
mod graph;
use config::*;
use graph::*;
use graph_safe_compare::basic::recursion::callstack::CallStack;
use graph_safe_compare::cycle_safe::modes::interleave::{self, random::NumberGenerator, Interleave};
use graph_safe_compare::generic::equiv::{DescendMode, Equiv};
use graph_safe_compare::generic::precheck_interleave;
use graph_safe_compare::utils::RefId;
use graph_safe_compare::{Cmp, Node, Step};
use std::cmp::Ordering;
use std::collections::{HashMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::{Seek, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering as AO};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static CURRENT: Mutex<String> = Mutex::new(String::new());
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

struct T { r: Rng, file: std::fs::File, nontrivial: u64, distinct: HashSet<u64>, samples: Vec<String>, start: Instant, secs: f64, evals: u64 }
type R = Result<(), String>;
impl T {
    /// says what is about to be run (kept for the case that it hangs or crashes)
    fn now(&mut self, s: String) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut h);
        let _ = self.distinct.insert(h.finish());
        self.evals += 1;
        if self.samples.len() < 3 { self.samples.push(s.chars().take(400).collect()) }
        let _ = self.file.rewind();
        let _ = self.file.set_len(0);
        let _ = self.file.write_all(s.as_bytes());
        *CURRENT.lock().unwrap() = s;
        let _ = PROGRESS.fetch_add(1, AO::Relaxed);
    }
    fn time_left(&self) -> bool { self.start.elapsed().as_secs_f64() < self.secs }
}
enum Run1<X> { Done(X), Panic(String), Fuel }
fn run<X>(f: impl FnOnce() -> X) -> Run1<X> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(x) => Run1::Done(x),
        Err(e) => if e.is::<OutOfFuel>() { Run1::Fuel } else { Run1::Panic(LAST_PANIC.lock().unwrap().clone()) },
    }
}
/// the value, or a failure because it panicked or never ended
macro_rules! ok { ($e:expr, $fuel:expr) => { match run(|| $e) { Run1::Done(x) => x, Run1::Panic(m) => return Err(format!("panicked: {m}")), Run1::Fuel => return Err(format!("did not end within {} node operations", $fuel)) } } }
/// the value; skips the case if it panicked or never ended (which is another property's matter)
macro_rules! skip { ($e:expr) => { match run(|| $e) { Run1::Done(x) => x, _ => continue } } }
fn nodes<C: MkCmp, I: Ix>(g: &Rc<G>, a: usize, b: usize) -> (Nd<C, I>, Nd<C, I>) { (Nd::new(g, a, 0), Nd::new(g, b, 1)) }
fn script(r: &mut Rng) -> String {
    let v: Vec<u16> = match r.below(4) { 0 => vec![0], 1 => vec![65534], 2 => (0..40).map(|_| r.next() as u16).collect(), _ => (0..40).map(|_| (r.next() % 4) as u16).collect() };
    let s = if v.len() == 1 { format!("random numbers: always {}", v[0]) } else { format!("random numbers: {v:?}") };
    SCRIPT.with(|x| *x.borrow_mut() = v); SCRIPT_AT.set(0); ASKED.with(|a| a.borrow_mut().clear());
    s
}
fn desc(g: &G, a: usize, b: usize) -> String { format!("nodes {}roots {a} {b}", g.show()) }
const FUEL: u64 = 3_000_000;

// ---------------------------------------------------------------- C01 / C02 / C06 / C20
fn verdict_ok(g: &G, a: usize, b: usize, got: Tag) -> R {
    let (seen, same) = pairs(g, a, b);
    match got {
        Tag::Equiv if same => Ok(()),
        Tag::Equiv => Err("said equivalent, but a reachable pair differs".into()),
        _ if same => Err(format!("said different ({got:?}), but all reachable pairs match")),
        Tag::Val(x, y) => if seen.contains(&(x, y)) && g.labels[x] != g.labels[y] { Ok(()) } else { Err(format!("result Val({x},{y}) is not of a pair reachable by a common path")) },
        Tag::Amount(o) => if seen.iter().any(|(x, y)| g.ids[*x] != g.ids[*y] && g.kids[*x].len().cmp(&g.kids[*y].len()) == o) { Ok(()) } else { Err(format!("result {o:?} is not that of any reachable pair with different edge amounts")) },
    }
}
/// tries to avoid trivial roots
fn some_graph(t: &mut T, cyc: bool) -> (Rc<G>, usize, usize) {
    let mut x = some_graph1(t, cyc);
    for _ in 0..6 { let (g, a, b) = &x; if g.ids[*a] != g.ids[*b] && g.labels[*a] == g.labels[*b] && !g.kids[*a].is_empty() && !g.kids[*b].is_empty() { break } x = some_graph1(t, cyc) }
    x
}
fn fuel(t: &mut T) -> u64 { if t.r.chance(3) { FUEL } else { 20_000 } }
fn some_graph1(t: &mut T, cyc: bool) -> (Rc<G>, usize, usize) {
    match t.r.below(if cyc { 12 } else { 24 }) {
        0 => { let n = 1 + t.r.below(6); let k = t.r.below(if cyc { 5 } else { 3 }); special(&mut t.r, k, n) }
        1 if cyc => { let n = 2 + t.r.below(30); let k = [2, 3, 4][t.r.below(3)]; special(&mut t.r, k, n) }
        2 | 3 if cyc => hub(&mut t.r),
        5 if t.r.chance(15) => { let n = [30, 150, 1200, 4000][t.r.below(4)]; bush(&mut t.r, n) }
        4 if t.r.chance(30) => { let n = [20, 90, 400][t.r.below(3)]; comb(&mut t.r, cyc, n) }
        x => { let size = if x < 6 { 4 } else if x < 10 { 6 } else { 9 }; gen(&mut t.r, if cyc { Shape::Any } else { Shape::Dag }, size, false) }
    }
}
fn uses(g: &G) -> u64 { g.kids.len() as u64 }
fn c01(t: &mut T) -> R {
    let all = interleaves::<Tag>(); let pre = prechecks::<Tag>(); let made = premade::<Tag>();
    while t.time_left() {
        let cyc = t.r.chance(85);
        let (g, a, b) = some_graph(t, cyc);
        let d = desc(&g, a, b);
        if g.ids[a] != g.ids[b] { t.nontrivial += 1 }
        let x = t.r.below(all.len() + pre.len() + 3);
        let s = script(&mut t.r);
        let fs: Vec<(String, Box<dyn Fn() -> Tag>)> = if x < all.len() { all[x].2.iter().map(|(n, f)| { let g = g.clone(); (n.clone(), Box::new(move || { let (x, y) = nodes(&g, a, b); f(x, y) }) as Box<dyn Fn() -> Tag>) }).collect() }
            else if x < all.len() + pre.len() { pre[x - all.len()].3.iter().map(|(n, f)| { let g = g.clone(); (n.clone(), Box::new(move || { let (x, y) = nodes(&g, a, b); f(x, y) }) as _) }).collect() }
            else { made.iter().filter(|m| m.1.is_none()).map(|(n, _, f)| { let g = g.clone(); (n.to_string(), Box::new(move || { let (x, y) = nodes(&g, a, b); f(x, y) }) as _) }).collect() };
        for (n, f) in fs {
            t.now(format!("{n}; {s}; {d}"));
            SCRIPT_AT.set(0);
            let fu = fuel(t); g.reset(fu, false);
            let r = skip!(f());
            verdict_ok(&g, a, b, r)?;
        }
    }
    Ok(())
}
fn c02(t: &mut T) -> R {
    let all = interleaves::<Tag>(); let pre = prechecks::<Tag>(); let made = premade::<Tag>();
    while t.time_left() {
        let (g, a, b) = if t.r.chance(30) { let n = 2 + t.r.below(60); let k = [1, 2, 3, 4][t.r.below(4)]; special(&mut t.r, k, n) } else { some_graph(t, true) };
        let d = desc(&g, a, b);
        t.nontrivial += 1;
        let x = t.r.below(all.len() + pre.len() + 3);
        let s = script(&mut t.r);
        let maxdeg = g.kids.iter().map(|k| k.len()).max().unwrap() as u64 + 2;
        let check = |t: &mut T, n: &str, f: &dyn Fn(Nd<Tag>, Nd<Tag>) -> Tag, fl: u64, sl: u64, pl: u64, counted: bool| -> R {
            let bound = uses(&g) * (fl + 1 + sl) / sl; // pairs whose edges are descended
            let fuel = (bound + pl + 2) * maxdeg * 8 + 1000;
            if fuel > 40_000_000 || (fuel > 400_000 && t.r.chance(90)) { return Ok(()) }
            t.now(format!("{n}; {s}; {d}"));
            SCRIPT_AT.set(0); DESCENDED.set(0);
            g.reset(fuel, false);
            let (x, y) = nodes(&g, a, b);
            match run(|| f(x, y)) { Run1::Fuel => return Err(format!("did not end within {fuel} node operations")), Run1::Panic(_) => return Ok(()), Run1::Done(_) => () }
            if counted && DESCENDED.get() > bound { return Err(format!("{} pairs descended, more than {bound} = {} nodes * (1 + ({fl} + 1) / {sl})", DESCENDED.get(), uses(&g))) }
            Ok(())
        };
        if x < all.len() { let (fl, sl, fs) = &all[x]; for (n, f) in fs { check(t, n, f, *fl, *sl, 0, true)? } }
        else if x < all.len() + pre.len() { let (pl, fl, sl, fs, _) = &pre[x - all.len()]; for (n, f) in fs { check(t, n, f, *fl, *sl, *pl as u64, false)? } }
        else { for (n, _, f) in made.iter().filter(|m| m.1.is_none()) { check(t, n, f, 800, 40, 400, false)? } }
    }
    Ok(())
}
fn c06(t: &mut T) -> R {
    let pre = prechecks::<Tag>(); let made = premade::<Tag>();
    while t.time_left() {
        let (g, a, b) = some_graph(t, true);
        let d = desc(&g, a, b);
        let (_, same) = pairs(&g, a, b);
        let s = script(&mut t.r);
        let x = t.r.below(pre.len() + 1);
        if x == pre.len() {
            for (n, _, f) in made.iter().filter(|m| m.0.contains("precheck")) {
                t.now(format!("{n}; {d}")); let fu = fuel(t); g.reset(fu, false);
                let (x, y) = nodes(&g, a, b);
                let r = skip!(f(x, y));
                if r.is_equiv() != same { return Err(format!("gave {r:?}, the comparison without precheck says {}", if same { "equivalent" } else { "different" })) }
            }
            continue;
        }
        let (pl, _, _, fs, alone) = &pre[x];
        for ((n, f), (_, alone)) in fs.iter().zip(alone) {
            t.now(format!("{n}; {s}; {d}")); SCRIPT_AT.set(0); let fu = fuel(t); g.reset(fu, true); TABLE_OPS.set(0);
            let (x, y) = nodes(&g, a, b);
            let r = skip!(f(x, y));
            if r.is_equiv() != same { return Err(format!("gave {r:?}, the comparison without precheck says {}", if same { "equivalent" } else { "different" })) }
            // the first phase is the plain limited traversal, and a completed one decides
            let dfs = n.contains("stack");
            let dfs = if n.contains("call stack then") { true } else { dfs };
            let log: Vec<Ev> = g.log.borrow().clone();
            let cmps: Vec<(usize, usize)> = log.iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
            match reference(&g, dfs, a, b, None, *pl as u64) {
                Some(want) => {
                    t.nontrivial += 1;
                    if r != Tag::of(&g, want.res) { return Err(format!("the precheck completes within {pl} with {:?}, but the result is {r:?}", want.res)) }
                    if cmps != want.cmps { return Err(format!("the precheck completes within {pl} comparing {:?}, but {cmps:?} were compared", want.cmps)) }
                    if TABLE_OPS.get() != 0 || log.iter().filter(|e| matches!(e, Ev::Id(_))).count() as u64 > 2 * want.visits { return Err(format!("work went on after the precheck completed ({} visits)", want.visits)) }
                }
                None => {
                    // exactly the first `pl` visits of the traversal, then a fresh start from the roots
                    let first = reference_prefix(&g, dfs, a, b, *pl as u64);
                    if cmps.len() < first.len() || cmps[..first.len()] != first[..] { return Err(format!("the precheck with limit {pl} should first compare {first:?}, compared {cmps:?}")) }
                    let rest = &cmps[first.len()..];
                    if g.ids[a] != g.ids[b] && rest.first() != Some(&(a, b)) { return Err(format!("after the abandoned precheck (limit {pl}) the comparison does not start again from the roots: {first:?} then {rest:?}")) }
                    let (seen, _) = pairs(&g, a, b);
                    if rest.iter().any(|p| !seen.contains(p)) { return Err(format!("compared a pair that is not reachable: {rest:?}")) }
                    if g.ids[a] == g.ids[b] && !rest.is_empty() { return Err(format!("identical roots, but the full comparison compared {rest:?}")) }
                    // the full comparison on its own makes the same comparisons
                    let rest = rest.to_vec();
                    SCRIPT_AT.set(0); g.reset(fu, true);
                    let (x, y) = nodes(&g, a, b);
                    let r2 = skip!(alone(x, y));
                    let want: Vec<(usize, usize)> = g.log.borrow().iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
                    if r2 != r || rest != want { return Err(format!("after the abandoned precheck (limit {pl}; compared {first:?}) {rest:?} were compared with result {r:?}, but the full comparison alone compares {want:?} with result {r2:?}")) }
                }
            }
        }
    }
    Ok(())
}
fn reference_prefix(g: &G, dfs: bool, a: usize, b: usize, limit: u64) -> Vec<(usize, usize)> {
    // pairs compared within the first `limit` visits of a traversal that needs more
    let mut q: std::collections::VecDeque<(usize, usize, usize)> = Default::default();
    let mut cur = (a, b);
    let mut out = vec![];
    for _ in 0..limit {
        let (a, b) = cur;
        if g.ids[a] != g.ids[b] { out.push((a, b)); if !g.kids[a].is_empty() && !g.kids[b].is_empty() { if dfs { q.push_front((a, b, 0)) } else { q.push_back((a, b, 0)) } } }
        let Some(x) = q.front_mut() else { return out };
        let (ka, kb) = (&g.kids[x.0], &g.kids[x.1]);
        if x.2 >= ka.len() || x.2 >= kb.len() { return out }
        cur = (ka[x.2], kb[x.2]);
        x.2 += 1;
        if x.2 >= ka.len() && x.2 >= kb.len() { let _ = q.pop_front(); }
    }
    out
}
fn c20(t: &mut T) -> R {
    let made = premade::<bool>(); let lim = limited::<bool, u32>(); let pre = prechecks::<bool>(); let all = interleaves::<bool>();
    while t.time_left() {
        let (g, a, b) = some_graph(t, false);
        let d = desc(&g, a, b);
        let (_, same) = pairs(&g, a, b);
        if g.ids[a] != g.ids[b] { t.nontrivial += 1 }
        for (n, _, f) in &made {
            t.now(format!("{n}; {d}")); g.reset(FUEL, false);
            let (x, y) = nodes(&g, a, b);
            let r = ok!(f(x, y), FUEL);
            if r != same { return Err(format!("said {r}, expected {same}")) }
        }
        for (n, _, f) in &lim {
            t.now(format!("{n} unlimited in effect; {d}")); g.reset(FUEL, false);
            let (x, y) = nodes(&g, a, b);
            let l = [t.r.below(12) as u128, 200, 65535][t.r.below(3)];
            if let Some(Ok(r)) = ok!(f(l, 2, x, y), FUEL) { if r != same { return Err(format!("completed with {r}, expected {same}")) } }
        }
        let s = script(&mut t.r);
        let x = t.r.below(pre.len() + all.len());
        for (n, f) in if x < pre.len() { &pre[x].3 } else { &all[x - pre.len()].2 } {
            t.now(format!("{n}; {s}; {d}")); SCRIPT_AT.set(0); let fu = fuel(t); g.reset(fu, false);
            let (x, y) = nodes(&g, a, b);
            let r = skip!(f(x, y));
            if r != same { return Err(format!("said {r}, expected {same}")) }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C03 / C04 / C05 / C15
fn plain_graph(t: &mut T) -> (Rc<G>, usize, usize) {
    let mut x = plain_graph1(t);
    for _ in 0..4 { let (g, a, b) = &x; if g.ids[*a] != g.ids[*b] && g.labels[*a] == g.labels[*b] && !g.kids[*a].is_empty() && !g.kids[*b].is_empty() { break } x = plain_graph1(t) }
    x
}
fn plain_graph1(t: &mut T) -> (Rc<G>, usize, usize) {
    if t.r.chance(6) { let n = 1 + t.r.below(7); let k = [0, 1, 2, 5][t.r.below(4)]; return special(&mut t.r, k, n) }
    if t.r.chance(3) { let n = [20, 90, 400][t.r.below(3)]; return comb(&mut t.r, false, n) }
    if t.r.chance(2) { let n = [30, 150, 1200, 4000][t.r.below(4)]; return bush(&mut t.r, n) }
    let size = [3, 5, 8, 12][t.r.below(4)];
    gen(&mut t.r, Shape::Dag, size, true)
}
fn order(t: &mut T, dfs: bool) -> R {
    fn go<C: MkCmp>(t: &mut T, dfs: bool) -> R {
        let made = premade::<C>(); let lim = limited::<C, u32>();
        for _ in 0..200 {
            let (g, a, b) = plain_graph(t);
            let Some(want) = reference(&g, dfs, a, b, None, 100_000) else { continue };
            if want.visits > 1 { t.nontrivial += 1 }
            let w = C::of(&g, want.res);
            for (n, o, f) in &made {
                if *o != Some(dfs) { continue }
                t.now(format!("{n} with {}; {}", std::any::type_name::<C>(), desc(&g, a, b)));
                g.reset(FUEL, true);
                let (x, y) = nodes(&g, a, b);
                let r = ok!(f(x, y), FUEL);
                if r != w { return Err(format!("returned {r:?}, the first difference in order gives {w:?} ({:?})", want.res)) }
                let cmps: Vec<(usize, usize)> = g.log.borrow().iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
                if cmps != want.cmps { return Err(format!("visited pairs (by value comparison) in order {cmps:?}, expected {:?}", want.cmps)) }
            }
            for (n, o, f) in &lim {
                if *o != dfs { continue }
                t.now(format!("{n} with {} (limit large); {}", std::any::type_name::<C>(), desc(&g, a, b)));
                g.reset(FUEL, false);
                let (x, y) = nodes(&g, a, b);
                let r = ok!(f(1_000_000, 2, x, y), FUEL);
                if r != Some(Ok(C::of(&g, want.res))) { return Err(format!("returned {r:?}, the first difference in order gives {w:?} ({:?})", want.res)) }
            }
        }
        Ok(())
    }
    // long and wide inputs, where growth of the containers and of the call stack matters
    for k in [0usize, 1, 5] {
        let (g, a, b) = special(&mut t.r, k, 3000);
        let want = reference(&g, dfs, a, b, None, 100_000).unwrap();
        for (n, o, f) in premade::<Tag>() { if o == Some(dfs) {
            t.now(format!("{n}; special shape {k} of 3000")); g.reset(FUEL, false);
            let (x, y) = nodes(&g, a, b);
            let r = ok!(f(x, y), FUEL);
            if r != Tag::of(&g, want.res) { return Err(format!("returned {r:?}, expected {:?}", want.res)) }
        } }
    }
    while t.time_left() { go::<Tag>(t, dfs)?; go::<Ordering>(t, dfs)?; go::<bool>(t, dfs)?; }
    Ok(())
}
fn c05(t: &mut T) -> R {
    let lim = limited::<Tag, u32>(); let unl = premade::<Tag>();
    let widths = [u8::MAX as u128, u16::MAX as u128, u32::MAX as u128, u64::MAX as u128, u128::MAX, usize::MAX as u128];
    while t.time_left() {
        let (g, a, b) = if t.r.chance(8) { let n = 130 + t.r.below(4); special(&mut t.r, 1, n) } else { plain_graph(t) };
        for (n, dfs, f) in &lim {
            let u = unl.iter().find(|x| x.0.split("::").next() == n.split("::").next()).unwrap();
            g.reset(FUEL, false);
            let (x, y) = nodes(&g, a, b);
            let r0 = skip!((u.2)(x, y));
            let Some(want) = reference(&g, *dfs, a, b, None, 100_000) else { continue };
            if want.visits > 1 { t.nontrivial += 1 }
            let mut ls: Vec<u128> = vec![0, 1, 2, want.visits as u128, want.visits as u128 + 1, (want.visits as u128).saturating_sub(1), want.visits as u128 / 2, 255, 256];
            ls.extend(widths); ls.extend(widths.map(|w| w - 1));
            for l in ls {
                for ty in 0..6u8 {
                    if l > 300 && t.r.chance(60) { continue }
                    t.now(format!("{n} limit {l} of type {}; {}", ["u8", "u16", "u32", "u64", "u128", "usize"][ty as usize], desc(&g, a, b)));
                    g.reset(FUEL, true);
                    let (x, y) = nodes(&g, a, b);
                    let Some(r) = ok!(f(l, ty, x, y), FUEL) else { continue };
                    let visits = g.log.borrow().iter().filter(|e| matches!(e, Ev::Id(_))).count() as u128 / 2;
                    if l >= want.visits as u128 {
                        if r != Ok(r0) { return Err(format!("{} visits are needed, the unlimited comparison gives {r0:?}, this gave {r:?}", want.visits)) }
                    } else if r != Err(()) { return Err(format!("{} visits are needed, but it returned {r:?} instead of reporting the limit", want.visits)) }
                    if visits > l { return Err(format!("made {visits} visits")) }
                }
            }
        }
    }
    Ok(())
}
fn c15(t: &mut T) -> R {
    let made = premade::<Tag>(); let all = interleaves::<Tag>(); let lim = limited::<Tag, u32>();
    fn look(g: &G, a: usize, b: usize, r: Option<Tag>, plain: Option<bool>) -> R {
        let log = g.log.borrow().clone();
        let mut eqv: HashSet<(u8, usize)> = HashSet::new();
        let mut done: Option<String> = None;
        for e in &log {
            if let Some(x) = &done { return Err(format!("went on with {e:?} after the difference {x}")) }
            match *e {
                Ev::Cmp(x, y, q) => {
                    if g.ids[x] == g.ids[y] { return Err(format!("compared the values of nodes {x} and {y}, which have the same identity")) }
                    if q { let _ = eqv.insert((0, x)); let _ = eqv.insert((1, y)); } else { done = Some(format!("of values {x} {y}")) }
                }
                Ev::Edge(s, n, i) => if !eqv.contains(&(s, n)) { return Err(format!("requested edge {i} of node {n} (side {s}) before its values compared equivalent")) },
                _ => (),
            }
        }
        if let (Some(Tag::Equiv), Some(x)) = (r, &done) { return Err(format!("returned equivalent after the difference {x}")) }
        if let (Some(_), Some(dfs)) = (r, plain) {
            let cmps: Vec<(usize, usize)> = log.iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
            if let Some(w) = reference(g, dfs, a, b, None, 100_000) {
                let mut x = cmps.clone(); let mut y = w.cmps.clone(); x.sort(); y.sort();
                let _ = (x, y);
                if cmps.len() != w.cmps.len() && cmps.iter().collect::<HashSet<_>>() == w.cmps.iter().collect::<HashSet<_>>() { return Err(format!("compared values {cmps:?}, expected once per visit {:?}", w.cmps)) }
            }
        }
        // edge amounts: once they are known to differ nothing else may be inspected
        let mut last: HashMap<(u8, usize), usize> = HashMap::new();
        for (k, e) in log.iter().enumerate() {
            if let Ev::Edge(s, n, i) = *e {
                let _ = last.insert((s, n), i);
                let _ = k;
            }
        }
        Ok(())
    }
    while t.time_left() {
        let cyc = t.r.chance(50);
        let (g, a, b) = if cyc { let s = [4, 8][t.r.below(2)]; gen(&mut t.r, Shape::Any, s, true) } else { plain_graph(t) };
        if g.ids[a] != g.ids[b] { t.nontrivial += 1 }
        for (n, o, f) in &made {
            if cyc && o.is_some() { continue }
            t.now(format!("{n}; {}", desc(&g, a, b))); let fu = fuel(t); g.reset(fu, true);
            let (x, y) = nodes(&g, a, b);
            let r = skip!(f(x, y));
            look(&g, a, b, Some(r), *o)?;
        }
        for (n, _, f) in &lim {
            if cyc { continue }
            let l = t.r.below(8) as u128;
            t.now(format!("{n} limit {l}; {}", desc(&g, a, b))); let fu = fuel(t); g.reset(fu, true);
            let (x, y) = nodes(&g, a, b);
            let r = skip!(f(l, 2, x, y)).unwrap();
            look(&g, a, b, r.ok(), None)?;
        }
        let s = script(&mut t.r);
        let x = t.r.below(all.len());
        for (n, f) in &all[x].2 {
            t.now(format!("{n}; {s}; {}", desc(&g, a, b))); SCRIPT_AT.set(0); let fu = fuel(t); g.reset(fu, true);
            let (x, y) = nodes(&g, a, b);
            let r = skip!(f(x, y));
            look(&g, a, b, Some(r), None)?;
        }
        // after an edge-amount difference: the operations made are those of the reference, no visit more
        if !cyc { for (n, o, f) in &made { if let Some(dfs) = o { if let Some(w) = reference(&g, *dfs, a, b, None, 100_000) {
            if let Res::Amount(_) = w.res {
                t.now(format!("{n} (amounts); {}", desc(&g, a, b))); let fu = fuel(t); g.reset(fu, true);
                let (x, y) = nodes(&g, a, b);
                let _ = skip!(f(x, y));
                let c = g.log.borrow().iter().filter(|e| matches!(e, Ev::Cmp(..))).count();
                if c > w.cmps.len() { return Err(format!("inspected {} pairs, the first difference is met after {}", c, w.cmps.len())) }
            }
        } } } }
    }
    Ok(())
}
// ---------------------------------------------------------------- C07 / C08 / C11
fn drive<I: interleave::Params>(d: &mut Interleave<I>, a: &I::Node, b: &I::Node) -> bool { <Interleave<I> as DescendMode<ForInner<I, ()>>>::do_edges(d, a, b).unwrap() }
struct Uf(Vec<usize>, Vec<bool>);
impl Uf {
    fn find(&self, mut x: usize) -> usize { while self.0[x] != x { x = self.0[x] } x }
    fn same(&mut self, a: usize, b: usize) -> bool {
        let r = self.1[a] && self.1[b] && self.find(a) == self.find(b);
        self.1[a] = true; self.1[b] = true;
        let (x, y) = (self.find(a), self.find(b)); self.0[x] = y;
        r
    }
}
fn classes(t: &mut T, chains: bool) -> R {
    type P = Cfg<Nd<bool>, 1, 0, 65535>;
    type Q = Args<Nd<bool>>;
    struct Args<N>(std::marker::PhantomData<fn() -> N>);
    impl interleave::Params for Args<Nd<bool>> { const SLOW_LIMIT: u16 = 65535; type Node = Nd<bool>; type Table = graph_safe_compare::generic::equiv_classes::premade::hash_map::Table<Self>; type RNG = Scripted; }
    impl graph_safe_compare::generic::equiv_classes::premade::hash_map::Params for Args<Nd<bool>> { type Node = Nd<bool>; }
    KEEP.set(chains);
    while t.time_left() {
        // now and then, classes of equal size made by balanced merges, then merged one by one, each time by the ends that win and by those that lose
        let (chunk, chunks) = (1 << (1 + t.r.below(if chains { 11 } else { 9 })), 3 + t.r.below(14));
        let big = t.r.below(8) == 0;
        let n = if big { chunk * chunks } else { match t.r.below(5) { 0 => 2, 1 => 3 + t.r.below(6), 2 => 12 + t.r.below(20), 3 => 100, _ => 1 << (2 + t.r.below(7)) } };
        let mut g = G::default();
        for i in 0..n { g.ids.push(i); g.labels.push(0); g.kids.push(vec![]) }
        let g = Rc::new(g);
        g.reset(u64::MAX, false);
        CLASSES.with(|c| c.borrow_mut().clear());
        let mut ops: Vec<(usize, usize)> = vec![];
        let style = if big { 7 } else { t.r.below(7) };
        let len = if big { 0 } else { 2 * n + t.r.below(3 * n) };
        // balanced merges make the longest chains
        if style == 0 { let mut w = 1; while w < n { let mut i = 0; while i + w < n { ops.push((i + t.r.below(w), i + w + t.r.below(w.min(n - i - w)))); i += 2 * w } w *= 2 } }
        if style == 5 { let mut w = 1; while w < n { let mut i = 0; while i + w < n { ops.push((i, i + w)); i += 2 * w } w *= 2 } }
        if style == 6 { let mut w = 1; while w < n { let mut i = 0; while i + w < n { ops.push((i + w, i)); i += 2 * w } w *= 2 } }
        let mut few = 0;
        if big {
            let (last, swap) = (t.r.below(2) == 0, t.r.below(2) == 0);
            let mut w = 1; while w < chunk { let mut i = 0; while i + w < n { ops.push(if last { (i + 2 * w - 1, i + w - 1) } else { (i, i + w) }); i += 2 * w } w *= 2 }
            few = ops.len();
            let (mut acc, at) = (0, |c: usize| c * chunk + if last { chunk - 1 } else { 0 });
            for c in 1..chunks { ops.push(if swap { (at(c), at(acc)) } else { (at(acc), at(c)) }); if swap { acc = c } }
        }
        for k in 0..len { ops.push(match style { 1 => (k % n, (k + 1) % n), 2 => ((k + 1) % n, 0), 3 => (t.r.below(n.min(5)), t.r.below(n)), _ => (t.r.below(n), t.r.below(n)) }) }
        let mut d1 = Interleave::<P>::default(); let mut d2 = Interleave::<Q>::default();
        let mut uf = Uf((0..n).collect(), vec![false; n]);
        t.nontrivial += 1;
        t.now(if big { format!("{n} nodes, {chunks} classes of {chunk} by balanced merges, then {:?}", &ops[few ..]) } else { format!("{n} nodes, asked about {ops:?}") });
        for (k, (a, b)) in ops.iter().enumerate() {
            let (x, y): (Nd<bool>, Nd<bool>) = nodes(&g, *a, *b);
            let want = uf.same(*a, *b);
            let r1 = match run(|| !drive(&mut d1, &x, &y)) { Run1::Done(r) => r, Run1::Panic(m) => return Err(format!("at question {k}: panicked: {m}")), Run1::Fuel => continue };
            if !chains {
                if r1 != want { return Err(format!("at question {k} {:?}: answered {r1}, expected {want}", ops[k])) }
                let r2 = match run(|| !drive(&mut d2, &x, &y)) { Run1::Done(r) => r, Run1::Panic(m) => return Err(format!("at question {k}: panicked: {m}")), Run1::Fuel => continue };
                if r2 != want { return Err(format!("at question {k} {:?} (ready-made table): answered {r2}, expected {want}", ops[k])) }
            } else if k >= few {
                let made = CLASSES.with(|c| c.borrow().len());
                let longest = match run(|| CLASSES.with(|c| c.borrow().iter().map(|c| c.chain()).max().unwrap_or(0))) { Run1::Done(x) => x, Run1::Panic(m) => return Err(m), _ => 0 };
                if made > 0 && longest > made.ilog2() as usize { return Err(format!("after question {k}: a chain of {longest} links among {made} class records")) }
            }
        }
    }
    Ok(())
}
fn c11(t: &mut T) -> R {
    // generators
    fn gens<X: NumberGenerator>(t: &mut T, name: &str) -> R {
        let mut x = X::default();
        for round in 0..60u32 {
            let end = if round < 12 { round as u16 + 1 } else { match round % 4 { 0 => 65535, 1 => 801, 2 => 256, _ => (t.r.next() % 65535) as u16 + 1 } };
            t.now(format!("{name}.rand_upto({end})"));
            let mut seen = HashSet::new();
            for _ in 0..4000 {
                let v = match run(|| x.rand_upto(end.try_into().unwrap())) { Run1::Done(v) => v, Run1::Panic(m) => return Err(format!("panicked: {m}")), _ => 0 };
                if v >= end { return Err(format!("gave {v}")) }
                let _ = seen.insert(v);
            }
            if end <= 64 && seen.len() != end as usize { return Err(format!("in 4000 draws only {:?} came", seen)) }
            if end > 400 && !seen.iter().any(|v| *v > end / 4 * 3) { return Err(format!("in 4000 draws nothing above {}", end / 4 * 3)) }
        }
        Ok(())
    }
    gens::<interleave::random::wyrng::RandomNumberGenerator>(t, "wyrng")?;
    gens::<interleave::random::oorandom::RandomNumberGenerator>(t, "oorandom")?;
    gens::<interleave::random::fastrand::RandomNumberGenerator>(t, "fastrand")?;
    fn phases<I: interleave::Params<Node = Nd<bool>, RNG = Scripted>>(t: &mut T, name: &str, fl: u64, sl: u64, exact: bool) -> R {
        t.now(format!("{name}: constants"));
        if Interleave::<I>::FAST_LIMIT_MAX_RANGE_END.get() as u64 != fl + 1 { return Err(format!("range end {} for fast limit {fl}", Interleave::<I>::FAST_LIMIT_MAX_RANGE_END)) }
        if exact && Interleave::<I>::SLOW_LIMIT_NEG as i64 != -(sl as i64) { return Err(format!("slow limit constant {} for slow limit {sl}", Interleave::<I>::SLOW_LIMIT_NEG)) }
        for _ in 0..6 {
            let s = script(&mut t.r);
            let n = [2, 4, 10, 60][t.r.below(4)];
            let mut g = G::default();
            for i in 0..n { g.ids.push(i); g.labels.push(0); g.kids.push(vec![]) }
            let g = Rc::new(g);
            g.reset(u64::MAX, false);
            let mut d = Interleave::<I>::default();
            let mut uf = Uf((0..n).collect(), vec![false; n]);
            let len = if sl > 1000 || fl > 1000 { 70_000 } else { 400 };
            let (mut slow_count, mut fast_left) = (0u64, 0u64); // consecutive new pairs in this slow phase; pairs left of the fast phase
            let mut drawn = 0;
            t.nontrivial += 1;
            let seed = t.r.0;
            t.now(format!("{name}: {n} nodes, {s}, pairs from seed {seed}"));
            let big = sl > 1000;
            for k in 0..len {
                // distinct new pairs for long slow phases need many nodes; otherwise random ones
                let (a, b) = if big && k % 3 == 0 { (0, 0) } else { (t.r.below(n), t.r.below(n)) };
                let (x, y): (Nd<bool>, Nd<bool>) = nodes(&g, a, b);
                TABLE_OPS.set(0);
                let got = match run(|| drive(&mut d, &x, &y)) { Run1::Done(v) => v, Run1::Panic(m) => return Err(format!("at pair {k}: panicked: {m}")), _ => continue };
                let consulted = TABLE_OPS.get() > 0;
                let (want, slow);
                if fast_left > 0 { fast_left -= 1; want = true; slow = false }
                else if slow_count == sl {
                    let v = SCRIPT.with(|s| { let s = s.borrow(); s[drawn % s.len()] }) as u64 % (fl + 1);
                    drawn += 1; slow_count = 0; fast_left = v; want = true; slow = false;
                }
                else if uf.same(a, b) { slow_count = 0; want = false; slow = true }
                else { slow_count += 1; want = true; slow = true }
                if consulted != slow { return Err(format!("at pair {k} ({a},{b}): the record was {}consulted, expected a {} phase", if consulted { "" } else { "not " }, if slow { "slow" } else { "fast" })) }
                if got != want { return Err(format!("at pair {k} ({a},{b}): answered {got}, expected {want}")) }
                let asked = ASKED.with(|a| a.borrow().clone());
                if asked.len() != drawn { return Err(format!("at pair {k}: {} random numbers drawn, expected {drawn}", asked.len())) }
                if asked.iter().any(|e| *e as u64 != fl + 1) { return Err(format!("at pair {k}: random number drawn below {asked:?}, expected below {}", fl + 1)) }
            }
        }
        Ok(())
    }
    type N = Nd<bool>;
    loop {
        macro_rules! c { ($p:literal, $f:literal, $s:literal) => { phases::<Cfg<N, $p, $f, $s>>(t, concat!("limits ", $p, "/", $f, "/", $s), $f, $s, true)? } }
        c!(400, 800, 40); c!(1, 0, 1); c!(1, 1, 1); c!(1, 7, 1); c!(1, 0, 3); c!(1, 2, 2); c!(1, 65534, 1); c!(1, 3, 65535); c!(1, 65534, 65535); c!(1, 1, 5); c!(9, 5, 7);
        macro_rules! d { ($p:literal) => { phases::<Der<N, $p>>(t, concat!("derived from ", $p), 2 * $p, ($p / 10).max(1), true)? } }
        d!(0); d!(1); d!(9); d!(10); d!(11); d!(25); d!(400); d!(32767);
        if !t.time_left() { return Ok(()) }
    }
}
// ---------------------------------------------------------------- C09 / C10
fn c09(t: &mut T) -> R {
    fn one<I: Ix>(t: &mut T, name: &str) -> R {
        for _ in 0..60 {
            let top = I::top();
            let cap = top.map_or(9, |x| x + 3);
            let (la, lb) = match t.r.below(4) { 0 => { let n = 1 + t.r.below(cap); (n, n) } 1 => (1 + t.r.below(cap), 1 + t.r.below(cap)), 2 => { let n = 1 + t.r.below(5); (n, n + 1 + t.r.below(2)) } _ => { let n = 1 + t.r.below(5); (n + 1 + t.r.below(2), n) } };
            let mut g = G::default();
            let m = 2 + la + lb;
            for i in 0..m { g.ids.push(i); g.labels.push(0); g.kids.push(vec![]) }
            g.kids[0] = (2..2 + la).collect(); g.kids[1] = (2 + la..m).collect();
            let g = Rc::new(g);
            t.nontrivial += 1;
            let x = top.map_or(usize::MAX, |x| x + 1);
            let (ea, eb) = (la.min(x), lb.min(x));
            t.now(format!("edges of a node with {la} and one with {lb}, index type {name}"));
            g.reset(FUEL, true);
            GOT.with(|v| v.borrow_mut().clear());
            let (a, b): (Nd<Tag, I>, Nd<Tag, I>) = nodes(&g, 0, 1);
            let _ = ok!(Equiv::<TakeArgs<Nd<Tag, I>>>::default().equiv(a, b), FUEL);
            let got = GOT.with(|v| v.borrow().clone());
            let mut want: Vec<Result<(usize, usize, u8, u8), String>> = (0..ea.min(eb)).map(|i| Ok((2 + i, 2 + la + i, 0, 1))).collect();
            if ea < eb { want.push(Err(format!("{:?}", Tag::Amount(Ordering::Less)))) } else if eb < ea { want.push(Err(format!("{:?}", Tag::Amount(Ordering::Greater)))) }
            if got != want { return Err(format!("enumerated {got:?}, expected {want:?}")) }
            requests(&g, top)?;
            // and as the containers use it
            for k in 0..3 {
                t.now(format!("comparing a node with {la} edges and one with {lb}, index type {name}, {}", ["call stack", "queue", "stack"][k]));
                g.reset(FUEL, true);
                let (a, b): (Nd<Tag, I>, Nd<Tag, I>) = nodes(&g, 0, 1);
                let r = ok!(match k { 0 => Equiv::<Plain<Nd<Tag, I>, ByCall>>::default().equiv(a, b).unwrap(), 1 => Equiv::<Plain<Nd<Tag, I>, ByQueue>>::default().equiv(a, b).unwrap(), _ => Equiv::<Plain<Nd<Tag, I>, ByStack>>::default().equiv(a, b).unwrap() }, FUEL);
                let w = match ea.cmp(&eb) { Ordering::Equal => Tag::Equiv, o => Tag::Amount(o) };
                if r != w { return Err(format!("gave {r:?}, expected {w:?}")) }
                requests(&g, top)?;
            }
        }
        Ok(())
    }
    fn requests(g: &G, top: Option<usize>) -> R {
        let log = g.log.borrow().clone();
        let (la, lb) = (g.kids[0].len(), g.kids[1].len());
        let mut at = [0usize; 2];
        let mut count: HashMap<(u8, usize), usize> = HashMap::new();
        for e in &log {
            if let Ev::Edge(s, n, i) = *e {
                if n > 1 { continue }
                if i == 999_999 { return Err(format!("requested a negative index of node {n}")) }
                if i < at[s as usize] { return Err(format!("index {i} of node {n} requested after {}", at[s as usize])) }
                if i > at[s as usize] + 1 || (count.is_empty() && i != 0) { return Err(format!("index {i} of node {n} requested, {} was next", at[s as usize])) }
                at[s as usize] = i;
                *count.entry((s, i)).or_insert(0) += 1;
            }
        }
        for ((s, i), c) in &count {
            let stop = *i >= la || *i >= lb;
            if *c > if stop && la != lb { 3 } else { 2 } { return Err(format!("index {i} of node {s} requested {c} times")) }
            if count.get(&(1 - s, *i)) != Some(c) { return Err(format!("index {i} requested {c} times of one node and {:?} times of the other", count.get(&(1 - s, *i)))) }
            if *i > la.min(lb) { return Err(format!("index {i} of node {s} requested, though they have {la} and {lb} edges")) }
            if top.map_or(false, |t| *i > t) { return Err("index beyond the type's maximum".into()) }
        }
        Ok(())
    }
    while t.time_left() { one::<Ix4>(t, "of four values")?; one::<u32>(t, "u32")?; one::<u8>(t, "u8")?; one::<i8>(t, "i8")?; }
    Ok(())
}
fn c10(t: &mut T) -> R {
    let lim = limited::<Tag, u32>(); let made = premade::<Tag>();
    let mut first = true;
    while t.time_left() {
        let (g, a, b) = if first { first = false; special(&mut t.r, 1, 3000) } else { plain_graph(t) };
        for (dfs, name) in [(true, "wide_safe"), (false, "deep_safe")] {
            let Some(w) = reference(&g, dfs, a, b, None, 100_000) else { continue };
            if w.pending.iter().any(|p| *p > 1) { t.nontrivial += 1 }
            for k in 0..2 {
                t.now(format!("{name} (form {k}); {}", desc(&g, a, b)));
                g.reset(FUEL, true);
                let (x, y) = nodes::<Tag, u32>(&g, a, b);
                g.live.set(2);
                let r = skip!(if k == 0 { (made.iter().find(|m| m.0.starts_with(name)).unwrap().2)(x, y) } else { (lim.iter().find(|m| m.0.starts_with(name)).unwrap().2)(1_000_000, 2, x, y).unwrap().unwrap() });
                let lives = g.lives.borrow().clone();
                let cmps: Vec<(usize, usize)> = g.log.borrow().iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
                if r != Tag::of(&g, w.res) || cmps != w.cmps { return Err(format!("an item was lost, duplicated or reordered: compared {cmps:?} giving {r:?}, expected {:?} giving {:?}", w.cmps, w.res)) }
                for (i, (l, p)) in lives.iter().zip(&w.pending).enumerate() {
                    if *l > 2 * *p as i64 + 2 { return Err(format!("at visit {i}: {l} nodes are retained, only {p} sequences of pending edges have anything left")) }
                }
            }
        }
    }
    Ok(())
}
// ---------------------------------------------------------------- C12 / C13 / C14
fn c12(t: &mut T) -> R {
    fn h<X: Hash>(x: &X) -> u64 { let mut s = std::collections::hash_map::DefaultHasher::new(); x.hash(&mut s); s.finish() }
    fn laws<X: Ord + Hash>(t: &mut T, what: &str, v: &[X], same: &dyn Fn(usize, usize) -> bool, key: &dyn Fn(usize) -> (usize, usize)) -> R {
        for i in 0..v.len() { for j in 0..v.len() {
            t.now(format!("{what}: identities {i} and {j} at {:?} and {:?}", key(i), key(j)));
            let (a, b) = (&v[i], &v[j]);
            let e = same(i, j);
            let c = a.cmp(b);
            if (a == b) != e { return Err(format!("equality says {}, same place and metadata: {e}", a == b)) }
            if (a != b) == e { return Err("inequality disagrees with equality".into()) }
            if (c == Ordering::Equal) != e { return Err(format!("ordering says {c:?}, same: {e}")) }
            if a.partial_cmp(b) != Some(c) { return Err("partial_cmp disagrees with cmp".into()) }
            if b.cmp(a) != c.reverse() { return Err("ordering is not antisymmetric".into()) }
            if (a < b, a <= b, a > b, a >= b) != (c.is_lt(), c.is_le(), c.is_gt(), c.is_ge()) { return Err(format!("operators {:?} disagree with cmp {c:?}", (a < b, a <= b, a > b, a >= b))) }
            if e && h(a) != h(b) { return Err("equal identities hash differently".into()) }
            for k in 0..v.len() { if c.is_le() && v[j].cmp(&v[k]).is_le() && !a.cmp(&v[k]).is_le() { return Err(format!("ordering not transitive with {k}")) }
                if a == b && b == &v[k] && a != &v[k] { return Err(format!("equality not transitive with {k}")) } }
        } }
        t.nontrivial += (v.len() * v.len()) as u64;
        Ok(())
    }
    while t.time_left() {
        let data: Vec<u32> = (0..8).map(|_| (t.r.next() % 2) as u32).collect();
        let p = |x: &u32| (x as *const u32 as usize, 0);
        let v: Vec<RefId<&u32>> = (0..12).map(|_| RefId(&data[t.r.below(8)])).collect();
        laws(t, "&u32", &v, &|i, j| std::ptr::eq(v[i].0, v[j].0), &|i| p(v[i].0))?;
        let v: Vec<RefId<&[u32]>> = (0..14).map(|_| { let s = t.r.below(8); let e = s + t.r.below(9 - s); RefId(&data[s..e]) }).collect();
        let key = |i: usize| { let s: &[u32] = v[i].0; (s.as_ptr() as usize, s.len()) };
        laws(t, "&[u32]", &v, &|i, j| key(i) == key(j), &key)?;
        let text = "abcabcabc";
        let v: Vec<RefId<&str>> = (0..10).map(|_| { let s = t.r.below(9); let e = s + t.r.below(10 - s); RefId(&text[s..e]) }).collect();
        let key = |i: usize| { let s: &str = v[i].0; (s.as_ptr() as usize, s.len()) };
        laws(t, "&str", &v, &|i, j| key(i) == key(j), &key)?;
        let rcs: Vec<Rc<u8>> = (0..5).map(|_| Rc::new((t.r.next() % 2) as u8)).collect();
        let v: Vec<RefId<Rc<u8>>> = (0..10).map(|_| RefId(rcs[t.r.below(5)].clone())).collect();
        laws(t, "Rc<u8>", &v, &|i, j| Rc::ptr_eq(&v[i].0, &v[j].0), &|i| (&*v[i].0 as *const u8 as usize, 0))?;
        let bx: Vec<Box<u16>> = (0..4).map(|_| Box::new((t.r.next() % 2) as u16)).collect();
        let v: Vec<RefId<&Box<u16>>> = (0..8).map(|_| RefId(&bx[t.r.below(4)])).collect();
        laws(t, "&Box<u16>", &v, &|i, j| std::ptr::eq(v[i].0, v[j].0), &|i| (v[i].0 as *const _ as usize, 0))?;
    }
    Ok(())
}
fn c13(t: &mut T) -> R {
    macro_rules! ty { ($($t:ident)*) => { $( {
        let mut at: Vec<$t> = vec![<$t>::MIN, <$t>::MIN + 1, 0, 1, <$t>::MAX, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MAX / 2 + 1, (-1i8) as $t, (255u8) as $t, (65535u16) as $t, (u32::MAX) as $t, 256u16 as $t];
        for i in 0..=65535u32 { at.push(i as $t) }
        for _ in 0..20_000 { at.push(((t.r.next() as u128) << 64 | t.r.next() as u128) as $t) }
        for i in at {
            if i % 100 == 0 || t.evals < 50 { t.now(format!("{}::increment of {i}", stringify!($t))) }
            t.nontrivial += 1;
            let Run1::Done(r) = run(|| Step::increment(&i)) else { return Err(format!("{} {i}: panicked", stringify!($t))) };
            if r != i.checked_add(1) { return Err(format!("{} {i} increments to {r:?}", stringify!($t))) }
        }
        let z: $t = Default::default();
        if z != 0 { return Err("default is not zero".into()) }
    } )* } }
    loop {
        ty! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
        // the enumeration starts at zero and is not cut short before the type's maximum
        let mut g = G::default();
        for i in 0..260 { g.ids.push(i); g.labels.push(0); g.kids.push(vec![]) }
        g.kids[0] = (2..258).collect(); g.kids[1] = (2..258).rev().collect();
        let g = Rc::new(g);
        t.now("all 256 edges through a u8 index".into());
        g.reset(FUEL, true);
        let (a, b): (Nd<Tag, u8>, Nd<Tag, u8>) = nodes(&g, 0, 1);
        let _ = ok!(Equiv::<Plain<Nd<Tag, u8>, ByQueue>>::default().equiv(a, b), FUEL);
        let idx: HashSet<usize> = g.log.borrow().iter().filter_map(|e| if let Ev::Edge(0, 0, i) = e { Some(*i) } else { None }).collect();
        if idx != (0..256).collect() { return Err(format!("indexes requested of a node with 256 edges: {} of 256", idx.len())) }
        if !t.time_left() { return Ok(()) }
    }
}
fn c14(t: &mut T) -> R {
    for o in [Ordering::Less, Ordering::Equal, Ordering::Greater] {
        t.now(format!("{o:?}"));
        t.nontrivial += 1;
        if <bool as Cmp>::from_ord(o).is_equiv() != (o == Ordering::Equal) { return Err("bool::from_ord".into()) }
        if <bool as Cmp>::from_ord(o) != (o == Ordering::Equal) { return Err("bool::from_ord".into()) }
        if <Ordering as Cmp>::from_ord(o) != o { return Err("Ordering::from_ord".into()) }
        if Cmp::is_equiv(&o) != (o == Ordering::Equal) { return Err("Ordering::is_equiv".into()) }
    }
    for b in [false, true] { t.now(format!("{b}")); if Cmp::is_equiv(&b) != b { return Err("bool::is_equiv".into()) } }
    t.now("new_equiv".into());
    if !<bool as Cmp>::new_equiv().is_equiv() || !<Ordering as Cmp>::new_equiv().is_equiv() { return Err("new_equiv".into()) }
    Ok(())
}
// ---------------------------------------------------------------- C16
fn c16(t: &mut T) -> R {
    while t.time_left() {
        let (g, a, b) = plain_graph(t);
        for k in 0..2 {
            // without a failure, to count the calls
            let go = |g: &Rc<G>| -> Result<Tag, Declared> { let (x, y) = nodes(g, a, b); if k == 0 { Equiv::<FailArgs<Tag, ByCall>>::new(FailingMode).equiv(x, y) } else { Equiv::<FailArgs<Tag, ByQueue>>::new(FailingMode).equiv(x, y) } };
            g.reset(FUEL, true); CALLS.set(0); FAIL_AT.set(u32::MAX); FAILED.set(0);
            t.now(format!("failing components (form {k}), no failure; {}", desc(&g, a, b)));
            let Run1::Done(clean) = run(|| go(&g)) else { continue };
            if let Err(e) = clean { return Err(format!("error {e:?} without any component failing")) }
            let full = g.log.borrow().clone();
            let total = CALLS.get();
            for at in 0..total.min(60) {
                t.nontrivial += 1;
                t.now(format!("failing components (form {k}), call {at} of {total} fails; {}", desc(&g, a, b)));
                g.reset(FUEL, true); CALLS.set(0); FAIL_AT.set(at); FAILED.set(0);
                let r = ok!(go(&g), FUEL);
                if CALLS.get() != at + 1 { return Err(format!("{} component calls made after the failing one", CALLS.get() - at - 1)) }
                match r { Err(Declared(v)) if v == at + 1000 || v == at + 5000 => (), other => return Err(format!("call {at} failed, but the result is {other:?}")) }
                let log = g.log.borrow().clone();
                if log.len() > full.len() || log[..] != full[..log.len()] { return Err("nodes were inspected differently before the failure".into()) }
                // where the failing call was made, in terms of what was inspected before it
                let _ = &full;
            }
        }
        // inspection stops at the failing call: the same run with the failure at the next call has inspected at least as much, and the log ends there
        // precheck-first: only the recursion component's errors surface
        let s = script(&mut t.r);
        macro_rules! pre { ($($p:literal)*) => { $( {
            let go = |g: &Rc<G>| -> Result<Tag, Declared> { let (x, y) = nodes(g, a, b); precheck_interleave::equiv::<_, FailPre<Cfg<Nd<Tag>, $p, 1, 1>>>(x, y) };
            g.reset(FUEL, false); CALLS.set(0); FAIL_AT.set(u32::MAX); SCRIPT_AT.set(0);
            t.now(format!("precheck limit {}, no failure; {s}; {}", $p, desc(&g, a, b)));
            if let Run1::Done(clean) = run(|| go(&g)) {
                if let Err(e) = clean { return Err(format!("error {e:?} without any recursion component failing")) }
                let total = CALLS.get();
                for at in 0..total.min(40) {
                    t.now(format!("precheck limit {}, recursion call {at} of {total} fails; {s}; {}", $p, desc(&g, a, b)));
                    g.reset(FUEL, true); CALLS.set(0); FAIL_AT.set(at); SCRIPT_AT.set(0);
                    let r = ok!(go(&g), FUEL);
                    if CALLS.get() != at + 1 { return Err("recursion went on after the failing call".to_string()) }
                    match r { Err(Declared(v)) if v == at + 7000 || v == at + 9000 => (), other => return Err(format!("recursion call {at} failed, but the result is {other:?}")) }
                }
            }
        } )* } }
        pre!(0 1 2 3 5 9 400);
    }
    Ok(())
}
// ---------------------------------------------------------------- C21
fn c21(t: &mut T) -> R {
    fn go<C: MkCmp>(t: &mut T) -> R {
        for _ in 0..100 {
            let cyc = t.r.chance(40);
            let (g, a, b) = if cyc { some_graph(t, true) } else { plain_graph(t) };
            let n = 1 + t.r.below(9);
            let yes = [100, 90, 70, 50][t.r.below(4)];
            let ans: Vec<bool> = (0..n).map(|_| t.r.chance(yes)).collect();
            for (k, name, dfs) in [(0, "call stack", true), (1, "queue", false), (2, "stack", true)] {
                let Some((res, cmps, asked)) = controlled(&g, dfs, a, b, &ans, 3000) else { continue };
                if asked.len() > 1 { t.nontrivial += 1 }
                t.now(format!("a control answering {ans:?} over and over, {name}, {}; {}", std::any::type_name::<C>(), desc(&g, a, b)));
                g.reset(FUEL, true);
                QUESTIONS.with(|q| q.borrow_mut().clear());
                ANSWERS.with(|x| *x.borrow_mut() = ans.clone());
                let (x, y) = nodes(&g, a, b);
                let r: C = ok!(match k { 0 => Equiv::<ChoosyArgs<Nd<C>, ByCall>>::new(Choosy).equiv(x, y).unwrap(), 1 => Equiv::<ChoosyArgs<Nd<C>, ByQueue>>::new(Choosy).equiv(x, y).unwrap(), _ => Equiv::<ChoosyArgs<Nd<C>, ByStack>>::new(Choosy).equiv(x, y).unwrap() }, FUEL);
                let want: Vec<Asked> = asked.iter().map(|q| match q { None => Asked::Visit, Some((a, b)) => Asked::Edges(*a, 0, *b, 1) }).collect();
                let had = QUESTIONS.with(|q| q.borrow().clone());
                if had != want { let i = (0..had.len().max(want.len())).find(|i| had.get(*i) != want.get(*i)).unwrap(); return Err(format!("question {i} was {:?}, expected {:?} (of {} and {})", had.get(i), want.get(i), had.len(), want.len())) }
                let seen: Vec<(usize, usize)> = g.log.borrow().iter().filter_map(|e| if let Ev::Cmp(a, b, _) = e { Some((*a, *b)) } else { None }).collect();
                if seen != cmps { return Err(format!("compared the values of {seen:?}, expected {cmps:?}")) }
                if r != C::of(&g, res) { return Err(format!("returned {r:?}, expected {res:?}")) }
            }
        }
        Ok(())
    }
    while t.time_left() { go::<Tag>(t)?; go::<Ordering>(t)?; go::<bool>(t)?; }
    Ok(())
}
// ---------------------------------------------------------------- C17
/// implicit deep shapes: (depth, kind); identities never shared between the two sides
#[derive(Clone)]
struct Deep { at: u64, n: u64, kind: u8, side: u64 }
impl Node for Deep {
    type Cmp = bool; type Id = (u64, u64); type Index = u32;
    fn id(&self) -> (u64, u64) { (self.side, self.at) }
    fn get_edge(&self, i: &u32) -> Option<Self> {
        let mk = |at: u64| Some(Deep { at, ..self.clone() });
        let leaf = |k: u64| Some(Deep { at: u64::MAX - k, ..self.clone() });
        if self.at >= self.n { return None }
        match (self.kind, *i) {
            (0, 0) => mk(self.at + 1),
            (1, 0) => leaf(1), (1, 1) => mk(self.at + 1),
            (2, 0) => mk(self.at + 1), (2, 1) => leaf(1),
            (3, 0) => mk((self.at + 1) % self.n), // ring
            (4, 0) => mk(self.at + 1), (4, 1) => mk(self.at + 1), // degenerate (cycle-safe only)
            (5, 0) => leaf(1).map(|l| Deep { side: 9, ..l }), (5, 1) => mk(self.at + 1), // pairs of one node
            (6, i) if self.at == 0 && u64::from(i) < self.n => leaf(1).map(|l| Deep { side: 9, ..l }),
            (7, i) if self.at == 0 && u64::from(i) < self.n => leaf(u64::from(i)),
            _ => None,
        }
    }
    fn equiv_modulo_edges(&self, _: &Self) -> bool { true }
}
const C17_FNS: [&str; 6] = ["deep_safe::equiv", "wide_safe::equiv", "deep_safe::limited_equiv", "wide_safe::limited_equiv", "robust::equiv", "robust::precheck_equiv"];
const C17_SHAPES: [&str; 8] = ["list", "tail list", "head list", "ring", "degenerate", "tail list with shared leaves", "wide node with shared leaves", "wide node"];
fn c17_cases() -> Vec<(usize, usize)> { (0..8).flat_map(|s| (0..6).map(move |f| (f, s))).filter(|(f, s)| *f >= 4 || !(3..=4).contains(s)).collect() }
fn c17_case(case: usize) -> bool {
    use graph_safe_compare::*;
    let (f, s) = c17_cases()[case];
    let (a, b) = (Deep { at: 0, n: 300_000, kind: s as u8, side: 0 }, Deep { at: 0, n: 300_000, kind: s as u8, side: 1 });
    match f {
        0 => deep_safe::equiv(a, b), 1 => wide_safe::equiv(a, b), 2 => matches!(deep_safe::limited_equiv(10_000_000u64, a, b), Ok(true)), 3 => matches!(wide_safe::limited_equiv(10_000_000u64, a, b), Ok(true)),
        4 => robust::equiv(a, b), _ => robust::precheck_equiv(a, b),
    }
}
fn c17(t: &mut T) -> R {
    let exe = std::env::current_exe().unwrap();
    for (case, (f, s)) in c17_cases().into_iter().enumerate() {
        t.nontrivial += 1;
        t.now(format!("{} on a {} of size 300000, in a thread with 128 KiB of stack", C17_FNS[f], C17_SHAPES[s]));
        let mut c = std::process::Command::new(&exe).args(["C17-case", &case.to_string()]).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn().unwrap();
        let t0 = Instant::now();
        let st = loop { if let Some(s) = c.try_wait().unwrap() { break Some(s) } if t0.elapsed() > Duration::from_secs(50) { let _ = c.kill(); let _ = c.wait(); break None } std::thread::sleep(Duration::from_millis(5)) };
        match st { None => continue, Some(s) if s.code() == Some(0) || s.code() == Some(3) => (), Some(s) => return Err(format!("the process died ({s}): the call stack grew with the size")) }
    }
    Ok(())
}
// ---------------------------------------------------------------- C18 / C19
fn c18(t: &mut T) -> R {
    let made = premade::<Ordering>();
    while t.time_left() {
        let (g, _, _) = { let s = [4, 6, 9][t.r.below(3)]; gen(&mut t.r, Shape::Dag, s, false) };
        let n = g.kids.len();
        let (a, b, c) = (t.r.below(n), t.r.below(n), t.r.below(n));
        for (name, o, f) in &made {
            if o.is_none() { continue }
            t.now(format!("{name}; nodes {}roots {a} {b} {c}", g.show()));
            if a != b && b != c { t.nontrivial += 1 }
            g.reset(FUEL, false);
            let f = |x: usize, y: usize| { let (p, q) = nodes(&g, x, y); f(p, q) };
            let (ab, ba, bc, ac, aa) = (skip!(f(a, b)), skip!(f(b, a)), skip!(f(b, c)), skip!(f(a, c)), skip!(f(a, a)));
            if aa != Ordering::Equal { return Err(format!("({a},{a}) gives {aa:?}")) }
            if ab != ba.reverse() { return Err(format!("({a},{b}) gives {ab:?} but ({b},{a}) gives {ba:?}")) }
            if ab.is_le() && bc.is_le() && (!ac.is_le() || (ac == Ordering::Equal) != (ab == Ordering::Equal && bc == Ordering::Equal)) { return Err(format!("not transitive: {ab:?} {bc:?} {ac:?}")) }
        }
    }
    Ok(())
}
fn c19(t: &mut T) -> R {
    let all = interleaves::<Tag>(); let pre = prechecks::<Tag>(); let made = premade::<Tag>(); let lim = limited::<Tag, u32>();
    macro_rules! ends { ($($t:ident)*) => { $( for i in [<$t>::MIN, <$t>::MIN + 1, 0, 1, <$t>::MAX / 2, <$t>::MAX - 1, <$t>::MAX] {
        t.now(format!("{}::increment of {i}", stringify!($t)));
        if let Run1::Panic(m) = run(|| Step::increment(&i)) { return Err(format!("panicked: {m}")) }
    } )* } }
    ends! { u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize }
    while t.time_left() {
        let cyc = t.r.chance(60);
        let (g, a, b) = some_graph(t, cyc);
        let d = desc(&g, a, b);
        if g.ids[a] != g.ids[b] { t.nontrivial += 1 }
        let s = script(&mut t.r);
        let mut fs: Vec<(String, Box<dyn Fn()>)> = vec![];
        macro_rules! add { ($n:expr, $f:expr) => {{ let g = g.clone(); let f = $f; fs.push(($n, Box::new(move || { let (x, y) = nodes(&g, a, b); let _ = f(x, y); }))) }} }
        let x = t.r.below(all.len()); for (n, f) in &all[x].2 { add!(n.clone(), move |x, y| f(x, y)) }
        let x = t.r.below(pre.len()); for (n, f) in &pre[x].3 { add!(n.clone(), move |x, y| f(x, y)) }
        for (n, o, f) in &made { if !cyc || o.is_none() { add!(n.to_string(), move |x, y| f(x, y)) } }
        for (n, _, f) in &lim { for (ty, l) in [(0, 0u128), (0, 255), (1, 65535), (2, 3), (3, u64::MAX as u128), (4, u128::MAX), (5, 7)] { if !cyc || l < 300 { add!(format!("{n} limit {l}"), move |x, y| f(l, ty, x, y)) } } }
        for (n, f) in fs {
            t.now(format!("{n}; {s}; {d}")); SCRIPT_AT.set(0); let fu = fuel(t); g.reset(fu, false);
            if let Run1::Panic(m) = run(|| f()) { return Err(format!("panicked: {m}")) }
        }
    }
    Ok(())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "C17-case" {
        let case: usize = args[2].parse().unwrap();
        let h = std::thread::Builder::new().stack_size(128 * 1024).spawn(move || c17_case(case)).unwrap();
        match h.join() { Ok(true) => (), _ => std::process::exit(3) }
        return;
    }
    let (prop, seed, secs, casefile) = (args[1].clone(), args[2].parse::<u64>().unwrap(), args[3].parse::<f64>().unwrap(), args[4].clone());
    std::panic::set_hook(Box::new(|i| { if i.payload().is::<OutOfFuel>() { return } *LAST_PANIC.lock().unwrap() = i.to_string().replace('\n', " ") }));
    let hang = 40;
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || {
        let mut t = T { r: Rng(seed.wrapping_mul(0x9E37) ^ prop.bytes().fold(7, |a, b| a * 31 + b as u64)), file: std::fs::File::create(casefile).unwrap(), nontrivial: 0, distinct: HashSet::new(), samples: vec![], start: Instant::now(), secs, evals: 0 };
        let r = match prop.as_str() {
            "C01" => c01(&mut t), "C02" => c02(&mut t), "C03" => order(&mut t, true), "C04" => order(&mut t, false), "C05" => c05(&mut t), "C06" => c06(&mut t),
            "C07" => classes(&mut t, false), "C08" => classes(&mut t, true), "C09" => c09(&mut t), "C10" => c10(&mut t), "C11" => c11(&mut t),
            "C12" => c12(&mut t), "C13" => c13(&mut t), "C14" => c14(&mut t), "C15" => c15(&mut t), "C16" => c16(&mut t), "C17" => c17(&mut t),
            "C18" => c18(&mut t), "C19" => c19(&mut t), "C20" => c20(&mut t), "C21" => c21(&mut t), _ => Err("unknown property".into()),
        };
        (r, t)
    }).unwrap();
    let mut last = (0, Instant::now());
    while !h.is_finished() {
        std::thread::sleep(Duration::from_millis(10));
        let p = PROGRESS.load(AO::Relaxed);
        if p != last.0 { last = (p, Instant::now()) }
        else if last.1.elapsed() > Duration::from_secs(if args[1] == "C17" { 120 } else { hang }) {
            println!("HANG\t{}\tno end within {hang} s", CURRENT.lock().unwrap());
            std::process::exit(1);
        }
    }
    match h.join() {
        Ok((Ok(()), t)) => {
            let esc = |s: &String| s.replace('\\', "\\\\").replace('"', "\\\"");
            let samples: Vec<String> = t.samples.iter().map(|s| format!("\"{}\"", esc(&s.chars().take(600).collect()))).collect();
            println!("OK\t{{\"evaluations\":{},\"distinct\":{},\"nontrivial\":{},\"samples\":[{}]}}", t.evals, t.distinct.len(), t.nontrivial, samples.join(","));
        }
        Ok((Err(e), _)) => { println!("FAIL\t{}\t{e}", CURRENT.lock().unwrap()); std::process::exit(1) }
        Err(_) => { println!("CRASH\t{}\t{}", CURRENT.lock().unwrap(), LAST_PANIC.lock().unwrap()); std::process::exit(2) }
    }
    let _ = CallStack::default;
}
