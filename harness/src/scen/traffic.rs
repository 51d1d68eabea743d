//! C14: routes that use live traffic but stay reasonable in the usual metric (uniformly bounded stretch), under a running clock.
use super::td::{td, td_dijkstra_i, Live, PERIOD, TD};
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::minimal_nonshortest_subpaths::*;
use rust_road_router::algo::traffic_aware::{self, td_live, time_dependent as tta};
use rust_road_router::algo::{Query, TDQuery};
use rust_road_router::datastr::graph::time_dependent::PessimisticLiveTDGraph;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::report::*;
use rust_road_router::util::in_range_option::InRangeOption;
use std::cmp::Reverse;
use std::collections::BinaryHeap;
use std::ops::Range;

const LIMIT: f64 = 10_000.0;

struct World<'a> {
    g: &'a G,
    smooth: Vec<u32>,
    /// usual distances between all nodes
    d: Vec<Vec<u32>>,
    eval: &'a (dyn Fn(usize, u32) -> u32 + Sync),
}

impl World<'_> {
    fn arc(&self, a: u32, b: u32, w: &dyn Fn(usize) -> u32) -> Option<u32> {
        self.g.edges_of(a as usize).filter(|&e| self.g.head[e] == b).map(w).min()
    }
    fn slack(d: u32, eps: f64) -> u32 {
        (d as f64 * eps) as u32
    }
    fn lens(&self, p: &[u32]) -> Option<Vec<u32>> {
        let mut l = vec![0];
        for w in p.windows(2) {
            l.push(l.last().unwrap() + self.arc(w[0], w[1], &|e| self.smooth[e])?);
        }
        Some(l)
    }
    fn bad(&self, p: &[u32], l: &[u32], i: usize, j: usize, eps: f64) -> bool {
        let (d, x) = (self.d[p[i] as usize][p[j] as usize], l[j] - l[i]);
        i != j && (p[i] == p[j] || x - d > Self::slack(d, eps))
    }
    /// some subpath that is too long
    fn violation(&self, p: &[u32], eps: f64) -> Option<(usize, usize)> {
        let l = self.lens(p).unwrap();
        (0..p.len()).flat_map(|i| (i + 1..p.len()).map(move |j| (i, j))).find(|&(i, j)| self.bad(p, &l, i, j, eps))
    }
    fn all_bad(&self, p: &[u32], eps: f64) -> Vec<Range<usize>> {
        let l = self.lens(p).unwrap();
        (0..p.len()).flat_map(|i| (i + 1..p.len()).map(move |j| (i, j))).filter(|&(i, j)| self.bad(p, &l, i, j, eps)).map(|(i, j)| i..j).collect()
    }
    fn live_len(&self, p: &[u32], dep: u32) -> u32 {
        let mut t = dep;
        for w in p.windows(2) {
            t += self.arc(w[0], w[1], &|e| (self.eval)(e, t)).unwrap();
        }
        t
    }
    /// earliest arrival on a route without violation, by enumeration of routes in the order of their lower bounds
    fn best(&self, s: usize, t: usize, dep: u32, lower_to: &[u32], eps: f64) -> Option<u32> {
        let mut q = BinaryHeap::new();
        let mut paths: Vec<(u32, Vec<u32>, Vec<u32>)> = vec![(dep, vec![s as u32], vec![0])];
        q.push(Reverse((dep + lower_to[s], 0usize)));
        let mut n = 0;
        while let Some(Reverse((_, i))) = q.pop() {
            n += 1;
            if n > 4000 {
                return None;
            }
            let (at, p, l) = paths[i].clone();
            let v = *p.last().unwrap();
            if v as usize == t {
                return Some(at);
            }
            let mut heads: Vec<u32> = self.g.edges_of(v as usize).map(|e| self.g.head[e]).collect();
            heads.sort_unstable();
            heads.dedup();
            for h in heads {
                if lower_to[h as usize] >= INF || p.contains(&h) {
                    continue;
                }
                let (mut p2, mut l2) = (p.clone(), l.clone());
                p2.push(h);
                l2.push(l.last().unwrap() + self.arc(v, h, &|e| self.smooth[e]).unwrap());
                let j = p2.len() - 1;
                if (0..j).any(|i| self.bad(&p2, &l2, i, j, eps)) {
                    continue;
                }
                let at2 = at + self.arc(v, h, &|e| (self.eval)(e, at)).unwrap();
                paths.push((at2, p2, l2));
                q.push(Reverse((at2 + lower_to[h as usize], paths.len() - 1)));
            }
        }
        None
    }
    fn is_route(&self, p: &[u32], s: usize, t: usize) -> bool {
        p.first() == Some(&(s as u32)) && p.last() == Some(&(t as u32)) && p.windows(2).all(|w| self.arc(w[0], w[1], &|_| 1).is_some())
    }
}

fn num(v: Option<&ReportingValue>) -> Option<f64> {
    match v {
        Some(ReportingValue::Value(v)) => v.as_f64(),
        _ => None,
    }
}
fn flag(v: Option<&ReportingValue>) -> Option<bool> {
    match v {
        Some(ReportingValue::Value(v)) => v.as_bool(),
        _ => None,
    }
}
fn items(v: Option<&ReportingValue>) -> Vec<&std::collections::BTreeMap<&'static str, ReportingValue>> {
    match v {
        Some(ReportingValue::Collection(c)) => c.iter().filter_map(|x| if let ReportingValue::Object(o) = x { Some(o) } else { None }).collect(),
        _ => vec![],
    }
}

#[derive(Clone)]
struct Q {
    s: usize,
    t: usize,
    dep: u32,
    eps: f64,
    path: Vec<u32>,
    keep: bool,
}

#[derive(Default)]
struct Count {
    queries: u64,
    blocked: u64,
    exact: u64,
    timeouts: u64,
    finders: u64,
}

type Rep = std::collections::BTreeMap<&'static str, ReportingValue>;

/// the answer of one query and what it reported
fn check(w: &World, what: &str, i: usize, q: &Q, ms: f64, ok: bool, rep: &Rep, lower_to: &[u32], exact: bool, fixing: bool, td: bool, paths: &[(f64, Vec<u32>)], c: &mut Count) -> R {
    let name = format!("{}: query {} {}->{} at {} with epsilon {}", what, i, q.s, q.t, q.dep, q.eps);
    c.queries += 1;
    let arr = td_dijkstra_i(w.g, &|e, x| (w.eval)(e, x), q.s, q.dep)[q.t];
    let reachable = arr < INF;
    let failed = flag(rep.get("failed"));
    if ok && !reachable || !fixing && failed.map_or(false, |f| f == ok) {
        return Err(format!("wrong-answer: {}: success {}, reported failed {:?}, reachable {}", name, ok, failed, reachable));
    }
    let iterations = items(rep.get("iterations"));
    let spent: f64 = iterations
        .iter()
        .rev()
        .skip(1)
        .map(|o| num(o.get("exploration_time_ms")).unwrap_or(0.0) + num(o.get("ubs_time_ms")).unwrap_or(0.0))
        .sum();
    if spent > LIMIT + 5.0 {
        return Err(format!("time-limit: {}: another iteration was started after {} ms", name, spent));
    }
    c.blocked += (iterations.len() > 1) as u64;
    let late = ms > LIMIT - 1.0;
    let gave_up = if fixing { failed == Some(true) || !ok } else { !ok };
    if gave_up && reachable && !late && (exact || fixing) {
        return Err(format!("wrong-answer: {}: no route after {} ms although there is one", name, ms));
    }
    c.timeouts += (gave_up && late) as u64;
    for (_, p) in paths {
        if !w.is_route(p, q.s, q.t) {
            return Err(format!("wrong-path: {}: {:?}", name, p));
        }
    }
    if let Some((_, p)) = paths.first() {
        if w.live_len(p, q.dep) != arr {
            return Err(format!("wrong-path: {}: first route {:?} arrives at {} instead of {}", name, p, w.live_len(p, q.dep), arr));
        }
    }
    for (k, (_, p)) in paths.iter().enumerate() {
        if let Some(j) = paths[..k].iter().position(|x| x.1 == *p) {
            return Err(format!("blocked-again: {}: route {:?} of iteration {} was found again in iteration {}", name, p, j, k));
        }
    }
    if !ok || gave_up {
        return Ok(());
    }
    if let Some((_, p)) = paths.last() {
        if let Some((a, b)) = w.violation(p, q.eps) {
            return Err(format!("not-bounded: {}: {:?} is accepted although the part {}..{} is too long", name, p, a, b));
        }
    }
    if (exact || fixing) && q.s != q.t {
        // only the relation to the fastest route is reported
        let base = if td && exact { arr } else { arr - q.dep };
        let got = match num(rep.get("length_increase_percent")) {
            Some(x) => x,
            None => return Err(format!("wrong-answer: {}: no length reported", name)),
        };
        let is = |x: u32| got == (x - if td && exact { 0 } else { q.dep } - base) as f64 / base as f64 * 100.0;
        if exact {
            if let Some(best) = w.best(q.s, q.t, q.dep, lower_to, q.eps) {
                c.exact += 1;
                if !is(best) {
                    return Err(format!("wrong-length: {}: fastest route arrives at {}, fastest bounded route at {}, reported increase {} %", name, arr, best, got));
                }
            }
        } else if got < 0.0 {
            return Err(format!("wrong-length: {}: reported increase {} %", name, got));
        }
    }
    Ok(())
}

fn finders(w: &World, i: usize, q: &Q, tree: &mut MinimalNonShortestSubPaths, sse: &mut MinimalNonShortestSubPathsSSERphast, dij: &mut MinimalNonShortestSubPathsDijkstra) -> R {
    let (p, eps) = (&q.path, q.eps);
    let name = format!("path {} {:?} with epsilon {}", i, p, eps);
    let bad = w.all_bad(p, eps);
    let mut seen = p.clone();
    seen.sort_unstable();
    seen.dedup();
    let simple = seen.len() == p.len();
    let mut least: Vec<Range<usize>> = bad.iter().filter(|r| !bad.iter().any(|o| o != *r && o.start >= r.start && o.end <= r.end)).cloned().collect();
    least.sort_by_key(|r| (r.start, r.end));
    for what in ["naive", "many to many", "tree", "tree, Dijkstra"] {
        let mut got = match what {
            "naive" => tree.find_ubs_violating_subpaths_lazy_rphast_naive(p, eps),
            "many to many" => sse.find_ubs_violating_subpaths_sse_rphast(p, eps),
            "tree" => tree.find_ubs_violating_subpaths(p, eps),
            _ => dij.find_ubs_violating_subpaths(p, eps),
        };
        got.sort_by_key(|r| (r.start, r.end));
        let fine = if what.starts_with("tree") || !simple { got.is_empty() == bad.is_empty() && got.iter().all(|r| bad.contains(r)) } else { got == least };
        if !fine {
            return Err(format!("wrong-subpaths: {} ({}): {:?} instead of {:?}", name, what, got, least));
        }
    }
    if p.len() > 1 && simple {
        let l = w.lens(p).unwrap();
        let whole = *l.last().unwrap();
        let pairs: Vec<(u32, u32)> = (0..p.len()).flat_map(|a| (a + 1..p.len()).map(move |b| (a, b))).map(|(a, b)| (l[b] - l[a], w.d[p[a] as usize][p[b] as usize])).collect();
        let opt = pairs.iter().filter(|x| x.0 != x.1).map(|x| x.0).min().unwrap_or(whole) as f64 / whole as f64;
        let got = tree.local_optimality(p);
        if got != opt {
            return Err(format!("wrong-optimality: {}: local optimality {} instead of {}", name, got, opt));
        }
        let ubs = pairs.iter().map(|x| (x.0 - x.1) as f64 / x.1 as f64).fold(0.0, f64::max) + 1.0;
        let got = tree.suboptimal_stats(p);
        if got != (opt, ubs) {
            return Err(format!("wrong-stretch: {}: local optimality and stretch {:?} instead of {:?}", name, got, (opt, ubs)));
        }
    }
    let start = vtime();
    let r = tree.fix_violating_subpaths(p, eps);
    let ms = (vtime() - start) as f64 / 1e6;
    let (late, fixed) = match &r {
        Ok(x) => (false, x.as_ref()),
        Err(x) => (true, Some(x)),
    };
    if late && ms < LIMIT {
        return Err(format!("wrong-repair: {}: given up after {} ms", name, ms));
    }
    if !late && fixed.is_none() != bad.is_empty() {
        return Err(format!("wrong-repair: {}: {:?}", name, r));
    }
    if let Some(f) = fixed {
        if !w.is_route(f, p[0] as usize, *p.last().unwrap() as usize) {
            return Err(format!("wrong-repair: {}: {:?} is no route", name, f));
        }
        if let (false, Some((a, b))) = (late, w.violation(f, eps)) {
            return Err(format!("wrong-repair: {}: {:?} is returned although the part {}..{} is too long", name, f, a, b));
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[8usize, 14, 25]);
    let multi = ctx.rng.chance(0.2);
    let mut g0 = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi, zero: false, isolated: true });
    if ctx.rng.chance(0.5) {
        // a city with many alternatives of similar length
        let (w, h) = (ctx.rng.us(2, 6), ctx.rng.us(2, 6));
        let mut e = vec![];
        for v in 0..w * h {
            let (x, y) = (v % w, v / w);
            for (ok, u) in [(x + 1 < w, v + 1), (y + 1 < h, v + w), (x + 1 < w && y + 1 < h && ctx.rng.chance(0.2), v + w + 1)] {
                if ok && !ctx.rng.chance(0.05) {
                    e.push((v as u32, u as u32, ctx.rng.range(1, 100) as u32));
                    e.push((u as u32, v as u32, ctx.rng.range(1, 100) as u32));
                }
            }
        }
        g0 = G::from_edges(w * h, &e, (0..w * h).map(|v| (v / w) as f32).collect(), (0..w * h).map(|v| (v % w) as f32).collect());
    }
    if ctx.rng.chance(0.6) {
        g0 = largest_scc(&g0);
    }
    if g0.m() == 0 {
        return Err("skip".into());
    }
    let kinds = ["exact", "heuristic", "fixing", "td exact", "td heuristic", "td fixing", "live exact", "live heuristic", "live fixing", "finders"];
    let kind = ctx.rng.below(10) as usize;
    let near = ctx.rng.chance(0.6);
    let t: TD = td(&mut ctx.rng, g0.clone());
    let t_live = ctx.rng.below(PERIOD as u64 - 7_200_000) as u32;
    let mut live = Live { t: &t, live: vec![None; t.g.m()] };
    if kind >= 6 {
        for e in 0..t.g.m() {
            if ctx.rng.chance(0.4) {
                let l = (t.upper(e) as f64 * ctx.rng.logf(0.2, 10.0)).min(1e8) as u32;
                if l >= t.lower(e) {
                    live.live[e] = Some((l, t_live + ctx.rng.range(1, 3_600_000) as u32));
                }
            }
        }
    }
    // the usual travel times: close to the current ones or not
    let mut smooth: Vec<u32> = (0..t.g.m()).map(|e| t.lower(e)).collect();
    let mut now = smooth.clone();
    if kind < 3 || kind == 9 {
        if near {
            for w in &mut smooth {
                *w = 100 + ctx.rng.below(12) as u32;
            }
        } else {
            smooth = g0.weight.iter().map(|w| (*w).clamp(1, 10_000_000)).collect();
        }
        let p = *ctx.rng.pick(&[0.1, 0.4, 1.0]);
        let jam = *ctx.rng.pick(&[2.0, 5.0, 20.0]);
        now = smooth.iter().map(|&w| if ctx.rng.chance(p) { ((w as f64 * ctx.rng.logf(0.2, jam)) as u32).max(1) } else { w }).collect();
    } else if ctx.rng.chance(0.8) {
        let x = *ctx.rng.pick(&[1.1, 1.6, 5.0]);
        for w in &mut smooth {
            *w = ((*w as f64 * ctx.rng.logf(1.0 / x, x)) as u32).max(1);
        }
    }
    let ord = order(&mut ctx.rng, &t.g);
    let clients = ctx.rng.us(1, 3);
    ctx.swarm(t.g.n as f64 * 20_000.0);
    ctx.sh.step_cap = ctx.sh.step_cap.max(2_000_000_000);
    ctx.workers(1, 4);
    if ctx.rng.chance(0.6) {
        ctx.sh.fault_p[F_CLOCK_JUMP] = ctx.rng.logf(0.0005, 0.1);
    }
    ctx.sh.ns_per_step = ctx.rng.logf(10.0, 20_000.0) as u64;
    let n = t.g.n;
    let eps_of = |r: &mut Rng| *r.pick(&[0.0, 0.02, 0.1, 0.2, 0.5, 1.0, 3.0]);
    let one_eps = ctx.rng.chance(0.5);
    let base_eps = eps_of(&mut ctx.rng);
    let nq = *ctx.rng.pick(&[2usize, 5, 10]);
    let mut work: Vec<Vec<Q>> = vec![];
    let mut id = 0;
    for _ in 0..clients {
        let mut qs = vec![];
        let hubs = [ctx.rng.us(0, n - 1), ctx.rng.us(0, n - 1)];
        for _ in 0..nq {
            let mut q = Q { s: ctx.rng.us(0, n - 1), t: ctx.rng.us(0, n - 1), dep: 0, eps: if one_eps { base_eps } else { eps_of(&mut ctx.rng) }, path: vec![], keep: ctx.keep(id) };
            id += 1;
            if ctx.rng.chance(0.4) {
                q.s = hubs[0];
                q.t = hubs[1];
            }
            if kind >= 3 && kind < 9 {
                q.dep = if kind >= 6 { t_live } else { ctx.rng.below(PERIOD as u64) as u32 };
            }
            if kind == 9 {
                // a random walk, mostly without repeated nodes
                let mut p = vec![q.s as u32];
                let simple = ctx.rng.chance(0.9);
                while p.len() < 30 {
                    let v = *p.last().unwrap() as usize;
                    let next: Vec<u32> = t.g.edges_of(v).map(|e| t.g.head[e]).filter(|h| !simple || !p.contains(h)).collect();
                    if next.is_empty() || ctx.rng.chance(0.03) {
                        break;
                    }
                    p.push(*ctx.rng.pick(&next));
                }
                q.path = p;
            }
            qs.push(q);
        }
        work.push(qs);
    }
    let ev: Box<dyn Fn(usize, u32) -> u32 + Sync> = if kind >= 6 && kind < 9 {
        Box::new(|e, x| live.eval(e, x))
    } else if kind >= 3 && kind < 9 {
        Box::new(|e, x| t.eval_i(e, x))
    } else {
        Box::new(|e, _| now[e])
    };
    let d: Vec<Vec<u32>> = (0..n).map(|v| dijkstra(&t.g, &smooth, v)).collect();
    let w = World { g: &t.g, d, smooth, eval: &*ev };
    // lower bounds of the travel times towards each node
    let (rev, map) = reverse(&t.g);
    let low: Vec<u32> = if kind < 3 || kind == 9 { now.clone() } else { (0..t.g.m()).map(|e| t.lower(e)).collect() };
    let rlow: Vec<u32> = map.iter().map(|&e| low[e]).collect();
    let lower_to: Vec<Vec<u32>> = (0..n).map(|v| dijkstra(&rev, &rlow, v)).collect();
    ctx.probe(5 + kind, 1);
    std::env::set_var("PATH", "");
    ctx.start();
    nopreempt(true);
    let sg = BorrowedGraph::new(&t.g.first_out, &t.g.head, &w.smooth);
    let lg = BorrowedGraph::new(&t.g.first_out, &t.g.head, &low);
    let cch = CCH::fix_order_and_build(&sg, NodeOrder::from_node_order(ord));
    let sdata = CCHPotData::new(&cch, &sg);
    let ldata = CCHPotData::new(&cch, &lg);
    let tg = t.integer();
    let liveg = {
        let mut l = PessimisticLiveTDGraph::new(t.integer(), live.live.iter().map(|l| InRangeOption::new(*l)).collect());
        l.remove_live_faster_than_global_lower();
        l
    };
    nopreempt(false);
    let results: Vec<Result<Count, String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = work
            .iter()
            .map(|qs| {
                #[allow(unused_variables)]
                let (w, sdata, ldata, tg, liveg, lower_to, t, low) = (&w, &sdata, &ldata, &tg, &liveg, &lower_to, &t, &low);
                sc.spawn(move || -> Result<Count, String> {
                    let mut c = Count::default();
                    std::mem::forget(enable_reporting("sim"));
                    let sg = BorrowedGraph::new(&t.g.first_out, &t.g.head, &w.smooth);
                    let lg = BorrowedGraph::new(&t.g.first_out, &t.g.head, low);
                    macro_rules! go {
                        ($server:expr, $exact:expr, $fixing:expr, $td:expr, |$s:ident, $q:ident, $paths:ident| $query:expr) => {{
                            let mut $s = {
                                let _b = block_reporting();
                                $server
                            };
                            for (i, $q) in qs.iter().enumerate().filter(|x| x.1.keep) {
                                let capture = capture_reporting();
                                let start = vtime();
                                let mut $paths: Vec<(f64, Vec<u32>)> = vec![];
                                let ok: Option<()> = $query;
                                let ms = (vtime() - start) as f64 / 1e6;
                                let rep = capture.reported().unwrap();
                                check(w, kinds[kind], i, $q, ms, ok.is_some(), &rep, &lower_to[$q.t], $exact, $fixing, $td, &$paths, &mut c)?;
                            }
                        }};
                    }
                    let q2 = |q: &Q| Query { from: q.s as u32, to: q.t as u32 };
                    let qt = |q: &Q| TDQuery { from: q.s as u32, to: q.t as u32, departure: q.dep };
                    match kind {
                        0 => go!(traffic_aware::TrafficAwareServer::new(sg, lg, sdata, ldata), true, false, false, |s, q, paths| s.query(q2(q), q.eps)),
                        1 => go!(traffic_aware::HeuristicTrafficAwareServer::new(sg, lg, sdata, ldata), false, false, false, |s, q, paths| s.query(q2(q), q.eps, |p| paths.push((0.0, p.to_vec())))),
                        2 => go!(traffic_aware::IterativePathFixing::new(sg, lg, sdata, ldata), false, true, false, |s, q, paths| s.query(q2(q), q.eps)),
                        3 => go!(tta::TDTrafficAwareServer::new(sg, tg, sdata, ldata.forward_potential()), true, false, true, |s, q, paths| s.query(qt(q), q.eps)),
                        4 => go!(tta::HeuristicTDTrafficAwareServer::new(sg, tg, sdata, ldata.forward_potential()), false, false, true, |s, q, paths| s
                            .query(qt(q), q.eps, |p| paths.push((0.0, p.to_vec())))),
                        5 => go!(tta::IterativePathFixing::new(sg, tg, sdata, ldata.forward_potential()), false, true, true, |s, q, paths| s.query(qt(q), q.eps)),
                        6 => go!(td_live::TDTrafficAwareServer::new(sg, liveg, sdata, ldata.forward_potential()), true, false, true, |s, q, paths| s.query(qt(q), q.eps)),
                        7 => go!(td_live::HeuristicTDTrafficAwareServer::new(sg, liveg, sdata, ldata.forward_potential()), false, false, true, |s, q, paths| s
                            .query(qt(q), q.eps, |p| paths.push((0.0, p.to_vec())))),
                        8 => go!(td_live::IterativePathFixing::new(sg, liveg, sdata, ldata.forward_potential()), false, true, true, |s, q, paths| s.query(qt(q), q.eps)),
                        _ => {
                            let mut tree = MinimalNonShortestSubPaths::new(sdata, sg.clone());
                            let mut sse = MinimalNonShortestSubPathsSSERphast::new(sdata, sg.clone());
                            let mut dij = MinimalNonShortestSubPathsDijkstra::new(sg.clone());
                            for (i, q) in qs.iter().enumerate().filter(|x| x.1.keep) {
                                let _b = block_reporting();
                                finders(w, i, q, &mut tree, &mut sse, &mut dij)?;
                                c.finders += 1;
                            }
                        }
                    }
                    Ok(c)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    nopreempt(true);
    for r in results {
        let c = r?;
        for (k, v) in [c.queries, c.blocked, c.exact, c.timeouts, c.finders].into_iter().enumerate() {
            ctx.probe(k, v);
        }
    }
    Ok(())
}
