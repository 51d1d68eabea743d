//! C06/C07: time-dependent routing. CATCHUp customization and queries; time-dependent potentials for A*.
use super::R;
use crate::gen::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::{catchup, TDQuery, TDQueryServer};
use rust_road_router::datastr::graph::floating_time_dependent as ftd;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::io::*;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap};

pub const PERIOD: u32 = 86_400_000;

/// time-dependent network, travel times in ms at departure times in ms
#[derive(Clone)]
pub struct TD {
    pub g: G,
    pub first_ipp: Vec<u32>,
    pub dep: Vec<u32>,
    pub tt: Vec<u32>,
}

impl TD {
    pub fn points(&self, e: usize) -> (&[u32], &[u32]) {
        let r = self.first_ipp[e] as usize..self.first_ipp[e + 1] as usize;
        (&self.dep[r.clone()], &self.tt[r])
    }
    /// the function as the library defines it: a point at 0 and one at the period are added
    fn full(&self, e: usize) -> Vec<(u32, u32)> {
        let (d, t) = self.points(e);
        let mut p: Vec<(u32, u32)> = vec![];
        if d.len() == 1 {
            return vec![(0, t[0])];
        }
        if d[0] != 0 {
            p.push((0, t[0]));
        }
        p.extend(d.iter().copied().zip(t.iter().copied()));
        if p.last().unwrap().0 != PERIOD {
            p.push((PERIOD, t[0]));
        }
        p
    }
    /// travel time in seconds when departing at `t` seconds
    pub fn eval_f(&self, e: usize, t: f64) -> f64 {
        let p = self.full(e);
        if p.len() == 1 {
            return p[0].1 as f64 / 1000.0;
        }
        let x = t.rem_euclid(86_400.0) * 1000.0;
        for w in p.windows(2) {
            let (a, b) = (w[0], w[1]);
            if x <= b.0 as f64 {
                let f = (x - a.0 as f64) / (b.0 - a.0) as f64;
                return (a.1 as f64 + f * (b.1 as f64 - a.1 as f64)) / 1000.0;
            }
        }
        p[0].1 as f64 / 1000.0
    }
    /// integer travel time in ms when departing at `t` ms
    pub fn eval_i(&self, e: usize, t: u32) -> u32 {
        let p = self.full(e);
        if p.len() <= 2 {
            return p[0].1;
        }
        let x = t % PERIOD;
        for w in p.windows(2) {
            let (a, b) = (w[0], w[1]);
            if x == a.0 {
                return a.1;
            }
            if x < b.0 {
                // arrival times are interpolated and rounded down
                let (aa, ba) = ((a.0 + a.1) as u64, (b.0 + b.1) as u64);
                let at = aa + (x - a.0) as u64 * (ba - aa) / (b.0 - a.0) as u64;
                return (at - x as u64) as u32;
            }
        }
        p[0].1
    }
    pub fn lower(&self, e: usize) -> u32 {
        *self.points(e).1.iter().min().unwrap()
    }
    pub fn upper(&self, e: usize) -> u32 {
        *self.points(e).1.iter().max().unwrap()
    }
    pub fn float(&self) -> ftd::TDGraph {
        ftd::TDGraph::new(self.g.first_out.clone(), self.g.head.clone(), self.first_ipp.clone(), self.dep.clone(), self.tt.clone())
    }
    pub fn integer(&self) -> rust_road_router::datastr::graph::time_dependent::TDGraph {
        rust_road_router::datastr::graph::time_dependent::TDGraph::new(self.g.first_out.clone(), self.g.head.clone(), self.first_ipp.clone(), self.dep.clone(), self.tt.clone())
    }
}

/// FIFO travel time functions (slope above -0.9 everywhere, also across midnight)
pub fn td(r: &mut Rng, g: G) -> TD {
    let pconst = *r.pick(&[0.1, 0.4, 0.4, 0.8, 1.0]);
    let maxk = *r.pick(&[3u64, 5, 8, 12]);
    let grid = *r.pick(&[1u64, 1000, 10_000, 60_000, 300_000, 900_000]);
    let (lo, hi) = *r.pick(&[(1.0, 100.0), (1000.0, 100_000.0), (1000.0, 100_000.0), (10_000.0, 1_200_000.0), (60_000.0, 10_000_000.0)]);
    let peaks = r.chance(0.5);
    let congest = *r.pick(&[0.05, 0.5, 2.0, 5.0]);
    let quantum = *r.pick(&[1u64, 100, 1000, 1000]);
    let mut t = TD { g, first_ipp: vec![0], dep: vec![], tt: vec![] };
    for _ in 0..t.g.m() {
        let base = ((r.logf(lo, hi) as u64 / quantum).max(1) * quantum) as u32;
        if r.chance(pconst) {
            t.dep.push(0);
            t.tt.push(base);
        } else {
            let k = r.range(2, maxk) as usize;
            let mut d: Vec<u32> = (0..k)
                .map(|_| {
                    let x = if peaks && r.chance(0.7) { r.range(6 * 3_600_000, 10 * 3_600_000) } else { r.below(PERIOD as u64) };
                    (x / grid * grid) as u32
                })
                .collect();
            if r.chance(0.5) {
                d.push(0);
            }
            d.sort_unstable();
            d.dedup();
            let mut v: Vec<u32> = d
                .iter()
                .map(|_| ((((base as f64 * (1.0 + r.f() * congest)) as u64) / quantum).max(1) * quantum) as u32)
                .collect();
            if r.chance(0.15) {
                let x = v[0];
                v.iter_mut().for_each(|y| *y = x);
            }
            // the point at the period (and at 0) has the value of the first point: clamp backwards until the function is FIFO
            if d.len() > 1 {
                for _ in 0..3 {
                    for i in (0..d.len()).rev() {
                        let (nd, nv) = if i + 1 < d.len() { (d[i + 1], v[i + 1]) } else { (PERIOD, v[0]) };
                        let max = nv as u64 + (nd - d[i]) as u64 * 9 / 10;
                        v[i] = (v[i] as u64).min(max) as u32;
                    }
                }
            }
            t.dep.extend(&d);
            t.tt.extend(&v);
        }
        t.first_ipp.push(t.dep.len() as u32);
    }
    for e in 0..t.g.m() {
        t.g.weight[e] = t.lower(e);
    }
    t
}

/// travel times that change a lot from half hour to half hour during the day: the time windows of the potentials differ
pub fn td_dense(r: &mut Rng, g: G) -> TD {
    let pconst = *r.pick(&[0.0, 0.1, 0.4]);
    let step = *r.pick(&[900_000u32, 1_800_000, 1_800_000, 3_600_000]);
    let (lo, hi) = *r.pick(&[(10_000.0, 2_000_000.0), (100_000.0, 3_000_000.0), (600_000.0, 2_400_000.0)]);
    let pskip = *r.pick(&[0.0, 0.3, 0.7]);
    let mut t = TD { g, first_ipp: vec![0], dep: vec![], tt: vec![] };
    for _ in 0..t.g.m() {
        let c = r.chance(pconst);
        let (mut d, mut v) = (vec![0], vec![r.logf(lo, hi) as u32]);
        let mut x = 5 * 3_600_000;
        while !c && x < 23 * 3_600_000 {
            if !r.chance(pskip) {
                d.push(x);
                v.push(r.logf(lo, hi) as u32);
            }
            x += step;
        }
        for i in (0..d.len()).rev() {
            let (nd, nv) = if i + 1 < d.len() { (d[i + 1], v[i + 1]) } else { (PERIOD, v[0]) };
            v[i] = (v[i] as u64).min(nv as u64 + (nd - d[i]) as u64 * 9 / 10) as u32;
        }
        t.dep.extend(&d);
        t.tt.extend(&v);
        t.first_ipp.push(t.dep.len() as u32);
    }
    for e in 0..t.g.m() {
        t.g.weight[e] = t.lower(e);
    }
    t
}

#[derive(PartialEq, PartialOrd)]
struct F(f64);
impl Eq for F {}
impl Ord for F {
    fn cmp(&self, o: &F) -> std::cmp::Ordering {
        self.0.partial_cmp(&o.0).unwrap()
    }
}

/// earliest arrivals in seconds
pub fn td_dijkstra_f(t: &TD, s: usize, dep: f64) -> Vec<f64> {
    let mut d = vec![f64::INFINITY; t.g.n];
    let mut h = BinaryHeap::new();
    d[s] = dep;
    h.push(Reverse((F(dep), s)));
    while let Some(Reverse((k, v))) = h.pop() {
        if k.0 > d[v] {
            continue;
        }
        for e in t.g.edges_of(v) {
            let nd = k.0 + t.eval_f(e, k.0);
            let x = t.g.head[e] as usize;
            if nd < d[x] {
                d[x] = nd;
                h.push(Reverse((F(nd), x)));
            }
        }
    }
    d
}

pub fn td_case(ctx: &mut Ctx, max_n: usize) -> (TD, Vec<u32>) {
    let r = &mut ctx.rng;
    let g = graph(r, GenOpts { max_n, min_n: 2, multi: false, zero: false, isolated: true });
    let t = td(r, g);
    let ord = order(r, &t.g);
    (t, ord)
}

fn pool(ctx: &mut Ctx) {
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3, 4, 5, 8]);
    let ncpu = if ctx.rng.chance(0.8) { t } else { *ctx.rng.pick(&[1u32, 2, 8, 12]) };
    ctx.workers(t, ncpu);
    ctx.probe(0, t as u64);
}

/// all files below a directory
pub fn dir_bytes(dir: &std::path::Path, pre: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    for f in std::fs::read_dir(dir).unwrap() {
        let f = f.unwrap();
        let name = format!("{}/{}", pre, f.file_name().to_string_lossy());
        if f.file_type().unwrap().is_dir() {
            dir_bytes(&f.path(), &name, out);
        } else {
            let mut b = std::fs::read(f.path()).unwrap();
            if name.ends_with("/metric_ranges") {
                // the entries have padding bytes
                b = b
                    .chunks_exact(std::mem::size_of::<(TRange<u32>, u16, bool)>())
                    .flat_map(|c| {
                        let x: (TRange<u32>, u16, bool) = unsafe { std::ptr::read_unaligned(c.as_ptr() as *const _) };
                        format!("{:?}", x).into_bytes()
                    })
                    .collect();
            }
            out.insert(name, b);
        }
    }
}
pub fn stored<T: Deconstruct>(ctx: &Ctx, name: &str, x: &T) -> BTreeMap<String, Vec<u8>> {
    let dir = format!("{}/{}", ctx.scratch, name);
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    x.deconstruct_to(&dir).unwrap();
    let mut m = BTreeMap::new();
    dir_bytes(std::path::Path::new(&dir), "", &mut m);
    m
}
pub fn same(a: &BTreeMap<String, Vec<u8>>, b: &BTreeMap<String, Vec<u8>>) -> Option<String> {
    if a.keys().ne(b.keys()) {
        return Some("different sets of files".into());
    }
    a.iter().find(|(k, v)| b[*k] != **v).map(|(k, _)| k.clone())
}

pub fn catchup_prop(ctx: &mut Ctx) -> R {
    let big = ctx.rng.chance(0.2);
    let (t, ord) = td_case(ctx, if big { 200 } else { 60 });
    ctx.swarm(t.g.n as f64 * 20_000.0);
    pool(ctx);
    // the progress reporter waits for 3 s at a time: let the clock jump ahead
    if ctx.rng.chance(0.6) {
        ctx.sh.fault_p[F_CLOCK_JUMP] = ctx.rng.logf(0.001, 0.2);
    }
    ctx.sh.ns_per_step = ctx.rng.logf(10.0, 300_000.0) as u64;
    let fg = t.float();
    let cch = CCH::fix_order_and_build(&fg, NodeOrder::from_node_order(ord));
    let concurrent = ctx.rng.chance(0.2);
    ctx.start();
    let cgs: Vec<ftd::CustomizedGraph> = if concurrent {
        ctx.probe(1, 1);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(|| catchup::customize(&cch, &fg))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
        })
    } else {
        vec![catchup::customize(&cch, &fg)]
    };
    nopreempt(true);
    ctx.sh.fault_p[F_CLOCK_JUMP] = 0.0;
    let queries: Vec<(usize, f64, Vec<usize>)> = (0..6)
        .map(|_| {
            let s = ctx.rng.us(0, t.g.n - 1);
            let dep = if ctx.rng.chance(0.3) { ctx.rng.range(0, 95) as f64 * 900.0 } else { ctx.rng.f() * 86_399.0 };
            (s, dep, (0..6).map(|_| ctx.rng.us(0, t.g.n - 1)).collect())
        })
        .collect();
    for cg in &cgs {
        let mut server = catchup::Server::new(&cch, cg);
        for (s, dep, ts) in &queries {
            let want = td_dijkstra_f(&t, *s, *dep);
            for &x in ts {
                ctx.probe(2, 1);
                let q = TDQuery { from: *s as u32, to: x as u32, departure: ftd::Timestamp::new(*dep) };
                check_td(&t, *s, x, *dep, want[x], server.td_query(q))?;
            }
        }
    }
    // schedule independence: the customized shortcuts are the ones of a single worker
    let a = stored(ctx, "a", &cgs[0]);
    ctx.workers(1, 1);
    std::env::set_var("RAYON_NUM_THREADS", "1");
    Ok(()).and_then(|_: ()| {
        let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
        let single = pool.install(|| catchup::customize(&cch, &fg));
        let b = stored(ctx, "b", &single);
        for (i, cg) in cgs.iter().enumerate().skip(1) {
            let c = stored(ctx, &format!("c{}", i), cg);
            if let Some(f) = same(&c, &b) {
                return Err(format!("schedule-dependent: file {} of the customized graph differs from the one of a single worker", f));
            }
        }
        match same(&a, &b) {
            None => Ok(()),
            Some(f) => Err(format!("schedule-dependent: file {} of the customized graph differs from the one of a single worker", f)),
        }
    })
}

const TOL: f64 = 1e-4;

pub fn check_td<P: rust_road_router::algo::PathServer<NodeInfo = (u32, ftd::Timestamp)>>(
    t: &TD,
    s: usize,
    x: usize,
    dep: f64,
    want: f64,
    res: rust_road_router::algo::QueryResult<P, ftd::FlWeight>,
) -> R {
    let what = format!("query {}->{} at {} s", s, x, dep);
    match res.found() {
        None => {
            if want.is_finite() {
                return Err(format!("wrong-distance: {}: expected arrival {}, got no route", what, want));
            }
        }
        Some(mut f) => {
            let got = dep + f64::from(f.distance());
            if (got - want).abs() > TOL {
                return Err(format!("wrong-distance: {}: expected arrival {}, got {}", what, want, got));
            }
            let p = f.node_path();
            if p.first().map(|p| p.0 as usize) != Some(s) || p.last().map(|p| p.0 as usize) != Some(x) {
                return Err(format!("wrong-path: {}: {:?}", what, p));
            }
            let mut now = dep;
            for w in p.windows(2) {
                let e = t.g.edges_of(w[0].0 as usize).find(|&e| t.g.head[e] == w[1].0);
                match e {
                    None => return Err(format!("wrong-path: {}: no edge {}->{}", what, w[0].0, w[1].0)),
                    Some(e) => now += t.eval_f(e, now),
                }
                if (f64::from(w[1].1) - now).abs() > TOL {
                    return Err(format!("wrong-path: {}: node {} is annotated with {:?} but reached at {}", what, w[1].0, w[1].1, now));
                }
            }
            if (now - got).abs() > TOL {
                return Err(format!("wrong-path: {}: path takes until {}, not {}", what, now, got));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07

use rust_road_router::algo::a_star::Potential as _;
use rust_road_router::algo::ch_potentials::td_query::Server as TDServer;
use rust_road_router::algo::ch_potentials::CCHPotData;
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::td_astar::*;
use rust_road_router::datastr::graph::time_dependent::PessimisticLiveTDGraph;
use rust_road_router::datastr::graph::{BorrowedGraph, BuildPermutated, LinkIterable, NodeIdT};
use rust_road_router::util::in_range_option::InRangeOption;

/// network with live traffic: per edge a live travel time valid until a point in time
pub struct Live<'a> {
    pub t: &'a TD,
    pub live: Vec<Option<(u32, u32)>>,
}

impl Live<'_> {
    pub fn eval(&self, e: usize, x: u32) -> u32 {
        let pred = self.t.eval_i(e, x);
        match self.live[e] {
            Some((l, soon)) if x < soon => pred.max(l.min(self.t.eval_i(e, soon).saturating_add(soon - x))),
            _ => pred,
        }
    }
}

/// earliest arrivals in ms
pub fn td_dijkstra_i(g: &G, eval: &dyn Fn(usize, u32) -> u32, s: usize, dep: u32) -> Vec<u32> {
    let mut d = vec![INF; g.n];
    let mut h = BinaryHeap::new();
    d[s] = dep;
    h.push(Reverse((dep, s)));
    while let Some(Reverse((k, v))) = h.pop() {
        if k > d[v] {
            continue;
        }
        for e in g.edges_of(v) {
            let nd = k + eval(e, k);
            let x = g.head[e] as usize;
            if nd < d[x] {
                d[x] = nd;
                h.push(Reverse((nd, x)));
            }
        }
    }
    d
}

struct Q7 {
    s: usize,
    ts: Vec<usize>,
    dep: u32,
}

/// `slack`: allowed detour in ms per edge of the route (potentials computed from rounded functions)
fn check_server(what: &str, g: &G, eval: &dyn Fn(usize, u32) -> u32, qs: &[Q7], slack: u32, ctx: &mut Ctx, query: &mut dyn FnMut(TDQuery<u32>) -> Option<(u32, Vec<u32>)>) -> R {
    for q in qs {
        let want = td_dijkstra_i(g, eval, q.s, q.dep);
        for &x in &q.ts {
            ctx.probe(2, 1);
            let name = format!("{}{}: query {}->{} at {} ms", what, if ctx.sh.user[15] > 0 { if ctx.sh.user[14] > 0 { " (topo,scc)" } else { " (topo)" } } else { "" }, q.s, x, q.dep);
            match query(TDQuery { from: q.s as u32, to: x as u32, departure: q.dep }) {
                None => {
                    if want[x] < INF {
                        return Err(format!("wrong-distance: {}: expected arrival {}, got no route", name, want[x]));
                    }
                }
                Some((d, p)) => {
                    let got = q.dep + d;
                    if q.s == x {
                        if got != q.dep {
                            return Err(format!("wrong-distance: {}: expected arrival {}, got {}", name, q.dep, got));
                        }
                        continue;
                    }
                    if p.first().map(|&p| p as usize) != Some(q.s) || p.last().map(|&p| p as usize) != Some(x) {
                        return Err(format!("wrong-path: {}: {:?}", name, p));
                    }
                    let max = want[x].saturating_add(slack * g.n as u32);
                    if got < want[x] || got > max {
                        return Err(format!("wrong-distance: {}: expected arrival {}, got {}", name, want[x], got));
                    }
                    let mut now = q.dep;
                    for w in p.windows(2) {
                        match g.edges_of(w[0] as usize).find(|&e| g.head[e] == w[1]) {
                            None => return Err(format!("wrong-path: {}: no edge {}->{}", name, w[0], w[1])),
                            Some(e) => now += eval(e, now),
                        }
                    }
                    if now != got {
                        return Err(format!("wrong-path: {}: path takes until {}, not {}", name, now, got));
                    }
                }
            }
        }
    }
    Ok(())
}

/// Estimates must be lower bounds at the times for which A* asks: for the nodes of a best path, no matter what was asked before.
fn check_pot(what: &str, g: &G, eval: &dyn Fn(usize, u32) -> u32, qs: &[Q7], slack: u32, ctx: &mut Ctx, pot: &mut impl TDPotential) -> R {
    for q in qs {
        let ea = td_dijkstra_i(g, eval, q.s, q.dep);
        for &x in &q.ts {
            if ea[x] >= INF || x == q.s || ea[x] - q.dep > PERIOD / 2 {
                continue;
            }
            let mut path = vec![x];
            while *path.last().unwrap() != q.s {
                let v = *path.last().unwrap();
                let u = (0..g.n).find(|&u| ea[u] < INF && !path.contains(&u) && g.edges_of(u).any(|e| g.head[e] as usize == v && ea[u] + eval(e, ea[u]) == ea[v]));
                match u {
                    Some(u) => path.push(u),
                    None => break,
                }
            }
            let mut asks: Vec<(usize, u32, bool)> = path.iter().map(|&v| (v, ea[v], true)).collect();
            for _ in 0..ctx.rng.us(0, 2 * path.len() + 2) {
                let v = ctx.rng.us(0, g.n - 1);
                if ea[v] < ea[x] {
                    asks.push((v, ea[v] + ctx.rng.below((ea[x] - ea[v]) as u64 + 1) as u32, false));
                }
            }
            for i in (1..asks.len()).rev() {
                asks.swap(i, ctx.rng.us(0, i));
            }
            pot.init(q.s as u32, x as u32, q.dep);
            for (v, t, check) in asks {
                let est = pot.potential(v as u32, Some(t));
                let max = (ea[x] - t.min(ea[x])).saturating_add(slack * g.n as u32);
                if check && est.map_or(true, |p| p > max) {
                    return Err(format!(
                        "wrong-distance: {}: query {}->{} at {} ms: the potential of {} at {} is {:?}, but the target is {} away",
                        what,
                        q.s,
                        x,
                        q.dep,
                        v,
                        t,
                        est,
                        ea[x] - t
                    ));
                }
            }
        }
    }
    Ok(())
}

/// Does the best path of the failed query need an arc of the hierarchy which the predicted customization dropped?
fn uses_dropped_shortcut(t: &TD, eval: &dyn Fn(usize, u32) -> u32, cch: &CCH, fg: &ftd::TDGraph, msg: &str) -> bool {
    let q = msg.split("query ").nth(1).unwrap();
    let num = |s: &str| s.chars().take_while(|c| c.is_ascii_digit()).collect::<String>().parse::<usize>().unwrap();
    let (s, x, dep) = (num(q), num(q.split("->").nth(1).unwrap()), num(q.split(" at ").nth(1).unwrap()) as u32);
    let d = td_dijkstra_i(&t.g, eval, s, dep);
    let data = customization::ftd_for_pot::customize::<96>(cch, fg);
    let arc_dropped = |a: u32, b: u32| {
        let (lo, hi) = (a.min(b) as usize, a.max(b));
        let r = cch.first_out()[lo] as usize..cch.first_out()[lo + 1] as usize;
        let e = r.clone().find(|&e| cch.head()[e] == hi).unwrap();
        !if a < b { data.fw_required[e] } else { data.bw_required[e] }
    };
    // backwards along tight edges
    let mut path = vec![x];
    while *path.last().unwrap() != s {
        let v = *path.last().unwrap();
        let u = (0..t.g.n).find(|&u| d[u] < INF && !path.contains(&u) && t.g.edges_of(u).any(|e| t.g.head[e] as usize == v && d[u] + eval(e, d[u]) == d[v]));
        match u {
            Some(u) => path.push(u),
            None => return false,
        }
    }
    path.reverse();
    let mut p: Vec<u32> = path.iter().map(|&v| cch.node_order().rank(v as u32)).collect();
    loop {
        if p.windows(2).any(|w| arc_dropped(w[0], w[1])) {
            return true;
        }
        match (1..p.len().saturating_sub(1)).filter(|&i| p[i] < p[i - 1] && p[i] < p[i + 1]).min_by_key(|&i| p[i]) {
            Some(i) => drop(p.remove(i)),
            None => return false,
        }
    }
}

fn with_pot<GG, O, P>(what: &str, g: &G, eval: &dyn Fn(usize, u32) -> u32, graph: &GG, pot: P, mkops: fn() -> O, topo: bool, qs: &[Q7], slack: u32, ctx: &mut Ctx) -> R
where
    O: DijkstraOps<GG, Label = u32>,
    GG: LinkIterable<NodeIdT> + LinkIterable<O::Arc> + BuildPermutated<GG>,
    P: TDPotential,
{
    if topo {
        let mut s: TDServer<GG, O, P, true, true, true> = TDServer::new(graph, pot, mkops());
        check_server(what, g, eval, qs, slack, ctx, &mut |q| s.td_query(q).found().map(|mut f| (f.distance(), if q.from != q.to { f.node_path() } else { vec![] })))
    } else {
        let mut s: TDServer<GG, O, P, false, false, false> = TDServer::new_no_topo(graph, pot, mkops());
        check_server(what, g, eval, qs, slack, ctx, &mut |q| s.td_query(q).found().map(|mut f| (f.distance(), if q.from != q.to { f.node_path() } else { vec![] })))
    }
}
use rust_road_router::algo::dijkstra::DijkstraOps;

pub fn pot_prop(ctx: &mut Ctx) -> R {
    let kind = *ctx.rng.pick(&[0u32, 0, 1, 1, 2, 3, 4, 5, 6]);
    let big = ctx.rng.chance(0.2);
    let (mut t, mut ord) = td_case(ctx, if big { 150 } else { 45 });
    let scc = ctx.rng.chance(0.7);
    if scc {
        let g = crate::model::largest_scc(&t.g);
        t = td(&mut ctx.rng, g);
        ord = order(&mut ctx.rng, &t.g);
    }
    ctx.probe(14, scc as u64);
    if t.g.m() == 0 {
        return Err("skip".into());
    }
    if ctx.rng.chance(0.35) && (t.g.n <= 40 || !matches!(kind, 1 | 5 | 6)) {
        t = td_dense(&mut ctx.rng, t.g);
    }
    let reduce = if ctx.rng.chance(0.5) { Some(*ctx.rng.pick(&[1usize, 2, 5, 20])) } else { None };
    // merging metrics compares all pairs of the time windows edge by edge
    let merging = if reduce.is_some() && matches!(kind, 0 | 3 | 4) { t.g.m() as f64 * 60_000.0 } else { 0.0 };
    ctx.swarm(t.g.n as f64 * 20_000.0 + merging);
    ctx.sh.step_cap = ctx.sh.step_cap.max(4_000_000_000);
    pool(ctx);
    if ctx.rng.chance(0.6) {
        ctx.sh.fault_p[F_CLOCK_JUMP] = ctx.rng.logf(0.001, 0.2);
    }
    ctx.sh.ns_per_step = ctx.rng.logf(10.0, 300_000.0) as u64;
    let ig = t.integer();
    let cch = CCH::fix_order_and_build(&ig, NodeOrder::from_node_order(ord));
    let live_kind = kind >= 4 || (kind == 3) || (kind == 2 && ctx.rng.chance(0.5));
    let t_live = if ctx.rng.chance(0.6) { ctx.rng.range(6 * 3_600_000, 9 * 3_600_000) } else { ctx.rng.below(PERIOD as u64 - 3_600_000) } as u32;
    let mut live = Live { t: &t, live: vec![None; t.g.m()] };
    if live_kind {
        let p = *ctx.rng.pick(&[0.05, 0.3, 0.8]);
        let far = *ctx.rng.pick(&[600_000u64, 3_600_000, 3_600_000, 4 * 3_600_000]);
        for e in 0..t.g.m() {
            if ctx.rng.chance(p) {
                let up = t.upper(e) as f64;
                let l = if ctx.rng.chance(0.01) { INF } else { (up * ctx.rng.logf(0.2, 10.0)).min(1e9) as u32 };
                let soon = t_live + if ctx.rng.chance(0.1) { 3_540_000 } else { ctx.rng.range(1, far) as u32 };
                if l >= t.lower(e) {
                    live.live[e] = Some((l, soon));
                }
            }
        }
    }
    let mk_live = || {
        let mut l = PessimisticLiveTDGraph::new(
            t.integer(),
            live.live.iter().map(|l| InRangeOption::new(*l)).collect(),
        );
        l.remove_live_faster_than_global_lower();
        l
    };
    let n = t.g.n;
    let nq = *ctx.rng.pick(&[6u32, 12, 25]);
    let day = matches!(kind, 0 | 3 | 4);
    let qs: Vec<Q7> = (0..nq)
        .map(|_| {
            let s = ctx.rng.us(0, n - 1);
            let dep = if live_kind {
                t_live + if ctx.rng.chance(0.6) { 0 } else { ctx.rng.below(1_800_000) as u32 }
            } else if ctx.rng.chance(0.3) {
                ctx.rng.range(0, 95) as u32 * 900_000
            } else if day && ctx.rng.chance(0.8) {
                // the metrics of MultiMetric cover 6:00 to 22:00
                ctx.rng.range(4 * 3_600_000, 22 * 3_600_000) as u32
            } else {
                ctx.rng.below(PERIOD as u64) as u32
            };
            Q7 { s, dep, ts: (0..5).map(|_| ctx.rng.us(0, n - 1)).collect() }
        })
        .collect();
    // customizing each of the ~110 time windows dominates the cost: mostly use some of them
    let mut windows = ranges();
    if ctx.rng.chance(0.9) {
        let p = *ctx.rng.pick(&[0.05, 0.1, 0.3, 0.5]);
        windows.retain(|_| ctx.rng.chance(p));
    }
    let topo = ctx.rng.chance(0.5);
    ctx.probe(15, topo as u64);
    let reload = ctx.rng.chance(0.3);
    let direct_test = ctx.rng.chance(0.6);
    let ev: Box<dyn Fn(usize, u32) -> u32> = if live_kind { Box::new(|e, x| live.eval(e, x)) } else { Box::new(|e, x| t.eval_i(e, x)) };
    ctx.probe(7 + kind as usize, 1);
    let fg = t.float();
    const TD_OPS: fn() -> TDDijkstraOps = TDDijkstraOps::default;
    const LIVE_OPS: fn() -> PessimisticLiveTDDijkstraOps = PessimisticLiveTDDijkstraOps::default;
    ctx.start();
    std::fs::create_dir_all(&ctx.scratch).unwrap();
    let what = ["multi metric", "interval minimum", "lower bound", "multi metric, simple live", "multi metric, live", "interval minimum, simple live", "interval minimum, live"][kind as usize];
    macro_rules! go {
        ($build:expr, $ty:ty, $graph:expr, $ops:expr, $slack:expr) => {{
            let pot: $ty = $build;
            nopreempt(true);
            ctx.sh.fault_p[F_CLOCK_JUMP] = 0.0;
            let a = stored(ctx, "a", &pot);
            let pot: $ty = if reload { (&cch).reconstruct_from(&format!("{}/a", ctx.scratch)).map_err(|e| format!("reload: {}", e))? } else { pot };
            let g = $graph;
            let mut direct = Ok(());
            if direct_test {
                let mut pot: $ty = (&cch).reconstruct_from(&format!("{}/a", ctx.scratch)).map_err(|e| format!("reload: {}", e))?;
                direct = check_pot(what, &t.g, &*ev, &qs, $slack, ctx, &mut pot);
            }
            if let Err(e) = direct.and_then(|_| with_pot(what, &t.g, &*ev, &g, pot, $ops, topo, &qs, $slack, ctx)) {
                return Err(match e.strip_prefix("wrong-distance: ") {
                    Some(m) if kind >= 5 && uses_dropped_shortcut(&t, &*ev, &cch, &fg, m) => format!("dropped-shortcut: {}", m),
                    _ => e,
                });
            }
            // schedule independence
            ctx.workers(1, 1);
            let pool = rayon::ThreadPoolBuilder::new().num_threads(1).build().unwrap();
            let single: $ty = pool.install(|| $build);
            let b = stored(ctx, "b", &single);
            match same(&a, &b) {
                None => Ok(()),
                Some(f) => Err(format!("schedule-dependent: {}: file {} differs from the one built by a single worker", what, f)),
            }
        }};
    }
    match kind {
        0 => go!(MultiMetric::new(MultiMetricPreprocessed::new(&cch, windows.clone(), &ig, reduce)), MultiMetric, t.integer(), TD_OPS, 0),
        1 => go!(
            IntervalMinPotential::<(u32, u32)>::new(&cch, customization::ftd_for_pot::customize::<96>(&cch, &fg)),
            IntervalMinPotential<(u32, u32)>,
            t.integer(),
            TD_OPS,
            1
        ),
        2 => {
            let lower: Vec<u32> = (0..t.g.m()).map(|e| t.lower(e)).collect();
            let data = CCHPotData::new(&cch, &BorrowedGraph::new(&t.g.first_out, &t.g.head, &lower));
            nopreempt(true);
            if live_kind {
                with_pot(what, &t.g, &*ev, &mk_live(), data.forward_potential(), LIVE_OPS, topo, &qs, 0, ctx)
            } else {
                with_pot(what, &t.g, &*ev, &t.integer(), data.forward_potential(), TD_OPS, topo, &qs, 0, ctx)
            }
        }
        3 => go!(
            {
                let mut m = MultiMetricPreprocessed::new(&cch, windows.clone(), &ig, reduce);
                m.customize_simple_live(&mk_live(), t_live);
                MultiMetric::new(m)
            },
            MultiMetric,
            mk_live(),
            LIVE_OPS,
            0
        ),
        4 => go!(
            {
                let mut m = MultiMetricPreprocessed::new(&cch, windows.clone(), &ig, reduce);
                m.reserve_space_for_additional_metrics(1);
                m.customize_live(&mk_live(), t_live);
                MultiMetric::new(m)
            },
            MultiMetric,
            mk_live(),
            LIVE_OPS,
            0
        ),
        5 => go!(
            IntervalMinPotential::<(u32, u32)>::new_for_simple_live(&cch, customization::ftd_for_pot::customize::<96>(&cch, &fg), &mk_live(), t_live),
            IntervalMinPotential<(u32, u32)>,
            mk_live(),
            LIVE_OPS,
            1
        ),
        _ => go!(
            IntervalMinPotential::<LiveToPredictedBounds>::new_for_live(&cch, customization::ftd_for_pot::customize::<96>(&cch, &fg), &mk_live(), t_live),
            IntervalMinPotential<LiveToPredictedBounds>,
            mk_live(),
            LIVE_OPS,
            1
        ),
    }
}
