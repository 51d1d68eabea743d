//! C17: time-dependent sampling and the plain time-dependent Dijkstra (also with its ranks).
use super::td::{td, td_dense, td_dijkstra_f, td_dijkstra_i, PERIOD, TD};
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::floating_td_dijkstra;
use rust_road_router::algo::time_dependent_sampling;
use rust_road_router::algo::{TDQuery, TDQueryServer};
use rust_road_router::datastr::graph::floating_time_dependent as ftd;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

#[derive(Clone)]
struct TQ {
    s: usize,
    t: usize,
    dep: u32,
    ranks: bool,
    keep: bool,
}

/// the time windows of the sampling, in hours
const WINDOWS: [(u32, u32); 4] = [(22, 29), (7, 10), (11, 15), (16, 19)];

/// exact averages of each edge over a window
fn averages(t: &TD, w: (u32, u32)) -> Vec<f64> {
    let hour = PERIOD / 24;
    (0..t.g.m())
        .map(|e| {
            // split at the breakpoints and at midnight
            let mut at = vec![w.0 * hour, w.1 * hour];
            for day in 0..2 {
                at.push(day * PERIOD);
                at.extend(t.points(e).0.iter().map(|d| d + day * PERIOD));
            }
            at.retain(|x| (w.0 * hour..=w.1 * hour).contains(x));
            at.sort_unstable();
            at.dedup();
            let sum: f64 = at.windows(2).map(|p| (t.eval_f(e, p[0] as f64 / 1000.0) + t.eval_f(e, p[1] as f64 / 1000.0)) * 500.0 * (p[1] - p[0]) as f64).sum();
            sum / ((w.1 - w.0) * hour) as f64
        })
        .collect()
}

/// travel time at `dep` along a shortest path of the metric, if it is the only one by a clear margin
fn along_unique(t: &TD, m: &[f64], s: usize, to: usize, dep: u32) -> Option<u32> {
    let rev = |d: &mut Vec<f64>, back: bool, from: usize| {
        d[from] = 0.0;
        loop {
            let mut change = false;
            for e in 0..t.g.m() {
                let (a, b) = if back { (t.g.head[e], t.g.tail[e]) } else { (t.g.tail[e], t.g.head[e]) };
                let x = d[a as usize] + m[e];
                if x < d[b as usize] - 1e-9 {
                    d[b as usize] = x;
                    change = true;
                }
            }
            if !change {
                break;
            }
        }
    };
    let (mut f, mut b) = (vec![f64::INFINITY; t.g.n], vec![f64::INFINITY; t.g.n]);
    rev(&mut f, false, s);
    rev(&mut b, true, to);
    // averages are rounded down to milliseconds
    let slack = t.g.n as f64 * 1.5;
    let (mut v, mut now) = (s, dep);
    while v != to {
        let good: Vec<usize> = t.g.edges_of(v).filter(|&e| f[v] + m[e] + b[t.g.head[e] as usize] <= f[to] + slack).collect();
        // the same neighbour over parallel edges is no other path
        if good.is_empty() || good.iter().any(|&e| t.g.head[e] != t.g.head[good[0]]) {
            return None;
        }
        now += t.g.edges_of(v).filter(|&e| t.g.head[e] == t.g.head[good[0]]).map(|e| t.eval_i(e, now)).min().unwrap();
        v = t.g.head[good[0]] as usize;
    }
    Some(now - dep)
}

fn sample_client(t: &TD, cch: &CCH, avg: &[Vec<f64>], qs: &[TQ]) -> R {
    let mut server = time_dependent_sampling::Server::new(t.integer(), cch);
    let constant = (0..t.g.m()).all(|e| t.lower(e) == t.upper(e));
    for q in qs.iter().filter(|q| q.keep) {
        let name = format!("sampling: {} -> {} at {} ms", q.s, q.t, q.dep);
        let want = td_dijkstra_i(&t.g, &|e, x| t.eval_i(e, x), q.s, q.dep)[q.t];
        let mut r = server.td_query(TDQuery { from: q.s as u32, to: q.t as u32, departure: q.dep });
        let d = match r.distance() {
            None if want >= INF => continue,
            None => return Err(format!("wrong-distance: {}: expected a route, got none", name)),
            Some(_) if want >= INF => return Err(format!("wrong-distance: {}: expected no route", name)),
            Some(d) => d,
        };
        if q.dep + d < want || (constant && q.dep + d != want) {
            return Err(format!("wrong-distance: {}: {}, shortest is {}", name, d, want - q.dep));
        }
        if q.s == q.t {
            if d != 0 {
                return Err(format!("wrong-distance: {}: {}", name, d));
            }
            continue;
        }
        let p = r.node_path().ok_or_else(|| format!("wrong-path: {}: none", name))?;
        if p.first() != Some(&(q.s as u32)) || p.last() != Some(&(q.t as u32)) {
            return Err(format!("wrong-path: {}: {:?}", name, p));
        }
        let mut now = q.dep;
        for w in p.windows(2) {
            match t.g.edges_of(w[0] as usize).filter(|&e| t.g.head[e] == w[1]).map(|e| t.eval_i(e, now)).min() {
                None => return Err(format!("wrong-path: {}: no edge from {} to {}", name, w[0], w[1])),
                Some(x) => now += x,
            }
        }
        if now != q.dep + d {
            return Err(format!("wrong-path: {}: path takes {}, not {}", name, now - q.dep, d));
        }
        for (i, m) in avg.iter().enumerate() {
            if let Some(x) = along_unique(t, m, q.s, q.t, q.dep) {
                if d > x {
                    return Err(format!("wrong-distance: {}: {}, but the shortest path of the window {:?} takes {}", name, d, WINDOWS[i], x));
                }
            }
        }
    }
    Ok(())
}

const EPS: f64 = 0.005;

fn dijkstra_client(t: &TD, qs: &[TQ]) -> R {
    let mut server = floating_td_dijkstra::Server::new(t.float());
    for q in qs.iter().filter(|q| q.keep) {
        let dep = q.dep as f64 / 1000.0;
        let want = td_dijkstra_f(t, q.s, dep);
        let name = format!("time-dependent Dijkstra: {} -> {} at {} s", q.s, q.t, dep);
        if q.ranks {
            let mut seen = vec![];
            server.ranks(q.s as u32, ftd::Timestamp::new(dep), |v, at, rank| seen.push((v as usize, f64::from(at), rank)));
            let reach = want.iter().filter(|d| d.is_finite()).count();
            if seen.len() != (usize::BITS - reach.leading_zeros()) as usize {
                return Err(format!("wrong-rank: {}: {} ranks for {} reachable nodes", name, seen.len(), reach));
            }
            for (i, &(v, at, rank)) in seen.iter().enumerate() {
                let (lo, hi) = (want.iter().filter(|&&d| d < at - EPS).count(), want.iter().filter(|&&d| d <= at + EPS).count());
                if rank != i || (at - want[v]).abs() > EPS || !(lo < 1 << i && 1 << i <= hi) {
                    return Err(format!("wrong-rank: {}: node {} at {} is number {} (expected {}, numbers {} to {})", name, v, at, 1 << rank, want[v], lo + 1, hi));
                }
            }
            continue;
        }
        let mut r = server.td_query(TDQuery { from: q.s as u32, to: q.t as u32, departure: ftd::Timestamp::new(dep) });
        let d = match r.distance() {
            None if want[q.t].is_infinite() => continue,
            None => return Err(format!("wrong-distance: {}: expected {}, got no route", name, want[q.t])),
            Some(d) => f64::from(d),
        };
        if !((dep + d - want[q.t]).abs() <= EPS) {
            return Err(format!("wrong-distance: {}: expected {}, got {}", name, want[q.t], dep + d));
        }
        let p = r.node_path().ok_or_else(|| format!("wrong-path: {}: none", name))?;
        if p.first().map(|x| x.0) != Some(q.s as u32) || p.last().map(|x| x.0) != Some(q.t as u32) {
            return Err(format!("wrong-path: {}: {:?}", name, p));
        }
        let mut now = dep;
        for w in p.windows(2) {
            match t.g.edges_of(w[0].0 as usize).filter(|&e| t.g.head[e] == w[1].0).map(|e| t.eval_f(e, now)).fold(f64::INFINITY, f64::min) {
                x if x.is_finite() => now += x,
                _ => return Err(format!("wrong-path: {}: no edge from {} to {}", name, w[0].0, w[1].0)),
            }
            if (now - f64::from(w[1].1)).abs() > EPS {
                return Err(format!("wrong-path: {}: at {} at {:?}, expected {}", name, w[1].0, w[1].1, now));
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[4usize, 8, 20, 40]);
    let multi = ctx.rng.chance(0.2);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi, zero: false, isolated: true });
    if ctx.rng.chance(0.6) {
        g = largest_scc(&g);
    }
    let dense = ctx.rng.chance(0.5);
    let t = if dense { td_dense(&mut ctx.rng, g) } else { td(&mut ctx.rng, g) };
    let ord = NodeOrder::from_node_order(order(&mut ctx.rng, &t.g));
    ctx.swarm(t.g.m() as f64 * 2000.0 + 20_000.0);
    let w = *ctx.rng.pick(&[1u32, 2, 2, 3, 4]);
    ctx.workers(w, w);
    let clients = ctx.rng.us(1, 4);
    let per = *ctx.rng.pick(&[2usize, 4, 8]);
    let mut op = 0;
    let n = t.g.n;
    let plan: Vec<(bool, Vec<TQ>)> = (0..clients)
        .map(|_| {
            let sampling = ctx.rng.chance(0.6);
            ctx.probe(if sampling { 0 } else { 1 }, per as u64);
            let qs = (0..per)
                .map(|_| {
                    let r = &mut ctx.rng;
                    op += 1;
                    let (s, t, dep, ranks) = (r.us(0, n - 1), r.us(0, n - 1), r.below(PERIOD as u64) as u32, r.chance(0.2));
                    TQ { s, t, dep, ranks, keep: ctx.keep(op - 1) }
                })
                .collect();
            (sampling, qs)
        })
        .collect();
    let avg: Vec<Vec<f64>> = WINDOWS.iter().map(|&w| averages(&t, w)).collect();
    ctx.start();
    nopreempt(true);
    let cch = CCH::fix_order_and_build(&OwnedGraph::new(t.g.first_out.clone(), t.g.head.clone(), vec![0; t.g.m()]), ord);
    nopreempt(false);
    let (t, cch, avg) = (&t, &cch, &avg);
    let out = std::thread::scope(|sc| -> R {
        let hs: Vec<_> = plan.iter().map(|(sampling, qs)| sc.spawn(move || if *sampling { sample_client(t, cch, avg, qs) } else { dijkstra_client(t, qs) })).collect();
        let mut out = Ok(());
        for h in hs {
            let r = h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
            out = out.and(r);
        }
        out
    });
    nopreempt(true);
    out
}
