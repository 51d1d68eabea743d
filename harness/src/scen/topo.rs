//! C08: bidirectional search with two threads on the topological core.
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::dijkstra::{AlternatingDirs, BidirChooseDir, ChooseMinKeyDir};
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::{BiDirCoreServer, BiDirServer, MultiThreadedBiDirSkipLowDegServer};
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::topocore::*;
use rust_road_router::algo::{Query, QueryServer};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::report::*;
use std::collections::HashSet;

struct Q {
    s: usize,
    t: usize,
    cap: u32,
    pot_cap: Option<u32>,
}

/// one step of a history: the answer of a query
fn check(g: &G, want: u32, q: &Q, got: Option<(u32, Vec<u32>, Vec<EdgeIdT>)>, what: &str) -> R {
    let name = format!("{}: query {}->{} (cap {}, potential cap {:?})", what, q.s, q.t, q.cap, q.pot_cap);
    let relevant = want < q.cap && q.pot_cap.map_or(true, |c| want <= c);
    match got {
        None if relevant && want < INF => Err(format!("wrong-distance: {}: expected {}, got no route", name, want)),
        None => Ok(()),
        Some((d, _, _)) if d < want => Err(format!("wrong-distance: {}: expected {}, got {}", name, want, d)),
        Some((d, _, _)) if relevant && d != want => Err(format!("wrong-distance: {}: expected {}, got {}", name, want, d)),
        Some((d, p, e)) => {
            if p.first() != Some(&(q.s as u32)) || p.last() != Some(&(q.t as u32)) {
                return Err(format!("wrong-path: {}: {:?}", name, p));
            }
            // labels of pruned nodes are only exact for answers within the caps
            let fits = |l: u64| if relevant { l == d as u64 } else { l <= d as u64 };
            if !path_weight(g, &g.weight, &p).map_or(false, fits) {
                return Err(format!("wrong-path: {}: distance {}, but path {:?} has length {:?}", name, d, p, path_weight(g, &g.weight, &p)));
            }
            let mut v = q.s as u32;
            let mut sum = 0u64;
            for &EdgeIdT(e) in &e {
                if e as usize >= g.m() || g.tail[e as usize] != v {
                    return Err(format!("wrong-path: {}: edge {} does not continue the path at {}", name, e, v));
                }
                v = g.head[e as usize];
                sum += g.weight[e as usize] as u64;
            }
            if v != q.t as u32 || !fits(sum) {
                return Err(format!("wrong-path: {}: the edge path {:?} ends at {} after {}", name, e, v, sum));
            }
            Ok(())
        }
    }
}

fn extract(main: &VirtualTopocoreGraph<OwnedGraph>) -> G {
    let mut g = G { n: main.num_nodes(), first_out: vec![0], ..Default::default() };
    for v in 0..g.n {
        for l in LinkIterable::<Link>::link_iter(main, v as u32) {
            g.tail.push(v as u32);
            g.head.push(l.node);
            g.weight.push(l.weight);
        }
        g.first_out.push(g.head.len() as u32);
    }
    g
}

fn threaded<P: BiDirPotential + Clone + Send>(g: &G, main: &VirtualTopocoreGraph<OwnedGraph>, pot: P, qs: &[Q], dist: &[Vec<u32>], ctx: &mut Ctx, what: &str) -> R {
    let mut s = MultiThreadedBiDirSkipLowDegServer::new(main.clone(), pot);
    for (i, q) in qs.iter().enumerate() {
        if !ctx.keep(i as u32) {
            continue;
        }
        let query = Query { from: q.s as u32, to: q.t as u32 };
        let mut r = if q.cap == INF && q.pot_cap.is_none() { s.query(query) } else { s.distance_with_cap(query, q.cap, q.pot_cap) };
        let got = r.found().map(|mut f| (f.distance(), f.node_path(), f.edge_path()));
        ctx.probe(2, 1);
        check(g, dist[i][q.t], q, got, what)?;
    }
    Ok(())
}

fn single<P: BiDirPotential, D: BidirChooseDir>(g: &G, main: &VirtualTopocoreGraph<OwnedGraph>, pot: P, qs: &[Q], dist: &[Vec<u32>], ctx: &mut Ctx, what: &str) -> R {
    let mut s = BiDirCoreServer::<P, D>::new(main.clone(), pot);
    for (i, q) in qs.iter().enumerate() {
        if !ctx.keep(i as u32) {
            continue;
        }
        let query = Query { from: q.s as u32, to: q.t as u32 };
        let mut r = if q.cap == INF && q.pot_cap.is_none() { s.query(query) } else { s.distance_with_cap(query, q.cap, q.pot_cap) };
        let got = r.found().map(|mut f| (f.distance(), f.node_path(), f.edge_path()));
        ctx.probe(2, 1);
        check(g, dist[i][q.t], q, got, what)?;
    }
    Ok(())
}

/// layers with all arcs between neighboring ones, weights nearly equal: many routes of nearly the same length, met at many places
fn near_ties(r: &mut Rng) -> (G, (u32, u32)) {
    let base = *r.pick(&[10u32, 100, 1000]);
    let layers = r.range(2, 5) as usize;
    let mut node = 1u32;
    let mut last = vec![0u32];
    let mut edges = vec![];
    let both = r.chance(0.8);
    for i in 0..=layers {
        let cur: Vec<u32> = (0..if i == layers { 1 } else { r.range(1, 4) as u32 }).map(|j| node + j).collect();
        node += cur.len() as u32;
        let step = *r.pick(&[1u32, base, base]);
        for &a in &last {
            for &b in &cur {
                let w = step + r.below(if step == 1 { 2 } else { 5 }) as u32;
                edges.push((a, b, w));
                if both {
                    edges.push((b, a, w));
                }
            }
        }
        last = cur;
    }
    let end = node - 1;
    // further arcs, so that no node has a low degree
    for v in 0..node {
        if r.chance(0.7) {
            for _ in 0..r.range(1, 3) {
                let x = r.below(node as u64) as u32;
                if x != v && !edges.iter().any(|e| (e.0, e.1) == (v, x) || (e.0, e.1) == (x, v)) {
                    edges.push((v, x, base * 10));
                    edges.push((x, v, base * 10));
                }
            }
        }
    }
    let mut perm: Vec<u32> = (0..node).collect();
    r.shuffle(&mut perm);
    let edges: Vec<_> = edges.iter().map(|e| (perm[e.0 as usize], perm[e.1 as usize], e.2)).collect();
    let g = G::from_edges(node as usize, &edges, (0..node).map(|_| r.f() as f32).collect(), (0..node).map(|_| r.f() as f32).collect());
    (g, (perm[0], perm[end as usize]))
}

pub fn bidir(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[12usize, 40, 40, 150]);
    let zero = ctx.rng.chance(0.2);
    let mut g0 = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi: false, zero, isolated: true });
    if ctx.rng.chance(0.5) {
        g0 = largest_scc(&g0);
    }
    let mut ends = None;
    if ctx.rng.chance(0.4) {
        let (g, e) = near_ties(&mut ctx.rng);
        g0 = g;
        ends = Some(e);
    }
    if g0.m() == 0 {
        return Err("skip".into());
    }
    let ord = order(&mut ctx.rng, &g0);
    ctx.swarm(g0.n as f64 * 1500.0 + 20_000.0);
    ctx.store_buffers();
    ctx.workers(2, 2);
    let og = OwnedGraph::new(g0.first_out.clone(), g0.head.clone(), g0.weight.clone());
    let core = ctx.rng.chance(0.6);
    let kind = ctx.rng.below(6) as u32;
    ctx.probe(7 + kind.min(4) as usize, 1);
    ctx.start();
    nopreempt(true);
    let (main, _, topo) = if core { VirtualTopocoreGraph::new_topo_dijkstra_graphs(&og) } else { VirtualTopocoreGraph::new(&og) };
    let g = extract(&main);
    let nodes: Vec<usize> = (0..g.n).filter(|&v| !core || topo.node_type(v as u32).in_core()).collect();
    if nodes.is_empty() {
        return Err("skip".into());
    }
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(ord));
    let low = super::query::lower_metric(&mut ctx.rng, &g0.weight);
    let data = CCHPotData::new(&cch, &BorrowedGraph::new(&g0.first_out, &g0.head, &low));
    let nq = if ends.is_some() { 60 } else { *ctx.rng.pick(&[3u32, 8, 20]) };
    let mut qs = vec![];
    let mut dist = vec![];
    for _ in 0..nq {
        let (mut s, mut t) = (*ctx.rng.pick(&nodes), *ctx.rng.pick(&nodes));
        if let Some((a, b)) = ends {
            let (a, b) = (topo.order.rank(a) as usize, topo.order.rank(b) as usize);
            if ctx.rng.chance(0.7) && nodes.contains(&a) && nodes.contains(&b) {
                s = a;
                t = b;
            }
        }
        let d = dijkstra(&g, &g.weight, s);
        let mut q = Q { s, t, cap: INF, pot_cap: None };
        if ctx.rng.chance(0.3) && d[t] < INF {
            q.cap = (d[t] as f64 * ctx.rng.pick(&[0.7, 1.0, 1.4])) as u32 + ctx.rng.below(2) as u32;
            if ctx.rng.chance(0.5) {
                q.pot_cap = Some((d[t] as f64 * ctx.rng.pick(&[0.8, 1.0, 1.25])) as u32);
            }
        }
        qs.push(q);
        dist.push(d);
    }
    let perm = |p| RecyclingPotential::new(PotentialForPermutated { order: topo.order.clone(), potential: p });
    nopreempt(false);
    match kind {
        0 => threaded(&g, &main, SymmetricBiDirPotential::<_, _>::new(ZeroPotential(), ZeroPotential()), &qs, &dist, ctx, "zero potentials")?,
        1 => threaded(&g, &main, SymmetricBiDirPotential::<_, _>::new(perm(data.forward_potential()), perm(data.backward_potential())), &qs, &dist, ctx, "symmetric")?,
        2 => threaded(&g, &main, AveragePotential::<_, _, false>::new(perm(data.forward_potential()), perm(data.backward_potential())), &qs, &dist, ctx, "average")?,
        4 => single::<_, ChooseMinKeyDir>(&g, &main, SymmetricBiDirPotential::<_, _>::new(perm(data.forward_potential()), perm(data.backward_potential())), &qs, &dist, ctx, "one thread, symmetric")?,
        5 => single::<_, AlternatingDirs>(&g, &main, AveragePotential::<_, _, true>::new(perm(data.forward_potential()), perm(data.backward_potential())), &qs, &dist, ctx, "one thread, average")?,
        _ => threaded(&g, &main, AveragePotential::<_, _, true>::new(perm(data.forward_potential()), perm(data.backward_potential())), &qs, &dist, ctx, "average, improved pruning")?,
    }
    nopreempt(true);
    Ok(())
}

/// number of shortest paths s -> t (capped at 2) and the edges of one of them, all weights positive
fn shortest(g: &G, dist: &[u32], s: usize, t: usize) -> (u32, HashSet<(u32, u32)>) {
    let mut ord: Vec<usize> = (0..g.n).filter(|&v| dist[v] < INF).collect();
    ord.sort_by_key(|&v| dist[v]);
    let mut cnt = vec![0u32; g.n];
    let mut pred = vec![usize::MAX; g.n];
    cnt[s] = 1;
    for &v in &ord {
        for e in g.edges_of(v) {
            let h = g.head[e] as usize;
            if dist[v] + g.weight[e] == dist[h] {
                cnt[h] = (cnt[h] + cnt[v]).min(2);
                pred[h] = v;
            }
        }
    }
    let mut edges = HashSet::new();
    let mut v = t;
    while v != s {
        edges.insert((pred[v] as u32, v as u32));
        v = pred[v];
    }
    (cnt[t], edges)
}

fn route(g: &G, p: &[u32], s: usize, t: usize, base: u32, name: &str) -> Result<u64, String> {
    if p.first() != Some(&(s as u32)) || p.last() != Some(&(t as u32)) {
        return Err(format!("wrong-alternative: {}: {:?} does not lead from {} to {}", name, p, s, t));
    }
    let l = path_weight(g, &g.weight, p).ok_or_else(|| format!("wrong-alternative: {}: {:?} is no path", name, p))?;
    if l < base as u64 {
        return Err(format!("wrong-alternative: {}: {:?} is shorter than the shortest path", name, p));
    }
    Ok(l)
}

fn unshared(g: &G, p: &[u32], seen: &HashSet<(u32, u32)>) -> u64 {
    p.windows(2).filter(|e| !seen.contains(&(e[0], e[1]))).map(|e| path_weight(g, &g.weight, e).unwrap()).sum()
}

pub fn penalty(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[12usize, 40, 100]);
    let mut g0 = graph(&mut ctx.rng, GenOpts { max_n, min_n: 3, multi: false, zero: false, isolated: true });
    if ctx.rng.chance(0.7) {
        g0 = largest_scc(&g0);
    }
    let scale = *ctx.rng.pick(&[1u32, 1, 50, 100]);
    let even = ctx.rng.chance(0.4);
    for w in &mut g0.weight {
        *w = if even { 1000 + ctx.rng.below(600) as u32 } else { (*w).clamp(1, 100_000) } * scale;
    }
    if g0.m() == 0 {
        return Err("skip".into());
    }
    let ord = order(&mut ctx.rng, &g0);
    ctx.swarm(g0.n as f64 * 4000.0 + 50_000.0);
    ctx.store_buffers();
    ctx.workers(2, 2);
    let single = ctx.rng.chance(0.5);
    let nq = *ctx.rng.pick(&[3u32, 6, 12]);
    std::env::set_var("PATH", "");
    std::mem::forget(enable_reporting("sim"));
    ctx.start();
    nopreempt(true);
    let og = OwnedGraph::new(g0.first_out.clone(), g0.head.clone(), g0.weight.clone());
    let blocked = block_reporting();
    let (main, _, topo) = VirtualTopocoreGraph::new_topo_dijkstra_graphs(&og);
    let core = extract(&main);
    let cch = CCH::fix_order_and_build(&og, NodeOrder::from_node_order(ord));
    let data = CCHPotData::new(&cch, &og);
    let mut many = penalty::Penalty::new(&og, data.forward_potential(), data.backward_potential());
    let mut one = penalty::PenaltyIterative::new(&og, &data);
    drop(blocked);
    nopreempt(false);
    let pool: Vec<usize> = (0..3).map(|_| ctx.rng.below(g0.n as u64) as usize).collect();
    for i in 0..nq {
        let (mut s, mut t) = (ctx.rng.below(g0.n as u64) as usize, ctx.rng.below(g0.n as u64) as usize);
        if ctx.rng.chance(0.5) {
            s = *ctx.rng.pick(&pool);
            t = *ctx.rng.pick(&pool);
        }
        let list = ctx.rng.chance(0.6);
        if !ctx.keep(i) {
            continue;
        }
        let attach = |v: usize| {
            let r = topo.order.rank(v as u32);
            topo.bridge_node(r).unwrap_or(r) as usize
        };
        let (cs, ct) = (attach(s), attach(t));
        let dist = dijkstra(&core, &core.weight, cs);
        let base = dist[ct];
        let (es, et) = (topo.order.node(cs as u32) as usize, topo.order.node(ct as u32) as usize);
        let name = format!("query {} ({}->{}, in the core {}->{})", i, s, t, es, et);
        let query = Query { from: s as u32, to: t as u32 };
        let capture = capture_reporting();
        let mut found = None;
        let mut alternatives = vec![];
        if single {
            let r = one.alternatives(query);
            ctx.probe(1, 1);
            if let Some(p) = r {
                let l = route(&g0, &p, es, et, base, &name)?;
                if l > (base as f64 * 1.25) as u64 {
                    return Err(format!("wrong-alternative: {}: {:?} has length {}, the shortest path {}", name, p, l, base));
                }
                let (n, edges) = shortest(&core, &dist, cs, ct);
                let edges = edges.iter().map(|&(a, b)| (topo.order.node(a), topo.order.node(b))).collect();
                if n == 1 && unshared(&g0, &p, &edges) <= l / 5 {
                    return Err(format!("wrong-alternative: {}: {:?} shares more than 80 % with the shortest path", name, p));
                }
                ctx.probe(2, 1);
            }
        } else if list {
            let r = many.alternatives_iterative(query);
            ctx.probe(3, 1);
            found = Some(r.is_some());
            alternatives = r.unwrap_or_default();
        } else {
            found = Some(many.alternatives(query).is_some());
            ctx.probe(4, 1);
        }
        let reported = capture.reported().unwrap();
        let reported = match reported.get("base_dist") {
            Some(ReportingValue::Value(v)) => v.as_u64().map(|v| v as u32),
            _ => None,
        };
        if reported.unwrap_or(INF) != base {
            return Err(format!("wrong-base: {}: shortest path {}, but reported {:?}", name, base, reported));
        }
        if found.map_or(false, |f| f != (base < INF)) {
            return Err(format!("wrong-base: {}: shortest path {}, but the answer is {:?}", name, base, found));
        }
        if alternatives.len() > 5 {
            return Err(format!("wrong-alternative: {}: {} alternatives", name, alternatives.len()));
        }
        let mut seen = HashSet::new();
        for p in &alternatives {
            let l = route(&g0, p, es, et, base, &name)?;
            if unshared(&g0, p, &seen) <= l / 5 {
                return Err(format!("wrong-alternative: {}: {:?} shares more than 80 % with earlier ones", name, p));
            }
            seen.extend(p.windows(2).map(|e| (e[0], e[1])));
            ctx.probe(2, 1);
        }
    }
    nopreempt(true);
    Ok(())
}
