//! C16: turn costs and forbidden turns. Routes in the expanded network, static, time-dependent and with live data.
use super::query::{all_dists, ask, client, landmarks, queries, Shared as Net, KINDS, Q};
use super::td::{td, td_dense, td_dijkstra_i, Live, PERIOD, TD};
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::ch_potentials::query::{BiDirServer, Server as TopoServer};
use rust_road_router::algo::ch_potentials::td_query::Server as TDServer;
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::customizable_contraction_hierarchy::{query::Server as CchServer, *};
use rust_road_router::algo::dijkstra::query::td_dijkstra::*;
use rust_road_router::algo::dijkstra::query::{bidirectional_dijkstra, dijkstra};
use rust_road_router::algo::dijkstra::{AlternatingDirs, ChooseMinKeyDir, DefaultOps, DijkstraOps};
use rust_road_router::algo::{Query, QueryServer, TDQuery, TDQueryServer};
use rust_road_router::datastr::graph::time_dependent::{LiveTDGraph, PessimisticLiveTDGraph};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::util::in_range_option::InRangeOption;
use std::collections::HashMap;

/// network whose nodes are the edges of `g` and whose arcs are the allowed turns; the weight of an arc is that of its edge and the turn
struct Turns {
    exp: G,
    /// cost of each arc
    cost: Vec<u32>,
}

fn allowed(r: &mut Rng, g: &G) -> Vec<(u32, u32)> {
    let p = *r.pick(&[0.0, 0.0, 0.1, 0.4, 0.7]);
    let uturns = r.chance(0.4);
    let mut v = vec![];
    for e in 0..g.m() {
        for f in g.edges_of(g.head[e] as usize) {
            if (uturns || g.head[f] != g.tail[e]) && !r.chance(p) {
                v.push((e as u32, f as u32));
            }
        }
    }
    v
}

fn expand(g: &G, turns: &[(u32, u32)], cost: Vec<u32>) -> Turns {
    let coord = |c: &[f32]| g.tail.iter().map(|&v| c[v as usize]).collect::<Vec<_>>();
    let mut exp = G { n: g.m(), first_out: vec![0; g.m() + 1], lat: coord(&g.lat), lng: coord(&g.lng), ..Default::default() };
    for (i, &(e, f)) in turns.iter().enumerate() {
        exp.first_out[e as usize + 1] += 1;
        exp.tail.push(e);
        exp.head.push(f);
        exp.weight.push(g.weight[e as usize] + cost[i]);
    }
    for e in 0..g.m() {
        exp.first_out[e + 1] += exp.first_out[e];
    }
    Turns { exp, cost }
}

fn costs(r: &mut Rng, turns: &[(u32, u32)], scale: u32) -> Vec<u32> {
    let p = *r.pick(&[0.0, 0.0, 0.3, 1.0]);
    turns.iter().map(|_| if r.chance(p) { r.below(scale as u64 + 1) as u32 } else { 0 }).collect()
}

fn callback<'a>(map: &'a HashMap<(u32, u32), u32>) -> impl FnMut(EdgeId, EdgeId) -> Option<Weight> + 'a {
    move |e, f| map.get(&(e, f)).copied()
}

const TURN_KINDS: &[&str] = &[
    "A*, turn potential",
    "bidirectional A*, turn potentials, symmetric",
    "bidirectional A*, turn potentials, average",
    "A* on the topological core, turn potential",
    "bidirectional A* skipping nodes, turn potentials, symmetric",
    "bidirectional A* skipping nodes, turn potentials, average",
];

/// `road`: the network without turns, `bounds`: lower bounds on it
fn turn_client(c: &Net, road: &OwnedGraph, bounds: &CCHPotData, kind: usize, qs: &[Q], seed: u64) -> R {
    if kind >= TURN_KINDS.len() {
        return client(c, kind - TURN_KINDS.len(), qs, seed);
    }
    let n = TURN_KINDS[kind];
    let (g, w, dist) = (c.g, c.w, c.dist);
    let fw = || TurnExpandedPotential::new(road, bounds.forward_potential());
    let bw = || TurnExpandedPotential::new(road, bounds.backward_potential());
    match kind {
        0 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, fw());
            ask!(n, s, qs, g, w, dist)
        }
        1 => {
            let p = SymmetricBiDirPotential::<_, _>::new(RecyclingPotential::new(fw()), bw());
            let mut s = bidirectional_dijkstra::Server::<_, _, _, ChooseMinKeyDir>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        2 => {
            let p = AveragePotential::<_, _, true>::new(fw(), RecyclingPotential::new(bw()));
            let mut s = bidirectional_dijkstra::Server::<_, _, _, AlternatingDirs>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        3 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, true, true, true>::new(c.og, RecyclingPotential::new(fw()), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        4 => {
            let mut s = BiDirServer::<_, AlternatingDirs>::new(c.og, SymmetricBiDirPotential::<_, _>::new(fw(), bw()));
            ask!(n, s, qs, g, w, dist)
        }
        _ => {
            let mut s = BiDirServer::<_, ChooseMinKeyDir>::new(c.og, AveragePotential::<_, _, false>::new(fw(), bw()));
            ask!(n, s, qs, g, w, dist)
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    if ctx.rng.chance(0.6) {
        fixed(ctx)
    } else {
        dependent(ctx)
    }
}

fn fixed(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[5usize, 10, 20, 40]);
    let multi = ctx.rng.chance(0.3);
    let zero = ctx.rng.chance(0.2);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi, zero, isolated: true });
    if ctx.rng.chance(0.6) {
        g = largest_scc(&g);
    }
    let turns = allowed(&mut ctx.rng, &g);
    if turns.is_empty() || g.m() > 250 {
        return Err("skip".into());
    }
    let epochs = ctx.rng.us(1, 3);
    let mut roads = vec![];
    for _ in 0..epochs {
        let style = ctx.rng.below(5);
        for w in &mut g.weight {
            if style < 4 {
                *w = rand_weight(&mut ctx.rng, style, zero);
            } else if ctx.rng.chance(0.2) {
                *w = (*w).saturating_mul(ctx.rng.range(2, 10) as u32).min(10_000_000);
            }
        }
        let scale = *ctx.rng.pick(&[1u32, 100, 10_000]);
        let c = costs(&mut ctx.rng, &turns, scale);
        roads.push((g.clone(), expand(&g, &turns, c)));
    }
    let road_ord = NodeOrder::from_node_order(order(&mut ctx.rng, &g));
    let ord = NodeOrder::from_node_order(order(&mut ctx.rng, &roads[0].1.exp));
    ctx.swarm(g.m() as f64 * 3000.0 * epochs as f64 + 20_000.0);
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3, 4]);
    ctx.workers(t, t);
    ctx.probe(0, 1);
    let mut op = 0;
    ctx.start();
    nopreempt(true);
    let net: Vec<(OwnedGraph, OwnedGraph)> = roads
        .iter()
        .map(|(g, t)| {
            let map = turns.iter().copied().zip(t.cost.iter().copied()).collect();
            let road = OwnedGraph::new(g.first_out.clone(), g.head.clone(), g.weight.clone());
            let exp = line_graph(&road, callback(&map));
            (road, exp)
        })
        .collect();
    let road_cch = CCH::fix_order_and_build(&net[0].0, road_ord);
    let cch = CCH::fix_order_and_build(&net[0].1, ord.clone());
    let dcch = cch.to_directed_cch();
    nopreempt(false);
    let mut basic = CchServer::new(customize(&cch, &net[0].1));
    let mut directed = CchServer::new(customize_directed(&dcch, &net[0].1));
    let mut next: Option<CustomizedBasic<CCH>> = None;
    for e in 0..epochs {
        nopreempt(true);
        let x = &roads[e].1.exp;
        let dist = all_dists(x, &x.weight);
        let per = *ctx.rng.pick(&[2usize, 5, 9]);
        let main_qs: Vec<Vec<Q>> = (0..2).map(|_| queries(ctx, x.n, per, &mut op)).collect();
        let clients = ctx.rng.us(1, 4);
        let plan: Vec<(usize, Vec<Q>, u64)> = (0..clients)
            .map(|_| {
                let turn = ctx.rng.chance(0.7);
                let kind = if turn { ctx.rng.us(0, TURN_KINDS.len() - 1) } else { TURN_KINDS.len() + ctx.rng.us(0, KINDS.len() - 1) };
                ctx.probe(4 + kind.min(TURN_KINDS.len()), 1);
                (kind, queries(ctx, x.n, per, &mut op), ctx.rng.next())
            })
            .collect();
        ctx.probe(2, (per * (clients + 2)) as u64);
        let alt = landmarks(&mut ctx.rng, &net[e].1, x.n);
        let low = super::query::lower_metric(&mut ctx.rng, &x.weight);
        let road_low = super::query::lower_metric(&mut ctx.rng, &roads[e].0.weight);
        let ahead = e + 1 < epochs && ctx.rng.chance(0.5);
        nopreempt(false);
        if e > 0 {
            match next.take() {
                Some(c) => basic.update(c),
                None => basic.update(customize(&cch, &net[e].1)),
            }
            directed.update(customize_directed(&dcch, &net[e].1));
        }
        let data = CCHPotData::new(&cch, &net[e].1);
        let low = CCHPotData::new(&cch, &BorrowedGraph::new(&x.first_out, &x.head, &low));
        let bounds = CCHPotData::new(&road_cch, &BorrowedGraph::new(&g.first_out, &g.head, &road_low));
        let c = Net { g: x, w: &x.weight, og: &net[e].1, cch: &cch, data: &data, dist: &dist, ord: &ord, alt: &alt, low: &low };
        let (c, bounds, cch, net) = (&c, &bounds, &cch, &net);
        let mut ready = None;
        std::thread::scope(|sc| -> R {
            let hs: Vec<_> = plan.iter().map(|(kind, qs, seed)| sc.spawn(move || turn_client(c, &net[e].0, bounds, *kind, qs, *seed))).collect();
            let up = ahead.then(|| sc.spawn(move || customize(cch, &net[e + 1].1)));
            let mine = (|| -> R {
                ask!("CCH with turns", basic, &main_qs[0], x, &x.weight, dist);
                ask!("CCH with turns, directed", directed, &main_qs[1], x, &x.weight, dist);
                Ok(())
            })();
            let mut out = mine;
            for h in hs {
                let r = h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
                out = out.and(r);
            }
            ready = up.map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)));
            out
        })?;
        next = ready;
    }
    nopreempt(true);
    Ok(())
}

#[derive(Clone)]
struct TQ {
    s: usize,
    t: usize,
    dep: u32,
    keep: bool,
}

fn td_check(what: &str, x: &Turns, eval: &dyn Fn(usize, u32) -> u32, q: &TQ, got: Option<(u32, Vec<u32>)>) -> R {
    let want = td_dijkstra_i(&x.exp, &|a, now| eval(x.exp.tail[a] as usize, now) + x.cost[a], q.s, q.dep)[q.t];
    let name = format!("{}: from edge {} to edge {} at {} ms", what, q.s, q.t, q.dep);
    let (d, p) = match got {
        None if want >= INF => return Ok(()),
        None => return Err(format!("wrong-distance: {}: expected arrival {}, got no route", name, want)),
        Some(x) => x,
    };
    if q.dep + d != want {
        return Err(format!("wrong-distance: {}: expected arrival {}, got {}", name, want, q.dep + d));
    }
    if q.s == q.t {
        return Ok(());
    }
    if p.first() != Some(&(q.s as u32)) || p.last() != Some(&(q.t as u32)) {
        return Err(format!("wrong-path: {}: {:?}", name, p));
    }
    let mut now = q.dep;
    for w in p.windows(2) {
        match x.exp.edges_of(w[0] as usize).find(|&a| x.exp.head[a] == w[1]) {
            None => return Err(format!("wrong-path: {}: no turn from {} to {}", name, w[0], w[1])),
            Some(a) => now += eval(w[0] as usize, now) + x.cost[a],
        }
    }
    if now != want {
        return Err(format!("wrong-path: {}: path takes until {}, not {}", name, now, want));
    }
    Ok(())
}

fn td_client<GG, O>(what: &str, x: &Turns, eval: &dyn Fn(usize, u32) -> u32, exp: &GG, road: &OwnedGraph, bounds: &CCHPotData, kind: usize, qs: &[TQ]) -> R
where
    O: DijkstraOps<GG, Label = u32> + Default,
    GG: LinkIterable<NodeIdT> + LinkIterable<O::Arc> + BuildPermutated<GG>,
{
    macro_rules! all {
        ($name:expr, $s:expr) => {
            for q in qs.iter().filter(|q| q.keep) {
                let r = $s.td_query(TDQuery { from: q.s as u32, to: q.t as u32, departure: q.dep });
                let got = r.found().map(|mut f| (f.distance(), if q.s != q.t { f.node_path() } else { vec![] }));
                td_check(&format!("{}, {}", what, $name), x, eval, q, got)?;
            }
        };
    }
    let pot = || TurnExpandedPotential::new(road, bounds.forward_potential());
    match kind {
        0 => {
            let mut s = dijkstra::Server::<GG, O, _, &GG>::new(exp);
            all!("Dijkstra", s)
        }
        1 => {
            let mut s = dijkstra::Server::<GG, O, _, &GG>::with_potential(exp, RecyclingPotential::new(pot()));
            all!("A*", s)
        }
        2 => {
            let mut s = TopoServer::<GG, O, _, true, true, true>::new(exp, RecyclingPotential::new(pot()), O::default());
            all!("A* on the topological core", s)
        }
        3 => {
            let mut s = TopoServer::<GG, O, _, false, true, false>::new_custom(exp, pot(), O::default());
            all!("A* skipping nodes of degree 2", s)
        }
        4 => {
            let mut s: TDServer<GG, O, _, true, true, true> = TDServer::new(exp, pot(), O::default());
            all!("time-dependent A* on the topological core", s)
        }
        _ => {
            let mut s: TDServer<GG, O, _, false, false, false> = TDServer::new_no_topo(exp, pot(), O::default());
            all!("time-dependent A*", s)
        }
    }
    Ok(())
}

/// all edges have live data until the same point in time and then approach the prediction
fn eval_live(t: &TD, live: Option<u32>, soon: u32, e: usize, x: u32) -> u32 {
    let pred = t.eval_i(e, x);
    match live {
        None => pred,
        Some(l) if x < soon => l,
        Some(l) if t.eval_i(e, soon) < l => pred.max((l + soon).saturating_sub(x)),
        Some(l) => pred.min(l + (x - soon)),
    }
}

fn dependent(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[5usize, 10, 20, 40]);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi: false, zero: false, isolated: true });
    if ctx.rng.chance(0.6) {
        g = largest_scc(&g);
    }
    let turns = allowed(&mut ctx.rng, &g);
    if turns.is_empty() {
        return Err("skip".into());
    }
    let mut t = td(&mut ctx.rng, g);
    if ctx.rng.chance(0.3) {
        t = td_dense(&mut ctx.rng, t.g);
    }
    let road_ord = NodeOrder::from_node_order(order(&mut ctx.rng, &t.g));
    ctx.swarm(t.g.m() as f64 * 5000.0 + 20_000.0);
    let w = *ctx.rng.pick(&[1u32, 2, 2, 3, 4]);
    ctx.workers(w, w);
    ctx.probe(1, 1);
    let epochs = ctx.rng.us(1, 3);
    let m = t.g.m();
    let mut op = 0;
    ctx.start();
    nopreempt(true);
    let dummy = OwnedGraph::new(t.g.first_out.clone(), t.g.head.clone(), vec![0; m]);
    let cch = CCH::fix_order_and_build(&dummy, road_ord);
    for _ in 0..epochs {
        let r = &mut ctx.rng;
        let which = r.below(3) as usize;
        let scale = *r.pick(&[1u32, 1000, 60_000]);
        let cost = costs(r, &turns, scale);
        let map: HashMap<(u32, u32), u32> = turns.iter().copied().zip(cost.iter().copied()).collect();
        let x = expand(&t.g, &turns, cost);
        let now = r.below(PERIOD as u64 - 4 * 3_600_000) as u32;
        let soon = now + r.range(1, 3_600_000) as u32;
        let p = *r.pick(&[0.1, 0.5, 1.0]);
        let mut live = vec![None; m];
        for e in 0..m {
            if which > 0 && r.chance(p) {
                let l = (t.upper(e) as f64 * r.logf(0.1, 10.0)).clamp(1.0, 1e9) as u32;
                let until = if which == 1 { now + r.range(1, 4 * 3_600_000) as u32 } else { soon };
                if which == 2 || l >= t.lower(e) {
                    live[e] = Some((l, until));
                }
            }
        }
        let low: Vec<u32> = (0..m).map(|e| t.lower(e).min(live[e].map_or(INF, |l| l.0))).collect();
        let low = if r.chance(0.5) { low } else { super::query::lower_metric(r, &low) };
        let per = *r.pick(&[2usize, 4, 8]);
        let clients = r.us(1, 4);
        let plan: Vec<(usize, Vec<TQ>)> = (0..clients)
            .map(|_| {
                let kind = ctx.rng.us(0, 5);
                ctx.probe(11 + which, 1);
                ctx.probe(14 + kind, 1);
                let qs = (0..per)
                    .map(|_| {
                        let r = &mut ctx.rng;
                        let dep = if which > 0 && r.chance(0.8) { now + r.below(2 * 3_600_000) as u32 } else { r.below(PERIOD as u64) as u32 };
                        op += 1;
                        let (s, t) = (r.us(0, m - 1), r.us(0, m - 1));
                        TQ { s, t, dep, keep: ctx.keep(op - 1) }
                    })
                    .collect();
                (kind, qs)
            })
            .collect();
        ctx.probe(3, (per * clients) as u64);
        let l = Live { t: &t, live: live.clone() };
        let lt: Vec<Option<u32>> = live.iter().map(|l| l.map(|l| l.0)).collect();
        let (t, x, l, lt, dummy) = (&t, &x, &l, &lt, &dummy);
        nopreempt(false);
        let bounds = CCHPotData::new(&cch, &BorrowedGraph::new(&t.g.first_out, &t.g.head, &low));
        let bounds = &bounds;
        macro_rules! go {
            ($what:expr, $exp:expr, $ops:ty, $eval:expr) => {{
                let exp = &$exp;
                std::thread::scope(|sc| -> R {
                    let hs: Vec<_> = plan.iter().map(|(kind, qs)| sc.spawn(move || td_client::<_, $ops>($what, x, &$eval, exp, dummy, bounds, *kind, qs))).collect();
                    let mut out = Ok(());
                    for h in hs {
                        let r = h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
                        out = out.and(r);
                    }
                    out
                })?
            }};
        }
        match which {
            0 => go!("time-dependent turns", t.integer().line_graph(callback(&map)), TDDijkstraOps, |e: usize, x: u32| t.eval_i(e, x)),
            1 => go!(
                "time-dependent turns, live data per edge",
                PessimisticLiveTDGraph::new(t.integer(), live.iter().map(|l| InRangeOption::new(*l)).collect()).line_graph(callback(&map)),
                PessimisticLiveTDDijkstraOps,
                |e: usize, x: u32| l.eval(e, x)
            ),
            _ => go!(
                "time-dependent turns, live data",
                LiveTDGraph::new(t.integer(), soon, lt.iter().map(|l| InRangeOption::new(*l)).collect()).line_graph(callback(&map)),
                LiveTDDijkstraOps,
                |e: usize, x: u32| eval_live(t, lt[e], soon, e, x)
            ),
        }
        nopreempt(true);
    }
    Ok(())
}
