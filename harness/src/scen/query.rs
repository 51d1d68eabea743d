//! C12: exact answers of every static query server over histories of queries and metric changes, with several client threads.
//! C13: one-to-many algorithms.
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rand::SeedableRng;
use rust_road_router::algo::a_star::*;
use rust_road_router::algo::alt::ALTPotData;
use rust_road_router::algo::ch_potentials::query::{BiDirServer, Server as TopoServer};
use rust_road_router::algo::ch_potentials::*;
use rust_road_router::algo::contraction_hierarchy;
use rust_road_router::algo::customizable_contraction_hierarchy::query::{nearest_neighbor::*, Server as CchServer};
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::dijkstra::query::nearest_neighbor::DijkstraNearestNeighbor;
use rust_road_router::algo::dijkstra::query::{bidirectional_dijkstra, dijkstra};
use rust_road_router::algo::dijkstra::{AlternatingDirs, ChooseMinKeyDir, DefaultOps};
use rust_road_router::algo::hl::HubLabels;
use rust_road_router::algo::rphast::*;
use rust_road_router::algo::{Query, QueryServer};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

#[derive(Clone)]
pub(super) struct Q {
    pub(super) s: usize,
    pub(super) t: usize,
    /// 0: distance only, 1: path, 2: path twice, 3: result thrown away
    pub(super) mode: u32,
    pub(super) keep: bool,
}

pub(super) fn queries(ctx: &mut Ctx, n: usize, count: usize, op: &mut u32) -> Vec<Q> {
    let mut last = (0, 0);
    (0..count)
        .map(|_| {
            let r = &mut ctx.rng;
            let (s, t) = match r.below(10) {
                0 => (last.0, r.us(0, n - 1)),
                1 => (r.us(0, n - 1), last.1),
                2 => (last.1, last.0),
                _ => (r.us(0, n - 1), r.us(0, n - 1)),
            };
            last = (s, t);
            let mode = *r.pick(&[0, 1, 1, 1, 2, 3]);
            *op += 1;
            Q { s, t, mode, keep: ctx.keep(*op - 1) }
        })
        .collect()
}

macro_rules! ask {
    ($name:expr, $server:expr, $qs:expr, $g:expr, $w:expr, $dist:expr) => {
        for q in $qs {
            if !q.keep {
                continue;
            }
            let mut res = $server.query(Query { from: q.s as u32, to: q.t as u32 });
            let d = res.distance();
            let want = $dist[q.s][q.t];
            let fail = |e: String| format!("{} ({}, {:?})", e, $name, q.mode);
            match q.mode {
                0 => check_answer($g, $w, q.s, q.t, want, d, None).map_err(fail)?,
                3 => drop(res),
                k => {
                    for _ in 0..k {
                        let p = res.node_path();
                        if p.is_some() != d.is_some() {
                            return Err(format!("wrong-path: {}: query {}->{}: distance {:?} but path {:?}", $name, q.s, q.t, d, p));
                        }
                        check_answer($g, $w, q.s, q.t, want, d, p.as_deref()).map_err(fail)?;
                    }
                }
            }
        }
    };
}

pub(super) use ask;

pub(super) struct Shared<'a> {
    pub(super) g: &'a G,
    pub(super) w: &'a [u32],
    pub(super) og: &'a OwnedGraph,
    pub(super) cch: &'a CCH,
    pub(super) data: &'a CCHPotData<'a>,
    pub(super) dist: &'a [Vec<u32>],
    pub(super) ord: &'a NodeOrder,
    pub(super) alt: &'a ALTPotData,
    pub(super) low: &'a CCHPotData<'a>,
}

pub(super) const KINDS: &[&str] = &[
    "Dijkstra",
    "A* with CCH potential",
    "A* with recycled CCH potential",
    "A* with exact distances",
    "A* with landmarks",
    "A* with CH potential",
    "bidirectional Dijkstra",
    "bidirectional Dijkstra, alternating",
    "bidirectional A*, symmetric",
    "bidirectional A*, average",
    "bidirectional A*, landmarks, symmetric",
    "bidirectional A*, landmarks, average, alternating",
    "CCH",
    "CH",
    "A* with lower bounds",
    "bidirectional A*, lower bounds, symmetric",
    "bidirectional A*, lower bounds, average",
    "A* on the topological core",
    "A* on the topological core, lower bounds",
    "A* on the topological core, no bounds",
    "A* skipping nodes of degree 2",
    "A* skipping nodes of degree 3",
    "bidirectional A* skipping nodes, symmetric",
    "bidirectional A* skipping nodes, lower bounds, average",
];

pub(super) fn client(c: &Shared, kind: usize, qs: &[Q], seed: u64) -> R {
    let n = KINDS[kind];
    let (g, w, dist) = (c.g, c.w, c.dist);
    match kind {
        0 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::new(c.og);
            let mut r = Rng::new(seed);
            for part in qs.chunks(3) {
                ask!(n, s, part, g, w, dist);
                let v = r.us(0, g.n - 1);
                if r.chance(0.5) {
                    let all = s.one_to_all(v as u32);
                    for t in 0..g.n {
                        let got = all.distance(t as u32);
                        if got != dist[v][t] {
                            return Err(format!("wrong-distance: one to all from {}: {} to {} instead of {}", v, got, t, dist[v][t]));
                        }
                        if got < INF && t != v {
                            let p = all.predecessor(t as u32) as usize;
                            if !g.edges_of(p).any(|e| g.head[e] as usize == t && w[e] < INF && dist[v][p] + w[e] == got) {
                                return Err(format!("wrong-path: one to all from {}: {} is no predecessor of {}", v, p, t));
                            }
                        }
                    }
                } else {
                    let mut sorted: Vec<u32> = dist[v].iter().copied().filter(|&d| d < INF).collect();
                    sorted.sort_unstable();
                    let mut got = vec![];
                    s.ranks(v as u32, |node, d, rank| got.push((node, d, rank)));
                    let want: Vec<(u32, usize)> = (0..).take_while(|&i| 1usize << i <= sorted.len()).map(|i| (sorted[(1usize << i) - 1], i)).collect();
                    if got.iter().map(|x| (x.1, x.2)).collect::<Vec<_>>() != want || got.iter().any(|x| dist[v][x.0 as usize] != x.1) {
                        return Err(format!("wrong-distance: Dijkstra ranks from {}: {:?} instead of {:?}", v, got, want));
                    }
                }
            }
        }
        1 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, c.data.forward_potential());
            ask!(n, s, qs, g, w, dist)
        }
        2 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, RecyclingPotential::new(c.data.forward_potential()));
            ask!(n, s, qs, g, w, dist)
        }
        3 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, RecyclingPotential::new(BaselinePotential::new(c.og)));
            ask!(n, s, qs, g, w, dist)
        }
        4 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, c.alt.forward_potential());
            ask!(n, s, qs, g, w, dist)
        }
        5 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, c.data.ch_forward_potential());
            ask!(n, s, qs, g, w, dist)
        }
        6 => {
            let mut s = bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, ChooseMinKeyDir>::new(c.og.clone());
            ask!(n, s, qs, g, w, dist)
        }
        7 => {
            let mut s = bidirectional_dijkstra::Server::<_, _, BiDirZeroPot, AlternatingDirs>::new(c.og.clone());
            ask!(n, s, qs, g, w, dist)
        }
        8 => {
            let p = SymmetricBiDirPotential::<_, _>::new(c.data.forward_potential(), RecyclingPotential::new(c.data.backward_potential()));
            let mut s = bidirectional_dijkstra::Server::<_, _, _, ChooseMinKeyDir>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        9 => {
            let p = AveragePotential::<_, _, true>::new(c.data.forward_potential(), c.data.backward_potential());
            let mut s = bidirectional_dijkstra::Server::<_, _, _, ChooseMinKeyDir>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        10 => {
            let p = SymmetricBiDirPotential::<_, _>::new(c.alt.forward_potential(), c.alt.backward_potential());
            let mut s = bidirectional_dijkstra::Server::<_, _, _, ChooseMinKeyDir>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        11 => {
            let p = AveragePotential::<_, _, false>::new(c.alt.forward_potential(), c.alt.backward_potential());
            let mut s = bidirectional_dijkstra::Server::<_, _, _, AlternatingDirs>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        12 => {
            let mut s = CchServer::new(customize(c.cch, c.og));
            ask!(n, s, qs, g, w, dist)
        }
        14 => {
            let mut s = dijkstra::Server::<OwnedGraph, DefaultOps, _, &OwnedGraph>::with_potential(c.og, RecyclingPotential::new(c.low.forward_potential()));
            ask!(n, s, qs, g, w, dist)
        }
        15 => {
            let p = SymmetricBiDirPotential::<_, _, true>::new(c.low.forward_potential(), c.low.backward_potential());
            let mut s = bidirectional_dijkstra::Server::<_, _, _, AlternatingDirs>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        16 => {
            let p = AveragePotential::<_, _, true>::new(c.low.forward_potential(), RecyclingPotential::new(c.low.backward_potential()));
            let mut s = bidirectional_dijkstra::Server::<_, _, _, ChooseMinKeyDir>::new_with_potentials(c.og.clone(), p);
            ask!(n, s, qs, g, w, dist)
        }
        17 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, true, true, true>::new(c.og, c.data.forward_potential(), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        18 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, true, true, true>::new(c.og, RecyclingPotential::new(c.low.forward_potential()), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        19 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, true, true, true>::new(c.og, ZeroPotential(), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        20 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, false, true, false>::new_custom(c.og, c.low.forward_potential(), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        21 => {
            let mut s = TopoServer::<OwnedGraph, DefaultOps, _, false, true, true>::new_custom(c.og, c.data.forward_potential(), DefaultOps::default());
            ask!(n, s, qs, g, w, dist)
        }
        22 => {
            let p = SymmetricBiDirPotential::<_, _>::new(c.data.forward_potential(), c.low.backward_potential());
            let mut s = BiDirServer::<_, ChooseMinKeyDir>::new(c.og, p);
            ask!(n, s, qs, g, w, dist)
        }
        23 => {
            let p = AveragePotential::<_, _, true>::new(c.low.forward_potential(), RecyclingPotential::new(c.low.backward_potential()));
            let mut s = BiDirServer::<_, AlternatingDirs>::new(c.og, p);
            ask!(n, s, qs, g, w, dist)
        }
        _ => {
            debug_assert!(kind == 13);
            let ch = contraction_hierarchy::contract(c.og, c.ord.clone());
            let mut s = contraction_hierarchy::query::Server::new(ch, c.ord.clone());
            ask!(n, s, qs, g, w, dist)
        }
    }
    Ok(())
}

pub(super) fn all_dists(g: &G, w: &[u32]) -> Vec<Vec<u32>> {
    (0..g.n).map(|s| crate::model::dijkstra(g, w, s)).collect()
}

pub(super) fn landmarks(r: &mut Rng, og: &OwnedGraph, n: usize) -> ALTPotData {
    let k = r.us(1, 4.min(n));
    match r.below(3) {
        0 => ALTPotData::new(og, (0..k).map(|_| r.us(0, n - 1) as u32).collect()),
        1 => ALTPotData::new(og, ALTPotData::farthest_landmarks(og, k, r.us(0, n - 1) as u32)),
        _ => ALTPotData::new_with_avoid(og, k, &mut rand::rngs::StdRng::seed_from_u64(r.next())),
    }
}

fn metric(r: &mut Rng, g: &G) -> Vec<u32> {
    let style = r.below(5);
    let pinf = if r.chance(0.3) { r.f() * 0.3 } else { 0.0 };
    let zero = r.chance(0.3);
    g.weight.iter().map(|&w| if r.chance(pinf) { INF } else if style == 4 { w } else { rand_weight(r, style, zero) }).collect()
}

/// lower bounds of a metric: itself, scaled, or single edges reduced
pub fn lower_metric(r: &mut Rng, w: &[u32]) -> Vec<u32> {
    match r.below(4) {
        0 => w.to_vec(),
        1 => {
            let f = r.f();
            w.iter().map(|&w| if w < INF { (w as f64 * f) as u32 } else { INF }).collect()
        }
        2 => {
            let p = r.f();
            w.iter().map(|&w| if r.chance(p) { if w < INF { (w as f64 * r.f()) as u32 } else { r.below(1000) as u32 } } else { w }).collect()
        }
        _ => w.iter().map(|&w| w.min(1000)).collect(),
    }
}

pub fn servers(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[6usize, 20, 20, 60, 120]);
    let multi = ctx.rng.chance(0.5);
    let zero = ctx.rng.chance(0.3);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi, zero, isolated: true });
    if ctx.rng.chance(0.5) {
        g = largest_scc(&g);
    }
    if g.m() == 0 {
        return Err("skip".into());
    }
    let epochs = ctx.rng.us(1, 3);
    let metrics: Vec<Vec<u32>> = (0..epochs).map(|_| metric(&mut ctx.rng, &g)).collect();
    let ord = NodeOrder::from_node_order(order(&mut ctx.rng, &g));
    ctx.swarm(g.n as f64 * 2000.0 * epochs as f64 + 20_000.0);
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3, 4]);
    ctx.workers(t, t);
    ctx.probe(0, t as u64);
    let mut op = 0;
    ctx.start();
    let og: Vec<OwnedGraph> = metrics.iter().map(|w| OwnedGraph::new(g.first_out.clone(), g.head.clone(), w.clone())).collect();
    nopreempt(true);
    let cch = CCH::fix_order_and_build(&og[0], ord.clone());
    let dcch = cch.to_directed_cch();
    nopreempt(false);
    let mut basic = CchServer::new(customize(&cch, &og[0]));
    let mut perfect = CchServer::new(customize_perfect(customize(&cch, &og[0])));
    let mut directed = CchServer::new(customize_directed(&dcch, &og[0]));
    let mut next: Option<CustomizedBasic<CCH>> = None;
    for e in 0..epochs {
        nopreempt(true);
        let w = &metrics[e];
        let dist = all_dists(&g, w);
        let per = *ctx.rng.pick(&[2usize, 5, 9]);
        let main_qs: Vec<Vec<Q>> = (0..3).map(|_| queries(ctx, g.n, per, &mut op)).collect();
        let clients = ctx.rng.us(1, 4);
        ctx.probe(1, clients as u64);
        let plan: Vec<(usize, Vec<Q>, u64)> = (0..clients)
            .map(|_| {
                let kind = ctx.rng.us(0, KINDS.len() - 1);
                ctx.probe(3 + kind, 1);
                (kind, queries(ctx, g.n, per, &mut op), ctx.rng.next())
            })
            .collect();
        ctx.probe(2, (per * (clients + 3)) as u64);
        let alt = landmarks(&mut ctx.rng, &og[e], g.n);
        let low = lower_metric(&mut ctx.rng, w);
        let ahead = e + 1 < epochs && ctx.rng.chance(0.5);
        let which = ctx.rng.below(8);
        nopreempt(false);
        if e > 0 {
            match next.take() {
                Some(c) => basic.update(c),
                None => basic.update(customize(&cch, &og[e])),
            }
            if which & 1 == 0 {
                perfect.update(customize_perfect(customize(&cch, &og[e])));
            } else {
                perfect = CchServer::new(customize_perfect(customize(&cch, &og[e])));
            }
            directed.update(customize_directed(&dcch, &og[e]));
        }
        let data = CCHPotData::new(&cch, &og[e]);
        let low = CCHPotData::new(&cch, &BorrowedGraph::new(&g.first_out, &g.head, &low));
        let c = Shared { g: &g, w, og: &og[e], cch: &cch, data: &data, dist: &dist, ord: &ord, alt: &alt, low: &low };
        let c = &c;
        let (cch, og) = (&cch, &og);
        let mut ready = None;
        std::thread::scope(|sc| -> R {
            let hs: Vec<_> = plan.iter().map(|(kind, qs, seed)| sc.spawn(move || client(c, *kind, qs, *seed))).collect();
            let up = ahead.then(|| sc.spawn(move || customize(cch, &og[e + 1])));
            let mine = (|| -> R {
                ask!("CCH", basic, &main_qs[0], &g, w, dist);
                ask!("CCH, perfect customization", perfect, &main_qs[1], &g, w, dist);
                ask!("CCH, directed", directed, &main_qs[2], &g, w, dist);
                Ok(())
            })();
            let mut out = mine;
            for h in hs {
                let r = h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
                out = out.and(r);
            }
            ready = up.map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)));
            out
        })?;
        next = ready;
    }
    nopreempt(true);
    Ok(())
}

const MANY: &[&str] = &["hub labels", "hub labels from CH order", "RPHAST", "SSE RPHAST", "bucket CH", "separator based nearest neighbours", "lazy RPHAST nearest neighbours", "bucket nearest neighbours", "Dijkstra nearest neighbours"];

#[derive(Clone)]
struct Sel {
    targets: Vec<u32>,
    sources: Vec<(u32, usize)>,
    keep: bool,
}

/// the k nearest reachable targets (any choice among equally distant ones)
fn check_nearest(name: &str, dist: &[Vec<u32>], s: u32, targets: &[u32], k: usize, got: &[(u32, u32)]) -> R {
    let mut want: Vec<u32> = targets.iter().map(|&t| dist[s as usize][t as usize]).filter(|&d| d < INF).collect();
    want.sort_unstable();
    want.truncate(k);
    let mut ds: Vec<u32> = got.iter().map(|x| x.0).collect();
    ds.sort_unstable();
    if ds != want {
        return Err(format!("wrong-nearest: {}: {} nearest of {} targets from {}: distances {:?} instead of {:?}", name, k, targets.len(), s, ds, want));
    }
    let mut nodes: Vec<u32> = got.iter().map(|x| x.1).collect();
    nodes.sort_unstable();
    nodes.dedup();
    if nodes.len() != got.len() || got.iter().any(|x| !targets.contains(&x.1) || dist[s as usize][x.1 as usize] != x.0) {
        return Err(format!("wrong-nearest: {}: {} nearest of {} targets from {}: {:?}", name, k, targets.len(), s, got));
    }
    Ok(())
}

fn many(c: &Shared, kind: usize, sels: &[Sel]) -> R {
    let name = MANY[kind];
    let dist = c.dist;
    let cmp = |s: u32, t: u32, got: u32| -> R {
        let want = dist[s as usize][t as usize];
        if got.min(INF) != want {
            return Err(format!("wrong-distance: {}: {} from {} to {} instead of {}", name, got, s, t, want));
        }
        Ok(())
    };
    let cust = c.data.customized();
    let order = c.cch.node_order();
    match kind {
        0 | 1 => {
            let hl = HubLabels::new(&cust.forward_graph(), &cust.backward_graph());
            for x in sels.iter().filter(|x| x.keep) {
                for &(s, _) in &x.sources {
                    for &t in &x.targets {
                        let (a, b) = (order.rank(s), order.rank(t));
                        let d = hl.dist(a, b);
                        cmp(s, t, d.unwrap_or(INF))?;
                        if let Some((hub, via)) = hl.hub_and_dist(a, b) {
                            let h = order.node(hub) as usize;
                            if Some(via) != d || via < INF && dist[s as usize][h] + dist[h][t as usize] != via {
                                return Err(format!("wrong-hub: {} is no hub between {} and {}", h, s, t));
                            }
                        }
                    }
                }
            }
        }
        2 => {
            let mut sel = RPHAST::new(cust.forward_graph(), cust.backward_graph(), order.clone());
            let mut q = RPHASTQuery::new(&sel);
            for x in sels.iter().filter(|x| x.keep) {
                sel.select(&x.targets);
                for &(s, _) in &x.sources {
                    let res = q.query(s, &sel);
                    for &t in &x.targets {
                        cmp(s, t, res.distance(t))?;
                    }
                }
            }
        }
        3 => {
            let mut sel = RPHAST::new(cust.forward_graph(), cust.backward_graph(), order.clone());
            let mut q = SSERPHASTQuery::new(&sel);
            for x in sels.iter().filter(|x| x.keep) {
                sel.select(&x.targets);
                let mut src: Vec<u32> = x.sources.iter().map(|x| x.0).collect();
                src.sort_unstable();
                src.dedup();
                for part in src.chunks(3) {
                    let res = q.query(part, &sel);
                    for &t in &x.targets {
                        for (&s, &d) in part.iter().zip(res.distances(t)) {
                            cmp(s, t, d)?;
                        }
                    }
                }
            }
        }
        4 => {
            let mut p = BucketCHPotential::new(cust.forward_graph(), cust.backward_graph(), order.clone());
            for x in sels.iter().filter(|x| x.keep) {
                p.init(&x.targets);
                for &(s, _) in &x.sources {
                    let res = p.potential(s).to_vec();
                    for (&t, d) in x.targets.iter().zip(res) {
                        cmp(s, t, d)?;
                    }
                }
            }
        }
        5 => {
            let mut nn = SeparatorBasedNearestNeighbor::new(c.cch, c.data.backward_potential());
            for x in sels.iter().filter(|x| x.keep) {
                let mut sel = nn.select_targets(&x.targets);
                for &(s, k) in &x.sources {
                    check_nearest(name, dist, s, &x.targets, k, &sel.query(s, k))?;
                }
            }
        }
        6 => {
            let mut nn = LazyRphastNearestNeighbor::new(c.data.backward_potential());
            for x in sels.iter().filter(|x| x.keep) {
                for &(s, k) in &x.sources {
                    check_nearest(name, dist, s, &x.targets, k, &nn.query(s, &x.targets, k))?;
                }
            }
        }
        7 => {
            let mut nn = BCCHNearestNeighbor::new(cust);
            for x in sels.iter().filter(|x| x.keep) {
                let mut sel = nn.select_targets(&x.targets);
                for &(s, k) in &x.sources {
                    check_nearest(name, dist, s, &x.targets, k, &sel.query(s, k))?;
                }
            }
        }
        _ => {
            let mut nn = DijkstraNearestNeighbor::new(c.og.clone());
            for x in sels.iter().filter(|x| x.keep) {
                let mut sel = nn.select_targets(&x.targets);
                for &(s, k) in &x.sources {
                    check_nearest(name, dist, s, &x.targets, k, &sel.query(s, k))?;
                }
            }
        }
    }
    Ok(())
}

pub fn one_to_many(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[6usize, 20, 60, 120, 200]);
    let multi = ctx.rng.chance(0.3);
    let zero = ctx.rng.chance(0.3);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi, zero, isolated: true });
    if ctx.rng.chance(0.4) {
        g = largest_scc(&g);
    }
    if g.m() == 0 {
        return Err("skip".into());
    }
    let w = metric(&mut ctx.rng, &g);
    let ord = NodeOrder::from_node_order(order(&mut ctx.rng, &g));
    ctx.swarm(g.n as f64 * 3000.0 + 20_000.0);
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3]);
    ctx.workers(t, t);
    ctx.probe(0, t as u64);
    ctx.start();
    nopreempt(true);
    let og = OwnedGraph::new(g.first_out.clone(), g.head.clone(), w.clone());
    let cch = CCH::fix_order_and_build(&og, ord.clone());
    let data = CCHPotData::new(&cch, &og);
    let dist = all_dists(&g, &w);
    let alt = ALTPotData::new(&og, vec![0]);
    let clients = ctx.rng.us(1, 4);
    ctx.probe(1, clients as u64);
    let mut op = 0;
    let plan: Vec<(usize, Vec<Sel>)> = (0..clients)
        .map(|_| {
            let kind = ctx.rng.us(0, MANY.len() - 1);
            ctx.probe(3 + kind, 1);
            let sels = (0..ctx.rng.us(1, 4))
                .map(|_| {
                    let r = &mut ctx.rng;
                    let k = if r.chance(0.2) { r.us(1, g.n) } else { r.logf(1.0, g.n as f64) as usize };
                    let mut targets: Vec<u32> = (0..g.n as u32).collect();
                    if r.chance(0.3) {
                        // targets in one area
                        let o = r.us(0, g.n - k);
                        targets = targets[o..o + k].to_vec();
                    }
                    r.shuffle(&mut targets);
                    targets.truncate(k);
                    let sources = (0..r.us(1, 6)).map(|_| (r.us(0, g.n - 1) as u32, if r.chance(0.1) { r.us(1, k + 2) } else { r.us(1, 5) })).collect();
                    op += 1;
                    Sel { targets, sources, keep: ctx.keep(op - 1) }
                })
                .collect();
            (kind, sels)
        })
        .collect();
    nopreempt(false);
    let c = Shared { g: &g, w: &w, og: &og, cch: &cch, data: &data, dist: &dist, ord: &ord, alt: &alt, low: &data };
    let c = &c;
    let out = std::thread::scope(|sc| -> R {
        let hs: Vec<_> = plan.iter().map(|(kind, sels)| sc.spawn(move || many(c, *kind, sels))).collect();
        let mut out = Ok(());
        for h in hs {
            let r = h.join().unwrap_or_else(|p| std::panic::resume_unwind(p));
            out = out.and(r);
        }
        out
    });
    nopreempt(true);
    out
}
