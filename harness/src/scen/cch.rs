//! C04/C05: parallel CCH customization.
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::customizable_contraction_hierarchy::query::Server;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::{Query, QueryServer};
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;

/// sequential reference customization on ranks: dense triangle relaxation over the contracted graph
pub struct RefCch {
    pub n: usize,
    pub up: Vec<std::collections::BTreeMap<u32, u32>>,   // rank -> (higher rank -> weight)
    pub down: Vec<std::collections::BTreeMap<u32, u32>>, // rank -> (higher rank -> weight of high->low)
}

pub fn ref_customize(g: &G, w: &[u32], first_out: &[u32], head: &[u32], rank: &dyn Fn(u32) -> u32) -> RefCch {
    let n = g.n;
    let mut up = vec![std::collections::BTreeMap::new(); n];
    let mut down = vec![std::collections::BTreeMap::new(); n];
    for v in 0..n {
        for e in first_out[v] as usize..first_out[v + 1] as usize {
            up[v].insert(head[e], INF);
            down[v].insert(head[e], INF);
        }
    }
    for e in 0..g.m() {
        let (a, b) = (rank(g.tail[e]), rank(g.head[e]));
        if a < b {
            let x = up[a as usize].get_mut(&b).unwrap();
            *x = (*x).min(w[e]);
        } else if b < a {
            let x = down[b as usize].get_mut(&a).unwrap();
            *x = (*x).min(w[e]);
        }
    }
    for v in 0..n {
        let nb: Vec<(u32, u32, u32)> = up[v].iter().map(|(&h, &u)| (h, u, down[v][&h])).collect();
        for i in 0..nb.len() {
            for j in i + 1..nb.len() {
                let (a, ua, da) = nb[i];
                let (b, ub, db) = nb[j];
                // a -> v -> b and b -> v -> a; a < b
                if let Some(x) = up[a as usize].get_mut(&b) {
                    let t = (da as u64 + ub as u64).min(INF as u64) as u32;
                    *x = (*x).min(t);
                }
                if let Some(x) = down[a as usize].get_mut(&b) {
                    let t = (db as u64 + ua as u64).min(INF as u64) as u32;
                    *x = (*x).min(t);
                }
            }
        }
    }
    RefCch { n, up, down }
}

pub fn rand_metric(r: &mut Rng, g: &G) -> Vec<u32> {
    let style = r.below(5);
    let pinf = if r.chance(0.3) { r.f() * 0.3 } else { 0.0 };
    let zero = r.chance(0.3);
    // weights close to infinity: sums have to saturate, not overflow or become finite
    let phuge = if r.chance(0.15) { r.f() * 0.5 } else { 0.0 };
    g.weight
        .iter()
        .map(|&w| {
            if r.chance(pinf) {
                INF
            } else if r.chance(phuge) {
                INF - 1 - if r.chance(0.5) { r.below(5) as u32 } else { r.below(INF as u64 - 10) as u32 }
            } else if style == 4 {
                w
            } else {
                rand_weight(r, style, zero)
            }
        })
        .collect()
}

pub fn pairs(r: &mut Rng, n: usize, sources: usize, per: usize) -> Vec<(usize, Vec<usize>)> {
    (0..sources).map(|_| (r.us(0, n - 1), (0..per).map(|_| r.us(0, n - 1)).collect())).collect()
}

fn check_queries<C: Customized>(g: &G, w: &[u32], customized: C, q: &[(usize, Vec<usize>)]) -> R {
    let mut server = Server::new(customized);
    for (s, ts) in q {
        let d = dijkstra(g, w, *s);
        for &t in ts {
            let mut res = server.query(Query { from: *s as u32, to: t as u32 });
            match res.found() {
                Some(mut f) => {
                    let dist = f.distance();
                    let p = f.node_path();
                    check_answer(g, w, *s, t, d[t], Some(dist), Some(&p))?;
                }
                None => check_answer(g, w, *s, t, d[t], None, None)?,
            }
        }
    }
    Ok(())
}

fn check_basic_weights<C: CCHT>(c: &CustomizedBasic<C>, rf: &RefCch, directed: bool) -> R {
    let check = |fo: &[u32], hd: &[u32], wt: &[u32], want: &Vec<std::collections::BTreeMap<u32, u32>>, dir: &str| -> R {
        for v in 0..rf.n {
            let mut seen = 0;
            for e in fo[v] as usize..fo[v + 1] as usize {
                let x = *want[v].get(&hd[e]).ok_or_else(|| format!("wrong-weights: unexpected {} arc {}->{}", dir, v, hd[e]))?;
                let got = wt[e].min(INF);
                seen += 1;
                if got != x {
                    return Err(format!("wrong-weights: {} arc of rank {} to {}: expected {} got {}", dir, v, hd[e], x, wt[e]));
                }
            }
            if !directed && seen != want[v].len() {
                return Err(format!("wrong-weights: {} arcs of rank {}: {} expected, {} found", dir, v, want[v].len(), seen));
            }
        }
        Ok(())
    };
    let f = c.forward_graph();
    check(f.first_out(), f.head(), f.weight(), &rf.up, "upward")?;
    let b = c.backward_graph();
    check(b.first_out(), b.head(), b.weight(), &rf.down, "downward")
}

struct Case {
    g: G,
    cch: CCH,
    metrics: Vec<Vec<u32>>,
    q: Vec<(usize, Vec<usize>)>,
}

fn case(ctx: &mut Ctx, max_n: usize, nmet: usize) -> Case {
    let r = &mut ctx.rng;
    let g = graph(r, GenOpts { max_n, min_n: 2, multi: true, zero: true, isolated: true });
    let ord = order(r, &g);
    let metrics: Vec<Vec<u32>> = (0..nmet).map(|_| rand_metric(r, &g)).collect();
    let q = pairs(r, g.n, 6, 8);
    let cch = CCH::fix_order_and_build(&FirstOutGraph::new(&g.first_out[..], &g.head[..], &g.weight[..]), NodeOrder::from_node_order(ord));
    Case { g, cch, metrics, q }
}

fn pool_config(ctx: &mut Ctx) {
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3, 4, 4, 5, 8]);
    let ncpu = if ctx.rng.chance(0.75) { t } else { *ctx.rng.pick(&[1u32, 2, 3, 8, 12]) };
    ctx.workers(t, ncpu);
    ctx.probe(0, t as u64);
}

/// two or more customizations of one CCH, one after the other or concurrently from several application threads
fn drive<'c, T: Send>(ctx: &mut Ctx, metrics: &[Vec<u32>], f: &(dyn Fn(&[u32]) -> T + Sync)) -> Vec<T> {
    let concurrent = ctx.rng.chance(0.4) && metrics.len() > 1;
    ctx.start();
    let out = if concurrent {
        ctx.probe(1, 1);
        std::thread::scope(|s| {
            let hs: Vec<_> = metrics.iter().map(|m| s.spawn(move || f(m))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
        })
    } else {
        metrics.iter().map(|m| f(m)).collect()
    };
    nopreempt(true);
    out
}

pub fn basic(ctx: &mut Ctx) -> R {
    let nmet = ctx.rng.us(1, 3);
    let big = ctx.rng.chance(0.3);
    let c = case(ctx, if big { 700 } else { 200 }, nmet);
    let est = c.g.n as f64 * 2000.0;
    ctx.swarm(est);
    pool_config(ctx);
    let g = &c.g;
    let mode = ctx.rng.below(3);
    let rank = |v: u32| c.cch.node_order().rank(v);
    let refs: Vec<RefCch> = c.metrics.iter().map(|m| ref_customize(g, m, c.cch.first_out(), c.cch.head(), &rank)).collect();
    if mode < 2 {
        let res = drive(ctx, &c.metrics, &|m| customize(&c.cch, &FirstOutGraph::new(&g.first_out[..], &g.head[..], m)));
        ctx.probe(2, res.len() as u64);
        for ((res, rf), m) in res.into_iter().zip(&refs).zip(&c.metrics) {
            check_basic_weights(&res, rf, false)?;
            check_queries(g, m, res, &c.q)?;
        }
    } else {
        ctx.start();
        let dcch = c.cch.to_directed_cch();
        let res: Vec<_> = c.metrics.iter().map(|m| customize_directed(&dcch, &FirstOutGraph::new(&g.first_out[..], &g.head[..], &m[..]))).collect();
        nopreempt(true);
        ctx.probe(3, res.len() as u64);
        for ((res, rf), m) in res.into_iter().zip(&refs).zip(&c.metrics) {
            check_basic_weights(&res, rf, true)?;
            check_queries(g, m, res, &c.q)?;
        }
    }
    Ok(())
}

/// `exact`: precisely the arcs whose weight is the distance are kept. A directed hierarchy has fewer triangles, there the kept arcs
/// are a superset with the weights of the basic customization, and the result has to be the one of a single worker.
fn check_perfect<C: Customized>(g: &G, m: &[u32], c: &C, rf: &RefCch, node: &dyn Fn(u32) -> u32, exact: bool) -> R {
    // exact distances between the end points of every arc of the hierarchy
    let f = c.forward_graph();
    let b = c.backward_graph();
    let (rg, idx) = reverse(g);
    let rw: Vec<u32> = idx.iter().map(|&e| m[e]).collect();
    for v in 0..rf.n {
        let from = node(v as u32) as usize;
        for (gr, want, dist, dir) in [(&f, &rf.up, dijkstra(g, m, from), "upward"), (&b, &rf.down, dijkstra(&rg, &rw, from), "downward")] {
            let mut got: Vec<(u32, u32)> = (gr.first_out()[v] as usize..gr.first_out()[v + 1] as usize)
                .map(|e| (gr.head()[e], gr.weight()[e]))
                .filter(|x| x.1 < INF)
                .collect();
            got.sort_unstable();
            let exp: Vec<(u32, u32)> = want[v].iter().filter(|(&h, &w)| w < INF && w == dist[node(h) as usize]).map(|(&h, &w)| (h, w)).collect();
            let ok = if exact { got == exp } else { exp.iter().all(|x| got.contains(x)) && got.iter().all(|x| want[v].get(&x.0) == Some(&x.1)) };
            if !ok {
                return Err(format!("wrong-perfect-graph: {} arcs of rank {}: expected {:?} got {:?}", dir, v, exp, got));
            }
        }
    }
    Ok(())
}

pub fn perfect(ctx: &mut Ctx) -> R {
    let nmet = ctx.rng.us(1, 2);
    let big = ctx.rng.chance(0.3);
    let c = case(ctx, if big { 500 } else { 120 }, nmet);
    ctx.swarm(c.g.n as f64 * 3000.0);
    pool_config(ctx);
    let g = &c.g;
    let mode = ctx.rng.below(3);
    let rank = |v: u32| c.cch.node_order().rank(v);
    let node = |v: u32| c.cch.node_order().node(v);
    let refs: Vec<RefCch> = c.metrics.iter().map(|m| ref_customize(g, m, c.cch.first_out(), c.cch.head(), &rank)).collect();
    if mode < 2 {
        let res = drive(ctx, &c.metrics, &|m| customize_perfect(customize(&c.cch, &FirstOutGraph::new(&g.first_out[..], &g.head[..], m))));
        for ((res, rf), m) in res.into_iter().zip(&refs).zip(&c.metrics) {
            check_perfect(g, m, &res, rf, &node, true)?;
            check_queries(g, m, res, &c.q)?;
        }
    } else {
        ctx.start();
        let dcch = c.cch.to_directed_cch();
        let res: Vec<_> = c
            .metrics
            .iter()
            .map(|m| customize_directed_perfect(customize_directed(&dcch, &FirstOutGraph::new(&g.first_out[..], &g.head[..], &m[..]))))
            .collect();
        nopreempt(true);
        ctx.probe(3, res.len() as u64);
        for ((res, rf), m) in res.into_iter().zip(&refs).zip(&c.metrics) {
            check_perfect(g, m, &res, rf, &node, false)?;
            ctx.workers(1, 1);
            let single = customize_directed_perfect(customize_directed(&dcch, &FirstOutGraph::new(&g.first_out[..], &g.head[..], &m[..])));
            for (a, b, d) in [(res.forward_graph(), single.forward_graph(), "upward"), (res.backward_graph(), single.backward_graph(), "downward")] {
                if a.first_out() != b.first_out() || a.head() != b.head() || a.weight() != b.weight() {
                    return Err(format!("schedule-dependent: {} part of the perfect directed hierarchy differs from the one computed by a single worker", d));
                }
            }
            check_queries(g, m, res, &c.q)?;
        }
    }
    Ok(())
}
