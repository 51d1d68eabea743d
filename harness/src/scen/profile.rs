//! C15: CATCHUp profile queries: the travel time for every departure, and the route for every departure.
use super::td::{td, td_dense, td_dijkstra_f, TD};
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::catchup;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::datastr::graph::floating_time_dependent as ftd;
use rust_road_router::datastr::node_order::NodeOrder;

// merging functions of a few tenths of a second loses points of some milliseconds
const TOL: f64 = 1e-2;
// where two steep functions cross is known only to within rounding
const PAD: f64 = 1e-2;
const SHIFT: f64 = 1e-4;
const DAY: f64 = 86_400.0;

#[derive(Clone, Debug)]
struct Q {
    s: usize,
    t: usize,
    start: f64,
    end: f64,
    at: Vec<f64>,
    keep: bool,
}

/// (time, travel time) of the profile and (valid from, edges) of the routes
type Answer = (Vec<(f64, f64)>, Option<Vec<(f64, Vec<u32>)>>);

fn eval(p: &[(f64, f64)], x: f64) -> f64 {
    let k = p.partition_point(|a| a.0 <= x);
    if k == 0 {
        return p[0].1;
    }
    if k == p.len() {
        return p[k - 1].1;
    }
    let (a, b) = (p[k - 1], p[k]);
    a.1 + (x - a.0) / (b.0 - a.0) * (b.1 - a.1)
}

fn check(t: &TD, what: &str, i: usize, q: &Q, ans: &Answer, points: &mut u64, routes: &mut u64) -> R {
    let name = format!("{}: profile {} of {}->{} from {} to {}", what, i, q.s, q.t, q.start, q.end);
    let (p, paths) = ans;
    let reachable = td_dijkstra_f(t, q.s, q.start)[q.t].is_finite();
    if p.is_empty() == reachable || paths.as_ref().map_or(false, |x| x.is_empty() == reachable) {
        return Err(format!("wrong-profile: {}: {} points, {:?} routes, reachable {}", name, p.len(), paths.as_ref().map(|p| p.len()), reachable));
    }
    if !reachable {
        return Ok(());
    }
    if p.windows(2).any(|w| w[0].0 >= w[1].0) || p.iter().any(|x| !x.0.is_finite() || !x.1.is_finite() || x.1 < 0.0) {
        return Err(format!("wrong-profile: {}: points out of order: {:?}", name, p));
    }
    if p.len() > 1 && (p[0].0 > q.start + TOL || p[p.len() - 1].0 < q.end - TOL) {
        return Err(format!("wrong-profile: {}: the profile covers {}..{}", name, p[0].0, p[p.len() - 1].0));
    }
    let mut at: Vec<f64> = q.at.clone();
    let inside: Vec<f64> = p.iter().map(|x| x.0).filter(|&x| x >= q.start && x < q.end).collect();
    let step = inside.len() / 30 + 1;
    at.extend(inside.iter().step_by(step));
    at.extend(inside.windows(2).step_by(step).map(|w| (w[0] + w[1]) / 2.0));
    for &x in &at {
        *points += 1;
        let want = td_dijkstra_f(t, q.s, x)[q.t] - x;
        let got = eval(p, x);
        // points may be moved by rounding, which matters where the function is steep
        let near = |y: f64| td_dijkstra_f(t, q.s, y)[q.t] - y;
        if (want - got).abs() > TOL && !(want.min(near(x - SHIFT)).min(near(x + SHIFT)) - TOL..=want.max(near(x - SHIFT)).max(near(x + SHIFT)) + TOL).contains(&got) {
            return Err(format!("wrong-profile: {}: {} at {} instead of {}", name, got, x, want));
        }
    }
    if let Some(paths) = paths {
        if paths[0].0 > q.start + TOL || paths.windows(2).any(|w| w[0].0 > w[1].0) {
            return Err(format!("wrong-route: {}: valid from {:?}", name, paths.windows(2).filter(|w| w[0].0 > w[1].0).map(|w| format!("{:?}", w)).collect::<Vec<_>>()));
        }
        for (k, (from, edges)) in paths.iter().enumerate() {
            let from = from.max(q.start);
            let to = paths.get(k + 1).map_or(q.end, |x| x.0).min(q.end);
            *routes += 1;
            for x in [from + PAD, (from + to) / 2.0, to - PAD] {
                if x < from + PAD || x > to - PAD {
                    continue;
                }
                let (mut v, mut now) = (q.s, x);
                for &e in edges {
                    let e = e as usize;
                    if e >= t.g.m() || !t.g.edges_of(v).contains(&e) {
                        return Err(format!("wrong-route: {}: {:?} from {}: link {} does not start at {}", name, edges, from, e, v));
                    }
                    now += t.eval_f(e, now);
                    v = t.g.head[e] as usize;
                }
                let want = td_dijkstra_f(t, q.s, x)[q.t];
                if v != q.t || (now - want).abs() > TOL {
                    return Err(format!("wrong-route: {}: {:?} valid from {} to {} arrives at node {} at {} instead of {} when departing at {}", name, edges, from, to, v, now, want, x));
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let max_n = *ctx.rng.pick(&[8usize, 20, 40]);
    let mut g = graph(&mut ctx.rng, GenOpts { max_n, min_n: 2, multi: false, zero: false, isolated: true });
    if ctx.rng.chance(0.6) {
        g = largest_scc(&g);
    }
    if g.n < 2 || g.m() == 0 {
        return Err("skip".into());
    }
    let t = if max_n <= 20 && ctx.rng.chance(0.4) { td_dense(&mut ctx.rng, g) } else { td(&mut ctx.rng, g) };
    let ord = order(&mut ctx.rng, &t.g);
    let n = t.g.n;
    ctx.swarm(n as f64 * 20_000.0);
    ctx.sh.step_cap = ctx.sh.step_cap.max(10_000_000_000);
    ctx.workers(1, 4);
    let clients = ctx.rng.us(1, 3);
    let nq = *ctx.rng.pick(&[1usize, 3, 6]);
    let mut id = 0;
    let work: Vec<(usize, Vec<Q>)> = (0..clients)
        .map(|_| {
            // the naive algorithm is exponential
            let kind = (n <= 12 && ctx.rng.chance(0.5)) as usize;
            let mut qs = vec![];
            for _ in 0..nq {
                let s = ctx.rng.us(0, n - 1);
                let mut x = ctx.rng.us(0, n - 2);
                x += (x >= s) as usize;
                let (start, end) = (0.0, DAY);
                let at = (0..6).map(|_| start + ctx.rng.f() * (end - start) * 0.9999).collect();
                qs.push(Q { s, t: x, start, end, at, keep: ctx.keep(id) });
                id += 1;
            }
            ctx.probe(3 + kind, 1);
            (kind, qs)
        })
        .collect();
    let fg = t.float();
    let cch = CCH::fix_order_and_build(&fg, NodeOrder::from_node_order(ord));
    ctx.start();
    let cg = catchup::customize(&cch, &fg);
    let results: Vec<Result<(u64, u64, u64), String>> = std::thread::scope(|sc| {
        let hs: Vec<_> = work
            .iter()
            .map(|(kind, qs)| {
                let (t, cch, cg) = (&t, &cch, &cg);
                sc.spawn(move || -> Result<(u64, u64, u64), String> {
                    let mut c = (0, 0, 0);
                    let pt = |p: &[ftd::TTFPoint]| p.iter().map(|x| (f64::from(x.at), f64::from(x.val))).collect::<Vec<_>>();
                    let rt = |p: Vec<(ftd::Timestamp, Vec<u32>)>| Some(p.into_iter().map(|x| (f64::from(x.0), x.1)).collect::<Vec<_>>());
                    macro_rules! go {
                        ($what:expr, $server:expr, |$s:ident, $q:ident| $ask:expr) => {{
                            let mut $s = $server;
                            for (i, $q) in qs.iter().enumerate().filter(|x| x.1.keep) {
                                let ans: Answer = $ask;
                                nopreempt(true);
                                check(t, $what, i, $q, &ans, &mut c.1, &mut c.2)?;
                                c.0 += 1;
                                nopreempt(false);
                            }
                        }};
                    }
                    match kind {
                        0 => go!("full", catchup::profiles::Server::new(cch, cg), |s, q| {
                            let (_, p, r) = s.distance(q.s as u32, q.t as u32);
                            (pt(&p), rt(r))
                        }),
                        _ => go!("naive", catchup::profiles_naive::Server::new(cch, cg), |s, q| (s.distance(q.s as u32, q.t as u32).map_or(vec![], |p| pt(&p)), None)),
                    }
                    Ok(c)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
    });
    nopreempt(true);
    for r in results {
        let c = r?;
        ctx.probe(0, c.0);
        ctx.probe(1, c.1);
        ctx.probe(2, c.2);
    }
    Ok(())
}
