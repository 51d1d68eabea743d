//! C11: merging of similar metrics.
use super::R;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::metric_merging::merge;
use std::collections::BTreeMap;

const INF: u32 = rust_road_router::datastr::graph::INFINITY;

/// one pair at a time: the most similar two groups, ties by the lower group numbers
fn reference(metrics: &[Vec<u32>], target: usize) -> Vec<Vec<usize>> {
    let m = metrics[0].len();
    let mut groups: Vec<Vec<usize>> = (0..metrics.len()).map(|i| vec![i]).collect();
    let mut low: Vec<Vec<u32>> = metrics.to_vec();
    let mut alive = metrics.len();
    let mut cache: BTreeMap<(usize, usize), u64> = BTreeMap::new();
    while alive > target.max(1) {
        let mut best: Option<(u64, usize, usize)> = None;
        for a in 0..groups.len() {
            for b in a + 1..groups.len() {
                if groups[a].is_empty() || groups[b].is_empty() {
                    continue;
                }
                let d = *cache.entry((a, b)).or_insert_with(|| (0..m).fold(0u64, |s, e| s.saturating_add((low[a][e].abs_diff(low[b][e]) as u64).pow(2))));
                if best.map_or(true, |x| (d, a, b) < x) {
                    best = Some((d, a, b));
                }
            }
        }
        let (_, a, b) = best.unwrap();
        let g = std::mem::take(&mut groups[b]);
        groups[a].extend(g);
        for e in 0..m {
            low[a][e] = low[a][e].min(low[b][e]);
        }
        cache.retain(|k, _| k.0 != a && k.1 != a && k.0 != b && k.1 != b);
        alive -= 1;
    }
    groups.retain(|g| !g.is_empty());
    groups
}

pub fn run(ctx: &mut Ctx) -> R {
    let r = &mut ctx.rng;
    let k = if r.chance(0.1) { r.us(1, 2) } else { r.us(2, 14) };
    let m = r.logf(1.0, 60.0) as usize;
    let max = *r.pick(&[2u32, 10, 1000, 1_000_000, INF]);
    let p_inf = *r.pick(&[0.0, 0.0, 0.02, 0.3]);
    let noise = *r.pick(&[0.05, 0.3, 1.0]);
    let clusters = r.us(1, 4);
    let centers: Vec<Vec<u32>> = (0..clusters).map(|_| (0..m).map(|_| r.range(1, max as u64) as u32).collect()).collect();
    let metrics: Vec<Vec<u32>> = (0..k)
        .map(|_| {
            let c = r.us(0, clusters - 1);
            (0..m)
                .map(|e| {
                    if r.chance(p_inf) {
                        INF
                    } else if r.chance(noise) {
                        r.range(1, max as u64) as u32
                    } else {
                        centers[c][e]
                    }
                })
                .collect()
        })
        .collect();
    let target = if r.chance(0.1) { r.us(0, k + 2) } else { r.us(1, k) };
    ctx.swarm((k * k * m) as f64 * 300.0 + 50_000.0);
    let t = *ctx.rng.pick(&[1u32, 2, 2, 3, 4, 5, 8]);
    ctx.workers(t, t);
    ctx.probe(0, t as u64);
    let concurrent = ctx.rng.chance(0.2);
    let refs: Vec<&[u32]> = metrics.iter().map(|x| &x[..]).collect();
    ctx.start();
    let got: Vec<Vec<Vec<usize>>> = if concurrent {
        ctx.probe(1, 1);
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(|| merge(&refs, target))).collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
        })
    } else {
        vec![merge(&refs, target)]
    };
    nopreempt(true);
    let want = reference(&metrics, target);
    ctx.probe(2, (k - want.len()) as u64);
    for g in got {
        let mut all: Vec<usize> = g.iter().flatten().copied().collect();
        all.sort_unstable();
        if all != (0..k).collect::<Vec<_>>() {
            return Err(format!("not-a-partition: {} metrics merged into {:?}", k, g));
        }
        if g.len() != want.len() {
            return Err(format!("wrong-size: {} groups instead of {} ({} metrics, target {})", g.len(), want.len(), k, target));
        }
        let norm = |g: &Vec<Vec<usize>>| {
            let mut g = g.clone();
            g.iter_mut().for_each(|x| x.sort_unstable());
            g.sort();
            g
        };
        if norm(&g) != norm(&want) {
            return Err(format!("wrong-groups: {} metrics with {} edges, target {}: {:?} instead of {:?}", k, m, target, g, want));
        }
    }
    Ok(())
}
