//! Reference models: trivially simple, independent of the repository's algorithms.
use crate::gen::{G, INF};
use std::cmp::Reverse;
use std::collections::BinaryHeap;

/// one-to-all distances (INF = unreachable)
pub fn dijkstra(g: &G, w: &[u32], s: usize) -> Vec<u32> {
    let mut d = vec![INF; g.n];
    let mut h = BinaryHeap::new();
    d[s] = 0;
    h.push(Reverse((0u32, s)));
    while let Some(Reverse((k, v))) = h.pop() {
        if k > d[v] {
            continue;
        }
        for e in g.edges_of(v) {
            if w[e] >= INF {
                continue;
            }
            let nd = k + w[e];
            let x = g.head[e] as usize;
            if nd < d[x] {
                d[x] = nd;
                h.push(Reverse((nd, x)));
            }
        }
    }
    d
}

pub fn reverse(g: &G) -> (G, Vec<usize>) {
    let mut idx: Vec<usize> = (0..g.m()).collect();
    idx.sort_by_key(|&e| (g.head[e], g.tail[e]));
    let mut r = G { n: g.n, first_out: vec![0; g.n + 1], lat: g.lat.clone(), lng: g.lng.clone(), ..Default::default() };
    for &e in &idx {
        r.first_out[g.head[e] as usize + 1] += 1;
        r.tail.push(g.head[e]);
        r.head.push(g.tail[e]);
        r.weight.push(g.weight[e]);
    }
    for i in 0..g.n {
        r.first_out[i + 1] += r.first_out[i];
    }
    (r, idx)
}

/// weight of a node path using the cheapest parallel edge; None if not a path
pub fn path_weight(g: &G, w: &[u32], path: &[u32]) -> Option<u64> {
    let mut sum = 0u64;
    for p in path.windows(2) {
        let m = g.edges_of(p[0] as usize).filter(|&e| g.head[e] == p[1]).map(|e| w[e]).min()?;
        if m >= INF {
            return None;
        }
        sum += m as u64;
    }
    Some(sum)
}

/// checks a (distance, path) answer against reference distances
pub fn check_answer(g: &G, w: &[u32], from: usize, to: usize, expect: u32, got: Option<u32>, path: Option<&[u32]>) -> Result<(), String> {
    let e = if expect >= INF { None } else { Some(expect) };
    if e != got {
        return Err(format!("wrong-distance: query {}->{}: expected {:?}, got {:?}", from, to, e, got));
    }
    if let (Some(p), Some(d)) = (path, got) {
        if p.first() != Some(&(from as u32)) || p.last() != Some(&(to as u32)) {
            return Err(format!("wrong-path: query {}->{}: path does not connect the query nodes: {:?}", from, to, p));
        }
        match path_weight(g, w, p) {
            Some(x) if x == d as u64 => {}
            x => return Err(format!("wrong-path: query {}->{}: distance {} but path {:?} has weight {:?}", from, to, d, p, x)),
        }
    }
    Ok(())
}

/// restrict to the largest strongly connected component
pub fn largest_scc(g: &G) -> G {
    let (r, _) = reverse(g);
    let reach = |g: &G, s: usize| {
        let mut seen = vec![false; g.n];
        let mut st = vec![s];
        seen[s] = true;
        while let Some(v) = st.pop() {
            for e in g.edges_of(v) {
                let h = g.head[e] as usize;
                if !seen[h] {
                    seen[h] = true;
                    st.push(h);
                }
            }
        }
        seen
    };
    let mut best: Vec<usize> = vec![];
    let mut done = vec![false; g.n];
    for s in 0..g.n {
        if !done[s] {
            let (a, b) = (reach(g, s), reach(&r, s));
            let c: Vec<usize> = (0..g.n).filter(|&v| a[v] && b[v]).collect();
            c.iter().for_each(|&v| done[v] = true);
            if c.len() > best.len() {
                best = c;
            }
        }
    }
    let mut id = vec![u32::MAX; g.n];
    best.iter().enumerate().for_each(|(i, &v)| id[v] = i as u32);
    let mut es = vec![];
    for &v in &best {
        for e in g.edges_of(v) {
            let h = id[g.head[e] as usize];
            if h != u32::MAX {
                es.push((id[v], h, g.weight[e]));
            }
        }
    }
    G::from_edges(best.len(), &es, best.iter().map(|&v| g.lat[v]).collect(), best.iter().map(|&v| g.lng[v]).collect())
}
