//! Random road-like networks, node orders and weights.
use crate::sim::Rng;

pub const INF: u32 = (std::u32::MAX / 2) as u32;

#[derive(Clone, Debug, Default)]
pub struct G {
    pub n: usize,
    pub first_out: Vec<u32>,
    pub head: Vec<u32>,
    pub weight: Vec<u32>,
    pub tail: Vec<u32>,
    pub lat: Vec<f32>,
    pub lng: Vec<f32>,
}

impl G {
    pub fn from_edges(n: usize, edges: &[(u32, u32, u32)], lat: Vec<f32>, lng: Vec<f32>) -> G {
        let mut es: Vec<(u32, u32, u32)> = edges.to_vec();
        es.sort_by_key(|e| (e.0, e.1));
        let mut g = G {
            n,
            first_out: vec![0; n + 1],
            lat,
            lng,
            ..Default::default()
        };
        for &(t, h, w) in &es {
            g.first_out[t as usize + 1] += 1;
            g.tail.push(t);
            g.head.push(h);
            g.weight.push(w);
        }
        for i in 0..n {
            g.first_out[i + 1] += g.first_out[i];
        }
        g
    }
    pub fn m(&self) -> usize {
        self.head.len()
    }
    pub fn edges_of(&self, v: usize) -> std::ops::Range<usize> {
        self.first_out[v] as usize..self.first_out[v + 1] as usize
    }
}

#[derive(Clone, Copy)]
pub struct GenOpts {
    pub max_n: usize,
    pub min_n: usize,
    pub multi: bool,
    pub zero: bool,
    pub isolated: bool,
}

pub fn rand_weight(r: &mut Rng, style: u64, zero: bool) -> u32 {
    match style {
        0 => r.range(if zero { 0 } else { 1 }, 10) as u32,
        1 => r.range(1, 1000) as u32,
        2 => r.range(1, 100_000) as u32,
        _ => r.logf(1.0, 1e6) as u32,
    }
}

pub fn graph(r: &mut Rng, o: GenOpts) -> G {
    let style = r.below(4);
    let shape = r.below(6);
    let n_target = r.logf(o.min_n as f64, o.max_n as f64 + 0.99) as usize;
    let n_target = n_target.max(1);
    let mut edges: Vec<(u32, u32)> = vec![];
    let (mut lat, mut lng) = (vec![], vec![]);
    let n;
    let p_del = r.f() * 0.4;
    let p_oneway = if r.chance(0.3) { 0.0 } else { r.f() * 0.5 };
    match shape {
        0 | 1 | 2 => {
            // grid with deletions
            let w = (1 + r.us(0, (n_target as f64).sqrt() as usize * 2)).max(1).min(n_target);
            let h = (n_target / w).max(1);
            n = w * h;
            for y in 0..h {
                for x in 0..w {
                    lat.push(y as f32 * 0.01 + r.f() as f32 * 0.004);
                    lng.push(x as f32 * 0.01 + r.f() as f32 * 0.004);
                    let v = (y * w + x) as u32;
                    if x + 1 < w && !r.chance(p_del) {
                        edges.push((v, v + 1));
                    }
                    if y + 1 < h && !r.chance(p_del) {
                        edges.push((v, v + w as u32));
                    }
                }
            }
        }
        3 => {
            // random geometric-ish tree plus extra edges
            n = n_target;
            for v in 0..n {
                lat.push(r.f() as f32);
                lng.push(r.f() as f32);
                if v > 0 {
                    let lo = v.saturating_sub(r.us(1, 8));
                    let u = r.us(lo, v - 1);
                    edges.push((u as u32, v as u32));
                }
            }
            for _ in 0..n / 3 {
                let a = r.us(0, n - 1);
                let b = (a + r.us(1, 12)).min(n - 1);
                if a != b {
                    edges.push((a as u32, b as u32));
                }
            }
        }
        4 => {
            // several components of ladders / cycles
            n = n_target;
            for _ in 0..n {
                lat.push(r.f() as f32);
                lng.push(r.f() as f32);
            }
            let mut v = 0;
            while v < n {
                let len = r.us(1, 12).min(n - v);
                for k in 1..len {
                    edges.push(((v + k - 1) as u32, (v + k) as u32));
                    if k >= 3 && r.chance(0.5) {
                        edges.push(((v + k - 3) as u32, (v + k) as u32));
                    }
                }
                if r.chance(0.7) && v > 0 {
                    edges.push(((v - 1) as u32, v as u32));
                }
                v += len;
            }
        }
        _ => {
            // low degree chains between junctions (exercises degree-2/3 skipping)
            let j = (n_target / 6).max(2);
            let mut cnt = j;
            for _ in 0..j {
                lat.push(r.f() as f32);
                lng.push(r.f() as f32);
            }
            let mut jl: Vec<(usize, usize)> = (1..j).map(|v| (r.us(v.saturating_sub(3), v - 1), v)).collect();
            for _ in 0..j {
                let a = r.us(0, j - 1);
                let b = r.us(0, j - 1);
                if a != b {
                    jl.push((a, b));
                }
            }
            for (a, b) in jl {
                let mut prev = a;
                for _ in 0..r.us(0, 4) {
                    lat.push(r.f() as f32);
                    lng.push(r.f() as f32);
                    edges.push((prev as u32, cnt as u32));
                    prev = cnt;
                    cnt += 1;
                }
                edges.push((prev as u32, b as u32));
            }
            n = cnt;
        }
    }
    let mut dir = vec![];
    for (a, b) in edges {
        if a == b {
            continue;
        }
        let w = rand_weight(r, style, o.zero);
        let one = r.chance(p_oneway);
        let flip = r.chance(0.5);
        if !one || !flip {
            dir.push((a, b, w));
        }
        if !one || flip {
            dir.push((b, a, if r.chance(0.7) { w } else { rand_weight(r, style, o.zero) }));
        }
        if o.multi && r.chance(0.03) {
            dir.push((a, b, rand_weight(r, style, o.zero)));
        }
    }
    if !o.multi {
        dir.sort_by_key(|e| (e.0, e.1));
        dir.dedup_by_key(|e| (e.0, e.1));
    }
    let mut n = n;
    if o.isolated && r.chance(0.25) {
        // extra isolated nodes at either end or in the middle of the id range
        let k = r.us(1, 4);
        let at = r.us(0, n);
        for e in &mut dir {
            if e.0 as usize >= at {
                e.0 += k as u32;
            }
            if e.1 as usize >= at {
                e.1 += k as u32;
            }
        }
        for _ in 0..k {
            lat.insert(at, r.f() as f32);
            lng.insert(at, r.f() as f32);
        }
        n += k;
    }
    G::from_edges(n, &dir, lat, lng)
}

/// node orders: nested dissection by coordinates, random, identity, by degree
pub fn order(r: &mut Rng, g: &G) -> Vec<u32> {
    match r.below(5) {
        0 => {
            let mut o: Vec<u32> = (0..g.n as u32).collect();
            r.shuffle(&mut o);
            // a random order of a large graph is close to a clique: only for small graphs
            if g.n > 120 {
                return nd(g);
            }
            o
        }
        1 if g.n <= 200 => (0..g.n as u32).collect(),
        _ => nd(g),
    }
}

fn nd(g: &G) -> Vec<u32> {
    let mut adj = vec![vec![]; g.n];
    for e in 0..g.m() {
        adj[g.tail[e] as usize].push(g.head[e]);
        adj[g.head[e] as usize].push(g.tail[e]);
    }
    fn rec(g: &G, adj: &[Vec<u32>], nodes: Vec<u32>, out: &mut Vec<u32>, depth: u32) {
        // emits order from low rank to high rank
        if nodes.len() <= 3 {
            out.extend(nodes);
            return;
        }
        let mut s = nodes;
        let ext = |c: &dyn Fn(u32) -> f32, s: &[u32]| {
            let lo = s.iter().map(|&v| c(v)).fold(f32::INFINITY, f32::min);
            let hi = s.iter().map(|&v| c(v)).fold(f32::NEG_INFINITY, f32::max);
            hi - lo
        };
        let by_lat = ext(&|v| g.lat[v as usize], &s) >= ext(&|v| g.lng[v as usize], &s);
        s.sort_by(|&a, &b| {
            let (x, y) = if by_lat {
                (g.lat[a as usize], g.lat[b as usize])
            } else {
                (g.lng[a as usize], g.lng[b as usize])
            };
            x.partial_cmp(&y).unwrap().then(a.cmp(&b))
        });
        let mid = s.len() / 2;
        let right: std::collections::BTreeSet<u32> = s[mid..].iter().copied().collect();
        let mut left = vec![];
        let mut sep = vec![];
        for &v in &s[..mid] {
            if adj[v as usize].iter().any(|h| right.contains(h)) {
                sep.push(v);
            } else {
                left.push(v);
            }
        }
        rec(g, adj, left, out, depth + 1);
        rec(g, adj, s[mid..].to_vec(), out, depth + 1);
        out.extend(sep);
    }
    let mut out = vec![];
    rec(g, &adj, (0..g.n as u32).collect(), &mut out, 0);
    // NodeOrder::from_node_order takes the node ids from lowest to highest rank
    out
}
