//! C01/C02/C03: the HTTP server. The real server binary (Rocket, hyper, engine, rayon) runs under the simulator, scripted clients talk
//! to it over simulated sockets; the recorded history is checked against a reference model.
use super::R;
use crate::gen::*;
use crate::model::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::Store;
use rust_road_router::util::in_range_option::InRangeOption;
use serde_json::Value;
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::process::CommandExt;

const SEC: u64 = 1_000_000_000;
/// bound on simulated time within which every well-formed request is answered once no stall is in effect
const ANSWER_BOUND: u64 = 120 * SEC;

struct World {
    g: G,
    /// (here link id, from_ref) of every edge
    here: Vec<(u64, bool)>,
    lookup: BTreeMap<(u64, bool), usize>,
    max_here: u64,
}

fn world(r: &mut Rng, max_n: usize) -> (World, Vec<u32>) {
    let mut g = graph(r, GenOpts { max_n, min_n: 2, multi: true, zero: true, isolated: true });
    // more parallel edges than usual: the choice between them depends on the current weights
    if r.chance(0.5) {
        let mut es: Vec<(u32, u32, u32)> = (0..g.m()).map(|e| (g.tail[e], g.head[e], g.weight[e])).collect();
        for k in 0..es.len() {
            if r.chance(0.15) {
                let e = es[k];
                es.push((e.0, e.1, e.2 + r.below(20) as u32));
            }
        }
        g = G::from_edges(g.n, &es, g.lat.clone(), g.lng.clone());
    }
    // pairwise distinct coordinates
    let mut seen = BTreeSet::new();
    for v in 0..g.n {
        loop {
            let key = (g.lat[v].to_bits(), g.lng[v].to_bits());
            if seen.insert(key) {
                break;
            }
            g.lat[v] += 0.0137;
        }
    }
    let ord = order(r, &g);
    let m = g.m();
    // links: an edge and possibly its reverse share one HERE link id
    let mut ids = BTreeSet::new();
    let spread = *r.pick(&[1u64, 3, 40, 700]);
    let mut next = r.below(100);
    let mut links: Vec<(Option<usize>, Option<usize>)> = vec![];
    let mut used = vec![false; m];
    for e in 0..m {
        if used[e] {
            continue;
        }
        used[e] = true;
        let mut pair = (None, None);
        let fr = r.chance(0.5);
        if fr {
            pair.0 = Some(e)
        } else {
            pair.1 = Some(e)
        }
        if r.chance(0.8) {
            if let Some(o) = (e + 1..m).find(|&o| !used[o] && g.tail[o] == g.head[e] && g.head[o] == g.tail[e]) {
                used[o] = true;
                if fr {
                    pair.1 = Some(o)
                } else {
                    pair.0 = Some(o)
                }
            }
        }
        links.push(pair);
        next += 1 + r.below(spread);
        ids.insert(next);
    }
    r.shuffle(&mut links);
    let max_here = next;
    let mut here = vec![(0, false); m];
    let mut lookup = BTreeMap::new();
    let mut table: Vec<(InRangeOption<u32>, InRangeOption<u32>)> = vec![];
    for (&id, l) in ids.iter().zip(&links) {
        table.push((InRangeOption::new(l.0.map(|e| e as u32)), InRangeOption::new(l.1.map(|e| e as u32))));
        if let Some(e) = l.0 {
            here[e] = (id, true);
            lookup.insert((id, true), e);
        }
        if let Some(e) = l.1 {
            here[e] = (id, false);
            lookup.insert((id, false), e);
        }
    }
    let w = World { g, here, lookup, max_here };
    (w, ord)
}

fn write_world(dir: &str, w: &World, ord: &[u32]) {
    let p = std::path::Path::new(dir);
    std::fs::create_dir_all(p).unwrap();
    w.g.first_out.write_to(&p.join("first_out")).unwrap();
    w.g.head.write_to(&p.join("head")).unwrap();
    w.g.weight.write_to(&p.join("travel_time")).unwrap();
    w.g.lat.write_to(&p.join("latitude")).unwrap();
    w.g.lng.write_to(&p.join("longitude")).unwrap();
    ord.to_vec().write_to(&p.join("cch_perm")).unwrap();
    let ids: BTreeSet<u64> = w.lookup.keys().map(|k| k.0).collect();
    let mut bits = BitVec::new(((w.max_here as usize + 64) / 64) * 64);
    for &i in &ids {
        bits.set(i as usize);
    }
    bits.write_to(&p.join("link_id_mapping")).unwrap();
    let table: Vec<(InRangeOption<u32>, InRangeOption<u32>)> = ids
        .iter()
        .map(|&i| {
            let f = |d| InRangeOption::new(w.lookup.get(&(i, d)).map(|&e| e as u32));
            (f(true), f(false))
        })
        .collect();
    table.write_to(&p.join("here_rank_to_link_id")).unwrap();
}

#[derive(Clone, Debug)]
enum Req {
    Geo { from: usize, to: usize, at: [f32; 4] },
    Here { from: (u64, bool), ff: f32, to: (u64, bool), tf: f32 },
    Cust(Vec<(u64, bool, Option<u32>)>),
    /// not a well-formed request: `must` is the status it has to be answered with, if the documentation says so
    Bad { raw: Vec<u8>, must: Option<u32> },
}

fn http(req: &Req) -> Vec<u8> {
    match req {
        Req::Geo { at, .. } => format!("GET /query?from_lat={}&from_lng={}&to_lat={}&to_lng={} HTTP/1.1\r\nHost: s\r\nAccept: application/json\r\n\r\n", at[0], at[1], at[2], at[3]).into_bytes(),
        Req::Here { from, ff, to, tf } => format!(
            "GET /here_query?from_link_id={}&from_direction={}&from_link_fraction={}&to_link_id={}&to_direction={}&to_link_fraction={} HTTP/1.1\r\nHost: s\r\nAccept: application/json\r\n\r\n",
            from.0, from.1, ff, to.0, to.1, tf
        )
        .into_bytes(),
        Req::Cust(u) => post(&cust_json(u)),
        Req::Bad { raw, .. } => raw.clone(),
    }
}
fn cust_json(u: &[(u64, bool, Option<u32>)]) -> String {
    let v: Vec<String> = u.iter().map(|(l, d, w)| format!("[{},{},{}]", l, d, w.map(|w| w.to_string()).unwrap_or_else(|| "null".into()))).collect();
    format!("[{}]", v.join(","))
}
fn post(body: &str) -> Vec<u8> {
    format!("POST /customize HTTP/1.1\r\nHost: s\r\nContent-Type: application/json\r\nContent-Length: {}\r\n\r\n{}", body.len(), body).into_bytes()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

fn rand_geo(r: &mut Rng, w: &World) -> Req {
    let (from, to) = (r.us(0, w.g.n - 1), r.us(0, w.g.n - 1));
    Req::Geo { from, to, at: [w.g.lat[from], w.g.lng[from], w.g.lat[to], w.g.lng[to]] }
}
fn rand_here(r: &mut Rng, w: &World) -> Req {
    let (a, b) = (r.us(0, w.g.m() - 1), r.us(0, w.g.m() - 1));
    let mut fr = || *r.pick(&[0.0f32, 0.25, 0.5, 0.75, 1.0]);
    let (ff, tf) = (fr(), fr());
    Req::Here { from: w.here[a], ff, to: w.here[b], tf }
}
fn rand_query(r: &mut Rng, w: &World) -> Req {
    if w.g.m() == 0 || r.chance(0.5) {
        rand_geo(r, w)
    } else {
        rand_here(r, w)
    }
}
fn rand_cust(r: &mut Rng, w: &World, hot: &[usize]) -> Req {
    let k = if r.chance(0.3) { 1 } else { r.us(0, 12) };
    let mut u = vec![];
    for _ in 0..k {
        if r.chance(0.12) || w.g.m() == 0 {
            // link id that does not exist (in this direction)
            let id = *r.pick(&[0, 1, w.max_here, w.max_here + 1, w.max_here + 1000, 1 << 40, u64::MAX]);
            let d = r.chance(0.5);
            if !w.lookup.contains_key(&(id, d)) {
                u.push((id, d, Some(r.range(0, 100) as u32)));
            }
        } else {
            let e = if r.chance(0.6) && !hot.is_empty() { *r.pick(hot) } else { r.us(0, w.g.m() - 1) };
            let (id, d) = w.here[e];
            let x = match r.below(10) {
                0 => None,
                1 => Some(INF - 1 - r.below(3) as u32),
                2 => Some(0),
                _ => Some(r.logf(1.0, 2e6) as u32),
            };
            u.push((id, d, x));
        }
    }
    Req::Cust(u)
}

fn rand_bad(r: &mut Rng, w: &World) -> Req {
    let get = |s: String| format!("GET {} HTTP/1.1\r\nHost: s\r\nAccept: application/json\r\n\r\n", s).into_bytes();
    let some = if w.g.m() > 0 { w.here[r.us(0, w.g.m() - 1)] } else { (1, true) };
    let valid = format!("[{},{},7]", some.0, some.1);
    let unknown = loop {
        let id = match r.below(6) {
            0 => 0,
            1 => w.max_here + 1 + r.below(70),
            2 => u64::MAX,
            3 => 1u64 << r.range(32, 62),
            _ => r.below(w.max_here + 2000),
        };
        let d = r.chance(0.5);
        if !w.lookup.contains_key(&(id, d)) {
            break (id, d);
        }
    };
    let hq = |a: (u64, bool), b: (u64, bool)| format!("/here_query?from_link_id={}&from_direction={}&from_link_fraction=0.5&to_link_id={}&to_direction={}&to_link_fraction=0.5", a.0, a.1, b.0, b.1);
    let (raw, must) = match r.below(22) {
        0 | 1 | 2 => (get(hq(unknown, some)), if w.lookup.contains_key(&some) || true { Some(500) } else { None }),
        3 | 4 => (get(hq(some, unknown)), Some(500)),
        5 => (get(hq(unknown, unknown)), Some(500)),
        6 | 7 | 8 | 9 => {
            // one entry is invalid: the whole update has to be rejected
            let x = match r.below(16) {
                0 => "-5".to_string(),
                1 => "2147483647".into(),
                2 => "2147483648".into(),
                3 | 4 => (4294967296u64 + r.below(100)).to_string(),
                5 => (4294967296u64 * (1 + r.below(1 << 31)) + r.below(1000)).to_string(),
                6 => "18446744073709551615".into(),
                7 => "18446744073709551620".into(),
                8 => "1.5".into(),
                9 => "7.0".into(),
                10 => "\"7\"".into(),
                11 => "true".into(),
                12 => "[7]".into(),
                13 => "1e3".into(),
                _ => "".into(),
            };
            let e = match (x.as_str(), r.below(4)) {
                ("", 0) => format!("[{},{}]", some.0, some.1),
                ("", 1) => format!("[{},{},7,8]", some.0, some.1),
                ("", 2) => format!("[-{},{},7]", some.0, some.1),
                ("", _) => format!("[{},{},7]", some.0, some.1 as u32),
                _ => format!("[{},{},{}]", some.0, some.1, x),
            };
            let u = match r.below(3) {
                0 => format!("[{},{}]", valid, e),
                1 => format!("[{},{}]", e, valid),
                _ => format!("[{}]", e),
            };
            (post(&u), None)
        }
        10 => (post(&format!("[{}", valid)), None),
        11 => (post("{\"a\": [1,2,3]}"), None),
        12 => (post(&"[".repeat(2000)), None),
        13 => (get("/query?from_lat=1.0&from_lng=x&to_lat=2&to_lng=3".into()), None),
        14 => (get("/query?from_lat=1.0".into()), None),
        15 => (get(format!("/query?from_lat={}&from_lng={}&to_lat={}&to_lng=inf", r.pick(&["NaN", "inf", "1e39", "-inf"]), r.pick(&["NaN", "0"]), r.pick(&["NaN", "-1e38"]))), None),
        16 => (get(format!("/here_query?from_link_id={}&from_direction={}&from_link_fraction={}&to_link_id={}&to_direction={}&to_link_fraction={}", some.0, some.1, r.pick(&["1e30", "NaN", "inf", "-3"]), some.0, some.1, r.pick(&["1e30", "NaN", "inf", "-3", "0.5"]))), None),
        17 => (get("/no/such/file".into()), None),
        18 => (b"\x16\x03\x01\x02garbage\r\n\r\n".to_vec(), None),
        19 => (b"PUT /customize HTTP/1.1\r\nHost: s\r\nContent-Length: 2\r\n\r\n[]".to_vec(), None),
        20 => (b"GET /query HTTP/1.0\r\n\r\n".to_vec(), None),
        _ => (format!("POST /customize HTTP/1.1\r\nHost: s\r\nContent-Type: application/json\r\nContent-Length: 999\r\n\r\n[{}]", valid).into_bytes(), None),
    };
    Req::Bad { raw, must }
}

#[derive(Clone, Debug)]
struct Rec {
    req: Req,
    first_on_conn: bool,
    aborted: bool, // the client gave up on purpose before reading the response
    partial: bool, // never sent completely
    inv: Option<(u64, u64)>,
    ret: Option<(u64, u64)>,
    status: Option<u32>,
    body: Vec<u8>,
    eof: bool,
    timeout: bool,
    last_phase: bool,
    /// answered while the engine stood still is required
    during_freeze: bool,
}

struct Script {
    text: String,
    recs: Vec<Rec>,
    op: u32,
}
impl Script {
    fn client(&mut self) {
        self.text.push_str("client\n");
    }
    fn line(&mut self, s: String) {
        self.text.push_str(&s);
        self.text.push('\n');
    }
    fn sleep(&mut self, ns: u64) {
        self.line(format!("sleep {}", ns));
    }
    fn rec(&mut self, req: Req, first: bool) -> usize {
        self.recs.push(Rec { req, first_on_conn: first, aborted: false, partial: false, inv: None, ret: None, status: None, body: vec![], eof: false, timeout: false, last_phase: false, during_freeze: false });
        self.recs.len() - 1
    }
    /// sends the bytes in one or several pieces with pauses in between
    fn send(&mut self, r: &mut Rng, bytes: &[u8], pieces: usize, pause: u64) {
        let mut cuts: BTreeSet<usize> = (1..pieces).map(|_| r.us(1, bytes.len().max(2) - 1)).collect();
        cuts.insert(bytes.len());
        let mut a = 0;
        for c in cuts {
            self.line(format!("send {}", hex(&bytes[a..c])));
            a = c;
            if a < bytes.len() && pause > 0 {
                self.sleep(pause);
            }
        }
    }
}

fn exec_server(ctx: &mut Ctx, dir: &str, script: &str, threads: u32, workers: u32, keep_alive: u32) -> Result<(), String> {
    let b = script.as_bytes();
    if b.len() + 1 >= SCRIPTCAP {
        return Err("harness: script too long".into());
    }
    ctx.sh.script[..b.len()].copy_from_slice(b);
    ctx.sh.scriptlen = b.len() as u64;
    let null = || std::process::Stdio::null();
    let mut c = std::process::Command::new(format!("{}/server", ctx.bin_dir));
    c.arg(dir)
        .env_clear()
        .env("VSIM_FD", ctx.fd.to_string())
        .env("RAYON_NUM_THREADS", threads.to_string())
        .env("ROCKET_WORKERS", workers.to_string())
        .env("ROCKET_KEEP_ALIVE", keep_alive.to_string())
        .env("ROCKET_LOG", "off")
        .env("ROCKET_ENV", "production")
        .env("ROCKET_ADDRESS", "127.0.0.1")
        .env("ROCKET_PORT", "8000")
        .env("RUST_BACKTRACE", "0")
        .current_dir(dir)
        .stdin(null());
    if !ctx.verbose {
        c.stdout(null()).stderr(null());
    }
    unsafe {
        c.pre_exec(|| {
            libc::personality(0x0040000);
            Ok(())
        });
    }
    let st = c.status().map_err(|e| format!("harness: cannot start the server: {}", e))?;
    match ctx.sh.status {
        ST_DONE_CLIENTS => Ok(()),
        ST_RUNNING => Err(format!("server-exit: the server process ended ({:?}) while clients were being served", st)),
        ST_OK => Err(format!("server-exit: the server process exited ({:?}) while clients were being served", st)),
        _ => Err(cstr(&ctx.sh.msg)),
    }
}

fn parse_history(log: &str, recs: &mut [Rec]) {
    for l in log.lines() {
        let p: Vec<&str> = l.split(' ').collect();
        if p.len() < 6 {
            continue;
        }
        let ev: u64 = p[0].parse().unwrap_or(0);
        let id: usize = p[3].parse().unwrap_or(usize::MAX);
        let vt: u64 = p[4].parse().unwrap_or(0);
        if id >= recs.len() {
            continue;
        }
        let r = &mut recs[id];
        match p[2] {
            "INV" => r.inv = Some((ev, vt)),
            "RET" => {
                r.ret = Some((ev, vt));
                let b = unhex(p[5]);
                let head_end = b.windows(4).position(|w| w == b"\r\n\r\n").map(|x| x + 4).unwrap_or(b.len());
                let head = String::from_utf8_lossy(&b[..head_end]).into_owned();
                r.status = head.split(' ').nth(1).and_then(|s| s.parse().ok());
                r.body = b[head_end..].to_vec();
                if head.to_ascii_lowercase().contains("transfer-encoding: chunked") {
                    let mut out = vec![];
                    let mut rest = &r.body[..];
                    while let Some(i) = rest.windows(2).position(|w| w == b"\r\n") {
                        let sz = usize::from_str_radix(String::from_utf8_lossy(&rest[..i]).trim(), 16).unwrap_or(0);
                        if sz == 0 || rest.len() < i + 2 + sz {
                            break;
                        }
                        out.extend_from_slice(&rest[i + 2..i + 2 + sz]);
                        rest = &rest[(i + 4 + sz).min(rest.len())..];
                    }
                    r.body = out;
                }
            }
            "EOF" => {
                r.eof = true;
                r.ret = Some((ev, vt));
            }
            "TIMEOUT" => {
                r.timeout = true;
                r.ret = Some((ev, vt));
            }
            _ => {}
        }
    }
}

/// is `body` a correct answer of `req` when the current weights are `w`?
fn answer_ok(world: &World, w: &[u32], req: &Req, body: &Value, cache: &mut BTreeMap<(u64, usize), Vec<u32>>, key: u64) -> Result<(), String> {
    let g = &world.g;
    let mut dist = |s: usize| cache.entry((key, s)).or_insert_with(|| dijkstra(g, w, s)).clone();
    match req {
        Req::Geo { from, to, .. } => {
            let d = dist(*from)[*to];
            if d >= INF {
                return if body.is_null() { Ok(()) } else { Err(format!("no route exists, got {}", body)) };
            }
            if body["distance"].as_u64() != Some(d as u64) {
                return Err(format!("expected distance {}, got {}", d, body));
            }
            let mut path = vec![];
            for p in body["path"].as_array().ok_or("no path")? {
                let (la, lo) = (p[0].as_f64().ok_or("path")? as f32, p[1].as_f64().ok_or("path")? as f32);
                let v = (0..g.n).find(|&v| g.lat[v] == la && g.lng[v] == lo).ok_or_else(|| format!("path contains a point that is no node: {} {}", la, lo))?;
                path.push(v as u32);
            }
            check_answer(g, w, *from, *to, d, Some(d), Some(&path))
        }
        Req::Here { from, ff, to, tf } => {
            let (fe, te) = (world.lookup[from], world.lookup[to]);
            let (s, t) = (g.head[fe] as usize, g.tail[te] as usize);
            let d = dist(s)[t];
            if d >= INF {
                return if body.is_null() { Ok(()) } else { Err(format!("no route exists, got {}", body)) };
            }
            if w[fe] < INF && w[te] < INF {
                let want = d as u64 + (ff * w[fe] as f32) as u32 as u64 + (tf * w[te] as f32) as u32 as u64;
                if want <= u32::MAX as u64 && body["distance"].as_u64() != Some(want) {
                    return Err(format!("expected distance {}, got {}", want, body));
                }
            } else if !body["distance"].is_u64() {
                return Err(format!("expected a route, got {}", body));
            }
            let p = body["path"].as_array().ok_or("no path")?;
            let mut edges = vec![];
            for x in p {
                let k = (x[0].as_u64().ok_or("path")?, x[1].as_bool().ok_or("path")?);
                edges.push(*world.lookup.get(&k).ok_or_else(|| format!("path contains an unknown link {:?}", k))?);
            }
            if edges.len() < 2 || edges[0] != fe || *edges.last().unwrap() != te {
                return Err(format!("path does not start and end with the query links: {}", body));
            }
            let mut at = s as u32;
            let mut sum = 0u64;
            for &e in &edges[1..edges.len() - 1] {
                if g.tail[e] != at {
                    return Err(format!("links of the path are not connected: {}", body));
                }
                at = g.head[e];
                sum += w[e] as u64;
            }
            if at != t as u32 || sum != d as u64 {
                return Err(format!("links of the path have weight {} and end at {}, expected weight {} and end {}", sum, at, d, t));
            }
            Ok(())
        }
        _ => Ok(()),
    }
}

/// Is there an order of the customizations (consistent with real time) and a version for every answer (never going backwards, never from the
/// future, complete in the last phase) that explains all answers?
fn explain(world: &World, recs: &[Rec]) -> R {
    // customizations: definitely accepted (answered 200) or possibly accepted (no answer)
    let cs: Vec<usize> = (0..recs.len()).filter(|&i| matches!(recs[i].req, Req::Cust(_)) && recs[i].inv.is_some() && (recs[i].status == Some(200) || recs[i].status.is_none())).collect();
    let sure = |i: usize| recs[i].status == Some(200);
    let mut qs: Vec<(usize, Value)> = vec![];
    for i in 0..recs.len() {
        if matches!(recs[i].req, Req::Geo { .. } | Req::Here { .. }) && recs[i].status == Some(200) {
            let v: Value = serde_json::from_slice(&recs[i].body).map_err(|e| format!("bad-response: request {}: no JSON: {}", i, e))?;
            qs.push((i, v));
        }
    }
    qs.sort_by_key(|q| recs[q.0].inv.unwrap().0);
    let mut cache = BTreeMap::new();
    let mut best = (0usize, String::new());
    let mut budget = 3000;
    let mut order: Vec<usize> = vec![];
    // depth first over linear extensions; a state is the ordered list of customizations
    fn rec(
        world: &World, recs: &[Rec], cs: &[usize], sure: &dyn Fn(usize) -> bool, qs: &[(usize, Value)], order: &mut Vec<usize>, skipped: &mut BTreeSet<usize>,
        cache: &mut BTreeMap<(u64, usize), Vec<u32>>, best: &mut (usize, String), budget: &mut i32,
    ) -> bool {
        if *budget <= 0 {
            return true; // too many possible orders: not decided
        }
        let left: Vec<usize> = cs.iter().copied().filter(|c| !order.contains(c) && !skipped.contains(c)).collect();
        if left.is_empty() {
            *budget -= 1;
            return try_order(world, recs, qs, order, cache, best);
        }
        for &c in &left {
            // c may come next if no remaining customization was answered before c was sent
            if left.iter().any(|&o| o != c && sure(o) && recs[o].ret.unwrap().0 < recs[c].inv.unwrap().0) {
                continue;
            }
            order.push(c);
            if rec(world, recs, cs, sure, qs, order, skipped, cache, best, budget) {
                return true;
            }
            order.pop();
            if !sure(c) {
                skipped.insert(c);
                if rec(world, recs, cs, sure, qs, order, skipped, cache, best, budget) {
                    return true;
                }
                skipped.remove(&c);
            }
        }
        false
    }
    fn try_order(world: &World, recs: &[Rec], qs: &[(usize, Value)], order: &[usize], cache: &mut BTreeMap<(u64, usize), Vec<u32>>, best: &mut (usize, String)) -> bool {
        let mut states = vec![world.g.weight.clone()];
        let mut keys = vec![0u64];
        for &c in order {
            let mut w = states.last().unwrap().clone();
            if let Req::Cust(u) = &recs[c].req {
                for (id, d, x) in u {
                    if let Some(&e) = world.lookup.get(&(*id, *d)) {
                        w[e] = x.unwrap_or(INF);
                    }
                }
            }
            states.push(w);
            keys.push(keys.last().unwrap().wrapping_mul(1000003).wrapping_add(c as u64 + 1));
        }
        let mut ver: Vec<(usize, usize)> = vec![]; // (query, version)
        for (qi, (q, body)) in qs.iter().enumerate() {
            let inv = recs[*q].inv.unwrap().0;
            let ret = recs[*q].ret.unwrap().0;
            let mut lo = ver.iter().filter(|(p, _)| recs[*p].ret.unwrap().0 < inv).map(|x| x.1).max().unwrap_or(0);
            if recs[*q].last_phase {
                lo = order.len();
            }
            let hi = order.iter().position(|&c| recs[c].inv.unwrap().0 > ret).unwrap_or(order.len());
            let mut msg = format!("customizations visible between version {} and {}", lo, hi);
            let mut found = None;
            for v in lo..=hi {
                match answer_ok(world, &states[v], &recs[*q].req, body, cache, keys[v]) {
                    Ok(()) => {
                        found = Some(v);
                        break;
                    }
                    Err(e) => msg = format!("{}; with {} customizations: {}", msg, v, e),
                }
            }
            match found {
                Some(v) => ver.push((*q, v)),
                None => {
                    if qi >= best.0 {
                        let cl = if recs[*q].last_phase { "update-lost" } else { "wrong-answer" };
                        *best = (qi, format!("{}: request {} {:?} answered {}: {}", cl, q, recs[*q].req, String::from_utf8_lossy(&recs[*q].body), msg));
                    }
                    return false;
                }
            }
        }
        true
    }
    let mut skipped = BTreeSet::new();
    if rec(world, recs, &cs, &sure, &qs, &mut order, &mut skipped, &mut cache, &mut best, &mut budget) {
        Ok(())
    } else {
        Err(best.1)
    }
}

/// every well-formed request has to be answered (with the documented status) within the bound
fn answered(recs: &[Rec]) -> R {
    for (i, r) in recs.iter().enumerate() {
        if r.inv.is_none() || r.aborted || r.partial {
            continue;
        }
        let short = format!("{:?}", r.req).chars().take(300).collect::<String>();
        match &r.req {
            Req::Bad { must, .. } => {
                if r.timeout {
                    return Err(format!("no-answer: request {} ({}) was not answered within {} simulated seconds", i, short, ANSWER_BOUND / SEC));
                }
                if let (Some(m), true) = (must, r.first_on_conn) {
                    if r.status != Some(*m) {
                        return Err(format!("wrong-status: request {} ({}) was answered with {:?} (connection closed: {}), documented is HTTP {}", i, short, r.status, r.eof, m));
                    }
                }
            }
            _ => {
                if r.timeout {
                    return Err(format!("no-answer: request {} ({}) was not answered within {} simulated seconds", i, short, ANSWER_BOUND / SEC));
                }
                if r.eof && !r.first_on_conn {
                    continue; // an idle kept-alive connection may be closed by the server
                }
                if r.status != Some(200) {
                    return Err(format!("not-answered: request {} ({}) got status {:?} (connection closed: {})", i, short, r.status, r.eof));
                }
                if r.during_freeze && r.ret.unwrap().1 - r.inv.unwrap().1 > 10 * SEC {
                    return Err(format!("blocked-update: customization {} was answered only after {} simulated ms, while the routing engine was busy", i, (r.ret.unwrap().1 - r.inv.unwrap().1) / 1_000_000));
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &mut Ctx) -> R {
    let hostile = ctx.prop == "C02";
    let startup = ctx.prop == "C03";
    let mut r = ctx.rng.clone();
    let size = if r.chance(0.25) { 60 } else { 18 };
    let (w, ord) = world(&mut r, size);
    let dir = format!("{}/data", ctx.scratch);
    write_world(&dir, &w, &ord);
    ctx.swarm(1_500_000.0);
    let sh = &mut ctx.sh;
    sh.step_cap = 1_200_000_000;
    let mut p = |sh: &mut Shared, k: usize, pr: f64, lo: f64, hi: f64| sh.fault_p[k] = if r.chance(pr) { r.logf(lo, hi) } else { 0.0 };
    p(sh, F_NET_SHORT_RECV, 0.5, 0.01, 0.6);
    p(sh, F_NET_SHORT_SEND, 0.4, 0.01, 0.4);
    // no EINTR: the server installs no signal handlers, so interrupted calls cannot happen to it
    p(sh, F_NET_ACCEPT_ABORT, 0.5, 0.1, 0.9);
    let nclients = r.us(2, 4);
    let threads = *r.pick(&[1u32, 1, 2, 2, 3, 4]);
    let keep_alive = *r.pick(&[0u32, 5]);
    // one worker thread serves one connection: enough workers for all connections that can be open at the same time, unless every client
    // closes its connection after each answer
    let scarce = !hostile && !startup && r.chance(0.25);
    let workers = if scarce { r.us(1, 2) as u32 } else { 24 };
    sh.ncpu = threads.max(2);
    let mut s = Script { text: String::new(), recs: vec![], op: 0 };
    let hot: Vec<usize> = if w.g.m() > 0 { (0..4).map(|_| r.us(0, w.g.m() - 1)).collect() } else { vec![] };
    let mut ncust = 0;
    let max_cust = r.us(1, 6);
    let freeze = if (startup && r.chance(0.8)) || (hostile && r.chance(0.3)) { 40 * SEC } else { 0 };
    if freeze > 0 && startup && r.chance(0.6) {
        sh.freeze_listen_ns = freeze;
    }
    for c in 0..nclients {
        s.client();
        let nops = r.us(1, if hostile { 5 } else { 7 });
        let mut connected = false;
        let mut used = false;
        let gap = *r.pick(&[0u64, 0, 1_000, 100_000, 10_000_000]);
        for k in 0..nops {
            let op = s.op;
            s.op += 1;
            // draw everything first so that dropping an operation does not change the others
            let kind = r.f();
            let mut sub = r.clone();
            r.next();
            let r = &mut sub;
            if ctx.drop.contains(&op) {
                if kind < 0.4 {
                    ncust += 1;
                }
                continue;
            }
            if gap > 0 {
                s.sleep(r.range(1, gap));
            }
            if startup && freeze > 0 && c == 0 && k == 0 {
                s.line("conn".into());
                s.line("close".into());
                if sh.freeze_listen_ns == 0 {
                    s.line(format!("freeze {}", freeze));
                }
            }
            let bad = hostile && r.chance(0.5);
            if !connected || scarce || bad || r.chance(0.5) {
                if connected {
                    s.line(if r.chance(0.8) { "close".into() } else { "rst".into() });
                }
                s.line("conn".into());
                connected = true;
                used = false;
            }
            if bad {
                let style = r.below(6);
                if style < 3 {
                    let id = { let b = rand_bad(r, &w); s.rec(b, !used) };
                    used = true;
                    let bytes = http(&s.recs[id].req);
                    let incomplete = matches!(&s.recs[id].req, Req::Bad { raw, .. } if raw.windows(19).any(|x| x == b"Content-Length: 999"));
                    s.line(format!("inv {}", id));
                    let pc = r.us(1, 3);
                    s.send(r, &bytes, pc, 1_000_000);
                    if incomplete {
                        s.recs[id].aborted = true;
                        s.line("close".into());
                        connected = false;
                    } else if r.chance(0.2) {
                        s.recs[id].aborted = true;
                        s.line(if r.chance(0.5) { "close".into() } else { "rst".into() });
                        connected = false;
                    } else {
                        s.line(format!("resp {} {}", id, ANSWER_BOUND));
                    }
                } else {
                    // a good request whose client goes away, is slow, or sends only a part of it
                    let q = if r.chance(0.3) && ncust < max_cust { ncust += 1; rand_cust(r, &w, &hot) } else { rand_query(r, &w) };
                    let id = s.rec(q, !used);
                    let bytes = http(&s.recs[id].req);
                    s.line(format!("inv {}", id));
                    s.recs[id].aborted = true;
                    if style == 3 {
                        let cut = r.us(0, bytes.len() - 1);
                        s.recs[id].partial = true;
                        s.send(r, &bytes[..cut.max(1)], 1, 0);
                        s.sleep(r.range(1, 30 * SEC));
                    } else if style == 4 {
                        s.send(r, &bytes, 1, 0);
                        if r.chance(0.5) {
                            s.sleep(r.range(1, 3_000_000));
                        }
                    } else {
                        s.send(r, &bytes, 4, 700_000_000);
                        s.sleep(r.range(1, 5_000_000));
                    }
                    s.line(if r.chance(0.5) { "close".into() } else { "rst".into() });
                    connected = false;
                }
                continue;
            }
            let want_cust = kind < 0.4 && ncust < max_cust;
            let q = if want_cust { ncust += 1; rand_cust(r, &w, &hot) } else { rand_query(r, &w) };
            let id = s.rec(q, !used);
            used = true;
            let bytes = http(&s.recs[id].req);
            s.line(format!("inv {}", id));
            let pc = if r.chance(0.7) { 1 } else { r.us(2, 4) };
            s.send(r, &bytes, pc, 1_000);
            s.line(format!("resp {} {}", id, ANSWER_BOUND));
            if startup && want_cust {
                s.recs[id].during_freeze = true;
            }
            if scarce {
                s.line("close".into());
                connected = false;
            }
        }
        if connected {
            s.line("close".into());
        }
    }
    // last phase: nothing else is going on; every accepted customization has to be in effect, the server has to answer
    s.client();
    s.line("barrier".into());
    s.sleep(20 * SEC + freeze);
    for _ in 0..r.us(3, 6) {
        let q = rand_query(&mut r, &w);
        s.line("conn".into());
        let id = s.rec(q, true);
        s.recs[id].last_phase = true;
        let bytes = http(&s.recs[id].req);
        s.line(format!("inv {}", id));
        s.send(&mut r, &bytes, 1, 0);
        s.line(format!("resp {} {}", id, ANSWER_BOUND));
        s.line("close".into());
    }
    let text = std::mem::take(&mut s.text);
    exec_server(ctx, &dir, &text, threads, workers, keep_alive)?;
    let log = cstr(&ctx.sh.log[..]);
    parse_history(&log, &mut s.recs);
    for x in &s.recs {
        let k = match &x.req {
            Req::Geo { .. } => 0,
            Req::Here { .. } => 1,
            Req::Cust(_) => 2,
            Req::Bad { .. } => 3,
        };
        if x.inv.is_some() {
            ctx.probe(k, 1);
        }
        ctx.probe(4, x.aborted as u64);
        ctx.probe(5, (x.status == Some(200)) as u64);
        ctx.probe(6, (x.body == b"null") as u64);
        ctx.probe(7, x.during_freeze as u64);
    }
    if hostile || startup {
        answered(&s.recs)?;
        // requests that were rejected or never completed must not have had an effect, either
        explain(&w, &s.recs)?;
    } else {
        // C01 judges answers; a request without an answer is C02's business unless it is in the last phase
        explain(&w, &s.recs)?;
        for (i, x) in s.recs.iter().enumerate() {
            if x.last_phase && x.status != Some(200) {
                return Err(format!("not-answered: request {} of the last phase got status {:?}", i, x.status));
            }
        }
    }
    Ok(())
}
