//! C10: storing and loading data structures while the disk fails.
use super::td::*;
use super::R;
use crate::gen::*;
use crate::sim::*;
use crate::Ctx;
use rust_road_router::algo::ch_potentials::CHPotLoader;
use rust_road_router::algo::customizable_contraction_hierarchy::*;
use rust_road_router::algo::{catchup, td_astar, traffic_aware};
use rust_road_router::datastr::graph::first_out_graph::*;
use rust_road_router::datastr::graph::floating_time_dependent as ftd;
use rust_road_router::datastr::graph::time_dependent as itd;
use rust_road_router::datastr::graph::*;
use rust_road_router::datastr::node_order::NodeOrder;
use rust_road_router::datastr::rank_select_map::BitVec;
use rust_road_router::io::*;
use std::collections::BTreeMap;
use std::io::Result as IoResult;
use std::path::Path;

type Map = BTreeMap<String, Vec<u8>>;

/// one version of a stored object
struct Ver {
    /// write the object to a path
    store: Box<dyn Fn(&str) -> IoResult<()> + Send + Sync>,
    /// load it and give everything the loaded object holds; the second path is private scratch space out of reach of the faults
    load: Box<dyn Fn(&str, &str) -> IoResult<Map> + Send + Sync>,
    /// what a correctly loaded object holds
    want: Map,
}

fn leak<T>(x: T) -> &'static T {
    Box::leak(Box::new(x))
}
fn bytes<T: DataBytes + ?Sized>(x: &T) -> Vec<u8> {
    x.data_bytes().to_vec()
}
fn dump<T: Deconstruct>(x: &T, tmp: &str) -> Map {
    x.deconstruct_to(&tmp).unwrap_or_else(|e| panic!("harness: storing to the reference directory failed: {}", e));
    let mut m = Map::new();
    dir_bytes(Path::new(tmp), "", &mut m);
    std::fs::remove_dir_all(tmp).unwrap();
    m
}

/// a plain file
fn plain<T: Store + Load + Send + Sync + 'static>(x: T) -> Ver {
    let want = BTreeMap::from([(String::new(), bytes(&x))]);
    Ver {
        store: Box::new(move |p| x.write_to(&p)),
        load: Box::new(|p, _| T::load_from(p).map(|x| BTreeMap::from([(String::new(), bytes(&x))]))),
        want,
    }
}
/// a directory with an object that can be stored again after loading
fn dir<T: Deconstruct + Send + Sync + 'static>(x: T, tmp: &str, load: impl Fn(&str) -> IoResult<T> + Send + Sync + 'static) -> Ver {
    let want = dump(&x, tmp);
    Ver { store: Box::new(move |p| x.deconstruct_to(&p)), load: Box::new(move |p, tmp| load(p).map(|x| dump(&x, tmp))), want }
}
/// like `dir` for objects which are not Send
fn dir_with<T: Deconstruct>(make: impl Fn() -> T + Send + Sync + 'static, tmp: &str, load: impl Fn(&str) -> IoResult<T> + Send + Sync + 'static) -> Ver {
    let want = dump(&make(), tmp);
    Ver { store: Box::new(move |p| make().deconstruct_to(&p)), load: Box::new(move |p, tmp| load(p).map(|x| dump(&x, tmp))), want }
}
/// several vectors written one after the other, loaded by an object which is compared by what it gives back
fn vectors(files: Vec<(&'static str, Vec<u32>)>, want: Map, load: impl Fn(&str) -> IoResult<Map> + Send + Sync + 'static) -> Ver {
    Ver {
        store: Box::new(move |p| {
            let d = Path::new(p);
            if !d.is_dir() {
                std::fs::create_dir(d)?;
            }
            files.iter().try_for_each(|(n, v)| v.write_to(&d.join(n)))
        }),
        load: Box::new(move |p, _| load(p)),
        want,
    }
}

struct CchDir(&'static CCH);
impl Deconstruct for CchDir {
    fn save_each(&self, store: &dyn Fn(&str, &dyn Save) -> IoResult<()>) -> IoResult<()> {
        self.0.save_each(store)?;
        self.0.node_order().save_each(store)
    }
}
/// everything that can be asked of a CCH
fn cch_map(c: &CCH) -> Map {
    let mut m = Map::new();
    m.insert("first_out".into(), bytes(&c.first_out().to_vec()));
    m.insert("head".into(), bytes(&c.head().to_vec()));
    m.insert("order".into(), bytes(&c.node_order().order().to_vec()));
    m.insert("tree".into(), format!("{:?}", (0..c.num_nodes()).map(|i| c.elimination_tree()[i].value()).collect::<Vec<_>>()).into_bytes());
    let orig = |v: &rust_road_router::util::Vecs<EdgeIdT>| format!("{:?}", (0..c.num_arcs()).map(|i| v[i].iter().map(|e| e.0).collect::<Vec<_>>()).collect::<Vec<_>>()).into_bytes();
    m.insert("forward".into(), orig(c.forward_cch_edge_to_orig_arc()));
    m.insert("backward".into(), orig(c.backward_cch_edge_to_orig_arc()));
    m
}
fn graph_map(g: &OwnedGraph) -> Map {
    BTreeMap::from([
        ("first_out".into(), bytes(&g.first_out().to_vec())),
        ("head".into(), bytes(&g.head().to_vec())),
        ("weight".into(), bytes(&g.weight().to_vec())),
    ])
}
fn chpot_map(p: &CHPotLoader) -> Map {
    let (f, b) = (p.forward_graph(), p.backward_graph());
    BTreeMap::from([
        ("ffo".into(), bytes(&f.first_out().to_vec())),
        ("fh".into(), bytes(&f.head().to_vec())),
        ("fw".into(), bytes(&f.weight().to_vec())),
        ("bfo".into(), bytes(&b.first_out().to_vec())),
        ("bh".into(), bytes(&b.head().to_vec())),
        ("bw".into(), bytes(&b.weight().to_vec())),
        ("order".into(), bytes(&p.order().order().to_vec())),
    ])
}
fn itd_map(g: &itd::TDGraph) -> Map {
    BTreeMap::from([
        ("first_out".into(), bytes(&g.first_out().to_vec())),
        ("head".into(), bytes(&g.head().to_vec())),
        ("fns".into(), format!("{:?}", g).into_bytes()),
    ])
}
fn ftd_map(g: &ftd::TDGraph) -> Map {
    BTreeMap::from([
        ("first_out".into(), bytes(&g.first_out().to_vec())),
        ("head".into(), bytes(&g.head().to_vec())),
        ("fns".into(), format!("{:?}", (0..g.num_arcs()).map(|e| g.travel_time_function(e as u32).iter().copied().collect::<Vec<_>>()).collect::<Vec<_>>()).into_bytes()),
    ])
}

pub const KINDS: [&str; 21] = [
    "u32 file", "f32 file", "u64 boxed file", "pair file", "bit vector", "node order", "graph", "graph with named weights", "cch", "customized cch", "ch potential",
    "time-dependent graph", "time-dependent graph (float)", "catchup customization", "potential data", "multi metric", "interval minimum", "unweighted graph",
    "multi metric preprocessing", "traffic multi metric preprocessing", "traffic multi metric",
];

fn small(ctx: &mut Ctx, max_n: usize) -> (G, Vec<u32>) {
    let r = &mut ctx.rng;
    loop {
        let g = graph(r, GenOpts { max_n, min_n: 2, multi: false, zero: false, isolated: true });
        if g.m() > 0 {
            let o = order(r, &g);
            return (g, o);
        }
    }
}
fn td_small(ctx: &mut Ctx, max_n: usize) -> (TD, Vec<u32>) {
    loop {
        let c = td_case(ctx, max_n);
        if c.0.g.m() > 0 {
            return c;
        }
    }
}

/// merges the time buckets, like the interval_min_reduction tool
fn reduced(mut p: customization::ftd_for_pot::PotData, groups: usize) -> customization::ftd_for_pot::PotData {
    let m = p.fw_static_bound.len();
    if groups < 96 {
        let merge = |b: &Vec<u32>| -> Vec<u32> {
            (0..groups).flat_map(|g| (0..m).map(move |e| (g..96).step_by(groups).map(|k| b[k * m + e]).min().unwrap())).collect()
        };
        p.fw_bucket_bounds = merge(&p.fw_bucket_bounds);
        p.bw_bucket_bounds = merge(&p.bw_bucket_bounds);
        p.bucket_to_metric = (0..96).map(|k| k % groups).collect();
    }
    p
}

fn version(ctx: &mut Ctx, kind: usize, tmp: &str) -> Ver {
    let max_len = if ctx.rng.chance(0.1) { 60_000.0 } else { 300.0 };
    let len = if ctx.rng.chance(0.1) { 0 } else { ctx.rng.logf(1.0, max_len) as usize };
    match kind {
        0 => plain((0..len).map(|_| ctx.rng.next() as u32).collect::<Vec<u32>>()),
        1 => plain((0..len).map(|_| ctx.rng.f() as f32).collect::<Vec<f32>>()),
        2 => plain((0..len).map(|_| ctx.rng.next()).collect::<Box<[u64]>>()),
        3 => plain((0..len).map(|_| (ctx.rng.next() as u32, ctx.rng.next() as u32)).collect::<Vec<(u32, u32)>>()),
        4 => {
            let n = ((len + 64) / 64) * 64;
            let mut b = BitVec::new(n);
            for i in 0..n {
                if ctx.rng.chance(0.5) {
                    b.set(i);
                }
            }
            plain(b)
        }
        5 => {
            let (_, o) = small(ctx, 200);
            dir(NodeOrder::from_node_order(o), tmp, |p| NodeOrder::reconstruct_from(&p))
        }
        6 => {
            let (g, _) = small(ctx, 60);
            dir(OwnedGraph::new(g.first_out, g.head, g.weight), tmp, |p| OwnedGraph::reconstruct_from(&p))
        }
        17 => {
            let (g, _) = small(ctx, 60);
            dir(UnweightedOwnedGraph::new(g.first_out, g.head), tmp, |p| UnweightedOwnedGraph::reconstruct_from(&p))
        }
        7 => {
            let (g, _) = small(ctx, 60);
            let want = graph_map(&OwnedGraph::new(g.first_out.clone(), g.head.clone(), g.weight.clone()));
            vectors(vec![("first_out", g.first_out), ("head", g.head), ("travel_time", g.weight)], want, |p| {
                WeightedGraphReconstructor("travel_time").reconstruct_from(&p).map(|g| graph_map(&g))
            })
        }
        8 | 9 => {
            let (g, o) = small(ctx, 60);
            let w = g.weight.clone();
            let graph = leak(OwnedGraph::new(g.first_out, g.head, w));
            let order = NodeOrder::from_node_order(o);
            let cch: &'static CCH = leak(if kind == 9 || ctx.rng.chance(0.5) { CCH::fix_order_and_build(graph, order) } else { contract(graph, order) });
            if kind == 8 {
                Ver {
                    store: Box::new(move |p| CchDir(cch).deconstruct_to(&p)),
                    load: Box::new(move |p, _| CCHReconstrctor(graph).reconstruct_from(&p).map(|c| cch_map(&c))),
                    want: cch_map(cch),
                }
            } else {
                let c = customize_perfect(customize(cch, graph));
                dir(c, tmp, move |p| cch.reconstruct_from(&p))
            }
        }
        10 => {
            let (g, o) = small(ctx, 60);
            let (g2, _) = small(ctx, 60);
            let files = vec![
                ("forward_first_out", g.first_out.clone()),
                ("forward_head", g.head.clone()),
                ("forward_weight", g.weight.clone()),
                ("backward_first_out", g2.first_out.clone()),
                ("backward_head", g2.head.clone()),
                ("backward_weight", g2.weight.clone()),
                ("order", o.clone()),
            ];
            let want = BTreeMap::from([
                ("ffo".into(), bytes(&g.first_out)),
                ("fh".into(), bytes(&g.head)),
                ("fw".into(), bytes(&g.weight)),
                ("bfo".into(), bytes(&g2.first_out)),
                ("bh".into(), bytes(&g2.head)),
                ("bw".into(), bytes(&g2.weight)),
                ("order".into(), bytes(&o)),
            ]);
            vectors(files, want, |p| CHPotLoader::reconstruct_from(&p).map(|l| chpot_map(&l)))
        }
        11 | 12 => {
            let (t, _) = td_small(ctx, 40);
            let want = if kind == 11 { itd_map(&t.integer()) } else { ftd_map(&t.float()) };
            let files = vec![
                ("first_out", t.g.first_out.clone()),
                ("head", t.g.head.clone()),
                ("first_ipp_of_arc", t.first_ipp.clone()),
                ("ipp_departure_time", t.dep.clone()),
                ("ipp_travel_time", t.tt.clone()),
            ];
            vectors(files, want, move |p| {
                if kind == 11 {
                    itd::TDGraph::reconstruct_from(&p).map(|g| itd_map(&g))
                } else {
                    ftd::TDGraph::reconstruct_from(&p).map(|g| ftd_map(&g))
                }
            })
        }
        _ => {
            let (t, o) = td_small(ctx, 14);
            let fg = leak(t.float());
            let ig: &'static itd::TDGraph = leak(t.integer());
            let fgr = leak((t.g.first_out.clone(), t.g.head.clone()));
            let cch: &'static CCH = leak(CCH::fix_order_and_build(ig, NodeOrder::from_node_order(o)));
            let mut windows = td_astar::ranges();
            windows.retain(|_| ctx.rng.chance(0.05));
            let groups = *ctx.rng.pick(&[96usize, 96, 24, 5]);
            match kind {
                13 => dir(catchup::customize(cch, fg), tmp, move |p| {
                    ftd::CustomizedGraphReconstrctor { original_graph: fg, first_out: cch.first_out(), head: cch.head() }.reconstruct_from(&p)
                }),
                14 => dir(reduced(customization::ftd_for_pot::customize::<96>(cch, fg), groups), tmp, |p| customization::ftd_for_pot::PotData::reconstruct_from(&p)),
                18 => {
                    let x = td_astar::MultiMetricPreprocessed::new(cch, windows, ig, None);
                    dir(x, tmp, move |p| cch.reconstruct_from(&p))
                }
                15 => dir_with(
                    move || td_astar::MultiMetric::new(td_astar::MultiMetricPreprocessed::new(cch, windows.clone(), ig, None)),
                    tmp,
                    move |p| -> IoResult<td_astar::MultiMetric> { cch.reconstruct_from(&p) },
                ),
                19 => {
                    let lower = leak((0..t.g.m()).map(|e| t.lower(e)).collect::<Vec<u32>>());
                    let smooth = BorrowedGraph::new(&fgr.0[..], &fgr.1[..], &lower[..]);
                    let x = traffic_aware::td_traffic_pots::MultiMetricPreprocessed::new(cch, windows, ig, &smooth, None);
                    dir(x, tmp, move |p| cch.reconstruct_from(&p))
                }
                20 => {
                    let lower = leak((0..t.g.m()).map(|e| t.lower(e)).collect::<Vec<u32>>());
                    dir_with(
                        move || {
                            let smooth = BorrowedGraph::new(&fgr.0[..], &fgr.1[..], &lower[..]);
                            traffic_aware::td_traffic_pots::MultiMetric::new(
                                traffic_aware::td_traffic_pots::MultiMetricPreprocessed::new(cch, windows.clone(), ig, &smooth, None),
                                ig,
                            )
                        },
                        tmp,
                        move |p| -> IoResult<traffic_aware::td_traffic_pots::MultiMetric> { (cch, ig).reconstruct_from(&p) },
                    )
                }
                _ => dir_with(
                    move || td_astar::IntervalMinPotential::<(u32, u32)>::new(cch, reduced(customization::ftd_for_pot::customize::<96>(cch, fg), groups)),
                    tmp,
                    move |p| -> IoResult<td_astar::IntervalMinPotential<(u32, u32)>> { cch.reconstruct_from(&p) },
                ),
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum State {
    Missing,
    Known(usize, usize),
    Unknown,
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Store(usize, usize),
    Load(usize, usize),
    /// load a location nothing was stored to
    LoadMissing(usize, usize),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    None,
    Benign,
    Fatal,
    Crash,
}
const FATAL: [usize; 9] = [F_READ_EIO, F_READ_EOF, F_WRITE_EIO, F_WRITE_ENOSPC, F_OPEN_ERR, F_STAT_ERR, F_MKDIR_ERR, F_SYNC_ERR, F_CRASH];
const BENIGN: [usize; 3] = [F_SHORT_READ, F_SHORT_WRITE, F_EINTR];

fn diff(got: &Map, want: &Map) -> Option<String> {
    if got.keys().ne(want.keys()) {
        return Some(format!("files {:?} instead of {:?}", got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>()));
    }
    got.iter().find(|(k, v)| want[*k] != **v).map(|(k, v)| format!("`{}`: {} bytes, differing from the {} bytes stored", k, v.len(), want[k].len()))
}

pub fn run(ctx: &mut Ctx) -> R {
    ctx.swarm(400_000.0);
    let t = *ctx.rng.pick(&[1u32, 2, 4]);
    ctx.workers(t, 4);
    let disk = format!("{}/disk", ctx.scratch);
    let refs = format!("{}/ref", ctx.scratch);
    std::fs::create_dir_all(&disk).unwrap();
    std::fs::create_dir_all(&refs).unwrap();
    ctx.start();
    nopreempt(true);
    // objects
    let nkinds = ctx.rng.us(1, 3);
    let mut vers: Vec<(usize, Vec<Ver>)> = vec![];
    for _ in 0..nkinds {
        let k = ctx.rng.us(0, KINDS.len() - 1);
        let nv = if k >= 13 && k != 17 { ctx.rng.us(1, 2) } else { ctx.rng.us(2, 4) };
        let v = (0..nv).map(|i| version(ctx, k, &format!("{}/init{}", refs, i))).collect();
        ctx.probe(1, nv as u64);
        vers.push((k, v));
    }
    nopreempt(false);
    set_cstr(&mut ctx.sh.io_prefix, &format!("{}/", disk));
    crash_soft(true);
    let nloc = ctx.rng.us(1, 4);
    let kind_of: Vec<usize> = (0..nloc).map(|_| ctx.rng.us(0, nkinds - 1)).collect();
    let path: Vec<String> = (0..nloc).map(|i| format!("{}/loc{}", disk, i)).collect();
    let mut state = vec![State::Missing; nloc];
    let nbatch = ctx.rng.us(2, 14);
    let mut opno = 0u32;
    for b in 0..nbatch {
        let mode = *ctx.rng.pick(&[Mode::None, Mode::Benign, Mode::Benign, Mode::Fatal, Mode::Fatal, Mode::Fatal, Mode::Crash]);
        restart();
        ctx.sh.enable_io(&[]);
        let before: u64 = FATAL.iter().map(|&f| ctx.sh.fault_hit[f]).sum();
        let p = ctx.rng.logf(0.01, 0.6);
        match mode {
            Mode::None => {}
            Mode::Benign => ctx.sh.enable_io(&BENIGN.iter().filter(|_| ctx.rng.chance(0.7)).map(|&f| (f, p)).collect::<Vec<_>>()),
            Mode::Fatal => {
                let mut l: Vec<(usize, f64)> = FATAL[..8].iter().filter(|_| ctx.rng.chance(0.4)).map(|&f| (f, p * 0.5)).collect();
                l.extend(BENIGN.iter().filter(|_| ctx.rng.chance(0.4)).map(|&f| (f, p)));
                ctx.sh.enable_io(&l);
            }
            Mode::Crash => {
                ctx.sh.crash_at_write = mut_ops() + ctx.rng.logf(1.0, 40.0) as u64;
                if ctx.rng.chance(0.5) {
                    ctx.sh.enable_io(&[(F_SHORT_WRITE, p)]);
                }
            }
        }
        // plan
        let parallel = ctx.rng.chance(0.3);
        let nops = ctx.rng.us(1, if parallel { 4 } else { 5 });
        let mut ops: Vec<Op> = vec![];
        let mut plan = state.clone();
        let mut locs_used: BTreeMap<usize, bool> = BTreeMap::new(); // location -> only loads so far
        for _ in 0..nops {
            let l = ctx.rng.us(0, nloc - 1);
            let k = kind_of[l];
            let v = ctx.rng.us(0, vers[k].1.len() - 1);
            let wants_store = ctx.rng.chance(0.5);
            let op = match plan[l] {
                State::Known(_, v) if !wants_store => Op::Load(l, v),
                State::Missing if !wants_store => Op::LoadMissing(l, v),
                _ => Op::Store(l, v),
            };
            if parallel {
                let is_load = !matches!(op, Op::Store(..));
                match locs_used.get(&l) {
                    None => {
                        locs_used.insert(l, is_load);
                    }
                    Some(true) if is_load => {}
                    _ => continue,
                }
            } else if let Op::Store(l, v) = op {
                plan[l] = State::Known(k, v);
            }
            opno += 1;
            if ctx.keep(opno) {
                ops.push(op);
            }
        }
        let exec = |i: usize, op: Op| -> IoResult<Option<Map>> {
            match op {
                Op::Store(l, v) => (vers[kind_of[l]].1[v].store)(&path[l]).map(|_| None),
                Op::Load(l, v) | Op::LoadMissing(l, v) => (vers[kind_of[l]].1[v].load)(&path[l], &format!("{}/b{}o{}", refs, b, i)).map(Some),
            }
        };
        let mut results: Vec<Option<IoResult<Option<Map>>>> = vec![];
        if parallel {
            ctx.probe(2, 1);
            std::thread::scope(|s| {
                let hs: Vec<_> = ops.iter().enumerate().map(|(i, &op)| s.spawn(move || exec(i, op))).collect();
                results = hs.into_iter().map(|h| Some(h.join().unwrap_or_else(|p| std::panic::resume_unwind(p)))).collect();
            });
        } else {
            // the state may become unknown on the way: then nothing is read from there
            let mut st = state.clone();
            for (i, &op) in ops.iter().enumerate() {
                let (l, ok) = match op {
                    Op::Store(l, _) => (l, true),
                    Op::Load(l, v) => (l, matches!(st[l], State::Known(_, w) if w == v)),
                    Op::LoadMissing(l, _) => (l, st[l] == State::Missing),
                };
                if !ok {
                    results.push(None);
                    continue;
                }
                let r = exec(i, op);
                if let Op::Store(_, v) = op {
                    st[l] = if r.is_ok() { State::Known(kind_of[l], v) } else { State::Unknown };
                }
                results.push(Some(r));
            }
        }
        let after: u64 = FATAL.iter().map(|&f| ctx.sh.fault_hit[f]).sum();
        let clean = before == after;
        for (op, r) in ops.iter().zip(results) {
            let Some(r) = r else { continue };
            let l = match *op {
                Op::Store(l, _) | Op::Load(l, _) | Op::LoadMissing(l, _) => l,
            };
            let k = vers[kind_of[l]].0;
            let what = format!("{} (kind {}), batch {} {:?}, {:?}", KINDS[k], k, b, mode, op);
            match (*op, r) {
                (Op::Store(l, v), Ok(_)) => {
                    ctx.probe(3, 1);
                    state[l] = State::Known(kind_of[l], v)
                }
                (Op::Store(l, _), Err(e)) => {
                    ctx.probe(4, 1);
                    state[l] = State::Unknown;
                    if clean {
                        return Err(format!("store-failed: {}: {} although the disk works", what, e));
                    }
                }
                (Op::Load(l, v), Ok(m)) => {
                    ctx.probe(5, 1);
                    if let Some(d) = diff(&m.unwrap(), &vers[kind_of[l]].1[v].want) {
                        return Err(format!("wrong-data: {}: loading succeeded with other data: {}", what, d));
                    }
                }
                (Op::Load(..), Err(e)) => {
                    ctx.probe(6, 1);
                    if clean {
                        return Err(format!("load-failed: {}: {} although the data was stored and the disk works", what, e));
                    }
                }
                (Op::LoadMissing(..), Ok(_)) => return Err(format!("loaded-nothing: {}: loading succeeded though nothing was stored", what)),
                (Op::LoadMissing(..), Err(_)) => {}
            }
        }
        restart();
        ctx.sh.enable_io(&[]);
    }
    // the disk works again: everything can be stored and loaded, and what was stored before is still there
    nopreempt(true);
    for l in 0..nloc {
        let k = kind_of[l];
        let name = KINDS[vers[k].0];
        let load = |v: usize, n: u32| (vers[k].1[v].load)(&path[l], &format!("{}/final{}x{}", refs, l, n));
        if let State::Known(_, v) = state[l] {
            let m = load(v, 0).map_err(|e| format!("lost-data: {}: location {}: {}", name, l, e))?;
            if let Some(d) = diff(&m, &vers[k].1[v].want) {
                return Err(format!("wrong-data: {}: location {} at the end: {}", name, l, d));
            }
            // an object with a file missing is not loaded
            if Path::new(&path[l]).is_dir() && ctx.rng.chance(0.5) {
                let mut m = Map::new();
                dir_bytes(Path::new(&path[l]), "", &mut m);
                let files: Vec<&String> = m.keys().collect();
                let f = files[ctx.rng.us(0, files.len() - 1)].clone();
                // older data without this file is supported
                if !(vers[k].0 == 14 && f.ends_with("bucket_to_metric")) {
                    std::fs::remove_file(format!("{}{}", path[l], f)).unwrap();
                    ctx.probe(8, 1);
                    if load(v, 3).is_ok() {
                        return Err(format!("loaded-nothing: {}: loading succeeded without the file {}", name, f));
                    }
                }
            }
        } else if state[l] == State::Unknown {
            ctx.probe(7, 1);
        }
        let v = ctx.rng.us(0, vers[k].1.len() - 1);
        (vers[k].1[v].store)(&path[l]).map_err(|e| format!("store-failed: {}: location {} after the faults stopped: {}", name, l, e))?;
        let m = load(v, 1).map_err(|e| format!("load-failed: {}: location {} after the faults stopped: {}", name, l, e))?;
        if let Some(d) = diff(&m, &vers[k].1[v].want) {
            return Err(format!("wrong-data: {}: location {} stored again after the faults stopped: {}", name, l, d));
        }
    }
    Ok(())
}

impl Shared {
    fn enable_io(&mut self, l: &[(usize, f64)]) {
        for f in FATAL.iter().chain(&BENIGN) {
            self.fault_p[*f] = 0.0;
        }
        for &(f, p) in l {
            self.fault_p[f] = p;
        }
    }
}
