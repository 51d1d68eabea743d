//! Property scenarios.
use crate::sim::*;
use crate::Ctx;

pub mod cch;
pub mod disk;
pub mod merge;
pub mod query;
pub mod server;
pub mod td;
pub mod topo;
pub mod profile;
pub mod traffic;
pub mod turns;
pub mod sampling;

pub type R = Result<(), String>;

pub fn run(prop: &str, ctx: &mut Ctx) -> R {
    match prop {
        "C04" => cch::basic(ctx),
        "C05" => cch::perfect(ctx),
        "C06" => td::catchup_prop(ctx),
        "C07" => td::pot_prop(ctx),
        "C08" => topo::bidir(ctx),
        "C09" => topo::penalty(ctx),
        "C10" => disk::run(ctx),
        "C11" => merge::run(ctx),
        "C12" => query::servers(ctx),
        "C13" => query::one_to_many(ctx),
        "C14" => traffic::run(ctx),
        "C15" => profile::run(ctx),
        "C16" => turns::run(ctx),
        "C17" => sampling::run(ctx),
        "C01" | "C02" | "C03" => server::run(ctx),
        _ => Err(format!("harness: unknown property {}", prop)),
    }
}

impl Ctx {
    /// Swarm configuration of the scheduler: everything derives from the run's seed.
    /// `est` is a rough estimate of the number of steps of the run.
    pub fn swarm(&mut self, est: f64) {
        let mut r = Rng::new(self.seed ^ 0x5157_a12);
        let sh = &mut self.sh;
        sh.seed = r.next();
        let x = r.f();
        sh.policy = if x < 0.28 {
            0
        } else if x < 0.52 {
            1
        } else if x < 0.57 {
            2
        } else if x < 0.72 {
            3
        } else {
            4
        };
        let lo = (est / 15_000.0).max(12.0);
        sh.mean_slice = r.logf(lo, (lo * 4000.0).max(1e5).min(3e6));
        sh.mean_atomic = if r.chance(0.5) { 0.0 } else { r.logf(3.0, 300.0).max(est / 400_000.0) };
        sh.pct_d = r.range(1, 12) as u32;
        sh.pct_horizon = r.logf(1000.0, est.max(2000.0) * 2.0);
        sh.fault_p[F_SPURIOUS_WAKE] = if r.chance(0.4) { 0.0 } else { r.logf(0.005, 0.2) };
        sh.fault_p[F_STALL] = if r.chance(0.5) { 0.0 } else { r.logf(0.001, 0.05) };
        sh.step_cap = ((est * 400.0) as u64).max(400_000_000);
        sh.ncpu = 4;
    }
    /// atomic stores weaker than SeqCst may reach other threads late (store buffers)
    pub fn store_buffers(&mut self) {
        let mut r = Rng::new(self.seed ^ 0x0570_4eb0);
        self.sh.fault_p[F_STORE_DELAY] = if r.chance(0.4) { 0.0 } else { r.logf(0.02, 0.9) };
    }
    pub fn workers(&mut self, threads: u32, ncpu: u32) {
        self.sh.ncpu = ncpu;
        std::env::set_var("RAYON_NUM_THREADS", threads.to_string());
    }
    pub fn start(&mut self) {
        start(self.sh);
    }
    pub fn probe(&mut self, k: usize, v: u64) {
        self.sh.user[k] += v;
    }
    /// operation `i` is kept (not dropped by the minimiser)
    pub fn keep(&self, i: u32) -> bool {
        !self.drop.contains(&i)
    }
}
