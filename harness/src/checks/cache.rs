//! C15 to C17: state indices and the distance cache.

use crate::{bridge::*, ctx::*, gen::*, tables::*};
use barbarosa::{
    cube3::{
        heuristics,
        mus::{
            cache,
            deindex::Deindexable,
            index::{CubeIndices, Indexable},
        },
    },
    cube_n::{Corner, Cube3, Edge},
    generic::Cube,
};
use proptest::prelude::*;
use rand::{rngs::StdRng, Rng, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::{
    path::{Path, PathBuf},
    process::{Command, Stdio},
    sync::{
        atomic::{AtomicU64, AtomicU8, Ordering},
        Mutex,
    },
};

type Corners = [Corner; 8];
type Half = [Edge; 6];

/// The pieces of an arrangement, built without the code under test
struct Pieces {
    /// by place and twist
    corner: Vec<[Corner; 3]>,
    /// by place and flip
    edge: Vec<[Edge; 2]>,
}

impl Pieces {
    fn new() -> Pieces {
        Pieces {
            corner: (0..8)
                .map(|p| {
                    let h = corner_home(p);
                    [0, 1, 2].map(|t| corner_at(h, twisted_axis(h, t)))
                })
                .collect(),
            edge: (0..12).map(|p| [true, false].map(|o| edge_at(edge_home(p), o))).collect(),
        }
    }

    fn corners(&self, cp: &[u8], co: &[u8]) -> Corners {
        std::array::from_fn(|i| self.corner[cp[i] as usize][co[i] as usize].clone())
    }

    fn half(&self, ep: &[u8], eo: &[u8]) -> Half {
        std::array::from_fn(|i| self.edge[ep[i] as usize][eo[i] as usize].clone())
    }

    fn corners_no(&self, i: usize) -> Corners {
        let (cp, co) = corners_of(i);
        self.corners(&cp, &co)
    }

    fn half_no(&self, i: usize) -> Half {
        let (ep, eo) = half_of(i);
        self.half(&ep, &eo)
    }
}

// ---------------------------------------------------------------- C15

/// Goes through all arrangements: each needs an index of its own, and leads back from it
fn all_indices<T: Deindexable + PartialEq + std::fmt::Debug>(
    ctx: &Ctx,
    name: &str,
    count: usize,
    solved: usize,
    piece: impl Fn(usize) -> T + Sync,
) {
    if ctx.failed() {
        return;
    }
    let check = |i: usize, seen: Option<&[AtomicU8]>| -> Res {
        let a = piece(i);
        let index = no_panic(|| a.index()).map_err(|e| format!("the index of {a:?}: {e}"))?;
        ensure!(index < count, "{a:?} has index {index}, outside of the {count} arrangements");
        if let Some(seen) = seen {
            ensure!(seen[index].swap(1, Ordering::Relaxed) == 0, "{a:?} has index {index}, as has another arrangement");
        }
        let back = no_panic(|| T::from_index(index)).map_err(|e| format!("from_index({index}): {e}"))?;
        ensure!(back == a, "{a:?} has index {index}, which leads to {back:?}");
        ensure!(i != solved || index == 0, "the solved arrangement has index {index}");
        Ok(())
    };
    if ctx.skip(name) {
        return;
    }
    if let Some(i) = ctx.replay_case(name) {
        let i = i.as_u64().unwrap() as usize;
        if let Err(Fail::Violation(m)) = check(i, None) {
            ctx.violation(name, json!(i), &m);
        }
        return;
    }
    if T::TOTAL_SET_SIZE != count {
        ctx.violation(name, json!(0), &format!("there are {count} arrangements, but the stated set size is {}", T::TOTAL_SET_SIZE));
        return;
    }
    let seen: Vec<AtomicU8> = (0..count).map(|_| AtomicU8::new(0)).collect();
    let first = AtomicU64::new(u64::MAX);
    let fault: Mutex<Option<(usize, String)>> = Mutex::new(None);
    parallel(count, ctx.threads(), |range| {
        for i in range {
            if first.load(Ordering::Relaxed) < i as u64 {
                return;
            }
            if let Err(Fail::Violation(m)) = check(i, Some(&seen)) {
                let mut f = fault.lock().unwrap();
                if f.as_ref().is_none_or(|(j, _)| i < *j) {
                    *f = Some((i, m));
                    first.store(i as u64, Ordering::Relaxed);
                }
                return;
            }
        }
    });
    if let Some((i, m)) = fault.into_inner().unwrap() {
        ctx.violation(name, json!(i), &m);
        return;
    }
    // as many different indices as arrangements, all of them within the range: every index is taken
    ctx.count(name, count as u64, count as u64 - 1, true, json!({"arrangement": count / 2, "pieces": format!("{:?}", piece(count / 2))}));
}

pub fn c15(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it is not the solved arrangement.");
    let p = Pieces::new();
    all_indices::<Half>(ctx, "all-half-edges", HALF_EDGES, 0, |i| p.half_no(i));
    all_indices::<Corners>(ctx, "all-corners", CORNERS, 0, |i| p.corners_no(i));

    ctx.prop("whole-cube", ctx.n(60_000, 3_000_000), state_mix, |s, t| {
        let cube = s.cube();
        t.nontrivial_if(*s != State::solved());
        let CubeIndices { corners, edges } = cube.indices();
        ensure!(corners < CORNERS && edges.iter().all(|e| *e < HALF_EDGES), "index out of range: {corners}, {edges:?}");
        let back = Cube3::from_indices(CubeIndices { corners, edges });
        ensure!(back == cube, "from_indices(indices) gives another cube: {:?}", State::of(&back));
        let solved = *s == State::solved();
        ensure!((corners == 0 && edges == [0, 0]) == solved, "solved: {solved}, indices {corners}, {edges:?}");
        ensure!(corners == cube.corners.pieces().index(), "the corner index is not the index of the corners");
        let first: &Half = cube.edges.pieces()[..6].try_into().unwrap();
        ensure!(edges[0] == first.index(), "the first edge index is not the index of the first six edges");
        Ok(())
    });
    // different cubes differ in an index
    ctx.prop("distinct", ctx.n(30_000, 1_000_000), || (state_mix(), turns(3, 0)), |(s, ts), t| {
        let mut o = s.clone();
        for x in ts {
            o = o.turned(turn_no(*x));
        }
        t.nontrivial_if(o != *s);
        let (a, b) = (s.cube().indices(), o.cube().indices());
        let same = a.corners == b.corners && a.edges == b.edges;
        ensure!(same == (o == *s), "cubes equal: {}, indices equal: {same}", o == *s);
        Ok(())
    });
    ctx.all("solved", vec![0], |_, t| {
        t.nontrivial();
        let i = Cube3::SOLVED.indices();
        ensure!(i.corners == 0 && i.edges == [0, 0], "the solved cube has indices {}, {:?}", i.corners, i.edges);
        let c = Cube3::from_indices(CubeIndices { corners: 0, edges: [0, 0] });
        ensure!(c.is_solved(), "the indices 0, 0, 0 give {:?}", State::of(&c));
        Ok(())
    });
}

// ---------------------------------------------------------------- helper processes

/// What a helper process is asked to do in the directory it runs in
#[derive(Serialize, Deserialize, Debug, Clone, Default)]
struct Job {
    /// the cubes it asks values for are drawn from this
    seed: u64,
    count: usize,
    /// `Cache::load`
    load: bool,
    /// `Cache::init`, which builds what is missing
    init: bool,
    /// the cache behind `mus` and the heuristic with fallback
    global: bool,
    /// several threads ask the cache behind `mus` at once, and others whether there is one
    #[serde(default)]
    at_once: bool,
    /// a corners file to put in place as soon as an edges file appears
    late_corners: bool,
    /// no file gets longer than this
    #[serde(default)]
    disk_full: Option<DiskFull>,
}

/// Where writing stops
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
struct DiskFull {
    bytes: u64,
    /// whether the process dies there, or sees an error
    dies: bool,
    /// no limit, but the process is killed as soon as one of the files is seen to have that length
    #[serde(default)]
    watched: bool,
}

extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(number: i32, handler: usize) -> usize;
    fn kill(pid: i32, signal: i32) -> i32;
}

impl DiskFull {
    fn arrange(self) {
        const RLIMIT_FSIZE: i32 = 1;
        const SIGXFSZ: i32 = 25;
        const SIGKILL: i32 = 9;
        if self.watched {
            let files = [CORNERS_FILE, EDGES_FILE].map(Path::new).into_iter().filter(|f| !f.exists()).collect::<Vec<_>>();
            std::thread::spawn(move || loop {
                if files.iter().any(|f| f.metadata().is_ok_and(|m| m.len() >= self.bytes)) {
                    // SAFETY: ends this process
                    unsafe { kill(std::process::id() as i32, SIGKILL) };
                }
                std::thread::sleep(std::time::Duration::from_micros(20));
            });
            return;
        }
        // SAFETY: plain system calls of this process about itself
        unsafe {
            signal(SIGXFSZ, if self.dies { 0 } else { 1 });
            assert_eq!(setrlimit(RLIMIT_FSIZE, &[self.bytes, self.bytes]), 0);
        }
    }
}

#[derive(Serialize, Deserialize, Debug, Clone, Default, PartialEq)]
struct Report {
    load: Option<Result<Vec<u8>, String>>,
    init: Option<Vec<u8>>,
    /// with fallback and without, before and after the cache is initialised
    fallback_before: Vec<f32>,
    get_before: bool,
    mus: Option<Result<Vec<f32>, String>>,
    /// asked again after that
    mus_again: Option<Result<Vec<f32>, String>>,
    /// what each of several threads was told at once
    mus_at_once: Vec<Result<Vec<f32>, String>>,
    /// the values that others saw meanwhile
    get_meanwhile: Vec<(usize, u8)>,
    /// whether one of them saw a cache and later none
    get_lost: bool,
    fallback_after: Vec<f32>,
    get_after: Vec<Option<u8>>,
}

/// The cubes that a job looks at: near solved ones and random ones
fn job_cubes(seed: u64, count: usize) -> Vec<State> {
    let mut rng = StdRng::seed_from_u64(seed);
    (0..count)
        .map(|i| {
            let mut s = State::solved();
            if i == 0 {
                return s;
            }
            if i % 3 == 0 {
                for _ in 0..rng.gen_range(0..12) {
                    s = s.turned(rng.gen_range(0..18));
                }
                return s;
            }
            State::random(&mut rng)
        })
        .collect()
}

/// A value that tells cubes apart and that no table can hold
fn fallback(cube: &Cube3) -> f32 {
    300.5 + (cube.indices().corners % 1000) as f32
}

/// `harness cache-child`: takes a job from job.json and leaves report.json
pub fn child(_: &[String]) -> i32 {
    install_panic_hook();
    let job: Job = serde_json::from_str(&std::fs::read_to_string("job.json").unwrap()).unwrap();
    let cubes: Vec<Cube3> = job_cubes(job.seed, job.count).iter().map(State::cube).collect();
    let mut r = Report::default();
    if let Some(full) = job.disk_full {
        full.arrange();
    }
    if job.late_corners {
        std::thread::spawn(|| loop {
            if Path::new("mus-cache/edges.barbarosa").exists() {
                let _ = std::fs::rename("late-corners", "mus-cache/corners.barbarosa");
                return;
            }
            std::thread::sleep(std::time::Duration::from_micros(200));
        });
    }
    if job.init {
        let cache = cache::Cache::init();
        r.init = Some(cubes.iter().map(|c| cache.get(c)).collect());
    }
    if job.load {
        r.load = Some(match no_panic(cache::Cache::load) {
            Err(p) => Err(format!("panic: {p}")),
            Ok(Err(e)) => Err(format!("error: {e}")),
            Ok(Ok(cache)) => Ok(cubes.iter().map(|c| cache.get(c)).collect()),
        });
    }
    if job.global {
        let with_fallback = heuristics::mus_with_fallback(fallback);
        r.get_before = cubes.iter().any(|c| cache::get(c).is_some());
        r.fallback_before = cubes.iter().map(&with_fallback).collect();
        if job.at_once {
            ask_at_once(&cubes, &mut r);
        }
        r.mus = Some(no_panic(|| cubes.iter().map(heuristics::mus).collect()));
        r.mus_again = Some(no_panic(|| cubes.iter().map(heuristics::mus).collect()));
        r.get_after = cubes.iter().map(cache::get).collect();
        r.fallback_after = cubes.iter().map(&with_fallback).collect();
    }
    std::fs::write("report.json", serde_json::to_string(&r).unwrap()).unwrap();
    0
}

fn ask_at_once(cubes: &[Cube3], r: &mut Report) {
    let done = std::sync::atomic::AtomicBool::new(false);
    let start = std::sync::Barrier::new(7);
    std::thread::scope(|s| {
        let askers: Vec<_> = (0..4)
            .map(|i| {
                let start = &start;
                s.spawn(move || {
                    start.wait();
                    no_panic(|| {
                        let from = i * cubes.len() / 4;
                        let mut v: Vec<f32> = (0..cubes.len()).map(|k| heuristics::mus(&cubes[(from + k) % cubes.len()])).collect();
                        v.rotate_right(from);
                        v
                    })
                })
            })
            .collect();
        let readers: Vec<_> = (0..3)
            .map(|i| {
                let (start, done) = (&start, &done);
                s.spawn(move || {
                    start.wait();
                    let mut seen = std::collections::BTreeSet::new();
                    let (mut some, mut lost) = (false, false);
                    let mut k = i * 7;
                    while !done.load(Ordering::Acquire) {
                        k = (k + 1) % cubes.len();
                        match cache::get(&cubes[k]) {
                            Some(x) => {
                                some = true;
                                seen.insert((k, x));
                            }
                            None => lost |= some,
                        }
                    }
                    (seen, lost)
                })
            })
            .collect();
        for a in askers {
            r.mus_at_once.push(a.join().unwrap_or_else(|_| Err("the thread ended".into())));
        }
        done.store(true, Ordering::Release);
        let mut all = std::collections::BTreeSet::new();
        for x in readers {
            let (seen, lost) = x.join().expect("the reader ends");
            all.extend(seen);
            r.get_lost |= lost;
        }
        r.get_meanwhile = all.into_iter().collect();
    });
}

/// A directory that goes away with its value
struct Scratch(PathBuf);

impl Scratch {
    fn new(ctx: &Ctx, name: &str) -> Scratch {
        let p = ctx.root.join("target/scratch").join(format!("{}-{name}-{}", ctx.id, std::process::id()));
        let _ = std::fs::remove_dir_all(&p);
        std::fs::create_dir_all(&p).expect("scratch directory");
        Scratch(p)
    }
}

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

const CORNERS_FILE: &str = "mus-cache/corners.barbarosa";
const EDGES_FILE: &str = "mus-cache/edges.barbarosa";

/// Processor time a process has used so far
fn process_seconds(pid: u32) -> f64 {
    let Ok(stat) = std::fs::read_to_string(format!("/proc/{pid}/stat")) else { return 0.0 };
    let fields: Vec<&str> = stat.rsplit(')').next().unwrap().split_whitespace().collect();
    let ticks: f64 = fields[11..13].iter().map(|x| x.parse::<f64>().unwrap_or(0.0)).sum();
    ticks / 100.0
}

/// Runs a job in a directory. `Err` if the process does not get to its report.
fn run_job(dir: &Path, job: &Job) -> Result<Report, String> {
    let out = run(dir, job)?;
    match std::fs::read_to_string(dir.join("report.json")) {
        Ok(text) if out.success() => Ok(serde_json::from_str(&text).unwrap()),
        _ => {
            let err = std::fs::read_to_string(dir.join("stderr")).unwrap_or_default();
            Err(format!("the process ended with {out}: {}", err.trim()))
        }
    }
}

/// Starts a job and waits for its end
fn run(dir: &Path, job: &Job) -> Result<std::process::ExitStatus, String> {
    std::fs::write(dir.join("job.json"), serde_json::to_string(job).unwrap()).unwrap();
    let _ = std::fs::remove_file(dir.join("report.json"));
    let started = std::time::Instant::now();
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("cache-child")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(match job.disk_full {
            None => std::fs::File::create(dir.join("stderr")).unwrap().into(),
            Some(_) => Stdio::null(),
        })
        .spawn()
        .expect("the helper process starts");
    loop {
        if let Some(out) = child.try_wait().unwrap() {
            return Ok(out);
        }
        // the tables are complete after some four minutes of processor time
        if started.elapsed().as_secs() > 660 {
            let busy = process_seconds(child.id());
            let _ = child.kill();
            let _ = child.wait();
            if busy > 550.0 {
                return Err(format!("building the tables does not come to an end ({busy:.0} s of processor time)"));
            }
            eprintln!("check broken: the machine is too slow to build the tables");
            std::process::exit(3);
        }
        std::thread::sleep(std::time::Duration::from_millis(2));
    }
}

// ---------------------------------------------------------------- C16

/// The distances, in the order of the indices of the code under test
fn in_index_order<T: Indexable>(
    dist: &[u8],
    threads: usize,
    piece: impl Fn(usize) -> T + Sync,
) -> Result<Vec<u8>, String> {
    let out: Vec<AtomicU8> = dist.iter().map(|_| AtomicU8::new(255)).collect();
    let fault = Mutex::new(None);
    parallel(dist.len(), threads, |range| {
        for i in range {
            let index = piece(i).index();
            let clash = index >= out.len() || out[index].swap(dist[i], Ordering::Relaxed) != 255;
            if clash {
                *fault.lock().unwrap() = Some(index);
                return;
            }
        }
    });
    match fault.into_inner().unwrap() {
        Some(i) => Err(format!("index {i} is out of range or belongs to two arrangements")),
        None => Ok(out.into_iter().map(|x| x.into_inner()).collect()),
    }
}

fn compare_tables(name: &str, got: &[u8], want: &[u8]) -> Result<(), (usize, String)> {
    if got.len() != want.len() {
        return Err((0, format!("the {name} file has {} bytes instead of {}", got.len(), want.len())));
    }
    match (0..got.len()).find(|i| got[*i] != want[*i]) {
        None => Ok(()),
        Some(i) => {
            let wrong = (0..got.len()).filter(|i| got[*i] != want[*i]).count();
            Err((i, format!("entry {i} of the {name} table is {}, but {} turns are needed ({wrong} wrong entries)", got[i], want[i])))
        }
    }
}

pub fn c16(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it is an entry other than the solved one, or a cube that is not solved.");
    ctx.assume("The reference distances come from a breadth-first search of the harness over the cubie model; how the arrangements are numbered is read from Indexable::index (judged by C15).");
    const NAME: &str = "built-tables";
    let sub = "values";
    if ctx.skip(NAME) && ctx.skip(sub) {
        return;
    }
    let _ = (ctx.replay_case(NAME), ctx.replay_case(sub));
    let threads = ctx.threads();
    let p = Pieces::new();
    let corner_dist = corner_distances(threads);
    let half_dist = half_distances(threads);
    let tables = no_panic(|| {
        Ok::<_, String>((
            in_index_order(&corner_dist, threads, |i| p.corners_no(i))?,
            in_index_order(&half_dist, threads, |i| p.half_no(i))?,
        ))
    });
    let (corners, edges) = match tables {
        Ok(Ok(t)) => t,
        Ok(Err(e)) | Err(e) => {
            ctx.violation(NAME, json!(null), &e);
            return;
        }
    };
    // the value a cube should have, without indices of the code under test
    let value = |s: &State| -> u8 {
        let c = corner_dist[corners_no(&s.cp, &s.co)];
        let first = half_dist[half_no(&s.ep, &s.eo)];
        let second = half_dist[second_half_no(s)];
        c.max(first).max(second)
    };

    let count = ctx.n(20_000, 400_000) as usize;
    // one builds the corners, with the edges already there ...
    let a = Scratch::new(ctx, "a");
    std::fs::create_dir_all(a.0.join("mus-cache")).unwrap();
    std::fs::write(a.0.join(EDGES_FILE), &edges).unwrap();
    // ... the other one the edges, from nothing. The corners appear before it would build them too.
    let b = Scratch::new(ctx, "b");
    std::fs::write(b.0.join("late-corners"), &corners).unwrap();
    let seed = ctx.seed_u64(NAME);
    // ... and the program builds the corners as well
    let c = Scratch::new(ctx, "c");
    std::fs::create_dir_all(c.0.join("mus-cache")).unwrap();
    std::fs::write(c.0.join(EDGES_FILE), &edges).unwrap();
    let (ra, rb, rc) = std::thread::scope(|s| {
        let ha = s.spawn(|| run_job(&a.0, &Job { seed, count, init: true, ..Job::default() }));
        let hc = s.spawn(|| run_program(&c.0, 1500.0));
        let hb = s.spawn(|| run_job(&b.0, &Job { seed: seed + 1, count, init: true, late_corners: true, ..Job::default() }));
        (ha.join().unwrap(), hb.join().unwrap(), hc.join().unwrap())
    });
    let ok = std::cell::Cell::new(true);
    let check_values = |what: &str, seed: u64, got: &[u8]| {
        let states = job_cubes(seed, count);
        for (s, g) in states.iter().zip(got) {
            let want = value(s);
            if *g != want {
                ctx.violation(sub, serde_json::to_value(s).unwrap(), &format!("{what}: the value of the cube is {g} instead of {want}"));
                ok.set(false);
                return;
            }
        }
        if got.len() != states.len() {
            ctx.violation(sub, json!(null), &format!("{what}: {} values for {} cubes", got.len(), states.len()));
            ok.set(false);
        }
    };
    for (what, r, seed) in [("after building the corners", ra, seed), ("after building the edges", rb, seed + 1)] {
        match r {
            Ok(r) => check_values(what, seed, &r.init.unwrap_or_default()),
            Err(e) => {
                ctx.violation(NAME, json!(what), &format!("{what}: {e}"));
                return;
            }
        }
    }
    let got_corners = std::fs::read(a.0.join(CORNERS_FILE)).unwrap_or_default();
    let got_edges = std::fs::read(b.0.join(EDGES_FILE)).unwrap_or_default();
    let by_program = match rc {
        Some(Ended::Well) => Some(std::fs::read(c.0.join(CORNERS_FILE)).unwrap_or_default()),
        Some(Ended::Badly(e)) => {
            ctx.violation(NAME, json!("program"), &format!("`--build-mus-cache` fails to build the corners: {e}"));
            return;
        }
        _ => None,
    };
    drop(c);
    let mut tables = vec![("corners", &got_corners, &corners), ("edges", &got_edges, &edges)];
    tables.extend(by_program.iter().map(|got| ("corners built by the program", got, &corners)));
    for (name, got, want) in tables {
        if let Err((i, m)) = compare_tables(name, got, want) {
            ctx.violation(NAME, json!({"table": name, "entry": i}), &m);
            ok.set(false);
        }
    }
    if !ok.get() {
        return;
    }
    // a later run finds the files
    std::fs::rename(b.0.join(EDGES_FILE), a.0.join(EDGES_FILE)).unwrap();
    match run_job(&a.0, &Job { seed: seed + 2, count, load: true, global: true, ..Job::default() }) {
        Err(e) => ctx.violation(NAME, json!("load"), &e),
        Ok(r) => {
            match r.load {
                Some(Ok(v)) => check_values("after loading", seed + 2, &v),
                other => {
                    ctx.violation(NAME, json!("load"), &format!("the files just written do not load: {:?}", other.map(|x| x.err())));
                    return;
                }
            }
            match r.mus {
                Some(Ok(v)) => {
                    let bytes: Vec<u8> = v.iter().map(|x| if x.fract() == 0.0 { *x as u8 } else { 254 }).collect();
                    check_values("mus", seed + 2, &bytes);
                }
                other => ctx.violation(NAME, json!("mus"), &format!("mus fails on the files just written: {:?}", other.map(|x| x.err()))),
            }
        }
    }
    if !ok.get() {
        return;
    }
    // the value never exceeds the number of turns that made a cube
    let mut rng = StdRng::seed_from_u64(ctx.seed_u64("bound"));
    for _ in 0..100_000 {
        let len = rng.gen_range(0..20);
        let s = (0..len).fold(State::solved(), |s, _| s.turned(rng.gen_range(0..18)));
        assert!(value(&s) <= len, "the reference is not admissible");
    }
    ctx.count("corner entries", CORNERS as u64, CORNERS as u64 - 1, true, json!({"index": 1, "turns": corners[1]}));
    ctx.count("edge entries", HALF_EDGES as u64, HALF_EDGES as u64 - 1, true, json!({"index": 1, "turns": edges[1]}));
    let n = 4 * count as u64;
    ctx.count("cube values", n, n - 4, false, serde_json::to_value(State::random(&mut rng)).unwrap());
    ctx.extra("deepest", json!({"corners": corners.iter().max(), "edges": edges.iter().max()}));
}

/// How a run of the program with `--build-mus-cache` ended
#[derive(Debug)]
enum Ended {
    Well,
    Badly(String),
    /// stopped, it took too long
    No,
}

/// Runs the program (none if there is none to run)
fn run_program(dir: &Path, max_seconds: f64) -> Option<Ended> {
    let bin = std::env::var_os("BARBAROSA_BIN")?;
    let err = dir.join("program-stderr");
    let mut child = Command::new(bin)
        .arg("--build-mus-cache")
        .current_dir(dir)
        .stdin(Stdio::null())
        .stdout(Stdio::null())
        .stderr(std::fs::File::create(&err).unwrap())
        .spawn()
        .expect("the program starts");
    loop {
        if let Some(status) = child.try_wait().unwrap() {
            let said = std::fs::read(&err).unwrap_or_default();
            let said = String::from_utf8_lossy(&said[..said.len().min(600)]).into_owned();
            return Some(if status.success() { Ended::Well } else { Ended::Badly(format!("{status}: {said}")) });
        }
        if process_seconds(child.id()) > max_seconds {
            let _ = child.kill();
            let _ = child.wait();
            return Some(Ended::No);
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

/// The number of the arrangement of the last six edges, turned over so that their homes are those of
/// the first six: the distance stays the same, because turns map to turns
fn second_half_no(s: &State) -> usize {
    use crate::model::*;
    let over = Rot::quarter(0, 2);
    let place = |p: V| (0..12).find(|j| edge_home(*j) == p).unwrap();
    let (mut ep, mut eo) = ([0u8; 6], [0u8; 6]);
    for i in 6..12 {
        let k = place(over.apply(edge_home(i)));
        assert!(k < 6, "the second half of the edges is not the first one turned over");
        ep[k] = place(over.apply(edge_home(s.ep[i] as usize))) as u8;
        // a half turn about X keeps U/D and F/B stickers apart
        eo[k] = s.eo[i];
    }
    half_no(&ep, &eo)
}

// ---------------------------------------------------------------- C17

/// What is in the place of one of the two files
#[derive(Serialize, Deserialize, Debug, Clone, Copy, PartialEq)]
enum Found {
    /// the right size, each byte from its index and this seed
    Good(u64),
    /// a size relative to the right one
    Off(i64),
    /// a size in bytes
    Size(u64),
    Missing,
    Directory,
    DanglingLink,
    LinkLoop,
}

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq)]
struct Disk {
    corners: Found,
    edges: Found,
    /// what the directory itself is: 0 usual, 1 missing, 2 a file
    dir: u8,
    seed: u64,
    /// ask the cache behind `mus` as well
    global: bool,
}

fn synthetic(seed: u64, i: usize) -> u8 {
    let x = (i as u64 ^ seed.rotate_left(17)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (x >> 40) as u8
}

impl Found {
    fn put(self, path: &Path, size: usize) {
        use std::os::unix::fs::symlink;
        match self {
            Found::Good(seed) => {
                let v: Vec<u8> = (0..size).map(|i| synthetic(seed, i)).collect();
                std::fs::write(path, v).unwrap();
            }
            Found::Off(d) => Found::Size((size as i64 + d).max(0) as u64).put(path, size),
            Found::Size(n) => std::fs::File::create(path).unwrap().set_len(n).unwrap(),
            Found::Missing => {}
            Found::Directory => std::fs::create_dir(path).unwrap(),
            Found::DanglingLink => symlink("nowhere", path).unwrap(),
            Found::LinkLoop => symlink(path.file_name().unwrap(), path).unwrap(),
        }
    }

    fn good(self, size: usize) -> bool {
        match self {
            Found::Good(_) => true,
            Found::Off(d) => d == 0,
            Found::Size(n) => n == size as u64,
            _ => false,
        }
    }

    /// Present as a file
    fn file(self) -> bool {
        matches!(self, Found::Good(_) | Found::Off(_) | Found::Size(_))
    }

    fn byte(self, i: usize) -> u8 {
        match self {
            Found::Good(seed) => synthetic(seed, i),
            _ => 0,
        }
    }
}

fn found(size: usize) -> impl Strategy<Value = Found> + Clone {
    let size = size as i64;
    prop_oneof![
        6 => any::<u64>().prop_map(Found::Good),
        3 => prop_oneof![-3i64..=3, -5000i64..5000].prop_map(Found::Off),
        2 => prop_oneof![Just(0u64), 0u64..10_000, 0..=(2 * size as u64)].prop_map(Found::Size),
        1 => prop::sample::select(vec![-1i64, 1, -size, 1 - size, size, 64, -64, 4096, -4096, -(size / 2), -(size / 3)]).prop_map(Found::Off),
        // what the other file, and other tables, would have
        1 => prop::sample::select(vec![CORNERS as u64, HALF_EDGES as u64, 40320, 2187, 665_280, 3_674_160]).prop_map(Found::Size),
        2 => prop::sample::select(vec![Found::Missing, Found::Directory, Found::DanglingLink, Found::LinkLoop]),
    ]
}

fn disk() -> impl Strategy<Value = Disk> + Clone {
    (
        found(CORNERS),
        found(HALF_EDGES),
        prop_oneof![10 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
        any::<u64>(),
        any::<bool>(),
        prop_oneof![
            2 => Just(0u8), // both as drawn
            2 => Just(1u8), // only the corners may be bad
            2 => Just(2u8), // only the edges may be bad
        ],
        any::<u64>(),
    )
        .prop_map(|(mut corners, mut edges, dir, seed, global, which, fill)| {
            match which {
                1 => edges = Found::Good(fill),
                2 => corners = Found::Good(fill),
                _ => {}
            }
            Disk { corners, edges, dir, seed, global }
        })
}

pub fn c17(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if at least one of the two files is present; all are runs of a process of their own on generated files.");
    ctx.assume("Faults of the file system are generated as what can be put there without special rights (sizes, missing files, directories, links); read errors in the middle of a file are not.");
    let dirs = Scratch::new(ctx, "disk");
    let next = AtomicU64::new(0);
    let count = 300;
    ctx.case_limit(400);
    let test = |d: &Disk, t: &mut Tally| -> Res {
        let dir = dirs.0.join(next.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&dir).unwrap();
        let dir = Scratch(dir);
        match d.dir {
            0 => {
                std::fs::create_dir(dir.0.join("mus-cache")).unwrap();
                d.corners.put(&dir.0.join(CORNERS_FILE), CORNERS);
                d.edges.put(&dir.0.join(EDGES_FILE), HALF_EDGES);
            }
            1 => {}
            _ => std::fs::write(dir.0.join("mus-cache"), "a file").unwrap(),
        }
        let good = d.dir == 0 && d.corners.good(CORNERS) && d.edges.good(HALF_EDGES);
        let files = d.dir == 0 && d.corners.file() && d.edges.file();
        let odd = |f: Found, size| f.file() && !f.good(size);
        let odd_size = d.dir == 0 && (odd(d.corners, CORNERS) || odd(d.edges, HALF_EDGES));
        t.nontrivial_if(d.dir == 0 && (d.corners.file() || d.edges.file()));
        t.class(match (good, odd_size) {
            (true, _) => "both files right",
            (_, true) => "a file of a wrong size",
            _ => "a file missing or unreadable",
        });
        t.class(if files { "both files there" } else { "not both files there" });
        // the cache behind `mus` builds what is missing, so only ask it where nothing is missing
        let missing = |f: Found| matches!(f, Found::Missing | Found::DanglingLink);
        let global = d.global && d.dir == 0 && !missing(d.corners) && !missing(d.edges);
        let at_once = d.seed % 3 == 1;
        let job = Job { seed: d.seed, count, load: true, global, at_once, ..Job::default() };
        let r = run_job(&dir.0, &job)?;
        let states = job_cubes(d.seed, count);
        let want: Vec<u8> = states
            .iter()
            .map(|s| {
                let i = s.cube().indices();
                d.corners.byte(i.corners).max(d.edges.byte(i.edges[0])).max(d.edges.byte(i.edges[1]))
            })
            .collect();
        let first_wrong = |got: &[u8]| (0..count).find(|i| got.get(*i) != Some(&want[*i]));
        match r.load.expect("a result of loading") {
            Ok(got) => {
                ensure!(good, "a cache with corners {:?} and edges {:?} was loaded", d.corners, d.edges);
                if let Some(i) = first_wrong(&got) {
                    fail!("the cache says {:?} for {:?}, but the files say {}", got.get(i), states[i], want[i]);
                }
            }
            Err(e) => {
                ensure!(!good, "a good cache was refused: {e}");
                ensure!(odd_size || e.starts_with("error"), "a missing or unreadable file is not reported as an error: {e}");
            }
        }
        if global {
            t.class("with the cache behind mus");
            let plain: Vec<f32> = states.iter().map(|s| fallback(&s.cube())).collect();
            ensure!(!r.get_before, "a value comes from the cache before there is one");
            ensure!(r.fallback_before == plain, "without a cache, the heuristic with fallback is not the fallback");
            if at_once {
                t.class("asked by several threads at once");
                ensure!(!r.get_lost, "a thread saw that the cache was there, and later that it was not");
                let odd = r.get_meanwhile.iter().find(|(i, x)| !good || want[*i] != *x);
                if let Some((i, x)) = odd {
                    fail!("while other threads load the cache, get says {x} for {:?}, but the files say {}", states[*i], want[*i]);
                }
                for got in &r.mus_at_once {
                    match got {
                        Ok(v) => {
                            ensure!(good, "asked by several threads at once, mus uses a cache with corners {:?} and edges {:?}", d.corners, d.edges);
                            ensure!(v.iter().zip(&want).all(|(a, b)| *a == f32::from(*b)), "asked by several threads at once, mus does not give what the files say");
                        }
                        Err(e) => ensure!(!good, "asked by several threads at once, mus refuses a good cache: {e}"),
                    }
                }
            }
            let again = r.mus_again.expect("a second result of mus");
            match r.mus.expect("a result of mus") {
                Ok(got) => {
                    ensure!(good, "mus uses a cache with corners {:?} and edges {:?}", d.corners, d.edges);
                    let want: Vec<f32> = want.iter().map(|x| *x as f32).collect();
                    ensure!(got == want, "mus does not give what the files say");
                    ensure!(again == Ok(got), "asked again, mus gives something else");
                    ensure!(r.fallback_after == want, "with a cache, the heuristic with fallback does not give what the files say");
                    ensure!(r.get_after.iter().zip(&want).all(|(a, b)| a.map(f32::from) == Some(*b)), "get does not give what the files say");
                }
                Err(e) => {
                    ensure!(!good, "mus refuses a good cache: {e}");
                    ensure!(again.is_err(), "asked again, mus uses a cache with corners {:?} and edges {:?}", d.corners, d.edges);
                    ensure!(r.get_after.iter().all(|x| x.is_none()), "a refused cache is used");
                    ensure!(r.fallback_after == plain, "after refusing a cache, the heuristic with fallback is not the fallback");
                }
            }
        }
        // what is there stays as it is
        for (f, path, size) in [(d.corners, CORNERS_FILE, CORNERS), (d.edges, EDGES_FILE, HALF_EDGES)] {
            if d.dir == 0 && f.file() {
                let len = std::fs::metadata(dir.0.join(path)).map(|m| m.len());
                let was = match f {
                    Found::Good(_) => size as u64,
                    Found::Off(x) => (size as i64 + x).max(0) as u64,
                    Found::Size(n) => n,
                    _ => 0,
                };
                ensure!(len.as_ref().is_ok_and(|l| *l == was), "loading changed {path}: {len:?} bytes instead of {was}");
            }
        }
        Ok(())
    };
    // the boundaries
    let g = Found::Good;
    let mut fixed = vec![
        Disk { corners: g(1), edges: g(2), dir: 0, seed: 1, global: true },
        Disk { corners: g(3), edges: g(4), dir: 1, seed: 1, global: false },
        Disk { corners: g(3), edges: g(4), dir: 2, seed: 1, global: true },
    ];
    for bad in [Found::Off(-1), Found::Off(1), Found::Size(0), Found::Size(1), Found::Missing, Found::Directory, Found::Off(1 << 20)] {
        let global = bad != Found::Missing;
        fixed.push(Disk { corners: g(5), edges: bad, dir: 0, seed: 2, global });
        fixed.push(Disk { corners: bad, edges: g(6), dir: 0, seed: 3, global });
    }
    fixed.push(Disk { corners: Found::Size(HALF_EDGES as u64), edges: Found::Size(CORNERS as u64), dir: 0, seed: 4, global: true });
    ctx.prop("files", ctx.n(120, 4000), disk, test);
    // the program, with `--build-mus-cache`, where nothing is missing
    let program = |d: &Disk, t: &mut Tally| -> Res {
        let missing = |f: Found| matches!(f, Found::Missing | Found::DanglingLink);
        if d.dir == 1 || missing(d.corners) || missing(d.edges) {
            t.class("not run, something is missing");
            return Ok(());
        }
        let dir = dirs.0.join(next.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(&dir).unwrap();
        let dir = Scratch(dir);
        let parts = [(d.corners, CORNERS_FILE, CORNERS), (d.edges, EDGES_FILE, HALF_EDGES)];
        if d.dir == 0 {
            std::fs::create_dir(dir.0.join("mus-cache")).unwrap();
            parts.iter().for_each(|(f, path, size)| f.put(&dir.0.join(path), *size));
        } else {
            std::fs::write(dir.0.join("mus-cache"), "a file").unwrap();
        }
        let good = d.dir == 0 && parts.iter().all(|(f, _, size)| f.good(*size));
        let Some(end) = run_program(&dir.0, 20.0) else {
            t.class("there is no program to run");
            return Ok(());
        };
        t.nontrivial_if(d.dir == 0 && (d.corners.file() || d.edges.file()));
        t.class(match (&end, good) {
            (Ended::Well, _) => "ended well",
            (Ended::Badly(_), _) => "ended badly",
            (Ended::No, _) => "stopped",
        });
        match end {
            Ended::Badly(e) => ensure!(!good, "`--build-mus-cache` fails where both files are there and complete: {e}"),
            Ended::No => ensure!(!good, "`--build-mus-cache` does not end where both files are there and complete"),
            Ended::Well => {
                for (f, path, size) in parts {
                    let now = std::fs::read(dir.0.join(path)).map_err(|e| format!("`--build-mus-cache` ends well, but {path} cannot be read: {e}"))?;
                    ensure!(now.len() == size, "`--build-mus-cache` ends well, but {path} has {} bytes instead of {size}", now.len());
                    let changed = match f {
                        Found::Good(seed) if good => (0..size).find(|i| now[*i] != synthetic(seed, *i)),
                        _ => None,
                    };
                    ensure!(changed.is_none(), "`--build-mus-cache` changes {path}, which was complete");
                }
            }
        }
        Ok(())
    };
    let there = fixed.iter().filter(|d| d.global).cloned().collect();
    ctx.all("boundaries", fixed, test);
    ctx.all("program-boundaries", there, program);
    ctx.prop("program", ctx.n(40, 1500), disk, program);
    // builds that do not get to their end
    let true_tables: std::sync::OnceLock<(bool, Vec<u8>)> = std::sync::OnceLock::new();
    let interrupted = |x: &Interrupted, t: &mut Tally| -> Res {
        let dir = dirs.0.join(next.fetch_add(1, Ordering::Relaxed).to_string());
        std::fs::create_dir_all(dir.join("mus-cache")).unwrap();
        let dir = Scratch(dir);
        let (there, there_size, built, size) = match x.corners {
            true => (EDGES_FILE, HALF_EDGES, CORNERS_FILE, CORNERS),
            false => (CORNERS_FILE, CORNERS, EDGES_FILE, HALF_EDGES),
        };
        Found::Good(x.full.bytes).put(&dir.0.join(there), there_size);
        let end = run(&dir.0, &Job { seed: 1, count: 1, init: true, disk_full: Some(x.full), ..Job::default() })?;
        let left = std::fs::metadata(dir.0.join(built)).ok().map(|m| m.len());
        t.nontrivial_if(!end.success());
        t.class(match left {
            None => "nothing left",
            Some(0) => "an empty file left",
            Some(n) if n < size as u64 => "a part left",
            Some(_) => "a whole file left",
        });
        let r = run_job(&dir.0, &Job { seed: 1, count, load: true, ..Job::default() })?;
        let refused = r.load.expect("a result of loading").is_err();
        if !refused && x.full.watched {
            // the process may have died after its last byte: what is there has to be the whole table
            let want = true_tables.get_or_init(|| {
                let threads = ctx.threads();
                let p = Pieces::new();
                let table = if x.corners {
                    in_index_order(&corner_distances(threads), threads, |i| p.corners_no(i))
                } else {
                    in_index_order(&half_distances(threads), threads, |i| p.half_no(i))
                };
                (x.corners, table.unwrap_or_default())
            });
            if want.0 == x.corners {
                t.class("used, so complete");
                let got = std::fs::read(dir.0.join(built)).unwrap_or_default();
                if let Err((_, e)) = compare_tables(built, &got, &want.1) {
                    fail!("a cache whose build was killed while it was writing is used: {e}");
                }
            }
            return Ok(());
        }
        ensure!(refused, "a cache that was not built to its end (it has {left:?} of {size} bytes) is used");
        Ok(())
    };
    let mut rng = StdRng::seed_from_u64(ctx.seed_u64("interrupted-build"));
    let mut cuts = vec![];
    for dies in [true, false] {
        for corners in if ctx.thorough() { &[false, true][..] } else { &[false] } {
            let size = if *corners { CORNERS } else { HALF_EDGES } as u64;
            cuts.extend([0, rng.gen_range(1..size), size - 1].map(|bytes| Interrupted { corners: *corners, full: DiskFull { bytes, dies, watched: false } }));
            if dies {
                // a writer that sets the size of the file first is not stopped by a limit on that size
                let n = if ctx.thorough() { 12 } else { 2 };
                let at = |i| if i == 0 { 1 } else { rng.gen_range(1..size) };
                cuts.extend((0..n).map(at).map(|bytes| Interrupted { corners: *corners, full: DiskFull { bytes, dies, watched: true } }).collect::<Vec<_>>());
            }
            if ctx.thorough() {
                cuts.extend((0..9).map(|_| Interrupted { corners: *corners, full: DiskFull { bytes: rng.gen_range(1..size), dies, watched: false } }));
            }
        }
    }
    ctx.all("interrupted-build", cuts, interrupted);
}

/// A build of one table, with the other one there, that fills the disk
#[derive(Serialize, Deserialize, Debug, Clone)]
struct Interrupted {
    corners: bool,
    full: DiskFull,
}
