//! C13, C14 and C23: random cubes, repaired assemblies and piece sets.

use crate::{bridge::*, ctx::*, gen::*, model::*};
use barbarosa::{
    cube_n::{
        invariants::{fix_corner_multiplicity, fix_edge_flip_parity, fix_swap_parity},
        moves::{rotation::AxisRotation, rotation::Rotatable},
        pieces::{
            center::{corner::CenterCorner, edge::CenterEdge, wing::CenterWing},
            corner::CornerSet,
            edge::EdgeSet,
        },
        AxisMove, Corner, Cube2, Cube3, Edge, Wing,
    },
    generic::{piece::PieceSetDescriptor, Cube, Movable, Piece, PieceSet},
};
use proptest::prelude::*;
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::fmt::Debug;

// ---------------------------------------------------------------- C13

/// A source of randomness that starts with given words
struct Prefixed {
    words: Vec<u64>,
    at: usize,
    rest: StdRng,
}

impl RngCore for Prefixed {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 7) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.at += 1;
        match self.words.get(self.at - 1) {
            Some(w) => *w,
            None => self.rest.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for b in dest {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

fn prefixed(words: &[u64], seed: u64) -> Prefixed {
    Prefixed { words: words.to_vec(), at: 0, rest: StdRng::seed_from_u64(seed) }
}

fn solvable3(c: &Cube3) -> Result<State, String> {
    let s = no_panic(|| State::of(c)).map_err(|e| format!("{c:?} is not made of the pieces of a cube: {e}"))?;
    if !s.is_valid_perm() {
        return Err(format!("a piece is missing or double: {s:?}"));
    }
    if c.corners.validate().is_some() || c.edges.validate().is_some() {
        return Err(format!("a piece set is invalid: {s:?}"));
    }
    if s.twist_sum() != 0 {
        return Err(format!("the corner twists add up to {} of 3: {s:?}", s.twist_sum()));
    }
    if s.flip_sum() != 0 {
        return Err(format!("an odd number of edges is flipped: {s:?}"));
    }
    if parity(&s.cp) != parity(&s.ep) {
        return Err(format!("the permutations have different parities: {s:?}"));
    }
    Ok(s)
}

fn solvable2(c: &Cube2) -> Result<State, String> {
    let s = no_panic(|| State::of_corners(&c.corners)).map_err(|e| format!("{c:?}: {e}"))?;
    if !s.is_valid_perm() || c.corners.validate().is_some() {
        return Err(format!("a piece is missing or double: {s:?}"));
    }
    if s.twist_sum() != 0 {
        return Err(format!("the corner twists add up to {} of 3: {s:?}", s.twist_sum()));
    }
    Ok(s)
}

/// Counts, for each pair of observed variables, how often each pair of values occurs
struct Pairs {
    sizes: Vec<usize>,
    counts: Vec<Vec<u32>>,
    n: u32,
}

impl Pairs {
    fn new(sizes: Vec<usize>) -> Pairs {
        let mut counts = vec![];
        for i in 0..sizes.len() {
            for j in 0..=i {
                counts.push(vec![0; sizes[i] * sizes[j]]);
            }
        }
        Pairs { sizes, counts, n: 0 }
    }

    fn add(&mut self, values: &[u8]) {
        let mut k = 0;
        for i in 0..values.len() {
            for j in 0..=i {
                self.counts[k][values[i] as usize * self.sizes[j] + values[j] as usize] += 1;
                k += 1;
            }
        }
        self.n += 1;
    }

    fn merge(&mut self, o: &Pairs) {
        for (a, b) in self.counts.iter_mut().zip(&o.counts) {
            for (x, y) in a.iter_mut().zip(b) {
                *x += y;
            }
        }
        self.n += o.n;
    }

    /// The worst deviation from the probability of each pair of values, in standard deviations
    fn worst(&self, p: impl Fn(usize, usize, usize, usize) -> f64) -> (f64, String) {
        let mut worst = (0.0, String::new());
        let mut k = 0;
        let n = self.n as f64;
        for i in 0..self.sizes.len() {
            for j in 0..=i {
                for a in 0..self.sizes[i] {
                    for b in 0..self.sizes[j] {
                        let p = p(i, a, j, b);
                        let got = self.counts[k][a * self.sizes[j] + b] as f64;
                        let sd = (n * p * (1.0 - p)).sqrt();
                        let z = if sd == 0.0 {
                            if got == n * p { 0.0 } else { f64::INFINITY }
                        } else {
                            ((got - n * p) / sd).abs()
                        };
                        if z > worst.0 {
                            worst = (z, format!("variable {i} is {a} and variable {j} is {b} in {got} of {n} draws, expected {:.0} (z = {z:.1})", n * p));
                        }
                    }
                }
                k += 1;
            }
        }
        worst
    }
}

/// Parts of what is observed, and how often two draws agree in all of a part
struct Agreement {
    parts: Vec<(String, Vec<usize>, f64)>,
}

/// Number of equally likely values of some places or orientations of pieces.
/// `c`, `e`: how many corners and edges with their places, `t`, `f`: with their orientations
fn many(c: usize, t: usize, e: usize, f: usize) -> f64 {
    let places = |n: usize, k: usize| (0..k).map(|i| (n - i) as f64).product::<f64>();
    let n = places(8, c) * 3f64.powi(t.min(7) as i32) * places(12, e) * 2f64.powi(f.min(11) as i32);
    if c >= 7 && e >= 11 {
        n / 2.0
    } else {
        n
    }
}

impl Agreement {
    /// `at`: where among the variables the places of corners, twists, places of edges and flips are
    fn new(at: [usize; 4], edges: bool) -> Agreement {
        let mut parts = vec![];
        let mut part = |name: String, c: u32, t: u32, e: u32, f: u32| {
            let (e, f) = if edges { (e, f) } else { (0, 0) };
            let vars = |m: u32, at: usize| (0..12).filter(move |i| m >> i & 1 == 1).map(move |i| at + i);
            let v: Vec<usize> = vars(c, at[0]).chain(vars(t, at[1])).chain(vars(e, at[2])).chain(vars(f, at[3])).collect();
            let n = many(c.count_ones() as usize, t.count_ones() as usize, e.count_ones() as usize, f.count_ones() as usize);
            // (with few values the agreement is less close to normal, and the frequencies show the same)
            if n > 2000.0 && !parts.iter().any(|p: &(String, Vec<usize>, f64)| p.1 == v) {
                parts.push((name, v, n));
            }
        };
        part("the whole cube".into(), 0xff, 0xff, 0xfff, 0xfff);
        part("corners".into(), 0xff, 0xff, 0, 0);
        part("places of corners".into(), 0xff, 0, 0, 0);
        part("twists".into(), 0, 0xff, 0, 0);
        part("edges".into(), 0, 0, 0xfff, 0xfff);
        part("places of edges".into(), 0, 0, 0xfff, 0);
        part("flips".into(), 0, 0, 0, 0xfff);
        part("twists and flips".into(), 0, 0xff, 0, 0xfff);
        part("places of all".into(), 0xff, 0, 0xfff, 0);
        part("corner places and flips".into(), 0xff, 0, 0, 0xfff);
        part("twists and edge places".into(), 0, 0xff, 0xfff, 0);
        // some of the pieces
        let mut r = StdRng::seed_from_u64(5);
        for k in 0..60 {
            let some = |r: &mut StdRng, all: u32| if r.gen::<bool>() { r.gen::<u32>() & all } else { 0 };
            let m = [some(&mut r, 0xff), some(&mut r, 0xff), some(&mut r, 0xfff), some(&mut r, 0xfff)];
            part(format!("some of the pieces, {k}"), m[0], m[1], m[2], m[3]);
        }
        Agreement { parts }
    }

    /// The worst number of agreeing pairs of draws, as deviation in terms of its bound
    fn worst(&self, draws: &[Vec<u8>], sizes: &[usize]) -> (f64, String) {
        let worst = std::sync::Mutex::new((0.0, String::new()));
        let next = std::sync::atomic::AtomicUsize::new(0);
        let n = draws.len() as f64;
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let Some((name, vars, values)) = self.parts.get(next.fetch_add(1, std::sync::atomic::Ordering::Relaxed)) else { break };
                    let mut keys: Vec<u128> = draws.iter().map(|d| vars.iter().fold(0u128, |k, v| k * sizes[*v] as u128 + d[*v] as u128)).collect();
                    keys.sort_unstable();
                    let agree: f64 = keys.chunk_by(|a, b| a == b).map(|c| c.len() as f64 * (c.len() as f64 - 1.0) / 2.0).sum();
                    let expected = n * (n - 1.0) / 2.0 / values;
                    // pairs are independent of each other in twos; with many draws per value both tails are close to normal
                    let bound = 8.0 * expected.sqrt() + 8.0;
                    let d = (agree - expected).abs() / bound;
                    let mut w = worst.lock().unwrap();
                    if d > w.0 {
                        *w = (d, format!("{agree} pairs of {n} draws agree in {name}, expected {expected:.1} (of {values:.0} values)"));
                    }
                });
            }
        });
        worst.into_inner().unwrap()
    }
}

/// Draws many cubes and looks at the frequencies of all pairs of values
fn frequencies<C>(
    ctx: &Ctx,
    name: &str,
    n: u64,
    names: &[String],
    sizes: &[usize],
    same_kind: impl Fn(usize, usize) -> bool + Sync,
    draw: impl Fn(&mut StdRng) -> C + Sync,
    see: impl Fn(&C) -> Result<Vec<u8>, String> + Sync,
    agreement: &Agreement,
) {
    if ctx.skip(name) {
        return;
    }
    let _ = ctx.replay_case(name);
    let threads = ctx.threads();
    let parts: Vec<Result<(Pairs, Vec<Vec<u8>>), String>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                let (draw, see) = (&draw, &see);
                s.spawn(move || {
                    let mut rng = StdRng::seed_from_u64(ctx.seed_u64(&format!("{name} {t}")));
                    let mut pairs = Pairs::new(sizes.to_vec());
                    let mut kept = vec![];
                    for i in 0..n / threads as u64 {
                        let c = no_panic(|| draw(&mut rng))?;
                        let seen = see(&c)?;
                        pairs.add(&seen);
                        if i < 2_000_000 / threads as u64 {
                            kept.push(seen);
                        }
                    }
                    Ok((pairs, kept))
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut all = Pairs::new(sizes.to_vec());
    let mut draws = vec![];
    for p in parts {
        match p {
            Ok((p, kept)) => {
                all.merge(&p);
                draws.extend(kept);
            }
            Err(e) => {
                ctx.violation(name, json!(null), &e);
                return;
            }
        }
    }
    let (z, text) = all.worst(|i, a, j, b| {
        let (x, y) = (sizes[i] as f64, sizes[j] as f64);
        if i == j {
            return if a == b { 1.0 / x } else { 0.0 };
        }
        if same_kind(i, j) {
            // two pieces are never in the same place
            return if a == b { 0.0 } else { 1.0 / (x * (x - 1.0)) };
        }
        1.0 / (x * y)
    });
    if z > 8.0 {
        let list: Vec<String> = names.iter().enumerate().map(|(i, n)| format!("{i}: {n}")).collect();
        ctx.violation(name, json!({"draws": n}), &format!("not evenly distributed: {text}; variables {}", list.join(", ")));
        return;
    }
    let (d, agreeing) = agreement.worst(&draws, sizes);
    if d > 1.0 {
        ctx.violation(name, json!({"draws": n}), &format!("not evenly distributed: {agreeing}"));
        return;
    }
    ctx.count(name, n, n, false, json!({"draws": n, "worst deviation": z, "where": text, "agreement": agreeing, "of its bound": d}));
}

pub fn c13(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is not solved; each frequency draw counts as one.");
    ctx.assume("Evenness is judged on the frequencies of all pairs of observed values (places, orientations, parity) over many draws, with a bound of 8 standard deviations.");
    let seeds = || {
        (
            prop::collection::vec(
                prop_oneof![3 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => Just(1u64 << 63), 1 => (0u32..64).prop_map(|b| 1u64 << b)],
                0..60,
            ),
            any::<u64>(),
        )
    };
    ctx.prop("random-3x3", ctx.n(60_000, 2_000_000), seeds, |(w, seed), t| {
        let c: Cube3 = prefixed(w, *seed).gen();
        let s = solvable3(&c)?;
        t.nontrivial_if(s != State::solved());
        let again: Cube3 = prefixed(w, *seed).gen();
        ensure!(again == c, "the same seed gave two different cubes");
        Ok(())
    });
    ctx.prop("random-2x2", ctx.n(60_000, 2_000_000), seeds, |(w, seed), t| {
        let c: Cube2 = prefixed(w, *seed).gen();
        let s = solvable2(&c)?;
        t.nontrivial_if(s != State::solved());
        let again: Cube2 = prefixed(w, *seed).gen();
        ensure!(again == c, "the same seed gave two different cubes");
        Ok(())
    });
    ctx.prop("seeded", ctx.n(20_000, 300_000), any::<u64>, |seed, t| {
        t.nontrivial();
        let (a, b): (Cube3, Cube3) = (StdRng::seed_from_u64(*seed).gen(), StdRng::seed_from_u64(*seed).gen());
        ensure!(a == b, "the same seed gave two different cubes");
        solvable3(&a)?;
        let (a, b): (Cube2, Cube2) = (StdRng::seed_from_u64(*seed).gen(), StdRng::seed_from_u64(*seed).gen());
        ensure!(a == b, "the same seed gave two different 2x2 cubes");
        solvable2(&a)?;
        // several cubes from one generator
        let mut r = StdRng::seed_from_u64(*seed);
        let cubes: Vec<Cube3> = (0..3).map(|_| r.gen()).collect();
        ensure!(cubes[0] != cubes[1] && cubes[1] != cubes[2], "one generator gave the same cube twice in a row");
        for c in &cubes {
            solvable3(c)?;
        }
        Ok(())
    });
    ctx.all("thread-generator", (0..2000).collect(), |_: &i32, t| {
        t.nontrivial();
        solvable3(&rand::random::<Cube3>())?;
        solvable2(&rand::random::<Cube2>())?;
        Ok(())
    });

    let n = ctx.n(400_000, 8_000_000) as u64;
    let mut names = vec![];
    let mut sizes = vec![];
    for i in 0..8 {
        names.push(format!("place of corner {i}"));
        sizes.push(8);
    }
    for i in 0..8 {
        names.push(format!("twist of corner {i}"));
        sizes.push(3);
    }
    names.push("parity of the corners".into());
    sizes.push(2);
    frequencies(
        ctx,
        "even-2x2",
        n,
        &names,
        &sizes,
        |i, j| i < 8 && j < 8,
        |r| r.gen::<Cube2>(),
        |c| {
            let s = solvable2(c)?;
            let mut v = s.cp.clone();
            v.extend(&s.co);
            v.push(parity(&s.cp) as u8);
            Ok(v)
        },
        &Agreement::new([0, 8, 0, 0], false),
    );
    for i in 0..12 {
        names.push(format!("place of edge {i}"));
        sizes.push(12);
    }
    for i in 0..12 {
        names.push(format!("flip of edge {i}"));
        sizes.push(2);
    }
    frequencies(
        ctx,
        "even-3x3",
        n,
        &names,
        &sizes,
        |i, j| (i < 8 && j < 8) || ((17..29).contains(&i) && (17..29).contains(&j)),
        |r| r.gen::<Cube3>(),
        |c| {
            let s = solvable3(c)?;
            let mut v = s.cp.clone();
            v.extend(&s.co);
            v.push(parity(&s.cp) as u8);
            v.extend(&s.ep);
            v.extend(&s.eo);
            Ok(v)
        },
        &Agreement::new([0, 8, 17, 29], true),
    );
}

// ---------------------------------------------------------------- C14

/// The three repairs
fn repair(which: u8, c: &mut Cube3) {
    match which {
        0 => fix_swap_parity(c),
        1 => fix_edge_flip_parity(&mut c.edges),
        _ => fix_corner_multiplicity(&mut c.corners),
    }
}

fn satisfied(which: u8, s: &State) -> bool {
    match which {
        0 => parity(&s.cp) == parity(&s.ep),
        1 => s.flip_sum() == 0,
        _ => s.twist_sum() == 0,
    }
}

const REPAIR: [&str; 3] = ["the parity repair", "the flip repair", "the twist repair"];

fn one_repair(which: u8, s: &State) -> Result<State, Fail> {
    let name = REPAIR[which as usize];
    let mut c = s.cube();
    repair(which, &mut c);
    let got = no_panic(|| State::of(&c)).map_err(|e| format!("{name} breaks the pieces: {e}"))?;
    ensure!(got.is_valid_perm(), "{name} loses a piece: {got:?}");
    ensure!(satisfied(which, &got), "{name} does not repair {s:?}: {got:?}");
    if satisfied(which, s) {
        ensure!(got == *s, "{name} changes {s:?}, which needs no repair, to {got:?}");
    }
    let differ = |a: &[u8], b: &[u8]| a.iter().zip(b).filter(|(x, y)| x != y).count();
    let (cp, co, ep, eo) = (differ(&s.cp, &got.cp), differ(&s.co, &got.co), differ(&s.ep, &got.ep), differ(&s.eo, &got.eo));
    match which {
        0 => {
            ensure!(cp == 0 && co == 0, "{name} changes corners: {s:?} to {got:?}");
            ensure!(ep <= 2, "{name} moves {ep} edges: {s:?} to {got:?}");
            // an edge may keep its flip or take the one of its new place, but no other one changes
            for i in 0..12 {
                ensure!(s.ep[i] != got.ep[i] || s.eo[i] == got.eo[i], "{name} flips an edge that stays: {s:?} to {got:?}");
            }
            ensure!(s.eo.iter().sum::<u8>() == got.eo.iter().sum::<u8>(), "{name} flips edges: {s:?} to {got:?}");
        }
        1 => ensure!(cp + co + ep == 0 && eo <= 1, "{name} changes more than a flip: {s:?} to {got:?}"),
        _ => ensure!(cp + ep + eo == 0 && co <= 1, "{name} changes more than a twist: {s:?} to {got:?}"),
    }
    let mut again = c.clone();
    repair(which, &mut again);
    ensure!(again == c, "{name} applied again changes something");
    Ok(got)
}

pub fn c14(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if at least one repair is needed.");
    let near = || {
        // assemblies that differ little from solved, too
        prop_oneof![
            3 => assembly().boxed(),
            1 => (partial_state(), prop::collection::vec((0u8..3, 0usize..12, 0usize..12), 0..4))
                .prop_map(|(mut s, v)| {
                    for (k, a, b) in v {
                        match k {
                            0 => s.ep.swap(a, b),
                            1 => s.eo[a] ^= 1,
                            _ => s.co[a % 8] = (s.co[a % 8] + 1 + b as u8 % 2) % 3,
                        }
                    }
                    s
                })
                .boxed(),
        ]
    };
    ctx.prop("repairs", ctx.n(150_000, 5_000_000), near, |s, t| {
        t.nontrivial_if(!s.solvable());
        for w in 0..3 {
            t.class(format!("{}: {}", REPAIR[w as usize], if satisfied(w, s) { "not needed" } else { "needed" }));
            one_repair(w, s)?;
        }
        Ok(())
    });
    ctx.prop("orders", ctx.n(100_000, 3_000_000), || (near(), 0usize..6), |(s, order), t| {
        t.nontrivial_if(!s.solvable());
        let order = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][*order];
        let mut now = s.clone();
        for w in order {
            now = one_repair(w, &now)?;
        }
        ensure!(now.solvable(), "repaired in the order {order:?}, {s:?} becomes {now:?}, which cannot be solved");
        ensure!(!s.solvable() || now == *s, "a solvable cube is changed");
        Ok(())
    });
    ctx.prop("corner-sets", ctx.n(60_000, 1_000_000), near, |s, t| {
        t.nontrivial_if(s.twist_sum() != 0);
        // the sum of the orientation indices tells about solvability
        let set: CornerSet = set_of(s.corners());
        let sum: usize = set.iter().map(|c| c.orientation_index()).sum();
        ensure!((sum % 3 == 0) == (s.twist_sum() == 0), "the orientation indices of {s:?} add up to {sum}");
        for (i, c) in set.iter().enumerate() {
            let mut d = c.clone();
            d.twist();
            ensure!(d.position == c.position && d.orientation_axis != c.orientation_axis, "a twist of {c:?} gives {d:?}");
            ensure!(d.orientation_index() == (c.orientation_index() + 1) % 3, "a twist takes the index {} of {c:?} to {}", c.orientation_index(), d.orientation_index());
            // counter-clockwise
            let p = corner_home(s.cp[i] as usize);
            ensure!(twist_of(p, axis_ix(d.orientation_axis)) == (s.co[i] + 2) % 3, "a twist of {c:?} is not counter-clockwise");
            d.twist();
            d.twist();
            ensure!(d == *c, "three twists of {c:?} give {d:?}");
            ensure!(c.is_oriented() == (s.co[i] == 0) && (c.orientation_index() == 0) == (s.co[i] == 0), "{c:?} is_oriented {}", c.is_oriented());
        }
        let edges: EdgeSet = set_of(s.edges());
        for e in edges.iter() {
            let mut f = e.clone();
            f.flip();
            ensure!(f == e.clone().flipped() && f != *e && f.position() == e.position(), "a flip of {e:?} gives {f:?}");
            f.flip();
            ensure!(f == *e, "two flips of {e:?} give {f:?}");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C23

#[derive(Serialize, Deserialize, Debug, Clone, PartialEq, Eq, Hash)]
enum SetOp {
    /// exchange the pieces from two homes
    Swap(usize, usize),
    Shuffle(u64),
    /// a face turn (or, for pieces without face turns, the rotation of it)
    Move(u8, u8),
}

fn set_ops() -> impl Strategy<Value = Vec<SetOp>> + Clone {
    ops_up_to(25)
}

fn ops_up_to(n: usize) -> impl Strategy<Value = Vec<SetOp>> + Clone {
    prop::collection::vec(
        prop_oneof![
            3 => (0usize..48, 0usize..48).prop_map(|(a, b)| SetOp::Swap(a, b)),
            1 => any::<u64>().prop_map(SetOp::Shuffle),
            4 => (0u8..6, 1u8..4).prop_map(|(f, q)| SetOp::Move(f, q)),
        ],
        0..n,
    )
}

/// All ways to look at the set agree with the list of its pieces
fn consistent<P, const N: usize>(set: &PieceSet<P, N>, want: &[P]) -> Res
where
    P: PieceSetDescriptor<N>,
{
    let refs = P::REFERENCE_POSITIONS;
    ensure!(set.pieces().len() == N && set.pieces()[..] == *want, "the pieces are {:?} instead of {want:?}", set.pieces());
    ensure!(set.iter().eq(want.iter()), "iter gives other pieces");
    ensure!(set.clone().into_iter().eq(want.iter().cloned()), "into_iter gives other pieces");
    let with_pos: Vec<_> = set.iter_with_pos().collect();
    ensure!(with_pos.len() == N, "iter_with_pos gives {} pieces", with_pos.len());
    ensure!(set.validate().is_none(), "the set is reported invalid: {:?}", set.validate().map(|e| e.to_string()));
    for i in 0..N {
        ensure!(with_pos[i].0 == refs[i] && *with_pos[i].1 == want[i], "iter_with_pos gives {:?} at {i}", with_pos[i]);
        ensure!(set.at_index(i) == Some(&want[i]), "at_index({i}) is {:?}", set.at_index(i));
        let from = set.piece_originally_at(&refs[i]);
        ensure!(*from == want[i], "the piece from {:?} is said to be {from:?}, it is {:?}", refs[i], want[i]);
        let home = set.original_position_of_piece_at(&want[i].position());
        ensure!(home == refs[i], "the piece at {:?} is said to be from {home:?}, it is from {:?}", want[i].position(), refs[i]);
    }
    ensure!(set.at_index(N).is_none() && set.at_index(usize::MAX).is_none(), "there is a piece past the end");
    let solved = (0..N).all(|i| want[i].is_solved(&refs[i]));
    ensure!(set.is_solved() == solved, "is_solved is {}", set.is_solved());
    let again = PieceSet::<P, N>::new(set.pieces().clone());
    ensure!(again.is_ok_and(|s| s == *set), "the pieces of the set do not make a set");
    Ok(())
}

fn history<P, const N: usize>(
    ops: &[SetOp],
    t: &mut Tally,
    turn: impl Fn(&mut PieceSet<P, N>, u8, u8),
    turn_one: impl Fn(&mut P, u8, u8),
) -> Res
where
    P: PieceSetDescriptor<N>,
{
    let mut set = PieceSet::<P, N>::SOLVED;
    let mut want: Vec<P> = P::SOLVED.to_vec();
    ensure!(set.is_solved(), "the solved set is not solved");
    consistent(&set, &want)?;
    let mut kinds = [false; 3];
    for (i, op) in ops.iter().enumerate() {
        match op {
            SetOp::Swap(a, b) => {
                let (a, b) = (a % N, b % N);
                set.swap(&P::REFERENCE_POSITIONS[a], &P::REFERENCE_POSITIONS[b]);
                want.swap(a, b);
                kinds[0] = true;
            }
            SetOp::Shuffle(seed) => {
                let mut other = set.clone();
                set.shuffle(&mut StdRng::seed_from_u64(*seed));
                other.shuffle(&mut StdRng::seed_from_u64(*seed));
                ensure!(set == other, "the same seed shuffles in two ways");
                let mut left = want.clone();
                for p in set.iter() {
                    match left.iter().position(|x| x == p) {
                        Some(k) => left.swap_remove(k),
                        None => fail!("shuffling makes a piece up: {p:?}"),
                    };
                }
                want = set.pieces().to_vec();
                kinds[1] = true;
            }
            SetOp::Move(f, q) => {
                turn(&mut set, *f, *q);
                want.iter_mut().for_each(|p| turn_one(p, *f, *q));
                kinds[2] = true;
            }
        }
        consistent(&set, &want).map_err(|e| e.within(&format!("after operation {} ({op:?})", i + 1)))?;
    }
    t.nontrivial_if(kinds.iter().filter(|x| **x).count() >= 2);
    Ok(())
}

fn moved_history<P, const N: usize>(ops: &[SetOp], t: &mut Tally) -> Res
where
    P: PieceSetDescriptor<N> + Movable<AxisMove>,
{
    history::<P, N>(
        ops,
        t,
        |s, f, q| <PieceSet<P, N> as Movable<AxisMove>>::apply(s, &axis_move(f, q)),
        |p, f, q| <P as Movable<AxisMove>>::apply(p, &axis_move(f, q)),
    )
}

fn rotated_history<P, const N: usize>(ops: &[SetOp], t: &mut Tally) -> Res
where
    P: PieceSetDescriptor<N> + Rotatable,
{
    let rot = |f: u8, q: u8| AxisRotation::from(&axis_move(f, q));
    history::<P, N>(
        ops,
        t,
        |s, f, q| s.iter_mut_unchecked().for_each(|p| p.rotate(&rot(f, q))),
        |p, f, q| p.rotate(&rot(f, q)),
    )
}

/// Whether a set can be built from these pieces
fn building<P, const N: usize>(pieces: Vec<P>, t: &mut Tally) -> Res
where
    P: PieceSetDescriptor<N>,
{
    let clash = (0..N).any(|i| (0..i).any(|j| pieces[i].position() == pieces[j].position()));
    t.nontrivial();
    t.class(if clash { "two pieces share a place" } else { "complete" });
    let array: [P; N] = pieces.clone().try_into().unwrap();
    match PieceSet::<P, N>::new(array) {
        Ok(s) => {
            ensure!(!clash, "a set with two pieces in one place is accepted: {pieces:?}");
            consistent(&s, &pieces)
        }
        Err(e) => {
            ensure!(clash, "a complete set is refused with {e}: {pieces:?}");
            // validate says so for a set that was broken later as well
            let mut s = PieceSet::<P, N>::SOLVED;
            for (p, q) in s.iter_mut_unchecked().zip(&pieces) {
                *p = q.clone();
            }
            ensure!(s.validate().is_some(), "a set with two pieces in one place is valid: {pieces:?}");
            Ok(())
        }
    }
}

/// A permutation in which some entries may be replaced
fn picks(n: usize) -> impl Strategy<Value = (Vec<u8>, Vec<u8>)> + Clone {
    (
        perm(n),
        prop_oneof![
            2 => Just(vec![]),
            2 => prop::collection::vec((0usize..n, 0u8..n as u8), 1),
            1 => prop::collection::vec((0usize..n, 0u8..n as u8), 0..n),
        ],
        prop::collection::vec(0u8..6, n),
    )
        .prop_map(|(mut p, changes, o)| {
            for (i, x) in changes {
                p[i] = x;
            }
            (p, o)
        })
}

pub fn c23(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if a history has at least two of exchanges, shuffles and moves; every generated list of pieces to build a set from counts.");
    let n = ctx.n(6_000, 200_000);
    ctx.prop("corners", n, set_ops, |ops, t| moved_history::<Corner, 8>(ops, t));
    ctx.prop("edges", n, set_ops, |ops, t| moved_history::<Edge, 12>(ops, t));
    ctx.prop("wings", n / 2, set_ops, |ops, t| rotated_history::<Wing, 24>(ops, t));
    ctx.prop("center-corners", n / 2, set_ops, |ops, t| rotated_history::<CenterCorner, 24>(ops, t));
    ctx.prop("center-edges", n / 2, set_ops, |ops, t| rotated_history::<CenterEdge, 24>(ops, t));
    ctx.prop("center-wings", n / 4, set_ops, |ops, t| rotated_history::<CenterWing, 48>(ops, t));

    let (n, long) = (ctx.n(40, 1000), || ops_up_to(600));
    ctx.prop("long-corners", n, long, |ops, t| moved_history::<Corner, 8>(ops, t));
    ctx.prop("long-edges", n, long, |ops, t| moved_history::<Edge, 12>(ops, t));
    ctx.prop("long-wings", n, long, |ops, t| rotated_history::<Wing, 24>(ops, t));
    ctx.prop("long-center-wings", n / 2, long, |ops, t| rotated_history::<CenterWing, 48>(ops, t));

    let m = ctx.n(20_000, 500_000);
    ctx.prop("new-corners", m, || picks(8), |(p, o), t| {
        let pieces = (0..8).map(|i| {
            let h = corner_home(p[i] as usize);
            corner_at(h, twisted_axis(h, o[i] % 3))
        });
        building::<Corner, 8>(pieces.collect(), t)
    });
    ctx.prop("new-edges", m, || picks(12), |(p, o), t| {
        building::<Edge, 12>((0..12).map(|i| edge_at(edge_home(p[i] as usize), o[i] % 2 == 0)).collect(), t)
    });
    fn pick<P: PieceSetDescriptor<N>, const N: usize>(p: &[u8]) -> Vec<P> {
        p.iter().map(|i| P::SOLVED[*i as usize].clone()).collect()
    }
    ctx.prop("new-wings", m / 4, || picks(24), |(p, _), t| building::<Wing, 24>(pick(p), t));
    ctx.prop("new-center-corners", m / 4, || picks(24), |(p, _), t| building::<CenterCorner, 24>(pick(p), t));
    ctx.prop("new-center-edges", m / 4, || picks(24), |(p, _), t| building::<CenterEdge, 24>(pick(p), t));
    ctx.prop("new-center-wings", m / 8, || picks(48), |(p, _), t| building::<CenterWing, 48>(pick(p), t));

    // the homes are all different, and the solved pieces are in them
    fn homes<P: PieceSetDescriptor<N>, const N: usize>() -> Res {
        for i in 0..N {
            let p = &P::SOLVED[i];
            ensure!(p.position() == P::REFERENCE_POSITIONS[i], "the solved piece {i} {p:?} is not at its home");
            ensure!(p.is_solved(&P::REFERENCE_POSITIONS[i]), "the solved piece {i} {p:?} is not solved");
            for j in 0..i {
                ensure!(P::REFERENCE_POSITIONS[j] != P::REFERENCE_POSITIONS[i], "{j} and {i} have the same home");
            }
        }
        ensure!(PieceSet::<P, N>::REFERENCE_POSITIONS == P::REFERENCE_POSITIONS, "the set has other homes than its pieces");
        let zipped: Vec<_> = PieceSet::<P, N>::zip_positions(0..N).collect();
        for (i, (p, k)) in zipped.iter().enumerate() {
            ensure!(*k == i && *p == P::REFERENCE_POSITIONS[i], "zip_positions pairs {p:?} with {k}");
        }
        ensure!(zipped.len() == N, "zip_positions gives {} places", zipped.len());
        Ok(())
    }
    ctx.all("homes", (0..6).collect(), |k: &i32, t| {
        t.nontrivial();
        match k {
            0 => homes::<Corner, 8>(),
            1 => homes::<Edge, 12>(),
            2 => homes::<Wing, 24>(),
            3 => homes::<CenterCorner, 24>(),
            4 => homes::<CenterEdge, 24>(),
            _ => homes::<CenterWing, 48>(),
        }
    });
    // a set made by moves of a whole cube stays valid
    ctx.prop("cubes", ctx.n(8_000, 200_000), || turns(30, 0), |ts, t| {
        t.nontrivial_if(ts.len() > 1);
        let mut c = Cube3::SOLVED;
        let mut m = Model::solved(3);
        for turn in ts {
            c.turn(*turn);
            m.turn(*turn);
            ensure!(c.corners.validate().is_none() && c.edges.validate().is_none(), "invalid after a turn");
        }
        // where the pieces are, by lookup
        for cubie in &m.cubies {
            match kind(3, cubie.home) {
                Kind::Corner => {
                    let home = corner_at(cubie.home, 1).position;
                    let now = corner_at(cubie.pos, 1).position;
                    ensure!(c.corners.piece_originally_at(&home).position == now, "the corner from {home:?} is looked up wrongly");
                    ensure!(c.corners.original_position_of_piece_at(&now) == home, "the corner at {now:?} is looked up wrongly");
                }
                Kind::Edge => {
                    let home = edge_at(cubie.home, true).position();
                    let now = edge_at(cubie.pos, true).position();
                    ensure!(c.edges.piece_originally_at(&home).position() == now, "the edge from {home:?} is looked up wrongly");
                    ensure!(c.edges.original_position_of_piece_at(&now) == home, "the edge at {now:?} is looked up wrongly");
                }
                _ => {}
            }
        }
        Ok(())
    });
}
