//! C09 to C12: normalising, drawing, merging and converting sequences.

use crate::{bridge::*, ctx::*, gen::*, model::*, tables::turn_no};
use barbarosa::{
    cube_n::{
        moves::{
            non_redundant::{absorve, AbsorveResult},
            ExtendedAxisMove, NonRedundantAxisMove, QuarterAxisMove,
        },
        AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Orientable, WideAxisMove,
    },
    generic::{moves::AsMove, Alg, Cube, Movable, Move},
};
use proptest::prelude::*;
use rand::{distributions::Standard, prelude::Distribution, rngs::StdRng, SeedableRng};
use std::{
    collections::{HashMap, HashSet},
    fmt::Debug,
};

fn moves(ts: &[Turn]) -> Vec<AxisMove> {
    ts.iter().map(|t| axis_move(t.face, t.q)).collect()
}

/// Position of the second of two turns of one face with only turns of its axis between them
fn redundancy(ts: &[Turn]) -> Option<usize> {
    for (i, t) in ts.iter().enumerate() {
        for before in ts[..i].iter().rev() {
            if before.face % 3 != t.face % 3 {
                break;
            }
            if before.face == t.face {
                return Some(i);
            }
        }
    }
    None
}

fn text(ts: &[Turn]) -> String {
    ts.iter().map(|t| format!("{}{}", FACES[t.face as usize], ["", "", "2", "'"][t.q as usize])).collect::<Vec<_>>().join(" ")
}

fn play(n: i32, ts: &[Turn]) -> Model {
    let mut m = Model::solved(n);
    m.turns(ts);
    m
}

// ---------------------------------------------------------------- C09

fn normal_form(ts: &[Turn], on: &[i32], t: &mut Tally) -> Res {
    let alg: Alg<AxisMove> = Alg::new(moves(ts));
    let norm = alg.clone().normalized();
    let out: Vec<Turn> = norm.moves.iter().map(turn_of).collect();
    t.nontrivial_if(redundancy(ts).is_some());
    t.class(match ts.len() as i64 - out.len() as i64 {
        0 if redundancy(ts).is_none() => "nothing to do",
        0 => "same length",
        1 | 2 => "1 or 2 turns less",
        _ => "3 or more turns less",
    });
    let what = || format!("{:?} normalised to {:?}", text(ts), text(&out));
    ensure!(out.len() <= ts.len(), "{} is longer", what());
    ensure!(redundancy(&out).is_none(), "{} has redundancy left", what());
    for n in on {
        let (a, b) = (play(*n, ts), play(*n, &out));
        ensure!(a == b, "{} does something else", what());
    }
    let mut c = Cube3::SOLVED;
    c.apply(&alg);
    ensure!(c == Cube3::SOLVED.moved(&norm), "{} does something else to a 3x3", what());
    let again = norm.clone().normalized();
    ensure!(again == norm, "{}, and normalising that gives {again}", what());
    Ok(())
}

/// Sequences with much to cancel: few axes, and nested inverses
fn cancelling() -> BoxedStrategy<Vec<Turn>> {
    let on_axis = |a: u8| prop::collection::vec((prop::bool::ANY, 1u8..4).prop_map(move |(n, q)| Turn::new(a + 3 * u8::from(n), q, 0)), 0..6);
    let block = (0u8..3).prop_flat_map(on_axis).boxed();
    let leaf = prop_oneof![2 => turns(6, 0), 3 => block];
    leaf.prop_recursive(4, 60, 3, move |inner| {
        prop_oneof![
            prop::collection::vec(inner.clone(), 1..4).prop_map(|v| v.concat()),
            // something, and then undone, around something else
            (inner.clone(), inner).prop_map(|(a, b)| {
                let undo: Vec<Turn> = a.iter().rev().map(|t| t.inverse()).collect();
                [a, b, undo].concat()
            }),
        ]
    })
    .boxed()
}

fn all_sequences(len: usize, faces: &[u8]) -> Vec<Vec<Turn>> {
    let mut out: Vec<Vec<Turn>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..len {
        last = last
            .iter()
            .flat_map(|s| {
                faces.iter().flat_map(move |f| {
                    (1..4).map(move |q| {
                        let mut s = s.clone();
                        s.push(Turn::new(*f, q, 0));
                        s
                    })
                })
            })
            .collect();
        out.extend(last.iter().cloned());
    }
    out
}

pub fn c09(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the sequence has redundancy, that is, two turns of one face with only turns of its axis between them.");
    ctx.all("all-short", all_sequences(if ctx.thorough() { 5 } else { 4 }, &[0, 1, 2, 3, 4, 5]), |ts, t| normal_form(ts, &[3], t));
    ctx.all("all-on-two-faces-and-one-more", all_sequences(if ctx.thorough() { 6 } else { 5 }, &[0, 3, 1]), |ts, t| normal_form(ts, &[3], t));
    ctx.prop("cancelling", ctx.n(30_000, 1_000_000), cancelling, |ts, t| normal_form(ts, &[3, 5], t));
    ctx.prop("free", ctx.n(10_000, 300_000), || turns(60, 0), |ts, t| normal_form(ts, &[3, 4], t));
    ctx.prop("long", ctx.n(300, 5_000), || prop::collection::vec(cancelling(), 0..12).prop_map(|v| v.concat()), |ts, t| normal_form(ts, &[3, 5], t));
    ctx.prop("very-long", ctx.n(400, 6_000), || long(1 << 17), normal_form_long);
}

/// The same for sequences that are too long for the model after each turn
fn normal_form_long(c: &Long, t: &mut Tally) -> Res {
    let ts = c.turns(0);
    let alg: Alg<AxisMove> = Alg::new(moves(&ts));
    let norm = alg.clone().normalized();
    let out: Vec<Turn> = norm.moves.iter().map(turn_of).collect();
    t.nontrivial_if(redundancy(&ts).is_some());
    let what = format!("a sequence of {} turns", ts.len());
    ensure!(out.len() <= ts.len(), "{what} gets longer: {}", out.len());
    if let Some(i) = redundancy(&out) {
        fail!("{what} has redundancy left, at turn {} of {}: {:?}", i + 1, out.len(), text(&out[i.saturating_sub(8)..=i]));
    }
    ensure!(after(&out) == after(&ts), "{what}, normalised to {}, does something else", out.len());
    if c.style == 5 {
        ensure!(out.len() == ts.len(), "{what} without redundancy becomes one of {}", out.len());
    }
    ensure!(c.style != 3 || c.len % 2 == 1 || out.is_empty(), "{what}, the second half of which undoes the first, becomes one of {}", out.len());
    ensure!(norm.clone().normalized() == norm, "{what}: normalising twice is not normalising once");
    Ok(())
}

/// What a sequence makes of the solved cube
fn after(ts: &[Turn]) -> State {
    ts.iter().fold(State::solved(), |s, t| s.turned(turn_no(*t)))
}

// ---------------------------------------------------------------- C10

fn long_draw(len: usize, ts: &[Turn]) -> Res {
    ensure!(ts.len() == len, "{} turns instead of {len}", ts.len());
    if let Some(i) = redundancy(ts) {
        fail!("the sequence of {len} turns is redundant at turn {}: {:?}", i + 1, text(&ts[i.saturating_sub(8)..=i]));
    }
    // none is left out for long: within 400 turns all 18 occur, but for less than one time in 10^8
    for (k, w) in ts.chunks_exact(400).enumerate() {
        let seen: HashSet<&Turn> = w.iter().collect();
        ensure!(seen.len() == 18, "only {} of the 18 turns occur within 400, from turn {}", seen.len(), k * 400);
    }
    Ok(())
}

fn draws<M>(ctx: &Ctx, name: &str, every: usize, key: impl Fn(&M) -> (u8, u8, u32) + Sync)
where
    M: AsMove<Move = M> + Move + PartialEq + Debug,
    Standard: Distribution<M>,
{
    ctx.prop(&format!("unnormalised-{name}"), ctx.n(3_000, 50_000), || (any::<u64>(), 0usize..120), |(seed, len), t| {
        t.nontrivial_if(*len > 1);
        let draw = |s: u64| Alg::<M>::random_unnormalized_with_rng(*len, &mut StdRng::seed_from_u64(s));
        let a = draw(*seed);
        ensure!(a.moves.len() == *len, "{} moves instead of {len}", a.moves.len());
        ensure!(draw(*seed) == a, "the same seed gives another sequence");
        ensure!(Alg::<M>::random_unnormalized(*len).moves.len() == *len, "wrong length without a seed");
        Ok(())
    });
    ctx.prop(&format!("unnormalised-long-{name}"), ctx.n(12, 600), || (any::<u64>(), length(1 << 17)), |(seed, len), t| {
        t.nontrivial();
        let draw = |s: u64| Alg::<M>::random_unnormalized_with_rng(*len, &mut StdRng::seed_from_u64(s));
        let a = draw(*seed);
        ensure!(a.moves.len() == *len, "{} moves instead of {len}", a.moves.len());
        ensure!(draw(*seed) == a, "the same seed gives another sequence of {len} moves");
        ensure!(Alg::<M>::random_unnormalized(*len).moves.len() == *len, "wrong length without a seed");
        // all moves occur all along; one is missed with a probability below e^-30
        for (k, w) in a.moves.chunks_exact(every * 40).enumerate() {
            let seen: HashSet<(u8, u8, u32)> = w.iter().map(&key).collect();
            ensure!(seen.len() == every, "only {} of {every} moves occur within {}, from move {}", seen.len(), every * 40, k * every * 40);
        }
        Ok(())
    });
    // every move is drawn at every position
    ctx.all(&format!("unnormalised-coverage-{name}"), vec![ctx.seed_u64(name)], |seed, t| {
        t.nontrivial();
        let mut rng = StdRng::seed_from_u64(*seed);
        let mut seen: Vec<HashSet<(u8, u8, u32)>> = vec![HashSet::new(); 6];
        let mut pairs = HashSet::new();
        // the rarest of `every` equally likely moves is missed with a probability below e^-40
        for _ in 0..every * every.max(40) * 40 / 6 {
            let a = Alg::<M>::random_unnormalized_with_rng(6, &mut rng);
            for (i, m) in a.moves.iter().enumerate() {
                seen[i].insert(key(m));
            }
            for w in a.moves.windows(2) {
                pairs.insert((key(&w[0]), key(&w[1])));
            }
        }
        for (i, s) in seen.iter().enumerate() {
            ensure!(s.len() == every, "only {} of {every} moves occur at position {i}", s.len());
        }
        ensure!(pairs.len() == every * every, "only {} of {} pairs of neighbours occur", pairs.len(), every * every);
        Ok(())
    });
}

pub fn c10(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the sequence has at least two moves (coverage cases: always).");
    ctx.assume("Coverage is judged by sampling: with uniform choices among the legal ones, a legal move is missed by chance with a probability below 1e-9.");
    ctx.prop("length-and-redundancy", ctx.n(60_000, 1_500_000), || (any::<u64>(), prop_oneof![4 => 0usize..40, 1 => 40usize..300]), |(seed, len), t| {
        t.nontrivial_if(*len > 1);
        let draw = |s: u64| Alg::<AxisMove>::random_with_rng(*len, &mut StdRng::seed_from_u64(s));
        let a = draw(*seed);
        let ts: Vec<Turn> = a.moves.iter().map(turn_of).collect();
        ensure!(ts.len() == *len, "{} turns instead of {len}", ts.len());
        if let Some(i) = redundancy(&ts) {
            fail!("{:?} is redundant at turn {}", text(&ts), i + 1);
        }
        ensure!(draw(*seed) == a, "the same seed gives another sequence");
        Ok(())
    });
    ctx.prop("unseeded", ctx.n(5_000, 100_000), || 0usize..60, |len, t| {
        t.nontrivial_if(*len > 1);
        let ts: Vec<Turn> = Alg::<AxisMove>::random(*len).moves.iter().map(turn_of).collect();
        ensure!(ts.len() == *len, "{} turns instead of {len}", ts.len());
        if let Some(i) = redundancy(&ts) {
            fail!("{:?} is redundant at turn {}", text(&ts), i + 1);
        }
        Ok(())
    });
    ctx.prop("long", ctx.n(120, 6_000), || (any::<u64>(), length(1 << 17)), |(seed, len), t| {
        t.nontrivial();
        let draw = |s: u64| Alg::<AxisMove>::random_with_rng(*len, &mut StdRng::seed_from_u64(s));
        let a = draw(*seed);
        long_draw(*len, &a.moves.iter().map(turn_of).collect::<Vec<_>>())?;
        ensure!(draw(*seed) == a, "the same seed gives another sequence of {len} turns");
        long_draw(*len, &Alg::<AxisMove>::random(*len).moves.iter().map(turn_of).collect::<Vec<_>>())
    });
    ctx.all("coverage", vec![ctx.seed_u64("coverage")], |seed, t| {
        t.nontrivial();
        const LEN: usize = 8;
        let mut rng = StdRng::seed_from_u64(*seed);
        let mut at: Vec<HashSet<Turn>> = vec![HashSet::new(); LEN];
        let mut last: HashMap<usize, HashSet<Turn>> = HashMap::new();
        let mut pairs: Vec<HashSet<(Turn, Turn)>> = vec![HashSet::new(); LEN];
        let mut triples: HashSet<[Turn; 3]> = HashSet::new();
        let mut fours: HashSet<[u8; 4]> = HashSet::new();
        for _ in 0..300_000 {
            let ts: Vec<Turn> = Alg::<AxisMove>::random_with_rng(LEN, &mut rng).moves.iter().map(turn_of).collect();
            for (i, x) in ts.iter().enumerate() {
                at[i].insert(*x);
            }
            for (i, w) in ts.windows(2).enumerate() {
                pairs[i].insert((w[0], w[1]));
            }
            for w in ts.windows(3) {
                triples.insert([w[0], w[1], w[2]]);
            }
            for w in ts.windows(4) {
                fours.insert([w[0].face, w[1].face, w[2].face, w[3].face]);
            }
            let len = 1 + ts[0].face as usize % 3;
            let short: Vec<Turn> = Alg::<AxisMove>::random_with_rng(len, &mut rng).moves.iter().map(turn_of).collect();
            last.entry(len).or_default().insert(short[len - 1]);
        }
        for (i, s) in at.iter().enumerate() {
            ensure!(s.len() == 18, "only {} of the 18 turns occur at position {i} of {LEN}", s.len());
        }
        for (len, s) in &last {
            ensure!(s.len() == 18, "only {} of the 18 turns occur at the end of sequences of length {len}", s.len());
        }
        let mut missing = vec![];
        for a in 0..6u8 {
            for b in 0..6u8 {
                for p in 1..4 {
                    for q in 1..4 {
                        let (x, y) = (Turn::new(a, p, 0), Turn::new(b, q, 0));
                        for (i, pairs) in pairs.iter().take(LEN - 1).enumerate() {
                            // turns of opposite faces commute: one order is enough
                            let ok = if a % 3 != b % 3 { pairs.contains(&(x, y)) } else { a == b || pairs.contains(&(x, y)) || pairs.contains(&(y, x)) };
                            if !ok {
                                missing.push(format!("{} at position {i}", text(&[x, y])));
                            }
                        }
                    }
                }
            }
        }
        ensure!(missing.is_empty(), "{} pairs of neighbours never occur, such as {}", missing.len(), missing[0]);
        // any three turns, and four faces. Parallel turns commute: one order of them is enough.
        let all: Vec<Turn> = (0..6).flat_map(|f| (1..4).map(move |q| Turn::new(f, q, 0))).collect();
        let swapped = |v: &[Turn]| -> Vec<Vec<Turn>> {
            let mut out = vec![v.to_vec()];
            for i in 1..v.len() {
                if v[i - 1].face % 3 == v[i].face % 3 {
                    for mut w in out.clone() {
                        w.swap(i - 1, i);
                        out.push(w);
                    }
                }
            }
            out
        };
        for x in &all {
            for y in &all {
                for z in &all {
                    let v = [*x, *y, *z];
                    if redundancy(&v).is_none() {
                        ensure!(swapped(&v).iter().any(|v| triples.contains(&[v[0], v[1], v[2]])), "the turns {} never follow each other", text(&v));
                    }
                }
            }
        }
        for i in 0..6 * 6 * 6 * 6 {
            let v = [i / 216, i / 36 % 6, i / 6 % 6, i % 6].map(|f| Turn::new(f as u8, 1, 0));
            if redundancy(&v).is_none() {
                let seen = swapped(&v).iter().any(|v| fours.contains(&[v[0].face, v[1].face, v[2].face, v[3].face]));
                ensure!(seen, "turns of the faces of {} never follow each other", text(&v));
            }
        }
        Ok(())
    });
    draws::<AxisMove>(ctx, "face-turns", 18, |m| (face_ix(&m.face), amount_q(m.amount), 0));
    draws::<QuarterAxisMove>(ctx, "quarter-turns", 12, |m| (face_ix(&m.face), (2 - sign(m.direction)) as u8, 0));
    draws::<WideAxisMove<0>>(ctx, "wide-turns-0", 18, wide_key);
    draws::<WideAxisMove<1>>(ctx, "wide-turns-1", 36, wide_key);
    draws::<WideAxisMove<2>>(ctx, "wide-turns-2", 54, wide_key);
    draws::<WideAxisMove<4>>(ctx, "wide-turns-4", 90, wide_key);
    ctx.prop("unnormalised-deepest", ctx.n(500, 10_000), || (any::<u64>(), 0usize..20), |(seed, len), t| {
        t.nontrivial_if(*len > 1);
        let a = Alg::<WideAxisMove<{ u32::MAX }>>::random_unnormalized_with_rng(*len, &mut StdRng::seed_from_u64(*seed));
        ensure!(a.moves.len() == *len, "{} moves instead of {len}", a.moves.len());
        Ok(())
    });
}

fn wide_key<const N: u32>(m: &WideAxisMove<N>) -> (u8, u8, u32) {
    (face_ix(m.face()), amount_q(m.amount()), m.depth())
}

// ---------------------------------------------------------------- C11

/// Axis and quarter turns of both faces, if there is a move
type Merged = Option<(u8, u8, u8)>;

fn merged_of(m: &Option<NonRedundantAxisMove>) -> Result<Merged, String> {
    let Some(m) = m else { return Ok(None) };
    let mut out = (axis_ix(m.axis()) as u8, 0, 0);
    for t in m.moves() {
        if axis_ix(t.face.axis) as u8 != out.0 {
            return Err(format!("{m:?} turns another axis than its own"));
        }
        let place = if sign(t.face.direction) > 0 { &mut out.1 } else { &mut out.2 };
        if *place != 0 {
            return Err(format!("{m:?} turns one face twice"));
        }
        *place = amount_q(t.amount);
    }
    if out.1 + out.2 == 0 {
        return Err(format!("{m:?} turns nothing"));
    }
    Ok(Some(out))
}

fn size(m: Merged) -> usize {
    m.map_or(0, |m| usize::from(m.1 > 0) + usize::from(m.2 > 0))
}

fn merge_once(state: &mut Option<NonRedundantAxisMove>, f: u8, q: u8) -> Res {
    let before = merged_of(state)?;
    let copy = state.clone();
    let result = absorve(state, &axis_move(f, q));
    let after = merged_of(state)?;
    let what = format!("merging {} into {:?} gives {:?} and reports {result:?}", text(&[Turn::new(f, q, 0)]), copy, state);
    if before.is_some_and(|b| b.0 != f % 3) {
        ensure!(result == AbsorveResult::NotAdded, "{what}, but the axes differ");
        ensure!(*state == copy, "{what}: the move changed");
        return Ok(());
    }
    let mut want = before.unwrap_or((f % 3, 0, 0));
    let place = if f < 3 { &mut want.1 } else { &mut want.2 };
    *place = (*place + q) % 4;
    let want = (want.1 + want.2 > 0).then_some(want);
    ensure!(after == want, "{what}");
    let honest = match result {
        AbsorveResult::NotAdded => false,
        _ if before.is_none() => result == AbsorveResult::Absorved,
        AbsorveResult::Absorved => size(after) == size(before),
        AbsorveResult::Added => size(after) == size(before) + 1,
        AbsorveResult::Collapsed => size(after) + 1 == size(before),
    };
    ensure!(honest, "{what}, which is not what happened");
    Ok(())
}

pub fn c11(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if something is there to merge into.");
    let mut cases: Vec<(Merged, u8, u8)> = vec![];
    for f in 0u8..6 {
        for q in 1u8..4 {
            cases.push((None, f, q));
            for a in 0..3 {
                for p in 0..4 {
                    for n in 0..4 {
                        if p + n > 0 {
                            cases.push((Some((a, p, n)), f, q));
                        }
                    }
                }
            }
        }
    }
    ctx.all("every-merge", cases, |(m, f, q), t| {
        t.nontrivial_if(m.is_some());
        let mut state = m.as_ref().map(nr);
        ensure!(merged_of(&state)? == *m, "{state:?} does not list its turns");
        merge_once(&mut state, *f, *q)
    });
    ctx.prop("histories", ctx.n(20_000, 400_000), || (0u8..3, prop::collection::vec((0u8..6, 1u8..4, prop::bool::weighted(0.85)), 0..30)), |(axis, ms), t| {
        let mut state = None;
        let mut before_moves: Vec<Turn> = vec![];
        for (f, q, same) in ms {
            let f = if *same { (f / 3) * 3 + axis } else { *f };
            t.nontrivial_if(state.is_some());
            let refused = merged_of(&state)?.is_some_and(|b| b.0 != f % 3);
            merge_once(&mut state, f, *q)?;
            if !refused {
                before_moves.push(Turn::new(f, *q, 0));
            }
        }
        // the effect on a cube is that of all turns that were taken, applied directly
        let mut c = Cube3::SOLVED;
        c.apply(&Alg::<AxisMove>::new(moves(&before_moves)));
        let mut d = Cube3::SOLVED;
        if let Some(m) = &state {
            d.apply(m);
        }
        ensure!(c == d, "the turns {:?} merged to {state:?}, which does something else", text(&before_moves));
        Ok(())
    });
    ctx.all("enumerations", vec![()], |_, t| {
        t.nontrivial();
        let collect = |it: &mut dyn Iterator<Item = NonRedundantAxisMove>| -> Result<Vec<(u8, u8, u8)>, String> {
            let mut v = vec![];
            for m in it {
                let key = merged_of(&Some(m.clone()))?.ok_or("nothing")?;
                if v.contains(&key) {
                    return Err(format!("{m:?} is listed twice"));
                }
                v.push(key);
            }
            Ok(v)
        };
        let all = collect(&mut NonRedundantAxisMove::all())?;
        ensure!(all.len() == 45, "{} merged turns in all", all.len());
        for a in 0..3 {
            let of = collect(&mut NonRedundantAxisMove::of_axis(axis(a)))?;
            ensure!(of.len() == 15 && of.iter().all(|x| x.0 as usize == a), "the merged turns of an axis are {of:?}");
            let ax = axis(a);
            let given = collect(&mut NonRedundantAxisMove::given_last_axis(&ax))?;
            ensure!(given.len() == 30 && given.iter().all(|x| x.0 as usize != a), "the merged turns after an axis are {given:?}");
        }
        // quarter turns add up
        for p in 1u8..4 {
            for q in 1u8..4 {
                let sum = amount(p) + amount(q);
                ensure!(sum.map_or(0, amount_q) == (p + q) % 4, "{:?} and {:?} make {sum:?}", amount(p), amount(q));
            }
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- C12

/// Both forms do the same to the cube, and what the model says
fn same_effect<C: Observe, A, B>(start: &[Turn], a: &A, b: &B, expected: &[Turn], what: &str) -> Res
where
    C: Movable<A> + Movable<B>,
{
    let mut c = C::SOLVED;
    let mut m = Model::solved(C::N);
    for t in start {
        c.turn(*t);
        m.turn(*t);
    }
    let mut d = c.clone();
    <C as Movable<A>>::apply(&mut c, a);
    <C as Movable<B>>::apply(&mut d, b);
    ensure!(c == d, "{what}: the {n}x{n} differs after the two forms", n = C::N);
    m.turns(expected);
    compare(&d, &m).map_err(|e| format!("{what}, on the {n}x{n}: {e}", n = C::N))?;
    Ok(())
}

fn quarters(start: &[Turn], ts: &[Turn]) -> Res {
    let alg: Alg<AxisMove> = Alg::new(moves(ts));
    let quarter: Alg<QuarterAxisMove> = alg.clone().into();
    let count: usize = ts.iter().map(|t| if t.q == 2 { 2 } else { 1 }).sum();
    ensure!(quarter.moves.len() == count, "{:?} becomes {} quarter turns instead of {count}", text(ts), quarter.moves.len());
    let what = format!("{:?} as quarter turns {:?}", text(ts), quarter.moves);
    same_effect::<Cube2, _, _>(start, &alg, &quarter, ts, &what)?;
    same_effect::<Cube3, _, _>(start, &alg, &quarter, ts, &what)?;
    same_effect::<Cube4, _, _>(start, &alg, &quarter, ts, &what)?;
    same_effect::<Cube5, _, _>(start, &alg, &quarter, ts, &what)?;
    same_effect::<Cube6, _, _>(start, &alg, &quarter, ts, &what)?;
    same_effect::<Cube7, _, _>(start, &alg, &quarter, ts, &what)?;
    // and back, one by one
    let back: Alg<AxisMove> = quarter.moves.iter().map(AxisMove::from).collect();
    same_effect::<Cube3, _, _>(start, &quarter, &back, ts, &what)
}

fn merged(start: &[Turn], cs: &[(u8, u8, u8)]) -> Res {
    let nrs: Alg<NonRedundantAxisMove> = Alg::new(cs.iter().map(nr).collect());
    let mut expected = vec![];
    for (a, p, n) in cs {
        for (f, q) in [(*a, *p), (a + 3, *n)] {
            if q > 0 {
                expected.push(Turn::new(f, q, 0));
            }
        }
    }
    let plain: Alg<AxisMove> = nrs.clone().into();
    ensure!(plain.moves.len() == expected.len(), "{nrs:?} becomes {} face turns", plain.moves.len());
    let what = format!("{nrs:?} as face turns {:?}", plain.moves);
    same_effect::<Cube2, _, _>(start, &nrs, &plain, &expected, &what)?;
    same_effect::<Cube3, _, _>(start, &nrs, &plain, &expected, &what)?;
    same_effect::<Cube4, _, _>(start, &nrs, &plain, &expected, &what)?;
    same_effect::<Cube5, _, _>(start, &nrs, &plain, &expected, &what)?;
    same_effect::<Cube6, _, _>(start, &nrs, &plain, &expected, &what)?;
    same_effect::<Cube7, _, _>(start, &nrs, &plain, &expected, &what)?;
    for m in &nrs.moves {
        let alone: Alg<AxisMove> = m.clone().into();
        let mut c = Cube3::SOLVED;
        c.apply(m);
        ensure!(c == Cube3::SOLVED.moved(&alone), "{m:?} as {alone:?} does something else");
    }
    for t in &plain.moves {
        let single = NonRedundantAxisMove::from(t.clone());
        let mut c = Cube3::SOLVED;
        c.apply(&single);
        ensure!(c == Cube3::SOLVED.moved(t), "{t} as {single:?} does something else");
    }
    Ok(())
}

fn widened<C: Observe + Movable<WideAxisMove<D>>, const D: u32>(start: &[Turn], ts: &[Turn]) -> Res {
    for d in 0..=D {
        let alg: Alg<AxisMove> = Alg::new(moves(ts));
        let wide = match alg.widen::<D>(d) {
            Ok(w) => w,
            Err(e) => fail!("{:?} cannot be widened to depth {d} of {D}: {e}", text(ts)),
        };
        let expected: Vec<Turn> = ts.iter().map(|t| Turn { depth: d, ..*t }).collect();
        ensure!(wide.moves.len() == ts.len(), "widening {:?} gives {} moves", text(ts), wide.moves.len());
        let what = format!("{:?} widened to depth {d} of {D}", text(ts));
        same_effect::<C, _, _>(start, &wide, &wide, &expected, &what)?;
        if d == 0 {
            same_effect::<C, _, _>(start, &Alg::<AxisMove>::new(moves(ts)), &wide, &expected, &what)?;
        }
        for (m, w) in moves(ts).into_iter().zip(&wide.moves) {
            let one = m.widen::<D>(d).map_err(|e| e.to_string())?;
            ensure!(one == *w, "{what}: one move alone becomes {one:?}");
        }
    }
    // refused beyond the maximum
    if !ts.is_empty() {
        for d in [D + 1, D + 2, 1000, u32::MAX] {
            ensure!(Alg::<AxisMove>::new(moves(ts)).widen::<D>(d).is_err(), "{:?} is widened to depth {d} of {D}", text(ts));
            ensure!(moves(ts)[0].clone().widen::<D>(d).is_err(), "a move is widened to depth {d} of {D}");
        }
    }
    Ok(())
}

/// Changing the maximum depth: accepted exactly if the depth fits, with the same effect
fn remax<C: Observe + Movable<WideAxisMove<A>> + Movable<WideAxisMove<B>>, const A: u32, const B: u32>(start: &[Turn], t: &Turn) -> Res {
    let t = Turn { depth: t.depth % (A + 1), ..*t };
    let m = wide::<A>(t);
    let r = m.clone().set_max_depth::<B>();
    let what = format!("{m:?} with maximum {B}");
    if t.depth > B {
        ensure!(r.is_err(), "{what} is not refused");
        return Ok(());
    }
    let w = match r {
        Ok(w) => w,
        Err(e) => fail!("{what} is refused: {e}"),
    };
    ensure!((face_ix(w.face()), amount_q(w.amount()), w.depth()) == (t.face, t.q, t.depth), "{what} is {w:?}");
    same_effect::<C, _, _>(start, &m, &w, &[t], &what)
}

macro_rules! extended_forms {
    ($cube:ty, $depth:literal, $start:expr, $ts:expr) => {{
        let n = <$cube as Observe>::N;
        let start: &[Turn] = $start;
        for t in $ts {
            let t = Turn { depth: t.depth.min($depth), ..*t };
            let mut held: Orientable<$cube> = Orientable::new(<$cube>::SOLVED);
            let mut m = Model::solved(n);
            for s in start {
                let s = Turn { depth: s.depth.min(<$cube as Observe>::MAX_DEPTH), ..*s };
                held.base_cube.turn(s);
                m.turn(s);
            }
            // the plain turn, directly and as an extended move
            let mut direct = held.clone();
            direct.apply(&axis_move(t.face, t.q));
            let e: ExtendedAxisMove = axis_move(t.face, t.q).into();
            let mut ext = held.clone();
            ext.apply(&e);
            ensure!(direct == ext, "{} as an extended move does something else to the {n}x{n}", text(&[t]));
            let mut mm = m.clone();
            mm.turn(Turn { depth: 0, ..t });
            compare(&ext.base_cube, &mm).map_err(|e| format!("{} as an extended move on the {n}x{n}: {e}", text(&[t])))?;
            // the wide turn
            let e: ExtendedAxisMove = wide::<$depth>(t).into();
            let mut ext = held.clone();
            ext.apply(&e);
            let mut base = held.base_cube.clone();
            base.turn(t);
            m.turn(t);
            compare(&base, &m).map_err(|e| format!("{t:?} on the {n}x{n}: {e}"))?;
            same_look::<$cube>(&ext, &m).map_err(|e| e.within(&format!("{t:?} as an extended move on the {n}x{n}")))?;
        }
    }};
}

/// What is visible is what the model shows, however the result is held
fn same_look<C: Observe + barbarosa::cube_n::CubeN>(c: &Orientable<C>, m: &Model) -> Res
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let g = Rot::from_faces(face_ix(c.orientation.r_face()), face_ix(&c.orientation.u_face())).ok_or("impossible orientation")?;
    let Some(st) = stickers(&c.base_cube) else { return Ok(()) };
    let seen = rotate_stickers(m.n, &st?, &g);
    ensure!(seen == m.stickers(), "the cube looks different");
    Ok(())
}

/// Long sequences in all forms, on a 3x3
fn converted_long(ts: &[Turn]) -> Res {
    let what = format!("a sequence of {} turns", ts.len());
    let want = after(ts);
    let see = |c: &Cube3| State::of(c);
    let alg: Alg<AxisMove> = Alg::new(moves(ts));
    ensure!(see(&Cube3::SOLVED.moved(&alg)) == want, "{what}: applied as it is, it does something else");
    let quarter: Alg<QuarterAxisMove> = alg.clone().into();
    let count: usize = ts.iter().map(|t| if t.q == 2 { 2 } else { 1 }).sum();
    ensure!(quarter.moves.len() == count, "{what} becomes {} quarter turns instead of {count}", quarter.moves.len());
    ensure!(see(&Cube3::SOLVED.moved(&quarter)) == want, "{what}: the quarter turns do something else");
    let wide = alg.clone().widen::<2>(0).map_err(|e| format!("{what} cannot be widened: {e}"))?;
    let back: Vec<Turn> = wide.moves.iter().map(|m| Turn::new(face_ix(&m.face()), amount_q(m.amount()), m.depth())).collect();
    ensure!(back.len() == ts.len() && after(&back) == want && back.iter().all(|t| t.depth == 0), "{what}: widened, it does something else");
    let wide = alg.clone().widen::<2>(2).map_err(|e| format!("{what} cannot be widened: {e}"))?;
    let back: Vec<Turn> = wide.moves.iter().map(|m| Turn::new(face_ix(&m.face()), amount_q(m.amount()), m.depth())).collect();
    ensure!(back.len() == ts.len() && after(&back) == want && back.iter().all(|t| t.depth == 2), "{what}: widened to depth 2, it does something else");
    ensure!(alg.widen::<2>(3).is_err() || ts.is_empty(), "{what} is widened beyond the maximum");
    let nrs: Alg<NonRedundantAxisMove> = ts.iter().map(|t| nr(&if t.face < 3 { (t.face, t.q, 0) } else { (t.face - 3, 0, t.q) })).collect();
    ensure!(see(&Cube3::SOLVED.moved(&nrs)) == want, "{what}: as merged turns it does something else");
    let plain: Alg<AxisMove> = nrs.into();
    ensure!(after(&plain.moves.iter().map(turn_of).collect::<Vec<_>>()) == want, "{what}: as merged turns and back, it does something else");
    Ok(())
}

pub fn c12(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is scrambled and the converted sequence has at least two moves.");
    let case = || (turns(10, 0), turns(12, 2));
    ctx.prop("quarter-turns", ctx.n(3_000, 60_000), || (turns(10, 0), turns(12, 0)), |(s, ts), t| {
        t.nontrivial_if(!s.is_empty() && ts.len() > 1);
        quarters(s, ts)
    });
    ctx.prop("merged-turns", ctx.n(3_000, 60_000), || (turns(10, 0), prop::collection::vec((0u8..3, 0u8..4, 0u8..4), 0..8)), |(s, cs), t| {
        let cs: Vec<_> = cs.iter().filter(|c| c.1 + c.2 > 0).cloned().collect();
        t.nontrivial_if(!s.is_empty() && cs.len() > 1);
        merged(s, &cs)
    });
    ctx.prop("widened", ctx.n(1_200, 30_000), case, |(s, ts), t| {
        t.nontrivial_if(!s.is_empty() && ts.len() > 1);
        let ts: Vec<Turn> = ts.iter().map(|t| Turn { depth: 0, ..*t }).collect();
        widened::<Cube2, 0>(s, &ts)?;
        widened::<Cube3, 0>(s, &ts)?;
        widened::<Cube4, 1>(s, &ts)?;
        widened::<Cube5, 1>(s, &ts)?;
        widened::<Cube6, 2>(s, &ts)?;
        widened::<Cube6, 1>(s, &ts)?;
        widened::<Cube7, 2>(s, &ts)?;
        widened::<Cube7, 1>(s, &ts)
    });
    ctx.prop("maximum-depth", ctx.n(4_000, 100_000), || (turns(10, 0), turn(2)), |(s, x), t| {
        t.nontrivial_if(!s.is_empty() && x.depth > 0);
        remax::<Cube4, 0, 1>(s, x)?;
        remax::<Cube4, 1, 0>(s, x)?;
        remax::<Cube5, 1, 1>(s, x)?;
        remax::<Cube6, 1, 2>(s, x)?;
        remax::<Cube6, 2, 1>(s, x)?;
        remax::<Cube6, 2, 0>(s, x)?;
        remax::<Cube7, 0, 2>(s, x)?;
        remax::<Cube7, 2, 1>(s, x)
    });
    ctx.prop("extended", ctx.n(1_500, 40_000), || (turns(10, 2), turns(4, 8)), |(s, ts), t| {
        t.nontrivial_if(!s.is_empty() && ts.len() > 1);
        extended_forms!(Cube2, 0, s, ts);
        extended_forms!(Cube3, 0, s, ts);
        extended_forms!(Cube4, 1, s, ts);
        extended_forms!(Cube5, 1, s, ts);
        extended_forms!(Cube6, 2, s, ts);
        extended_forms!(Cube7, 2, s, ts);
        Ok(())
    });
    ctx.prop("long", ctx.n(80, 4_000), || long(1 << 16), |c, t| {
        t.nontrivial();
        converted_long(&c.turns(0))
    });
    // extended moves made from the plain ones hold exactly the plain ones
    ctx.prop("extended-parts", ctx.n(20_000, 200_000), || (0u8..6, 1u8..4, depth(), prop::bool::ANY), |(f, q, d, w), t| {
        t.nontrivial_if(*d > 1);
        let plain = axis_move(*f, *q);
        ensure!(ExtendedAxisMove::from(plain.clone()) == ExtendedAxisMove::Regular(plain.clone()), "{plain} becomes {:?}", ExtendedAxisMove::from(plain.clone()));
        let r = rotation(*f as usize % 3, *q);
        ensure!(ExtendedAxisMove::from(r.clone()) == ExtendedAxisMove::Rotation(r.clone()), "{r:?} becomes something else");
        ensure!(ExtendedAxisMove::from((r.clone(), *w)) == ExtendedAxisMove::Slice { rot: r, wide: *w }, "a slice becomes something else");
        let big = wide::<{ u32::MAX }>(Turn::new(*f, *q, *d));
        match ExtendedAxisMove::from(big.clone()) {
            ExtendedAxisMove::Wide(x) => ensure!(x == big, "{big:?} becomes {x:?}"),
            other => ensure!(*d == 0, "{big:?} becomes {other:?}"),
        }
        let rot = barbarosa::cube_n::moves::rotation::AxisRotation::from(&axis_move(*f, *q));
        let g = Rot::of_face(*f, *q as i32);
        ensure!(Rot::quarter(axis_ix(rot.axis), amount_q(rot.amount) as i32) == g, "the rotation of {} is {rot:?}", text(&[Turn::new(*f, *q, 0)]));
        Ok(())
    });
}

