//! C01 to C04: turns of cubes against the physical model.

use crate::{
    bridge::*,
    ctx::*,
    gen::*,
    model::*,
    orbits::{inverse, near, Puzzle},
    tables::turn_no,
};
use barbarosa::{
    cube_n::{
        moves::{rotation::Rotatable, Amount, NonRedundantAxisMove, QuarterAxisMove},
        space::{Axis, Face},
        AxisMove, Cube2, Cube3, Cube4, Cube5, Cube6, Cube7, Orientable, Orientation, WideAxisMove,
    },
    generic::{Alg, Cube, Movable, Move},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

// ---------------------------------------------------------------- C01

/// Turns from a given state, compared after every one
fn run<C: Observe>(mut cube: C, mut model: Model, ts: &[Turn]) -> Res {
    compare(&cube, &model)?;
    for (i, t) in ts.iter().enumerate() {
        cube.turn(*t);
        model.turn(*t);
        compare(&cube, &model).map_err(|e| format!("after turn {} ({t:?}): {e}", i + 1))?;
    }
    ensure!(
        cube.is_solved() == model.is_solved(),
        "is_solved is {} but the physical cube is {}",
        cube.is_solved(),
        model.is_solved()
    );
    Ok(())
}

fn sequence_classes(ts: &[Turn], t: &mut Tally) {
    t.class(match ts.len() {
        0 => "len 0",
        1..=4 => "len 1-4",
        5..=20 => "len 5-20",
        _ => "len >20",
    });
    if ts.iter().any(|x| x.q == 2) {
        t.class("has a double turn");
    }
    if ts.iter().any(|x| x.depth > 0) {
        t.class("has a wide turn");
    }
    if ts.windows(2).any(|w| w[0].face % 3 == w[1].face % 3) {
        t.class("has neighbours on one axis");
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it turns at least two different axes (single-piece cases: if the turn moves the piece).");
    // every single piece under every turn
    let mut singles = vec![];
    for (kind, homes) in [(0u8, 8usize), (1, 12)] {
        for h in 0..homes {
            for o in 0..if kind == 0 { 3u8 } else { 2 } {
                for f in 0u8..6 {
                    for q in 1u8..4 {
                        singles.push((kind, h, o, f, q));
                    }
                }
            }
        }
    }
    ctx.all("every-piece-every-turn", singles, |&(kind, h, o, f, q), t| {
        let m = axis_move(f, q);
        let (before, got) = if kind == 0 {
            let p = corner_home(h);
            let c = corner_at(p, twisted_axis(p, o));
            (see_corner(3, corner_vec(p), &c), see_corner(3, corner_vec(p), &c.moved(&m)))
        } else {
            let p = edge_home(h);
            let e = edge_at(p, o == 0);
            let home = (e.normal_axis, e.slice_position);
            (see_edge(3, home, &e), see_edge(3, home, &e.moved(&m)))
        };
        let in_layer = before.pos[face_axis(f)] == 2 * face_sign(f);
        t.nontrivial_if(in_layer);
        let rot = if in_layer { Rot::of_face(f, q as i32) } else { Rot::ID };
        ensure!(
            got.pos == rot.apply(before.pos),
            "{m} moves the piece at {} to {}",
            name_place(3, before.pos),
            name_place(3, got.pos)
        );
        let want = before.rot.unwrap().then(&rot);
        ensure!(
            got.rot == Some(want),
            "{m} turns the piece at {} wrongly in itself",
            name_place(3, before.pos)
        );
        Ok(())
    });

    let nontrivial = |ts: &[Turn], t: &mut Tally| {
        sequence_classes(ts, t);
        t.nontrivial_if(ts.iter().any(|a| a.face % 3 != ts[0].face % 3));
    };
    ctx.prop("sequences-3x3", ctx.n(12_000, 300_000), || turns(60, 0), |ts, t| {
        nontrivial(ts, t);
        run(Cube3::SOLVED, Model::solved(3), ts)
    });
    ctx.prop("sequences-2x2", ctx.n(12_000, 300_000), || turns(60, 0), |ts, t| {
        nontrivial(ts, t);
        run(Cube2::SOLVED, Model::solved(2), ts)
    });
    ctx.prop("any-state-3x3", ctx.n(20_000, 500_000), || (state_mix(), turns(6, 0)), |(s, ts), t| {
        nontrivial(ts, t);
        run(s.cube(), s.model(3), ts)
    });
    ctx.prop("any-state-2x2", ctx.n(20_000, 500_000), || (state_mix(), turns(6, 0)), |(s, ts), t| {
        nontrivial(ts, t);
        run(s.cube2(), s.model(2), ts)
    });
    ctx.prop("very-long", ctx.n(300, 6_000), || long(1 << 16), |c, t| {
        t.nontrivial();
        let (mut a, mut b, mut want) = (Cube3::SOLVED, Cube2::SOLVED, State::solved());
        let ts = c.turns(0);
        let every = ts.len() / 50 + 1;
        for (i, x) in ts.iter().enumerate() {
            let m = axis_move(x.face, x.q);
            a.apply(&m);
            b.apply(&m);
            want = want.turned(turn_no(*x));
            if i % every == 0 || i + 1 == ts.len() {
                ensure!(State::of(&a) == want, "after {} turns the 3x3 is {:?} instead of {want:?}", i + 1, State::of(&a));
                let two = State::of_corners(&b.corners);
                ensure!(two.cp == want.cp && two.co == want.co, "after {} turns the 2x2 is {two:?} instead of {want:?}", i + 1);
            }
        }
        Ok(())
    });
    ctx.prop("turn-laws", ctx.n(20_000, 400_000), || (state_mix(), turn(0)), |(s, turn), t| {
        t.nontrivial();
        fn laws<C: Observe>(c: C, turn: &Turn) -> Res {
            let one = axis_move(turn.face, 1);
            let mut twice = c.clone();
            twice.apply(&one);
            twice.apply(&one);
            let double = c.clone().moved(&axis_move(turn.face, 2));
            ensure!(twice == double, "{one} twice is not {one}2");
            let mut four = twice;
            four.apply(&one);
            ensure!(four == c.clone().moved(&axis_move(turn.face, 3)), "{one} three times is not {one}'");
            four.apply(&one);
            ensure!(four == c, "{one} four times does not restore the state");
            let m = axis_move(turn.face, turn.q);
            ensure!(c.clone().moved(&m) != c, "{m} changes nothing");
            Ok(())
        }
        laws(s.cube(), turn)?;
        laws(s.cube2(), turn)
    });
}

fn corner_vec(p: V) -> nalgebra::Vector3<barbarosa::cube_n::space::Direction> {
    nalgebra::Vector3::new(dir(p[0]), dir(p[1]), dir(p[2]))
}

// ---------------------------------------------------------------- C02

fn typed<C: Observe>(ctx: &Ctx, name: &str, plain: fn(&mut C, &AxisMove), narrow: &[(u32, fn(&mut C, Turn))])
where
{
    let narrow: Vec<_> = narrow.to_vec();
    ctx.prop(&format!("typed-turns-{name}"), ctx.n(1500, 40_000), || (turns(12, C::MAX_DEPTH), turn(C::MAX_DEPTH)), |(ts, last), t| {
        let mut c = C::SOLVED;
        for x in ts {
            c.turn(*x);
        }
        t.nontrivial_if(!ts.is_empty());
        let before = c.clone();
        let mut own = c.clone();
        own.turn(Turn { depth: 0, ..*last });
        let mut p = c.clone();
        plain(&mut p, &axis_move(last.face, last.q));
        ensure!(p == own, "the plain turn {} is not the turn of only the outer layer", axis_move(last.face, last.q));
        for (max, f) in &narrow {
            for d in 0..=*max {
                let x = Turn { depth: d, ..*last };
                let mut own = before.clone();
                own.turn(x);
                let mut n = before.clone();
                f(&mut n, x);
                ensure!(n == own, "{x:?} typed for maximum depth {max} differs from the same typed for {}", C::MAX_DEPTH);
            }
        }
        Ok(())
    });
}

/// Two ways to the same physical arrangement give equal cubes, ways to different ones do not.
fn same_or_not<C: Observe>(ctx: &Ctx, name: &str) {
    ctx.prop(&format!("equal-ways-{name}"), ctx.n(1500, 40_000), || (turns(10, C::MAX_DEPTH), turns(4, C::MAX_DEPTH), turn(C::MAX_DEPTH), turn(C::MAX_DEPTH), 0usize..4), |(ts, w, a, b, how), t| {
        // The second way inserts or replaces something
        let mut other: Vec<Turn> = ts.clone();
        let at = (a.q as usize * 7 + b.face as usize) % (ts.len() + 1);
        let insert: Vec<Turn> = match how {
            // something and its undoing
            0 => w.iter().copied().chain(w.iter().rev().map(|x| x.inverse())).collect(),
            // two turns of parallel layers, once in each order
            1 => {
                let b = Turn { face: face_of(face_axis(a.face), face_sign(b.face)), ..*b };
                vec![*a, b, a.inverse(), b.inverse()]
            }
            // the four quarters in parts
            2 => vec![*a, Turn { q: b.q, ..*a }, Turn { q: 4 - b.q, ..*a }, a.inverse()],
            // a short free sequence, mostly not the identity
            _ => w.clone(),
        };
        other.splice(at..at, insert);
        let go = |ts: &[Turn]| {
            let mut c = C::SOLVED;
            let mut m = Model::solved(C::N);
            for x in ts {
                c.turn(*x);
                m.turn(*x);
            }
            (c, m)
        };
        let (c1, m1) = go(ts);
        let (c2, m2) = go(&other);
        let same = m1.cubies.iter().zip(&m2.cubies).all(|(a, b)| kind(C::N, a.home) == Kind::FixedCenter || (a.pos == b.pos && (a.rot == b.rot || !oriented_kind(C::N, a.home))));
        t.class(if same { "same" } else { "different" });
        t.nontrivial_if(!ts.is_empty() && ts != &other);
        ensure!((c1 == c2) == same, "the two ways {} physically, but the cubes compare {}", if same { "agree" } else { "differ" }, c1 == c2);
        Ok(())
    });
}

fn c02_for<C: Observe>(ctx: &Ctx, name: &str, quick: u32, thorough: u32) {
    let hooked = C::SOLVED.seen().is_some();
    if hooked {
        let mut all = vec![];
        for face in 0..6 {
            for q in 1..4 {
                for depth in 0..=C::MAX_DEPTH {
                    all.push(Turn::new(face, q, depth));
                }
            }
        }
        let pairs: Vec<_> = all.iter().flat_map(|a| all.iter().map(move |b| (*a, *b))).collect();
        ctx.all(&format!("all-pairs-{name}"), pairs, |(a, b), t| {
            t.nontrivial_if(a.face != b.face);
            run(C::SOLVED, Model::solved(C::N), &[*a, *b])
        });
        ctx.prop(&format!("anywhere-{name}"), ctx.n(quick, thorough), || (changes(4), turns(6, C::MAX_DEPTH)), |(cs, ts), t| {
            let Some(mut seq) = Puzzle::of(C::N).reach(&near(C::N, cs)) else {
                t.class("not reachable");
                return Ok(());
            };
            let (mut cube, mut model) = (C::SOLVED, Model::solved(C::N));
            for x in seq.drain(..) {
                cube.turn(x);
                model.turn(x);
            }
            t.nontrivial_if(!cs.is_empty() && !ts.is_empty());
            run(cube, model, ts)
        });
        ctx.prop(&format!("very-long-{name}"), ctx.n(12, 400), || long(1 << 12), |c, t| {
            t.nontrivial();
            let (mut cube, mut model) = (C::SOLVED, Model::solved(C::N));
            let ts = c.turns(C::MAX_DEPTH);
            let every = ts.len() / 20 + 1;
            for (i, x) in ts.iter().enumerate() {
                cube.turn(*x);
                model.turn(*x);
                if i % every == 0 || i + 1 == ts.len() {
                    compare(&cube, &model).map_err(|e| format!("after {} turns: {e}", i + 1))?;
                }
            }
            Ok(())
        });
        ctx.prop(&format!("sequences-{name}"), ctx.n(quick, thorough), || turns(40, C::MAX_DEPTH), |ts, t| {
            sequence_classes(ts, t);
            t.nontrivial_if(ts.iter().any(|a| a.depth > 0) && ts.iter().any(|a| a.face % 3 != ts[0].face % 3));
            run(C::SOLVED, Model::solved(C::N), ts)
        });
    }
    same_or_not::<C>(ctx, name);
}

pub fn c02(ctx: &Ctx) {
    ctx.rule("A sequence counts as non-trivial if it has a wide turn and turns on two axes; a pair of turns if the faces differ; a typed turn if it follows other turns; a pair of ways if the ways differ.");
    if Cube4::SOLVED.seen().is_none() {
        ctx.assume("the pieces were not accessible in this build (guarded hook unavailable): decided through equality of cubes only");
    }
    c02_for::<Cube4>(ctx, "4x4", 3000, 80_000);
    c02_for::<Cube5>(ctx, "5x5", 2500, 60_000);
    c02_for::<Cube6>(ctx, "6x6", 2000, 50_000);
    c02_for::<Cube7>(ctx, "7x7", 1500, 40_000);
    typed::<Cube4>(ctx, "4x4", |c, m| c.apply(m), &[(0, |c, t| c.apply(&wide::<0>(t)))]);
    typed::<Cube5>(ctx, "5x5", |c, m| c.apply(m), &[(0, |c, t| c.apply(&wide::<0>(t)))]);
    typed::<Cube6>(ctx, "6x6", |c, m| c.apply(m), &[(0, |c, t| c.apply(&wide::<0>(t))), (1, |c, t| c.apply(&wide::<1>(t)))]);
    typed::<Cube7>(ctx, "7x7", |c, m| c.apply(m), &[(0, |c, t| c.apply(&wide::<0>(t))), (1, |c, t| c.apply(&wide::<1>(t)))]);
}

// ---------------------------------------------------------------- C03

/// The permutation of sticker cells that a sequence makes, as `cell before -> cell after`
fn sticker_perm(n: i32, ts: &[Turn]) -> Vec<u32> {
    let mut m = Model::solved(n);
    m.turns(ts);
    let mut p = vec![0; (6 * n * n) as usize];
    for c in &m.cubies {
        for a in 0..3 {
            if c.home[a].abs() == n - 1 {
                let f = face_of(a, c.home[a]);
                p[cell(n, f, c.home)] = cell(n, c.rot.face(f), c.pos) as u32;
            }
        }
    }
    p
}

fn cycles(p: &[u32]) -> Vec<Vec<u32>> {
    let mut seen = vec![false; p.len()];
    let mut out = vec![];
    for i in 0..p.len() {
        if seen[i] {
            continue;
        }
        let mut c = vec![];
        let mut j = i;
        while !seen[j] {
            seen[j] = true;
            c.push(j as u32);
            j = p[j] as usize;
        }
        out.push(c);
    }
    out
}

fn gcd(a: u64, b: u64) -> u64 {
    if b == 0 { a } else { gcd(b, a % b) }
}

fn lcm(a: u64, b: u64) -> u64 {
    a / gcd(a, b) * b
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Powers {
    s: Vec<Turn>,
    pick: u64,
    setup: Vec<Turn>,
}

/// How often to repeat `s` so that most cycles, but maybe not all, come home.
fn interesting_power(n: i32, s: &[Turn], pick: u64) -> u64 {
    let p = sticker_perm(n, s);
    let cs = cycles(&p);
    let mut lens: Vec<u64> = cs.iter().map(|c| c.len() as u64).filter(|l| *l > 1).collect();
    lens.sort();
    lens.dedup();
    let order = lens.iter().fold(1, |a, b| lcm(a, *b));
    let mut options = vec![order];
    for skip in &lens {
        // everything but the cycles of this length (and its multiples)
        let k = lens.iter().filter(|l| *l != skip).fold(1, |a, b| lcm(a, *b));
        options.push(k);
        for d in 2..=*skip {
            if skip % d == 0 {
                options.push(lcm(k, d));
            }
        }
    }
    // the powers after which all stickers show the right colours although pieces have moved
    let face = |c: u32| c / (n * n) as u32;
    let mut k = 1u64;
    let mut best = vec![];
    for d in 1..=order.min(5000) {
        if order % d != 0 {
            continue;
        }
        let ok = cs.iter().all(|c| (0..c.len()).all(|i| face(c[i]) == face(c[(i as u64 + d) as usize % c.len()])));
        if ok && d != order {
            best.push(d);
        }
        k = d;
    }
    let _ = k;
    if !best.is_empty() && pick % 2 == 0 {
        return best[(pick / 2) as usize % best.len()];
    }
    options[(pick / 2) as usize % options.len()]
}

fn judge_solved<C: Observe>(ts: impl Iterator<Item = Turn>, m: &Model, t: &mut Tally) -> Res {
    let mut c = C::SOLVED;
    for x in ts {
        c.turn(x);
    }
    let want = m.is_solved();
    let home = m.cubies.iter().all(|c| c.home == c.pos && (c.rot == Rot::ID || !oriented_kind(m.n, c.home)));
    t.class(match (want, home) {
        (true, true) => "solved",
        (true, false) => "solved with equal centres exchanged",
        (false, _) => "not solved",
    });
    t.nontrivial_if(!home);
    ensure!(
        c.is_solved() == want,
        "is_solved says {} but the faces {} each show their own colour (every piece home: {home})",
        c.is_solved(),
        if want { "do" } else { "do not" }
    );
    // held as it is, it is as solved as it is
    ensure!(
        c.held_is_solved(&Orientation::default()) == want,
        "is_solved of the held cube says {} but the faces {} each show their own colour (every piece home: {home})",
        !want,
        if want { "do" } else { "do not" }
    );
    // held in another way, it shows what a cube turned as a whole shows
    for g in &group()[..] {
        let hold = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| format!("orientation refused: {e}"))?;
        if *g != Rot::ID && c.held_is_solved(&hold) {
            let mut seen = m.clone();
            seen.rotate(g);
            ensure!(
                seen.is_solved(),
                "held with its right face at {} and its upper face at {}, the cube says it is solved (every piece home: {home}), but the faces do not show their own colours",
                FACES[g.face(0) as usize],
                FACES[g.face(1) as usize]
            );
        }
    }
    Ok(())
}

/// Turn of one single layer
fn layer(f: u8, q: u8, d: u32) -> Vec<Turn> {
    if d == 0 {
        vec![Turn::new(f, q, 0)]
    } else {
        vec![Turn::new(f, q, d), Turn::new(f, 4 - q, d - 1)]
    }
}

fn c03_for<C: Observe>(ctx: &Ctx, name: &str, scale: u32) {
    let max = C::MAX_DEPTH;
    // short ones, where solved and nearly solved states are frequent
    ctx.prop(&format!("short-{name}"), ctx.n(1500, 30_000) * scale, || turns(6, max), |ts, t| {
        let mut m = Model::solved(C::N);
        m.turns(ts);
        judge_solved::<C>(ts.iter().copied(), &m, t)
    });
    ctx.prop(
        &format!("powers-{name}"),
        ctx.n(120, 4000) * scale,
        || (prop::collection::vec(turn(max), 1..7), any::<u64>(), turns(2, max)).prop_map(|(s, pick, setup)| Powers { s, pick, setup }),
        |p, t| {
            let k = interesting_power(C::N, &p.s, p.pick).min(4000);
            let p_once = sticker_perm(C::N, &p.s);
            let _ = p_once;
            let mut m = Model::solved(C::N);
            m.turns(&p.setup);
            // repeated squaring would do; the model is cheap enough on cubie level
            let once = cubie_perm(C::N, &p.s);
            let powered = power(&once, k);
            apply_perm(&mut m, &powered);
            let back = inverse(&p.setup);
            m.turns(&back);
            let seq = p
                .setup
                .iter()
                .chain(p.s.iter().cycle().take(p.s.len() * k as usize))
                .chain(back.iter())
                .copied();
            judge_solved::<C>(seq, &m, t)
        },
    );
    // any few pieces away from home, all others at home
    ctx.prop(&format!("few-pieces-{name}"), ctx.n(5000, 100_000) * scale, || changes(3), |cs, t| {
        let m = near(C::N, cs);
        let Some(seq) = Puzzle::of(C::N).reach(&m) else {
            t.class("not reachable");
            return Ok(());
        };
        judge_solved::<C>(seq.into_iter(), &m, t)
    });
    // cycles of three pieces of an inner layer by commutators, brought anywhere by a setup
    if C::N >= 4 {
        ctx.prop(
            &format!("three-cycles-{name}"),
            ctx.n(400, 15_000) * scale,
            || (0u8..6, 1u8..4, 1u8..4, 1u8..4, 1..=max, 1..=max, any::<[u8; 4]>(), turns(4, max), any::<u64>()),
            |(f, q1, q2, q3, d1, d2, w, setup, pick), t| {
                // [A, X B X'] with A and B single inner layers of two axes, X a turn of the third face
                let (f, g) = (*f, (*f + 1 + w[0] % 2 * 3 + w[1] % 2) % 6);
                let h = {
                    let a = 3 - (f % 3 + if g % 3 == f % 3 { (f + 1) % 3 } else { g % 3 });
                    (a % 3) + 3 * (w[2] % 2)
                };
                let a = layer(f, *q1, *d1);
                let mut b = vec![Turn::new(h, *q3, 0)];
                b.extend(layer(g, *q2, *d2));
                b.push(Turn::new(h, 4 - *q3, 0));
                let mut c = a.clone();
                c.extend(&b);
                c.extend(inverse(&a));
                c.extend(inverse(&b));
                // search a setup that brings the moved centres onto one face, if the drawn one does not
                let mut best: Vec<Turn> = setup.clone();
                let tries = 60;
                let mut x = *pick | 1;
                for i in 0..tries {
                    let s: Vec<Turn> = if i == 0 {
                        setup.clone()
                    } else {
                        (0..3)
                            .map(|_| {
                                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                                let r = (x >> 33) as u32;
                                Turn::new((r % 6) as u8, (r / 6 % 3) as u8 + 1, r / 18 % (max + 1))
                            })
                            .collect()
                    };
                    let mut m = Model::solved(C::N);
                    m.turns(&s);
                    m.turns(&c);
                    m.turns(&inverse(&s));
                    if m.is_solved() && m.cubies.iter().any(|c| c.home != c.pos) {
                        best = s;
                        break;
                    }
                }
                let mut seq = best.clone();
                seq.extend(&c);
                seq.extend(inverse(&best));
                let mut m = Model::solved(C::N);
                m.turns(&seq);
                judge_solved::<C>(seq.iter().copied(), &m, t)
            },
        );
    }
    // long histories, most of them undone in the end
    ctx.prop(&format!("very-long-{name}"), ctx.n(20, 600) * scale, || (long(1 << 13), turns(4, max), turns(1, max)), |(l, setup, extra), t| {
        let l = Long { style: if l.seed % 4 == 0 { l.style } else { 3 }, len: l.len & !1, ..l.clone() };
        let mut seq = setup.clone();
        seq.extend(l.turns(max));
        if l.seed % 3 > 0 {
            seq.extend(inverse(setup));
        }
        seq.extend(extra);
        let mut m = Model::solved(C::N);
        m.turns(&seq);
        judge_solved::<C>(seq.iter().copied(), &m, t)?;
        t.nontrivial();
        Ok(())
    });
    // the solved cube turned as a whole shows single colours, but not on the right faces
    if C::N % 2 == 0 {
        let mut cases = vec![];
        for a in 0u8..3 {
            for q in 1u8..4 {
                for r in 0..=3u8 {
                    cases.push((a, q, r));
                }
            }
        }
        ctx.all(&format!("turned-as-a-whole-{name}"), cases, |(a, q, r), t| {
            let mut seq = vec![Turn::new(*a, *q, max), Turn::new(a + 3, 4 - q, max)];
            if *r > 0 {
                seq.extend([Turn::new((a + 1) % 3, *r, max), Turn::new((a + 1) % 3 + 3, 4 - r, max)]);
            }
            let mut m = Model::solved(C::N);
            m.turns(&seq);
            judge_solved::<C>(seq.iter().copied(), &m, t)
        });
    }
}

type CubiePerm = HashMap<V, (V, Rot)>;

fn cubie_perm(n: i32, ts: &[Turn]) -> CubiePerm {
    let mut m = Model::solved(n);
    m.turns(ts);
    m.cubies.iter().map(|c| (c.home, (c.pos, c.rot))).collect()
}

fn then(a: &CubiePerm, b: &CubiePerm) -> CubiePerm {
    a.iter()
        .map(|(h, (p, r))| {
            let (p2, r2) = b[p];
            (*h, (p2, r.then(&r2)))
        })
        .collect()
}

fn power(a: &CubiePerm, mut k: u64) -> CubiePerm {
    let mut base = a.clone();
    let mut out: CubiePerm = a.keys().map(|h| (*h, (*h, Rot::ID))).collect();
    while k > 0 {
        if k & 1 == 1 {
            out = then(&out, &base);
        }
        base = then(&base, &base);
        k >>= 1;
    }
    out
}

fn apply_perm(m: &mut Model, p: &CubiePerm) {
    for c in &mut m.cubies {
        let (pos, rot) = p[&c.pos];
        c.pos = pos;
        c.rot = c.rot.then(&rot);
    }
}

pub fn c03(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if some piece is away from home or turned in itself.");
    c03_for::<Cube2>(ctx, "2x2", 4);
    c03_for::<Cube3>(ctx, "3x3", 4);
    c03_for::<Cube4>(ctx, "4x4", 2);
    c03_for::<Cube5>(ctx, "5x5", 2);
    c03_for::<Cube6>(ctx, "6x6", 1);
    c03_for::<Cube7>(ctx, "7x7", 1);
    // nearly solved 3x3s and 2x2s, with pieces placed directly
    ctx.prop("near-3x3", ctx.n(20_000, 400_000), partial_state, |s, t| {
        let want = *s == State::solved();
        t.class(if want { "solved" } else { "not solved" });
        t.nontrivial_if(!want);
        let want2 = s.cp == State::solved().cp && s.co == State::solved().co;
        ensure!(s.cube().is_solved() == want, "3x3: is_solved is {}", !want);
        ensure!(s.cube2().is_solved() == want2, "2x2: is_solved is {}", !want2);
        Ok(())
    });
}

// ---------------------------------------------------------------- C04

fn undo<C, M>(c: &C, ms: &[M]) -> Res
where
    C: Movable<M> + Clone + Eq + std::fmt::Debug,
    M: Move + PartialEq + std::fmt::Debug,
{
    for m in ms {
        ensure!(m.inverse().inverse() == *m, "{m:?} inverted twice is {:?}", m.inverse().inverse());
        let mut x = c.clone();
        x.apply(m);
        x.apply(&m.inverse());
        ensure!(x == *c, "{m:?} and then its inverse {:?} do not restore the state", m.inverse());
        let mut x = c.clone();
        x.apply(&m.inverse());
        x.apply(m);
        ensure!(x == *c, "the inverse of {m:?} and then itself do not restore the state");
    }
    let alg: Alg<M> = Alg::new(ms.to_vec());
    let rev = alg.reversed();
    ensure!(rev.moves.len() == ms.len(), "a reversed sequence has another length");
    ensure!(rev.reversed() == alg, "reversing twice gives {:?}", rev.reversed());
    let mut x = c.clone();
    <C as Movable<Alg<M>>>::apply(&mut x, &alg);
    let moved = x.clone();
    <C as Movable<Alg<M>>>::apply(&mut x, &rev);
    ensure!(x == *c, "a sequence and then its reversal {rev:?} do not restore the state");
    // applying a sequence is applying its moves
    let mut y = c.clone();
    for m in ms {
        y.apply(m);
    }
    ensure!(y == moved, "applying the sequence is not applying its moves");
    let mut y = c.clone();
    <C as Movable<[M]>>::apply(&mut y, ms);
    ensure!(y == moved, "applying the slice of moves is not applying the moves");
    ensure!(<C as Movable<Alg<M>>>::moved(c.clone(), &alg) == moved, "`moved` and `apply` differ");
    let mut e = c.clone();
    <C as Movable<Alg<M>>>::apply(&mut e, &Alg::<M>::empty());
    ensure!(e == *c, "the empty sequence changes the state");
    ensure!(Alg::<M>::empty().moves.is_empty() && Alg::<M>::empty().reversed().moves.is_empty(), "the empty sequence is not empty");
    Ok(())
}

/// A long sequence and its reversal
fn undo_long<C: Observe + Movable<M> + PartialEq, M: Move + PartialEq + std::fmt::Debug>(ts: &[Turn], ms: Vec<M>) -> Res {
    let c: C = after(ts);
    let alg: Alg<M> = Alg::new(ms);
    let n = alg.moves.len();
    let rev = alg.reversed();
    ensure!(rev.moves.len() == n, "a sequence of {n} moves is reversed to one of {}", rev.moves.len());
    ensure!(rev.reversed() == alg, "a sequence of {n} moves reversed twice is another one");
    let mut x = c.clone();
    <C as Movable<Alg<M>>>::apply(&mut x, &alg);
    let mut y = c.clone();
    for m in &alg.moves {
        <C as Movable<M>>::apply(&mut y, m);
    }
    ensure!(x == y, "applying a sequence of {n} moves is not applying its moves");
    <C as Movable<Alg<M>>>::apply(&mut x, &rev);
    ensure!(x == c, "a sequence of {n} moves and then its reversal do not restore the state");
    Ok(())
}

fn after<C: Observe>(ts: &[Turn]) -> C {
    let mut c = C::SOLVED;
    for t in ts {
        c.turn(Turn { depth: t.depth.min(C::MAX_DEPTH), ..*t });
    }
    c
}

fn undo_plain<C: Observe>(ts: &[Turn], ms: &[Turn], nrs: &[(u8, u8, u8)]) -> Res {
    let c: C = after(ts);
    undo::<C, AxisMove>(&c, &ms.iter().map(|t| axis_move(t.face, t.q)).collect::<Vec<_>>())?;
    undo::<C, QuarterAxisMove>(
        &c,
        &ms.iter().map(|t| QuarterAxisMove::new(face(t.face), dir(if t.q == 3 { -1 } else { 1 }))).collect::<Vec<_>>(),
    )?;
    undo::<C, NonRedundantAxisMove>(&c, &nrs.iter().map(nr).collect::<Vec<_>>())?;
    undo::<C, WideAxisMove<0>>(&c, &ms.iter().map(|t| wide::<0>(Turn { depth: 0, ..*t })).collect::<Vec<_>>())
}

fn undo_wide<C: Observe + Movable<WideAxisMove<D>>, const D: u32>(ts: &[Turn], ms: &[Turn]) -> Res {
    let c: C = after(ts);
    undo::<C, WideAxisMove<D>>(&c, &ms.iter().map(|t| wide::<D>(Turn { depth: t.depth.min(D), ..*t })).collect::<Vec<_>>())
}

macro_rules! undo_ext {
    ($ctx:expr, $cube:ty, $name:literal, $n:expr) => {
        $ctx.prop(concat!("held-", $name), $n, || (prop::collection::vec(ext(), 0..12), prop::collection::vec(ext(), 0..8)), |(state, ms), t| {
            let mut c: Orientable<$cube> = Orientable::new(<$cube>::SOLVED);
            for m in state {
                c.apply(&m.to_move());
            }
            t.nontrivial_if(!state.is_empty() && ms.len() > 1);
            for m in ms {
                t.class(match m { Ext::Face(..) => "face", Ext::Wide(..) => "wide", Ext::Rotate(..) => "rotate", Ext::Slice(..) => "slice" });
                let inv = m.inverse().to_move();
                ensure!(m.to_move().inverse() == inv, "the inverse of {m:?} is {:?}", m.to_move().inverse());
            }
            undo(&c, &ms.iter().map(|m| m.to_move()).collect::<Vec<_>>())?;
            // plain moves on the held cube
            let plain: Vec<AxisMove> = ms.iter().filter_map(|m| match m { Ext::Face(f, q) => Some(axis_move(*f, *q)), _ => None }).collect();
            undo(&c, &plain)
        });
    };
}

pub fn c04(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it starts from a state other than solved and undoes at least two moves.");
    let cases = |max| move || (turns(12, max), turns(8, max), prop::collection::vec((0u8..3, 0u8..4, 0u8..4), 0..6));
    macro_rules! plain {
        ($cube:ty, $name:literal, $n:expr) => {
            ctx.prop(concat!("turns-", $name), $n, cases(2), |(ts, ms, nrs), t| {
                t.nontrivial_if(!ts.is_empty() && ms.len() > 1);
                undo_plain::<$cube>(ts, ms, nrs)
            });
        };
    }
    plain!(Cube2, "2x2", ctx.n(4000, 100_000));
    plain!(Cube3, "3x3", ctx.n(4000, 100_000));
    plain!(Cube4, "4x4", ctx.n(800, 20_000));
    plain!(Cube5, "5x5", ctx.n(800, 20_000));
    plain!(Cube6, "6x6", ctx.n(800, 20_000));
    plain!(Cube7, "7x7", ctx.n(800, 20_000));
    ctx.prop("wide", ctx.n(1000, 30_000), || (turns(12, 2), turns(8, 2)), |(ts, ms), t| {
        t.nontrivial_if(!ts.is_empty() && ms.len() > 1);
        undo_wide::<Cube4, 1>(ts, ms)?;
        undo_wide::<Cube5, 1>(ts, ms)?;
        undo_wide::<Cube6, 1>(ts, ms)?;
        undo_wide::<Cube6, 2>(ts, ms)?;
        undo_wide::<Cube7, 1>(ts, ms)?;
        undo_wide::<Cube7, 2>(ts, ms)
    });
    undo_ext!(ctx, Cube2, "2x2", ctx.n(4000, 100_000));
    undo_ext!(ctx, Cube3, "3x3", ctx.n(4000, 100_000));
    undo_ext!(ctx, Cube4, "4x4", ctx.n(1000, 30_000));
    undo_ext!(ctx, Cube5, "5x5", ctx.n(1000, 30_000));
    undo_ext!(ctx, Cube6, "6x6", ctx.n(1000, 30_000));
    undo_ext!(ctx, Cube7, "7x7", ctx.n(1000, 30_000));
    ctx.prop("very-long", ctx.n(100, 2_000), || (turns(12, 0), long(1 << 15)), |(ts, c), t| {
        t.nontrivial_if(!ts.is_empty());
        let long = c.turns(2);
        undo_long::<Cube3, AxisMove>(ts, long.iter().map(|t| axis_move(t.face, t.q)).collect())?;
        undo_long::<Cube2, QuarterAxisMove>(ts, long.iter().map(|t| QuarterAxisMove::new(face(t.face), dir(if t.q == 3 { -1 } else { 1 }))).collect())?;
        undo_long::<Cube3, NonRedundantAxisMove>(ts, long.iter().map(|t| nr(&(t.face % 3, t.q, t.depth as u8))).collect())?;
        let few = &long[..long.len().min(1000 + c.len % 100)];
        undo_long::<Cube7, WideAxisMove<2>>(ts, few.iter().map(|t| wide::<2>(*t)).collect())
    });
    // rotations on what can be rotated
    let mut cases = vec![];
    for a in 0usize..3 {
        for q in 1u8..4 {
            cases.push((a, q));
        }
    }
    ctx.all("rotations", cases, |(a, q), t| {
        let r = rotation(*a, *q);
        t.nontrivial();
        ensure!(r.inverse().inverse() == r, "{r:?} inverted twice is {:?}", r.inverse().inverse());
        ensure!(r.inverse() == rotation(*a, 4 - *q), "the inverse of {r:?} is {:?}", r.inverse());
        for f in Face::iter() {
            ensure!(f.clone().rotated(&r).rotated(&r.inverse()) == f, "{r:?} and back takes {f} elsewhere");
        }
        for x in [Axis::X, Axis::Y, Axis::Z] {
            ensure!(x.rotated(&r).rotated(&r.inverse()) == x, "{r:?} and back takes {x:?} elsewhere");
        }
        Ok(())
    });
    let _ = Amount::Single;
}
