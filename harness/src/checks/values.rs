//! C27 to C30 and C32: cubes as values, displacement estimates, named sequences, successors and the
//! sequences of each cube.

use crate::{
    bridge::*,
    ctx::*,
    gen::*,
    model::*,
    orbits::{near, Puzzle},
};
use barbarosa::{
    cube_n::{
        cube3::{
            heuristics::{self, manhattan::{manhattan, manhattan_filtered, piece_manhattan, vec_manhattan}},
            Cube3,
        },
        moves::{
            perms::{pll, SEXY_MOVE},
            ExtendedAxisMove,
        },
        AxisMove, Corner, Cube2, Cube4, Cube5, Cube6, Cube7, CubeN, Edge, Orientable, Orientation,
    },
    generic::{Alg, Movable, Parsable, Piece},
};
use nalgebra::Vector3;
use once_cell::sync::Lazy;
use proptest::prelude::*;
use rand::{distributions::{Distribution, Standard}, rngs::StdRng, SeedableRng};
use serde::{Deserialize, Serialize};
use std::{
    collections::{hash_map::DefaultHasher, HashSet},
    hash::{Hash, Hasher},
    sync::atomic::{AtomicU64, Ordering},
};

// ---------------------------------------------------------------- C27

/// Two ways to make a cube: turns in common, then different ones
#[derive(Debug, Clone, Serialize, Deserialize)]
struct Ways {
    before: Vec<Turn>,
    one: Vec<Turn>,
    other: Vec<Turn>,
    after: Vec<Turn>,
    hold: (u8, u8),
}

fn ways(max: u32) -> impl Strategy<Value = Ways> + Clone {
    let part = move || turns(4, max);
    let pair = prop_oneof![
        // free
        2 => (part(), part()),
        // the same, with something undone in it
        3 => (part(), part()).prop_map(|(a, b)| {
            let mut c = a.clone();
            c.extend(b.iter().copied());
            c.extend(b.iter().rev().map(|t| t.inverse()));
            (a, c)
        }),
        // parallel turns in another order
        2 => (0u8..3, prop::collection::vec((prop::bool::ANY, 1u8..4, 0..=max), 1..5), any::<u64>()).prop_map(|(a, v, k)| {
            let ts: Vec<Turn> = v.into_iter().map(|(s, q, d)| Turn::new(a + if s { 3 } else { 0 }, q, d)).collect();
            let mut other = ts.clone();
            other.rotate_left(k as usize % ts.len());
            (ts, other)
        }),
        // one turn of many is of another amount, depth or face
        2 => (turns(8, max), turn(max), any::<prop::sample::Index>()).prop_map(|(a, t, i)| {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = i.index(b.len());
                b[i] = t;
            }
            (a, b)
        }),
        // known cycles
        1 => (0u8..6, 1u8..3, 1usize..7).prop_map(|(f, k, n)| {
            let g = (f + k) % 6;
            let one = [Turn::new(f, 1, 0), Turn::new(g, 1, 0), Turn::new(f, 3, 0), Turn::new(g, 3, 0)];
            (one.repeat(n), vec![])
        }),
    ];
    (turns(8, max), pair, prop_oneof![2 => Just(vec![]), 1 => turns(5, max)], (0u8..24, 0u8..24))
        .prop_map(|(before, (one, other), after, hold)| Ways { before, one, other, after, hold })
}

/// One of the ways is long, and most often done and undone again
fn far(max: u32) -> impl Strategy<Value = Far> + Clone {
    (turns(8, max), long(1 << 12), turns(2, max), (0u8..24, 0u8..24)).prop_map(move |(before, l, end, hold)| Far { before, l, end, hold, max })
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Far {
    before: Vec<Turn>,
    l: Long,
    end: Vec<Turn>,
    hold: (u8, u8),
    max: u32,
}

impl Far {
    fn ways(&self) -> Ways {
        let l = Long { style: if self.l.seed % 4 == 0 { self.l.style } else { 3 }, len: self.l.len & !1, ..self.l.clone() };
        let (k, end) = ((self.l.seed >> 8) % 3, self.end.clone());
        let mut other = l.turns(self.max);
        other.extend(&end);
        Ways { before: self.before.clone(), one: if k == 0 { vec![] } else { end }, other, after: vec![], hold: self.hold }
    }
}

/// Cubes that differ by few pieces
fn few(n: i32) -> impl Strategy<Value = Ways> + Clone {
    let max = (n as u32 - 2) / 2;
    (changes(2), changes(2), prop_oneof![2 => Just(vec![]), 1 => turns(3, max)], (0u8..24, 0u8..24)).prop_map(move |(a, b, after, hold)| {
        let z = Puzzle::of(n);
        let to = |c: &[_]| z.reach(&near(n, c)).unwrap_or_default();
        Ways { before: to(&a), one: vec![], other: to(&b), after, hold }
    })
}

fn hash<T: Hash + ?Sized>(x: &T) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// What a value gives to a hasher
fn hashed_bytes<T: Hash>(x: &T) -> Vec<u8> {
    struct Bytes(Vec<u8>);
    impl Hasher for Bytes {
        fn write(&mut self, bytes: &[u8]) {
            self.0.extend(bytes);
        }
        fn finish(&self) -> u64 {
            self.0.len() as u64
        }
    }
    let mut h = Bytes(vec![]);
    x.hash(&mut h);
    h.0
}

fn both<C: Observe>(w: &Ways) -> ((C, Model), (C, Model)) {
    let go = |mid: &[Turn]| {
        let (mut c, mut m) = (C::SOLVED, Model::solved(C::N));
        for x in w.before.iter().chain(mid).chain(&w.after) {
            let x = Turn { depth: x.depth.min(C::MAX_DEPTH), ..*x };
            c.turn(x);
            m.turn(x);
        }
        (c, m)
    };
    (go(&w.one), go(&w.other))
}

fn same_state(n: i32, a: &Model, b: &Model) -> bool {
    a.cubies
        .iter()
        .zip(&b.cubies)
        .all(|(x, y)| kind(n, x.home) == Kind::FixedCenter || (x.pos == y.pos && (x.rot == y.rot || !oriented_kind(n, x.home))))
}

fn equality<C: Observe>(w: &Ways, t: &mut Tally) -> Result<(C, C, bool), Fail> {
    let ((a, ma), (b, mb)) = both::<C>(w);
    let same = same_state(C::N, &ma, &mb);
    t.class(if same { "same" } else { "different" });
    t.nontrivial_if(w.one != w.other && !w.before.is_empty());
    ensure!((a == b) == same && (b == a) == same, "the cubes are physically {}, but == says {} and {} the other way around", if same { "the same" } else { "different" }, a == b, b == a);
    ensure!((a != b) != same, "!= does not contradict ==");
    ensure!(a == a.clone() && b == b.clone(), "a copy differs from the cube");
    // a copy has a life of its own
    let (mut x, kept) = (a.clone(), a.clone());
    let turn = w.after.first().or(w.one.first()).copied().unwrap_or(Turn::new(4, 1, 0));
    x.turn(Turn { depth: 0, ..turn });
    ensure!(x != a, "a face turn leaves an equal cube");
    ensure!(a == kept, "turning a copy changes the cube");
    // a cube can become a copy of another one
    let mut x = a.clone();
    x.clone_from(&b);
    ensure!(x == b && (x == a) == same, "a cube made a copy of another one differs from it");
    compare(&x, &mb).map_err(|e| format!("a cube made a copy of another one: {e}"))?;
    compare(&kept, &ma).map_err(|e| format!("a copy: {e}"))?;
    x.turn(Turn { depth: 0, ..turn });
    ensure!(x != b && a == kept, "turning a copy changes a cube");
    let solved = C::SOLVED;
    ensure!(C::new_solved() == solved && solved.is_solved(), "a new cube is not solved");
    Ok((a, b, same))
}

fn hashed<C: Observe + Hash>(w: &Ways, t: &mut Tally) -> Res {
    let (a, b, same) = equality::<C>(w, t)?;
    ensure!(!same || hash(&a) == hash(&b), "equal cubes hash differently");
    ensure!(hash(&a) == hash(&a.clone()), "a copy hashes differently");
    // whatever the hasher is
    ensure!(!same || hashed_bytes(&a) == hashed_bytes(&b), "equal cubes hash differently with some hashers");
    ensure!(!same || hash(&[a.clone(), b.clone()][..]) == hash(&[b.clone(), a.clone()][..]), "lists of equal cubes hash differently");
    let mut set = HashSet::from([a.clone()]);
    ensure!(set.insert(b.clone()) != same && set.contains(&a) && set.contains(&b), "a set of cubes confuses them");
    Ok(())
}

fn held_equality<C: Observe + CubeN>(w: &Ways, t: &mut Tally) -> Res
where
    Orientable<C>: Movable<ExtendedAxisMove>,
{
    let (a, b, same) = equality::<C>(w, t)?;
    let hold = |k: u8, c: C| -> Result<Orientable<C>, Fail> {
        let g = group()[k as usize % 24];
        let orientation = Orientation::try_from([face(g.face(0)), face(g.face(1))]).map_err(|e| format!("orientation refused: {e}"))?;
        Ok(Orientable { base_cube: c, orientation })
    };
    let (x, y) = (hold(w.hold.0, a.clone())?, hold(w.hold.1, b)?);
    let want = same && w.hold.0 % 24 == w.hold.1 % 24;
    ensure!((x == y) == want, "two held cubes compare {}, they are physically {}", x == y, if want { "the same" } else { "different" });
    let mut z = x.clone();
    z.clone_from(&y);
    ensure!(z == y && z.base_cube == y.base_cube && z.orientation == y.orientation, "a held cube made a copy of another one differs from it");
    ensure!(Orientable::new(a.clone()).base_cube == a, "holding a cube changes it");
    Ok(())
}

pub fn c27(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if a scrambled cube is turned on in two different ways.");
    ctx.prop("cubes-2", ctx.n(20_000, 400_000), || ways(0), hashed::<Cube2>);
    ctx.prop("cubes-3", ctx.n(20_000, 400_000), || ways(0), hashed::<Cube3>);
    ctx.prop("cubes-4", ctx.n(6_000, 100_000), || ways(1), hashed::<Cube4>);
    ctx.prop("cubes-5", ctx.n(6_000, 100_000), || ways(1), |w, t| equality::<Cube5>(w, t).map(|_| ()));
    ctx.prop("cubes-6", ctx.n(4_000, 60_000), || ways(2), |w, t| equality::<Cube6>(w, t).map(|_| ()));
    ctx.prop("cubes-7", ctx.n(4_000, 60_000), || ways(2), |w, t| equality::<Cube7>(w, t).map(|_| ()));
    ctx.prop("held-2", ctx.n(4_000, 60_000), || ways(0), held_equality::<Cube2>);
    ctx.prop("held-3", ctx.n(4_000, 60_000), || ways(0), held_equality::<Cube3>);
    ctx.prop("held-4", ctx.n(1_000, 20_000), || ways(1), held_equality::<Cube4>);
    ctx.prop("held-5", ctx.n(700, 14_000), || ways(1), held_equality::<Cube5>);
    ctx.prop("held-6", ctx.n(500, 10_000), || ways(2), held_equality::<Cube6>);
    ctx.prop("held-7", ctx.n(500, 10_000), || ways(2), held_equality::<Cube7>);
    ctx.prop("few-pieces-2", ctx.n(5_000, 100_000), || few(2), hashed::<Cube2>);
    ctx.prop("few-pieces-3", ctx.n(5_000, 100_000), || few(3), hashed::<Cube3>);
    ctx.prop("few-pieces-4", ctx.n(4_000, 100_000), || few(4), hashed::<Cube4>);
    ctx.prop("few-pieces-5", ctx.n(3_000, 60_000), || few(5), |w, t| equality::<Cube5>(w, t).map(|_| ()));
    ctx.prop("few-pieces-6", ctx.n(2_000, 40_000), || few(6), |w, t| equality::<Cube6>(w, t).map(|_| ()));
    ctx.prop("few-pieces-7", ctx.n(2_000, 40_000), || few(7), |w, t| equality::<Cube7>(w, t).map(|_| ()));
    // ways that are long
    let n = ctx.n(40, 1500);
    ctx.prop("very-long-2", n, || far(0), |f, t| hashed::<Cube2>(&f.ways(), t));
    ctx.prop("very-long-3", n, || far(0), |f, t| hashed::<Cube3>(&f.ways(), t));
    ctx.prop("very-long-4", n / 2, || far(1), |f, t| hashed::<Cube4>(&f.ways(), t));
    ctx.prop("very-long-5", n / 2, || far(1), |f, t| equality::<Cube5>(&f.ways(), t).map(|_| ()));
    ctx.prop("very-long-6", n / 4, || far(2), |f, t| equality::<Cube6>(&f.ways(), t).map(|_| ()));
    ctx.prop("very-long-7", n / 4, || far(2), |f, t| equality::<Cube7>(&f.ways(), t).map(|_| ()));
    // assemblies, also ones that turns do not reach
    ctx.prop("assemblies", ctx.n(30_000, 600_000), || (state_mix(), state_mix(), 0u8..6, 0usize..12, 0usize..12), |(a, b, how, i, j), t| {
        let mut b = match how {
            0 => b.clone(),
            _ => a.clone(),
        };
        match how {
            1 => b.eo[*i] ^= 1,
            2 => b.co[*i % 8] = (b.co[*i % 8] + 1 + *j as u8 % 2) % 3,
            3 => b.ep.swap(*i, *j),
            4 => b.cp.swap(*i % 8, *j % 8),
            _ => {}
        }
        t.nontrivial_if(*a != State::solved());
        let same = *a == b;
        t.class(if same { "same" } else { "different" });
        let (x, y) = (a.cube(), b.cube());
        ensure!((x == y) == same, "the cubes compare {}", x == y);
        ensure!((x.edges == y.edges) == (a.ep == b.ep && a.eo == b.eo), "the edges compare {}", x.edges == y.edges);
        ensure!((x.corners == y.corners) == (a.cp == b.cp && a.co == b.co), "the corners compare {}", x.corners == y.corners);
        ensure!((a.cube2() == b.cube2()) == (x.corners == y.corners), "the 2x2s compare {}", a.cube2() == b.cube2());
        ensure!(!same || (hash(&x) == hash(&y) && hash(&a.cube2()) == hash(&b.cube2())), "equal cubes hash differently");
        // copies of parts, and over others
        let (mut edges, mut corners, mut two, mut all) = (x.edges.clone(), x.corners.clone(), a.cube2(), x.clone());
        ensure!(edges == x.edges && corners == x.corners && State::of(&all) == *a, "a copy differs");
        edges.clone_from(&y.edges);
        corners.clone_from(&y.corners);
        two.clone_from(&b.cube2());
        all.clone_from(&y);
        ensure!(edges == y.edges && corners == y.corners && two == b.cube2() && all == y, "a cube, or a part of it, made a copy of another one differs from it");
        ensure!(State::of(&all) == b && State::of(&x) == *a, "a cube made a copy of another one is in the state {:?}", State::of(&all));
        Ok(())
    });
    // single pieces
    let edges: Vec<(usize, bool)> = (0..12).flat_map(|i| [(i, true), (i, false)]).collect();
    ctx.all("edges", edges.iter().flat_map(|a| edges.iter().map(move |b| (*a, *b))).collect(), |(a, b), t| {
        t.nontrivial_if(a != b);
        let (x, y) = (edge_at(edge_home(a.0), a.1), edge_at(edge_home(b.0), b.1));
        ensure!((x == y) == (a == b) && (x.position() == y.position()) == (a.0 == b.0), "{x:?} and {y:?} compare {}", x == y);
        ensure!(a != b || hash(&x) == hash(&y), "{x:?} hashes differently");
        Ok(())
    });
    let corners: Vec<(usize, usize)> = (0..8).flat_map(|i| (0..3).map(move |o| (i, o))).collect();
    ctx.all("corners", corners.iter().flat_map(|a| corners.iter().map(move |b| (*a, *b))).collect(), |(a, b), t| {
        t.nontrivial_if(a != b);
        let (x, y) = (corner_at(corner_home(a.0), a.1), corner_at(corner_home(b.0), b.1));
        ensure!((x == y) == (a == b) && (x.position() == y.position()) == (a.0 == b.0), "{x:?} and {y:?} compare {}", x == y);
        ensure!(a != b || hash(&x) == hash(&y), "{x:?} hashes differently");
        Ok(())
    });
}

// ---------------------------------------------------------------- C28

/// How far a piece is from home along the three axes, with the layers one apart
fn displacement(a: V, b: V) -> i32 {
    (0..3).map(|i| (a[i] - b[i]).abs()).sum::<i32>() / 2
}

fn displaced(s: &State, keep: (u16, u16), t: &mut Tally) -> Res {
    let cube = s.cube();
    let edge = |i: usize| displacement(edge_home(s.ep[i] as usize), edge_home(i));
    let corner = |i: usize| displacement(corner_home(s.cp[i] as usize), corner_home(i));
    let total: i32 = (0..12).map(edge).sum::<i32>() + (0..8).map(corner).sum::<i32>();
    t.nontrivial_if(total > 0);
    ensure!(manhattan(&cube) == total as f32 / 16.0, "the estimate is {}, the pieces are {total} away in all", manhattan(&cube));
    ensure!(heuristics::manhattan(&cube) == manhattan(&cube), "two estimates of one name differ");
    ensure!(heuristics::zero(&cube) == 0.0 && heuristics::zero(&s.cube2()) == 0.0, "zero is not zero");
    for (i, (pos, e)) in cube.edges.iter_with_pos().enumerate() {
        let d = piece_manhattan(pos, e);
        ensure!(d == edge(i) as f32, "{e:?} is {d} from its home {pos:?}, not {}", edge(i));
    }
    for (i, (pos, c)) in cube.corners.iter_with_pos().enumerate() {
        let d = piece_manhattan(pos, c);
        ensure!(d == corner(i) as f32, "{c:?} is {d} from its home {pos:?}, not {}", corner(i));
    }
    // some of the pieces only, told by home
    let kept = |mask: u16, i: usize| mask >> i & 1 == 1;
    let got = manhattan_filtered(&cube.edges, |pos, _| kept(keep.0, Edge::REFERENCE_POSITIONS.iter().position(|p| p == pos).unwrap()));
    let want: i32 = (0..12).filter(|i| kept(keep.0, *i)).map(edge).sum();
    ensure!(got == want as f32, "the chosen edges ({:b}) are {got} away, not {want}", keep.0);
    let got = manhattan_filtered(&cube.corners, |pos, _| kept(keep.1, Corner::REFERENCE_POSITIONS.iter().position(|p| p == pos).unwrap()));
    let want: i32 = (0..8).filter(|i| kept(keep.1, *i)).map(corner).sum();
    ensure!(got == want as f32, "the chosen corners ({:b}) are {got} away, not {want}", keep.1);
    // or by what they are now
    let got = manhattan_filtered(&cube.edges, |_, e| e.oriented);
    let want: i32 = (0..12).filter(|i| s.eo[*i] == 0).map(edge).sum();
    ensure!(got == want as f32, "the oriented edges are {got} away, not {want}");
    let home = (0..12).all(|i| s.ep[i] == i as u8) && (0..8).all(|i| s.cp[i] == i as u8);
    ensure!((manhattan(&cube) == 0.0) == home, "the estimate is {} and all pieces in place is {home}", manhattan(&cube));
    Ok(())
}

use barbarosa::generic::piece::PieceSetDescriptor;

pub fn c28(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if some piece is out of its place (vectors: if they differ).");
    let keep = || prop_oneof![Just((u16::MAX, u16::MAX)), any::<(u16, u16)>()];
    ctx.prop("cubes", ctx.n(60_000, 1_500_000), || (state_mix(), keep()), |(s, k), t| displaced(s, *k, t));
    ctx.prop("near", ctx.n(20_000, 400_000), || (turns(5, 0), keep()), |(ts, k), t| displaced(&state_after(ts), *k, t));
    ctx.prop("vectors", ctx.n(60_000, 1_000_000), || any::<([i16; 3], [i16; 3])>(), |(a, b), t| {
        t.nontrivial_if(a != b);
        let v = |x: &[i16; 3]| Vector3::new(x[0] as f32, x[1] as f32, x[2] as f32) / 4.0;
        let want = (0..3).map(|i| (a[i] as i32 - b[i] as i32).abs()).sum::<i32>() as f32 / 4.0;
        let got = vec_manhattan(&v(a), &v(b));
        ensure!(got == want && vec_manhattan(&v(b), &v(a)) == want, "the distance is {got}, not {want}");
        Ok(())
    });
    let places = |n: usize| (0..n).flat_map(move |a| (0..n).flat_map(move |b| (0..3).map(move |o| (a, b, o)))).collect::<Vec<_>>();
    ctx.all("every-edge-everywhere", places(12), |(a, b, o), t| {
        t.nontrivial_if(a != b);
        let e = edge_at(edge_home(*b), *o == 0);
        let d = piece_manhattan(edge_at(edge_home(*a), true).position(), &e);
        let want = displacement(edge_home(*a), edge_home(*b));
        ensure!(d == want as f32, "{e:?} is {d} from {:?}, not {want}", edge_home(*a));
        Ok(())
    });
    ctx.all("every-corner-everywhere", places(8), |(a, b, o), t| {
        t.nontrivial_if(a != b);
        let c = corner_at(corner_home(*b), *o);
        let d = piece_manhattan(corner_at(corner_home(*a), 1).position(), &c);
        let want = displacement(corner_home(*a), corner_home(*b));
        ensure!(d == want as f32, "{c:?} is {d} from {:?}, not {want}", corner_home(*a));
        Ok(())
    });
}

// ---------------------------------------------------------------- C29

/// What a named sequence does: places that are exchanged or cycled
struct Named {
    name: &'static str,
    alg: &'static Lazy<Alg<AxisMove>>,
    /// cycles of places, each goes to the next, given by their faces
    cycles: &'static [&'static [&'static str]],
    /// how often it is done until nothing has changed
    order: usize,
}

fn place(n: i32, faces: &str) -> V {
    let mut v = [0; 3];
    for c in faces.chars() {
        let f = FACES.iter().position(|x| *x == c).unwrap() as u8;
        v[face_axis(f)] = face_sign(f) * (n - 1);
    }
    v
}

fn named() -> Vec<Named> {
    vec![
        Named { name: "sexy move", alg: &SEXY_MOVE, cycles: &[], order: 6 },
        Named { name: "T perm", alg: &pll::T, cycles: &[&["RUF", "RUB"], &["RU", "LU"]], order: 2 },
        Named { name: "U perm", alg: &pll::U, cycles: &[], order: 3 },
        Named { name: "J perm", alg: &pll::J, cycles: &[&["RU", "UF"], &["RUF", "RUB"]], order: 2 },
    ]
}

/// Applies a named sequence to a scrambled 3x3 and judges which places exchanged their contents
fn perm(k: usize, s: &State, t: &mut Tally) -> Res {
    let p = &named()[k];
    t.nontrivial_if(*s != State::solved());
    let alg: &Alg<AxisMove> = p.alg;
    let before = s.cube();
    let mut after = before.clone();
    <Cube3 as Movable<Alg<AxisMove>>>::apply(&mut after, alg);
    // applying it through its lazy value is the same
    let mut lazy = before.clone();
    <Cube3 as Movable<Lazy<Alg<AxisMove>>>>::apply(&mut lazy, p.alg);
    ensure!(lazy == after, "{}: applied as it is named, it does something else", p.name);
    let mut cube = before.clone();
    for i in 1..=p.order {
        <Cube3 as Movable<Alg<AxisMove>>>::apply(&mut cube, alg);
        ensure!((cube == before) == (i == p.order), "{} done {i} times: the cube is {}as before", p.name, if cube == before { "" } else { "not " });
    }
    let (m0, m1) = (s.model(3), State::of(&after).model(3));
    // where the content of each place goes
    let moved: Vec<(V, V, bool)> = m0
        .cubies
        .iter()
        .zip(&m1.cubies)
        .filter(|(a, b)| kind(3, a.home) != Kind::FixedCenter && (a.pos != b.pos || a.rot != b.rot))
        .map(|(a, b)| {
            // the orientation relative to the U and D sides stays if the U sticker does
            let up = |c: &Cubie, r: u8| (0u8..6).find(|f| c.rot.face(*f) == r);
            (a.pos, b.pos, up(a, 1) == up(b, 1))
        })
        .collect();
    if p.name == "sexy move" {
        let want: Vec<AxisMove> = [(0, 1), (1, 1), (0, 3), (1, 3)].map(|(f, q)| axis_move(f, q)).to_vec();
        ensure!(alg.moves == want, "the sexy move is {alg}");
        return Ok(());
    }
    ensure!(moved.iter().all(|(a, b, up)| a[1] == 2 && b[1] == 2 && *up), "{} touches more than the places of the last layer", p.name);
    let corners = moved.iter().filter(|(a, ..)| kind(3, *a) == Kind::Corner).count();
    if p.name == "U perm" {
        ensure!(corners == 0 && moved.len() == 3, "{} moves {corners} corners and {} pieces in all {moved:?}", p.name, moved.len());
        // Ua goes counter-clockwise, seen from above
        let step = |v: &V| ["F", "R", "B", "L"].iter().position(|f| place(3, &format!("U{f}")) == *v).unwrap();
        let around: usize = moved.iter().map(|(a, b, _)| (step(b) + 4 - step(a)) % 4).sum();
        ensure!(around == 4, "{} goes clockwise: {moved:?}", p.name);
        return Ok(());
    }
    let mut want: Vec<(V, V)> = vec![];
    for c in p.cycles {
        for i in 0..c.len() {
            want.push((place(3, c[i]), place(3, c[(i + 1) % c.len()])));
        }
    }
    let mut got: Vec<(V, V)> = moved.iter().map(|(a, b, _)| (*a, *b)).collect();
    got.sort();
    want.sort();
    ensure!(got == want, "{} moves {got:?}, its documentation says {want:?}", p.name);
    Ok(())
}

/// On any cube the named sequence is the sequence of its turns, and ends after its order
fn perm_on<C: Observe>(k: usize, ts: &[Turn], t: &mut Tally) -> Res {
    let p = &named()[k];
    let (mut c, mut m) = (C::SOLVED, Model::solved(C::N));
    for x in ts {
        let x = Turn { depth: x.depth.min(C::MAX_DEPTH), ..*x };
        c.turn(x);
        m.turn(x);
    }
    t.nontrivial_if(!ts.is_empty());
    let start = c.clone();
    for _ in 0..p.order {
        <C as Movable<Lazy<Alg<AxisMove>>>>::apply(&mut c, p.alg);
        m.turns(&p.alg.moves.iter().map(turn_of).collect::<Vec<_>>());
        compare(&c, &m).map_err(|e| format!("{}: {e}", p.name))?;
    }
    // (the 2x2 has no edges, and on even sizes some moves spin nothing that can be seen)
    let big = C::N > 3;
    ensure!(big || c == start, "{} done {} times changes the cube", p.name, p.order);
    Ok(())
}

pub fn c29(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is not solved before.");
    ctx.assume("The documentation of the U perm names corners where it means the edges next to them, so it is judged as what Ua is: a counter-clockwise cycle of three edges of the last layer.");
    ctx.all("on-solved", (0..4).collect(), |k: &usize, t| perm(*k, &State::solved(), t));
    ctx.prop("on-any-3x3", ctx.n(30_000, 600_000), || (0usize..4, state_mix()), |(k, s), t| perm(*k, s, t));
    ctx.prop("on-2", ctx.n(3_000, 40_000), || (0usize..4, turns(12, 0)), |(k, ts), t| perm_on::<Cube2>(*k, ts, t));
    ctx.prop("on-3", ctx.n(3_000, 40_000), || (0usize..4, turns(12, 0)), |(k, ts), t| perm_on::<Cube3>(*k, ts, t));
    ctx.prop("on-4", ctx.n(400, 8_000), || (0usize..4, turns(12, 1)), |(k, ts), t| perm_on::<Cube4>(*k, ts, t));
    ctx.prop("on-5", ctx.n(300, 6_000), || (0usize..4, turns(12, 1)), |(k, ts), t| perm_on::<Cube5>(*k, ts, t));
    ctx.prop("on-6", ctx.n(200, 4_000), || (0usize..4, turns(12, 2)), |(k, ts), t| perm_on::<Cube6>(*k, ts, t));
    ctx.prop("on-7", ctx.n(150, 3_000), || (0usize..4, turns(12, 2)), |(k, ts), t| perm_on::<Cube7>(*k, ts, t));
}

// ---------------------------------------------------------------- C30

fn successors(s: &State, t: &mut Tally) -> Res {
    let cube = s.cube();
    let all: Vec<(Cube3, AxisMove)> = cube.successors().into_iter().collect();
    t.nontrivial_if(*s != State::solved());
    ensure!(all.len() == 18, "a cube has {} successors", all.len());
    let m = s.model(3);
    let mut seen = [false; 18];
    for (c, mv) in &all {
        let x = turn_of(mv);
        let i = x.face as usize * 3 + x.q as usize - 1;
        ensure!(!seen[i], "{mv} is listed twice");
        seen[i] = true;
        let mut m = m.clone();
        m.turn(x);
        compare(c, &m).map_err(|e| format!("the state given for {mv}: {e}"))?;
        ensure!(*c != cube, "{mv} leads nowhere");
        ensure!(*c == cube.clone().moved(mv), "{mv} makes another state than the one listed");
    }
    ensure!(s.cube() == cube, "listing successors changes the cube");
    Ok(())
}

pub fn c30(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is not solved.");
    let mut near = vec![State::solved()];
    near.extend((0..18).map(|a| State::solved().turned(a)));
    ctx.all("near", near, successors);
    ctx.prop("any", ctx.n(10_000, 300_000), state_mix, successors);
}

// ---------------------------------------------------------------- C32

/// A turn as it is written; a small letter can stand for a wide turn
fn written(x: &Turn, small: bool) -> String {
    let letter = ["R", "U", "F", "L", "D", "B"][x.face as usize];
    let q = ["", "2", "'"][x.q as usize - 1];
    match (x.depth, small) {
        (0, _) => format!("{letter}{q}"),
        (1, true) => format!("{}{q}", letter.to_lowercase()),
        (1, false) => format!("{letter}w{q}"),
        (d, true) => format!("{d}{}{q}", letter.to_lowercase()),
        (d, false) => format!("{d}{letter}w{q}"),
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Draw {
    seed: u64,
    len: usize,
    before: Vec<Turn>,
}

fn own_sequences<C: Observe + CubeN>(ctx: &Ctx, name: &str, cases: u32)
where
    C::Move: Parsable + std::fmt::Debug,
    Standard: Distribution<C::Move>,
{
    let size = <C as CubeN>::N;
    if size != <C as Observe>::N as u32 {
        ctx.violation(&format!("size-{name}"), serde_json::json!(size), &format!("the size of the {name} is given as {size}"));
        return;
    }
    // one turn deeper than any cube of the library takes as well
    ctx.prop(&format!("typed-{name}"), ctx.n(cases, cases * 20), || (turns(8, C::MAX_DEPTH), prop::collection::vec((prop_oneof![8 => turn(C::MAX_DEPTH), 1 => turn(4)], prop::bool::weighted(0.3)), 0..8)), |(before, ts), t| {
        let text: Vec<String> = ts.iter().map(|(x, small)| written(x, *small)).collect();
        let text = text.join(" ");
        let fits = ts.iter().all(|(x, _)| x.depth <= C::MAX_DEPTH);
        t.class(if fits { "all of the cube" } else { "some too deep" });
        t.nontrivial_if(!ts.is_empty() && fits);
        let alg = match Alg::<C>::parse(&text) {
            Ok(alg) => alg,
            Err(e) => {
                ensure!(!fits, "{text:?} is refused as a sequence for the {name}: {e}");
                return Ok(());
            }
        };
        ensure!(fits, "{text:?} is accepted as a sequence for the {name}");
        ensure!(alg.moves.len() == ts.len(), "{text:?} is read as {} turns", alg.moves.len());
        let (mut c, mut m) = (C::SOLVED, Model::solved(<C as Observe>::N));
        for x in before {
            c.turn(*x);
            m.turn(*x);
        }
        let start = c.clone();
        let mut turned = c.clone();
        c.apply(&alg);
        for (x, _) in ts {
            turned.turn(*x);
            m.turn(*x);
        }
        ensure!(c == turned, "{text:?} read for the {name} does not make the turns written");
        compare(&c, &m)?;
        let mut one_by_one = start.clone();
        for x in &alg.moves {
            one_by_one.apply(x);
        }
        ensure!(c == one_by_one, "{text:?} applied at once is not its turns applied one by one");
        c.apply(&alg.reversed());
        ensure!(c == start, "{text:?} reversed does not undo it");
        Ok(())
    });
    // drawn turns
    let mut all = vec![];
    for face in 0..6 {
        for q in 1..4 {
            for depth in 0..=C::MAX_DEPTH {
                let x = Turn::new(face, q, depth);
                let mut c = C::SOLVED;
                c.turn(x);
                all.push((x, c));
            }
        }
    }
    let seen: Vec<AtomicU64> = all.iter().map(|_| AtomicU64::new(0)).collect();
    let sub = format!("drawn-{name}");
    ctx.prop(&sub, ctx.n(60, 600), || (any::<u64>(), 0usize..120, turns(6, C::MAX_DEPTH)).prop_map(|(seed, len, before)| Draw { seed, len, before }), |d, t| {
        let alg = Alg::<C>::random_unnormalized_with_rng(d.len, &mut StdRng::seed_from_u64(d.seed));
        t.nontrivial_if(d.len > 1);
        ensure!(alg.moves.len() == d.len, "a sequence of {} turns drawn for the {name} has {}", d.len, alg.moves.len());
        let mut c = C::SOLVED;
        for x in &d.before {
            c.turn(*x);
        }
        let mut turned = c.clone();
        c.apply(&alg);
        for x in &alg.moves {
            let one = C::SOLVED.moved(x);
            let Some(i) = all.iter().position(|(_, c)| *c == one) else {
                fail!("{x:?}, drawn for the {name}, is none of its turns");
            };
            seen[i].fetch_add(1, Ordering::Relaxed);
            turned.turn(all[i].0);
        }
        ensure!(c == turned, "a sequence drawn for the {name} does not make its turns");
        Ok(())
    });
    let drawn: u64 = seen.iter().map(|x| x.load(Ordering::Relaxed)).sum();
    // each is expected at least fifty times, even if a depth or a face is drawn half as often as others
    if drawn > all.len() as u64 * 100 {
        if let Some(i) = seen.iter().position(|x| x.load(Ordering::Relaxed) == 0) {
            let x = all[i].0;
            ctx.violation(&sub, serde_json::to_value(Draw { seed: 1, len: 0, before: vec![x] }).unwrap(), &format!("{} is never drawn for the {name}, in {drawn} turns", written(&x, false)));
        }
    }
}

pub fn c32(ctx: &Ctx) {
    ctx.rule("A typed sequence counts as non-trivial if it has a turn and all its turns are of the cube; a drawn one if it has two turns or more.");
    own_sequences::<Cube2>(ctx, "2x2", 8_000);
    own_sequences::<Cube3>(ctx, "3x3", 8_000);
    own_sequences::<Cube4>(ctx, "4x4", 2_000);
    own_sequences::<Cube5>(ctx, "5x5", 2_000);
    own_sequences::<Cube6>(ctx, "6x6", 1_500);
    own_sequences::<Cube7>(ctx, "7x7", 1_500);
}
