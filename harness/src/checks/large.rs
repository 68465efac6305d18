//! C36: the piece sets that larger cubes are made of, at any depth.

use crate::{bridge::*, ctx::*, gen::*, model::*};
#[cfg(verif_hooks)]
use barbarosa::cube_n::pieces::center::corner::CenterCorner;
use barbarosa::{
    cube_n::{
        moves::wide::{DepthPiece, DepthPieceSet},
        pieces::center::{edge::CenterEdge, wing::CenterWing},
        Wing,
    },
    generic::{piece::PieceSetDescriptor, Movable, Move, Piece},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashSet;

/// A piece set of some cube, whatever its type
trait Pieces {
    fn turn(&mut self, t: Turn, max: u8);
    fn unturn(&mut self, t: Turn, max: u8);
    fn places(&self, n: i32) -> Vec<V>;
    fn says_solved(&self) -> bool;
    fn is_start(&self) -> bool;
    /// Where the piece is that was at each place in the beginning, and which one is there now, as
    /// numbers of places
    fn look_up(&self) -> Vec<(usize, usize)>;
}

struct Of<P: DepthPiece + PieceSetDescriptor<K>, const K: usize, const ND: u32, const TD: u32> {
    set: DepthPieceSet<P, K, ND, TD>,
    place: fn(i32, u32, u32, &P) -> V,
}

/// Runs `$body` with a move of a type that allows at least the depth of the turn
macro_rules! with_move {
    ($t:expr, $max:expr, $m:ident => $body:expr; $($bound:literal)*) => {{
        let fitting = [$($bound as u32),*].iter().filter(|b| **b >= $t.depth).count();
        let skip = [$($bound as u32),*].len() - fitting + $max as usize % fitting;
        let mut i = 0;
        $(
            if i == skip {
                let $m = wide::<{ $bound }>($t);
                $body
            }
            i += 1;
        )*
        let _ = i;
    }};
}

impl<P, const K: usize, const ND: u32, const TD: u32> Pieces for Of<P, K, ND, TD>
where
    P: DepthPiece + PieceSetDescriptor<K, > + Piece<Position = P> + barbarosa::cube_n::moves::rotation::Rotatable,
{
    fn turn(&mut self, t: Turn, max: u8) {
        with_move!(t, max, m => self.set.apply(&m); 1 2 3 4 7 12 40 300 70_000 4_294_967_295);
    }

    fn unturn(&mut self, t: Turn, max: u8) {
        with_move!(t, max, m => self.set.apply(&m.inverse()); 1 2 3 4 7 12 40 300 70_000 4_294_967_295);
    }

    fn places(&self, n: i32) -> Vec<V> {
        self.set.set.iter().map(|p| (self.place)(n, ND, TD, p)).collect()
    }

    fn says_solved(&self) -> bool {
        self.set.is_solved()
    }

    fn is_start(&self) -> bool {
        self.set == DepthPieceSet::<P, K, ND, TD>::SOLVED
    }

    fn look_up(&self) -> Vec<(usize, usize)> {
        let number = |at: &P| P::REFERENCE_POSITIONS.iter().position(|p| p == at).unwrap_or(usize::MAX);
        P::REFERENCE_POSITIONS
            .iter()
            .map(|at| {
                let to = number(&self.set.piece_originally_at(at).position());
                let from = number(&self.set.original_position_of_piece_at(at));
                (to, from)
            })
            .collect()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum What {
    Wings,
    #[cfg(verif_hooks)]
    Corners,
    Edges,
    CenterWings,
}

struct Entry {
    what: What,
    nd: u32,
    td: u32,
    new: fn() -> Box<dyn Pieces>,
}

fn wings<const ND: u32>() -> Box<dyn Pieces> {
    Box::new(Of::<Wing, 24, ND, 0> { set: DepthPieceSet::SOLVED, place: |n, nd, _, p| big::wing(n, nd, p) })
}

#[cfg(verif_hooks)]
fn center_corners<const ND: u32>() -> Box<dyn Pieces> {
    Box::new(Of::<CenterCorner, 24, ND, 0> { set: DepthPieceSet::SOLVED, place: |n, nd, _, p| big::center_corner(n, nd, p) })
}

fn center_edges<const ND: u32>() -> Box<dyn Pieces> {
    Box::new(Of::<CenterEdge, 24, ND, 0> { set: DepthPieceSet::SOLVED, place: |n, nd, _, p| big::center_edge(n, nd, p) })
}

fn center_wings<const ND: u32, const TD: u32>() -> Box<dyn Pieces> {
    Box::new(Of::<CenterWing, 48, ND, TD> { set: DepthPieceSet::SOLVED, place: big::center_wing })
}

fn catalogue() -> Vec<Entry> {
    let mut all = vec![];
    macro_rules! depths {
        ($($d:literal)*) => {$(
            all.push(Entry { what: What::Wings, nd: $d, td: 0, new: wings::<$d> });
            #[cfg(verif_hooks)]
            all.push(Entry { what: What::Corners, nd: $d, td: 0, new: center_corners::<$d> });
            all.push(Entry { what: What::Edges, nd: $d, td: 0, new: center_edges::<$d> });
        )*};
    }
    depths!(1 2 3 4 5 6 7 8 9 10 15 16 31 32 63 64 127 128 255 256 1000 32767 32768 65535 65536 1048576 268435456);
    macro_rules! pairs {
        ($($a:literal $b:literal,)*) => {$(
            all.push(Entry { what: What::CenterWings, nd: $a, td: $b, new: center_wings::<$a, $b> });
            all.push(Entry { what: What::CenterWings, nd: $b, td: $a, new: center_wings::<$b, $a> });
        )*};
    }
    pairs!(1 2, 1 3, 2 3, 1 4, 2 4, 3 4, 1 7, 3 8, 7 8, 5 10, 15 16, 31 33, 127 128, 255 256, 1 300, 1000 2000, 65535 65536, 1 1048576, 3 268435456,);
    all
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    which: u16,
    /// How much larger than necessary the cube is
    extra: u32,
    steps: Vec<(u8, u8, u8, u32, u8)>,
    /// 0: the steps; 1: steps, an outer turn and the steps undone; 2: half turns only
    form: u8,
}

/// The size of the cube
fn size(e: &Entry, extra: u32) -> i32 {
    let n = (2 * (e.nd.max(e.td) as i32 + 1)).saturating_add(extra as i32);
    match e.what {
        // only odd cubes have them
        What::Edges => n | 1,
        _ => n,
    }
}

/// A depth of a turn of the cube, most often at a layer where something changes
fn depth_of(e: &Entry, n: i32, how: u8, any: u32) -> u32 {
    let most = n as u32 / 2 - 1;
    let d = match how {
        0 => 0,
        1 => e.nd - 1,
        2 => e.nd,
        3 => e.nd + 1,
        4 => e.td.saturating_sub(1),
        5 => e.td,
        6 => e.td + 1,
        7 => most,
        8 => e.nd ^ (1 << (any % 20)),
        _ => any,
    };
    if d > most {
        d % (most + 1)
    } else {
        d
    }
}

fn side(n: i32, p: V) -> u8 {
    let a = (0..3).find(|a| p[*a].abs() == n - 1).expect("a piece is outside");
    face_of(a, p[a])
}

struct Followed {
    n: i32,
    what: What,
    homes: Vec<V>,
    now: Vec<V>,
}

impl Followed {
    fn start(e: &Entry, n: i32, set: &dyn Pieces) -> Result<Self, Fail> {
        let homes = set.places(n);
        let pieces = if e.what == What::CenterWings { 48 } else { 24 };
        let distinct: HashSet<V> = homes.iter().copied().collect();
        ensure!(homes.len() == pieces && distinct.len() == pieces, "{:?} of depth {} {} do not have {pieces} places", e.what, e.nd, e.td);
        // all on one orbit of the symmetries of the cube
        let shape = |p: V| {
            let mut s = p.map(i32::abs);
            s.sort();
            s
        };
        let deep = |d: u32| n - 1 - 2 * d as i32;
        let mut want = match e.what {
            What::Wings => [n - 1, n - 1, deep(e.nd)],
            #[cfg(verif_hooks)]
            What::Corners => [n - 1, deep(e.nd), deep(e.nd)],
            What::Edges => [n - 1, deep(e.nd), 0],
            What::CenterWings => [n - 1, deep(e.nd), deep(e.td)],
        };
        want.sort();
        if let Some(p) = homes.iter().find(|p| shape(**p) != want) {
            return Err(Fail::Violation(format!("a place of {:?} of depth {} {} is {p:?} in a cube of {n}", e.what, e.nd, e.td)));
        }
        Ok(Followed { n, what: e.what, now: homes.clone(), homes })
    }

    fn turn(&mut self, t: Turn) -> usize {
        let (a, s) = (face_axis(t.face), face_sign(t.face));
        let limit = self.n - 1 - 2 * t.depth as i32;
        let rot = Rot::of_face(t.face, t.q as i32);
        let mut moved = 0;
        for p in &mut self.now {
            if p[a] * s >= limit {
                *p = rot.apply(*p);
                moved += 1;
            }
        }
        moved
    }

    fn compare(&self, set: &dyn Pieces) -> Res {
        for ((home, want), got) in self.homes.iter().zip(&self.now).zip(set.places(self.n)) {
            ensure!(
                *want == got,
                "in a cube of {}, the piece from {} is at {} instead of {}",
                self.n,
                name_place(self.n, *home),
                name_place(self.n, got),
                name_place(self.n, *want)
            );
        }
        let solved = self.homes.iter().zip(&self.now).all(|(home, now)| match self.what {
            What::Wings => home == now,
            _ => side(self.n, *home) == side(self.n, *now),
        });
        ensure!(set.says_solved() == solved, "is_solved says {} of {:?}, but it is {solved}", set.says_solved(), self.what);
        let home = self.homes == self.now;
        ensure!(set.is_start() == home, "the set {} the one it began with, but {}", if set.is_start() { "equals" } else { "differs from" }, if home { "no piece has moved" } else { "pieces have moved" });
        Ok(())
    }
}

fn judge(e: &Entry, extra: u32, steps: &[(Turn, u8)], back: bool, t: &mut Tally) -> Res {
    let n = size(e, extra);
    let mut set = (e.new)();
    let mut want = Followed::start(e, n, &*set)?;
    want.compare(&*set)?;
    let mut inner = false;
    for (i, (x, max)) in steps.iter().enumerate() {
        set.turn(*x, *max);
        let moved = want.turn(*x);
        inner |= moved > 0 && x.depth > 0;
        want.compare(&*set).map_err(|f| f_within(f, format!("after turn {} ({x:?})", i + 1)))?;
    }
    t.nontrivial_if(inner);
    t.class(format!("{:?}", e.what));
    if set.says_solved() && want.homes != want.now {
        t.class("solved with equal pieces exchanged");
    }
    for (i, (to, from)) in set.look_up().into_iter().enumerate() {
        let number = |p: V| want.homes.iter().position(|h| *h == p).unwrap();
        ensure!(to == number(want.now[i]), "the piece originally at place {i} is not found where it is");
        let there = want.now.iter().position(|p| *p == want.homes[i]).unwrap();
        ensure!(from == there, "the piece at place {i} is said to be from place {from} instead of {there}");
    }
    if back {
        for (x, max) in steps.iter().rev() {
            set.unturn(*x, *max);
        }
        ensure!(set.is_start() && set.says_solved(), "undoing the turns one by one does not lead back");
    }
    Ok(())
}

fn f_within(f: Fail, place: String) -> Fail {
    f.within(&place)
}

pub fn c36(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if a turn of more than one layer moves some piece of the set.");
    if !cfg!(verif_hooks) {
        ctx.assume("corner centers were not accessible in this build (guarded hook unavailable)");
    }
    let all = catalogue();
    let mut single = vec![];
    for (which, e) in all.iter().enumerate() {
        let n = size(e, 0);
        let mut depths: Vec<u32> = (0..8).map(|how| depth_of(e, n, how, 0)).collect();
        depths.extend((0..20).map(|bit| depth_of(e, n, 8, bit)));
        depths.sort();
        depths.dedup();
        for d in depths {
            for face in 0..6u8 {
                for q in 1..4u8 {
                    for max in 0..3u8 {
                        single.push((which as u16, Turn::new(face, q, d), max));
                    }
                }
            }
        }
    }
    ctx.all("every-single-turn", single, |(which, x, max), t| {
        let e = &all[*which as usize];
        judge(e, 0, &[(*x, max * 3)], true, t)
    });
    let len = if ctx.thorough() { 80 } else { 24 };
    let cases = || {
        let step = (0u8..6, 1u8..4, 0u8..10, any::<u32>(), any::<u8>());
        let extra = prop_oneof![3 => 0u32..3, 2 => 0u32..40, 1 => 0u32..(1 << 20)];
        (any::<u16>(), extra, proptest::collection::vec(step, 0..len), 0u8..3)
            .prop_map(|(which, extra, steps, form)| Case { which, extra, steps, form })
    };
    ctx.prop("turns-at-any-depth", ctx.n(6_000, 600_000), cases, |c, t| {
        let e = &all[c.which as usize % all.len()];
        let n = size(e, c.extra);
        let mut steps: Vec<(Turn, u8)> = c
            .steps
            .iter()
            .map(|(face, q, how, any, max)| (Turn::new(*face, if c.form == 2 { 2 } else { *q }, depth_of(e, n, *how, *any)), *max))
            .collect();
        if c.form == 1 {
            let undo: Vec<_> = steps.iter().rev().map(|(x, max)| (x.inverse(), *max)).collect();
            if let Some((x, max)) = steps.last().copied() {
                steps.push((Turn { depth: 0, face: (x.face + 1) % 6, ..x }, max));
            }
            steps.extend(undo);
        }
        judge(e, c.extra, &steps, true, t)
    });
    ctx.prop("long-sequences", ctx.n(40, 4_000), || (any::<u16>(), 0u32..20, long(1 << 12)), |(which, extra, c), t| {
        let e = &all[*which as usize % all.len()];
        let n = size(e, *extra);
        let mut set = (e.new)();
        let mut want = Followed::start(e, n, &*set)?;
        let ts = c.turns(9);
        let every = ts.len() / 20 + 1;
        t.nontrivial_if(!ts.is_empty());
        for (i, x) in ts.iter().enumerate() {
            let x = Turn { depth: depth_of(e, n, x.depth as u8, i as u32), ..*x };
            set.turn(x, i as u8);
            want.turn(x);
            if i % every == 0 || i + 1 == ts.len() {
                want.compare(&*set).map_err(|f| f_within(f, format!("after {} turns", i + 1)))?;
            }
        }
        Ok(())
    });
}
