//! C33 and C34: ranks, piece sets, notation and sequences of puzzles that the library knows nothing about.

use crate::ctx::*;
use barbarosa::{
    cube3::mus::index::{factorial, orientation_permutation_index, position_disposition_index, Indexable, OrientationIndexable, PositionIndexable},
    generic::{
        moves::AsMove,
        parse::{self, FromPest, IntoParseErr, ParseError},
        piece::PieceSetDescriptor,
        Alg, Cube, Movable, Move, Parsable, Piece, PieceSet,
    },
};
use once_cell::sync::Lazy;
use proptest::prelude::*;
use rand::{
    distributions::{Distribution, Standard},
    rngs::StdRng,
    Rng, RngCore, SeedableRng,
};
use serde::{Deserialize, Serialize};
use std::{cell::RefCell, collections::HashSet, fmt};

// ---------------------------------------------------------------- C33

/// A piece with P places and O orientations
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
struct Peg<const P: usize, const O: usize> {
    place: usize,
    way: usize,
}

impl<const P: usize, const O: usize> PositionIndexable for Peg<P, O> {
    fn position_index(&self) -> usize {
        self.place
    }
    const POSITION_SET_SIZE: usize = P;
}

impl<const P: usize, const O: usize> OrientationIndexable for Peg<P, O> {
    fn orientation_index(&self) -> usize {
        self.way
    }
    const ORIENTATION_SET_SIZE: usize = O;
}

fn pegs<const N: usize, const P: usize, const O: usize>(place: &[usize], way: &[usize]) -> [Peg<P, O>; N] {
    std::array::from_fn(|i| Peg { place: place.get(i).copied().unwrap_or(0), way: way.get(i).copied().unwrap_or(0) })
}

/// How many arrangements of N of P there are
fn arrangements(n: usize, p: usize) -> u128 {
    (p - n + 1..=p).map(|x| x as u128).product()
}

/// All arrangements of N of P in some order
fn all_arrangements(n: usize, p: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|a: Vec<usize>| {
                (0..p)
                    .filter(|x| !a.contains(x))
                    .map(|x| {
                        let mut b = a.clone();
                        b.push(x);
                        b
                    })
                    .collect::<Vec<_>>()
            })
            .collect();
    }
    out
}

fn place_rank<const N: usize, const P: usize>(a: &[usize]) -> Result<usize, Fail> {
    no_panic(|| position_disposition_index::<Peg<P, 1>, N, P>(&pegs(a, &[]))).map_err(|e| Fail::from(format!("the rank of {a:?} of {P} places: {e}")))
}

fn way_rank<const N: usize, const O: usize>(a: &[usize]) -> Result<usize, Fail> {
    no_panic(|| orientation_permutation_index::<Peg<1, O>, N>(&pegs(&[], a))).map_err(|e| Fail::from(format!("the rank of the orientations {a:?} of {O} each: {e}")))
}

/// The ranks of all arrangements are the numbers below their count, each once
fn every_place<const N: usize, const P: usize>() -> Res {
    let all = all_arrangements(N, P);
    let mut seen = vec![None; all.len()];
    for (i, a) in all.iter().enumerate() {
        let r = place_rank::<N, P>(a)?;
        ensure!(r < all.len(), "{a:?} of {P} places has rank {r}, but there are only {} arrangements", all.len());
        if let Some(j) = seen[r] {
            let other: &Vec<usize> = &all[j];
            fail!("{a:?} and {other:?} of {P} places both have rank {r}");
        }
        seen[r] = Some(i);
    }
    Ok(())
}

fn every_way<const N: usize, const O: usize>() -> Res {
    let count = O.pow(N as u32);
    let mut seen = vec![false; count];
    for i in 0..count {
        let a: Vec<usize> = (0..N).map(|k| i / O.pow(k as u32) % O).collect();
        let r = way_rank::<N, O>(&a)?;
        ensure!(r < count, "the orientations {a:?} of {O} each have rank {r} of {count}");
        ensure!(!seen[r], "the orientations {a:?} of {O} each have the rank {r} of others");
        seen[r] = true;
    }
    Ok(())
}

/// The ranks of a drawn arrangement and of all that differ from it in a single place or by one exchange
fn around<const N: usize, const P: usize>(draw: &[u16], t: &mut Tally) -> Res {
    let mut left: Vec<usize> = (0..P).collect();
    let a: Vec<usize> = (0..N).map(|i| left.remove(draw[i % draw.len()] as usize % left.len())).collect();
    let count = arrangements(N, P);
    t.nontrivial_if(N > 1);
    t.class(format!("{N} of {P}"));
    let mut near = vec![a.clone()];
    for i in 0..N {
        for j in 0..i {
            let mut b = a.clone();
            b.swap(i, j);
            near.push(b);
        }
        for x in &left {
            let mut b = a.clone();
            b[i] = *x;
            near.push(b);
        }
    }
    // and a few exchanges in a row
    let mut b = a.clone();
    for k in 1..N {
        b.swap(draw[k % draw.len()] as usize % N, k);
        near.push(b.clone());
    }
    near.sort();
    near.dedup();
    let mut ranks: Vec<(usize, &Vec<usize>)> = vec![];
    for b in &near {
        let r = place_rank::<N, P>(b)?;
        ensure!((r as u128) < count, "{b:?} of {P} places has rank {r}, but there are only {count} arrangements");
        ranks.push((r, b));
    }
    ranks.sort();
    for w in ranks.windows(2) {
        ensure!(w[0].0 != w[1].0, "{:?} and {:?} of {P} places both have rank {}", w[0].1, w[1].1, w[0].0);
    }
    Ok(())
}

fn around_ways<const N: usize, const O: usize>(draw: &[u16], t: &mut Tally) -> Res {
    let a: Vec<usize> = (0..N).map(|i| draw[i % draw.len()] as usize % O).collect();
    let count = (O as u128).pow(N as u32);
    t.nontrivial_if(N > 1 && O > 1);
    t.class(format!("{N} of {O} ways"));
    let mut near = vec![a.clone()];
    for i in 0..N {
        for x in 0..O {
            let mut b = a.clone();
            b[i] = x;
            near.push(b.clone());
            let k = (i + 1) % N;
            b[k] = (b[k] + 1) % O;
            near.push(b);
        }
    }
    near.sort();
    near.dedup();
    let mut seen = HashSet::new();
    for b in &near {
        let r = way_rank::<N, O>(b)?;
        ensure!((r as u128) < count, "the orientations {b:?} of {O} each have rank {r} of {count}");
        ensure!(seen.insert(r), "the orientations {b:?} of {O} each have the rank {r} of others near {a:?}");
    }
    Ok(())
}

/// One piece: place and orientation make up its index
fn single<const P: usize, const O: usize>() -> Res {
    let mut seen = vec![false; P * O];
    ensure!(<Peg<P, O> as Indexable>::TOTAL_SET_SIZE == P * O, "{P} places and {O} orientations: {} in total", <Peg<P, O> as Indexable>::TOTAL_SET_SIZE);
    for place in 0..P {
        for way in 0..O {
            let p = Peg::<P, O> { place, way };
            let i = no_panic(|| p.index())?;
            ensure!(i < P * O, "{p:?} has index {i} of {}", P * O);
            ensure!(!seen[i], "{p:?} has index {i}, as has another");
            seen[i] = true;
        }
    }
    Ok(())
}

/// A whole row of pieces as one indexable thing
#[derive(Debug, Clone, Copy)]
struct Row<const N: usize, const P: usize, const O: usize>([Peg<P, O>; N]);

impl<const N: usize, const P: usize, const O: usize> PositionIndexable for Row<N, P, O> {
    fn position_index(&self) -> usize {
        position_disposition_index::<_, N, P>(&self.0)
    }
    const POSITION_SET_SIZE: usize = factorial(P) / factorial(P - N);
}

impl<const N: usize, const P: usize, const O: usize> OrientationIndexable for Row<N, P, O> {
    fn orientation_index(&self) -> usize {
        orientation_permutation_index(&self.0)
    }
    const ORIENTATION_SET_SIZE: usize = O.pow(N as u32);
}

fn every_row<const N: usize, const P: usize, const O: usize>() -> Res {
    let all = all_arrangements(N, P);
    let ways = O.pow(N as u32);
    let count = all.len() * ways;
    ensure!(Row::<N, P, O>::TOTAL_SET_SIZE == count, "{N} of {P} places with {O} orientations: {} stated, {count} counted", Row::<N, P, O>::TOTAL_SET_SIZE);
    let mut seen = vec![false; count];
    for a in &all {
        for w in 0..ways {
            let way: Vec<usize> = (0..N).map(|k| w / O.pow(k as u32) % O).collect();
            let row = Row::<N, P, O>(pegs(a, &way));
            let i = no_panic(|| row.index())?;
            ensure!(i < count, "{row:?} has index {i} of {count}");
            ensure!(!seen[i], "{row:?} has index {i}, as has another");
            seen[i] = true;
        }
    }
    Ok(())
}

macro_rules! choose {
    ($f:ident, $ix:expr, $args:tt: $([$($c:literal),*])*) => {{
        let mut k = $ix % choose!(# $([$($c),*])*);
        let mut out: Option<Res> = None;
        $(
            if k == 0 && out.is_none() {
                out = Some($f::<$($c),*> $args);
            }
            k = k.wrapping_sub(1);
        )*
        let _ = k;
        out.expect("one of them")
    }};
    (# $([$($c:literal),*])*) => { [$(&[$($c as usize),*] as &[usize]),*].len() };
}

fn cases(n: usize) -> Vec<usize> {
    (0..n).collect()
}

pub fn c33(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if it ranks more than one piece; each enumerated kind of piece counts.");
    ctx.assume("Kinds of pieces with more than 64 places, or whose arrangements cannot be counted in a usize, are left out.");
    ctx.all("factorials", (0..64usize).chain([255, 256, 1 << 32, usize::MAX]).collect(), |n, t| {
        t.nontrivial();
        let want = if *n > 20 { 0 } else { (1..=*n).product::<usize>() };
        ensure!(factorial(*n) == want, "the factorial of {n} is given as {}, not {want}", factorial(*n));
        Ok(())
    });
    ctx.all("every-arrangement", cases(25), |k, t| {
        t.nontrivial();
        choose!(every_place, *k, (): [0, 1] [1, 1] [0, 3] [1, 2] [2, 2] [1, 5] [2, 3] [3, 3] [2, 5] [4, 4] [3, 5] [4, 5] [5, 5]
            [6, 6] [3, 7] [5, 7] [7, 7] [1, 24] [2, 24] [3, 24] [2, 64] [1, 64] [4, 16] [3, 33] [8, 8])
    });
    ctx.all("every-orientation", cases(14), |k, t| {
        t.nontrivial();
        choose!(every_way, *k, (): [0, 2] [1, 1] [5, 1] [1, 2] [8, 2] [7, 3] [5, 4] [4, 5] [3, 24] [2, 200] [1, 300] [16, 2] [10, 3] [6, 6])
    });
    ctx.all("every-piece", cases(9), |k, t| {
        t.nontrivial();
        choose!(single, *k, (): [1, 1] [1, 5] [5, 1] [2, 3] [3, 2] [12, 2] [24, 4] [64, 7] [7, 300])
    });
    ctx.all("every-row", cases(10), |k, t| {
        t.nontrivial();
        choose!(every_row, *k, (): [1, 1, 1] [1, 3, 2] [2, 3, 2] [2, 2, 5] [3, 4, 2] [3, 3, 4] [4, 6, 3] [2, 20, 3] [5, 5, 2] [4, 4, 6])
    });
    let n = ctx.n(3_000, 1_000_000);
    let draws = || (0usize..64, prop::collection::vec(any::<u16>(), 1..24));
    ctx.prop("large-arrangements", n, draws, |(k, d), t| {
        choose!(around, *k, (d, t): [6, 12] [8, 8] [10, 10] [12, 12] [12, 16] [13, 17] [16, 16] [18, 18] [20, 20] [19, 20] [10, 20] [8, 24] [13, 24] [7, 33]
            [11, 33] [8, 48] [10, 64] [4, 64])
    });
    let draws = || (0usize..64, prop::collection::vec(any::<u16>(), 1..64));
    ctx.prop("large-orientations", n, draws, |(k, d), t| {
        choose!(around_ways, *k, (d, t): [7, 3] [12, 2] [24, 2] [31, 2] [32, 2] [33, 2] [48, 2] [63, 2] [20, 3] [21, 3] [39, 3] [16, 4] [24, 5] [12, 24] [7, 255] [7, 256] [6, 300] [5, 4096])
    });
}

// ---------------------------------------------------------------- C34

/// A spot on the shelf
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct Spot(u32);

/// Pieces count as the same if they carry the same tag
#[derive(Clone, Copy)]
struct Book {
    tag: u32,
    spot: u32,
    lean: u8,
}

impl fmt::Debug for Book {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "#{}@{}/{}", self.tag, self.spot, self.lean)
    }
}

impl PartialEq for Book {
    fn eq(&self, other: &Self) -> bool {
        self.tag == other.tag
    }
}

impl Eq for Book {}

impl std::hash::Hash for Book {
    fn hash<H: std::hash::Hasher>(&self, state: &mut H) {
        self.tag.hash(state)
    }
}

impl Book {
    fn all(&self) -> (u32, u32, u8) {
        (self.tag, self.spot, self.lean)
    }
}

impl Piece for Book {
    type Position = Spot;

    fn position(&self) -> Spot {
        Spot(self.spot)
    }

    // home is any spot of the same colour
    fn is_solved(&self, original_pos: &Spot) -> bool {
        self.spot % 3 == original_pos.0 % 3 && self.lean == 0
    }
}

/// The spot where the book number `i` belongs: in no simple order
const fn home(i: usize) -> u32 {
    ((i * 7 + 3) % 1009) as u32
}

impl<const N: usize> PieceSetDescriptor<N> for Book {
    const SOLVED: [Self; N] = {
        let mut out = [const { Book { tag: 0, spot: 0, lean: 0 } }; N];
        let mut i = 0;
        while i < N {
            out[i] = Book { tag: i as u32, spot: home(i), lean: 0 };
            i += 1;
        }
        out
    };

    const REFERENCE_POSITIONS: [Spot; N] = {
        let mut out = [const { Spot(0) }; N];
        let mut i = 0;
        while i < N {
            out[i] = Spot(home(i));
            i += 1;
        }
        out
    };
}

/// Moves of the shelf: they do not commute
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, Serialize, Deserialize)]
enum Push {
    /// every spot up by so much is exchanged with this one
    Exchange(u32, u32),
    /// leans over what is at spots divisible by the first, by the second
    Lean(u32, u8),
    /// moves everything along the shelf of 1009 spots
    Along(i32),
}

impl Move for Push {
    fn inverse(&self) -> Self {
        match self {
            Push::Exchange(a, b) => Push::Exchange(*a, *b),
            Push::Lean(k, by) => Push::Lean(*k, (5 - by % 5) % 5),
            Push::Along(n) => Push::Along(-n),
        }
    }
}

fn pushed(p: &Push, (tag, spot, lean): (u32, u32, u8)) -> (u32, u32, u8) {
    match p {
        Push::Exchange(a, b) if spot == *a => (tag, *b, lean),
        Push::Exchange(a, b) if spot == *b => (tag, *a, lean),
        Push::Exchange(..) => (tag, spot, lean),
        Push::Lean(k, by) if spot % k.max(&1) == 0 => (tag, spot, (lean + by % 5) % 5),
        Push::Lean(..) => (tag, spot, lean),
        Push::Along(n) => (tag, (i64::from(spot) + i64::from(*n)).rem_euclid(1009) as u32, lean),
    }
}

impl Movable<Push> for Book {
    fn apply(&mut self, m: &Push) {
        (self.tag, self.spot, self.lean) = pushed(m, self.all());
    }
}

fn pushes() -> BoxedStrategy<Push> {
    let spot = || prop_oneof![3 => (0usize..40).prop_map(home), 1 => 0u32..1009];
    prop_oneof![
        3 => (spot(), spot()).prop_map(|(a, b)| Push::Exchange(a, b)),
        2 => (1u32..5, 0u8..5).prop_map(|(k, b)| Push::Lean(k, b)),
        1 => (-1008i32..1009).prop_map(Push::Along),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
enum ShelfOp {
    Swap(u16, u16),
    Shuffle(u64),
    Push(Push),
    Alg(Vec<Push>),
    /// edits a piece by hand: which one, its tag and spot taken from which others
    Edit(u16, Option<u16>, Option<u16>),
    Rebuild,
    Copy,
}

fn shelf_ops(most: usize) -> impl Strategy<Value = Vec<ShelfOp>> {
    prop::collection::vec(
        prop_oneof![
            4 => (any::<u16>(), any::<u16>()).prop_map(|(a, b)| ShelfOp::Swap(a, b)),
            1 => any::<u64>().prop_map(ShelfOp::Shuffle),
            4 => pushes().prop_map(ShelfOp::Push),
            2 => prop::collection::vec(pushes(), 0..6).prop_map(ShelfOp::Alg),
            1 => (any::<u16>(), prop::option::of(any::<u16>()), prop::option::of(any::<u16>())).prop_map(|(i, a, b)| ShelfOp::Edit(i, a, b)),
            2 => Just(ShelfOp::Rebuild),
            1 => Just(ShelfOp::Copy),
        ],
        0..most,
    )
}

fn twice<T: PartialEq>(v: &[T]) -> bool {
    (0..v.len()).any(|i| v[..i].contains(&v[i]))
}

/// Compares a set with the list of its pieces
fn same_set<const N: usize>(set: &PieceSet<Book, N>, want: &[(u32, u32, u8)]) -> Res {
    let short = |v: &[(u32, u32, u8)]| format!("{v:?}").chars().take(300).collect::<String>();
    let now: Vec<_> = set.pieces().iter().map(Book::all).collect();
    ensure!(now == want, "the pieces are {}, not {}", short(&now), short(want));
    ensure!(set.iter().map(Book::all).eq(want.iter().copied()), "iter() gives others than pieces()");
    ensure!(set.iter_with_pos().map(|(p, b)| (p.0, b.all())).eq((0..N).map(|i| (home(i), want[i]))), "iter_with_pos() does not pair the pieces with their homes");
    ensure!(set.clone().into_iter().map(|b| b.all()).eq(want.iter().copied()), "into_iter() gives other pieces");
    for i in [0, 1, N / 2, N.wrapping_sub(1), N, N + 1, usize::MAX] {
        let got = set.at_index(i).map(Book::all);
        ensure!(got == want.get(i).copied(), "at_index({i}) of {N} gives {got:?}");
    }
    let tags: Vec<u32> = want.iter().map(|w| w.0).collect();
    let spots: Vec<u32> = want.iter().map(|w| w.1).collect();
    // pieces are told apart by what they say of themselves, places likewise
    let bad = twice(&tags) || twice(&spots);
    match (set.validate(), bad) {
        (None, true) => fail!("{} is valid, although there are duplicates", short(want)),
        (Some(e), false) => fail!("{} is not valid: {e}", short(want)),
        (Some(_), true) | (None, false) => {}
    }
    let rebuilt = PieceSet::<Book, N>::new(set.pieces().clone());
    ensure!(rebuilt.is_err() == bad, "a set of {} can{} be built", short(want), if rebuilt.is_err() { "not" } else { "" });
    let solved = want.iter().enumerate().all(|(i, w)| w.1 % 3 == home(i) % 3 && w.2 == 0);
    ensure!(set.is_solved() == solved, "is_solved() is {}, for {}", !solved, short(want));
    for i in 0..N {
        let got = no_panic(|| set.piece_originally_at(&Spot(home(i))).all())?;
        ensure!(got == want[i], "the piece from home {i} is given as {got:?}, not {:?}", want[i]);
        if spots.iter().filter(|s| **s == spots[i]).count() == 1 {
            let got = no_panic(|| set.original_position_of_piece_at(&Spot(spots[i])).0)?;
            ensure!(got == home(i), "the piece at {} comes from {got}, not {}", spots[i], home(i));
        }
    }
    Ok(())
}

fn shelf_history<const N: usize>(ops: &[ShelfOp], t: &mut Tally) -> Res
where
    Book: PieceSetDescriptor<N>,
{
    t.nontrivial_if(ops.len() > 2 && N > 1);
    t.class(format!("{N} pieces"));
    let mut set = PieceSet::<Book, N>::SOLVED;
    let mut want: Vec<(u32, u32, u8)> = (0..N).map(|i| (i as u32, home(i), 0)).collect();
    same_set(&set, &want)?;
    for op in ops {
        match op {
            ShelfOp::Swap(a, b) if N > 0 => {
                let (a, b) = (*a as usize % N, *b as usize % N);
                no_panic(|| set.swap(&Spot(home(a)), &Spot(home(b))))?;
                want.swap(a, b);
            }
            ShelfOp::Shuffle(seed) => {
                set.shuffle(&mut StdRng::seed_from_u64(*seed));
                let now: Vec<_> = set.pieces().iter().map(Book::all).collect();
                let sorted = |v: &[(u32, u32, u8)]| {
                    let mut v = v.to_vec();
                    v.sort();
                    v
                };
                ensure!(sorted(&now) == sorted(&want), "a shuffle changes the pieces");
                want = now;
            }
            ShelfOp::Push(p) => {
                set.apply(p);
                want.iter_mut().for_each(|w| *w = pushed(p, *w));
            }
            ShelfOp::Alg(ps) => {
                set = set.moved(&Alg::<Push>::new(ps.clone()));
                for p in ps {
                    want.iter_mut().for_each(|w| *w = pushed(p, *w));
                }
            }
            ShelfOp::Edit(i, tag, spot) if N > 0 => {
                let i = *i as usize % N;
                let (tag, spot) = (tag.map(|k| want[k as usize % N].0), spot.map(|k| want[k as usize % N].1));
                let piece = set.iter_mut_unchecked().nth(i).expect("the piece");
                piece.tag = tag.unwrap_or(piece.tag);
                piece.spot = spot.unwrap_or(piece.spot);
                want[i].0 = tag.unwrap_or(want[i].0);
                want[i].1 = spot.unwrap_or(want[i].1);
            }
            ShelfOp::Rebuild => {
                if let Ok(s) = PieceSet::new(set.pieces().clone()) {
                    set = s;
                }
            }
            ShelfOp::Copy => {
                let mut other = PieceSet::<Book, N>::SOLVED;
                other.clone_from(&set);
                set = other;
            }
            _ => {}
        }
        same_set(&set, &want).map_err(|e| e.within(&format!("after {op:?} of {N} pieces").chars().take(160).collect::<String>()))?;
    }
    Ok(())
}

// The notation of the shelf

mod grammar {
    #[derive(pest_derive::Parser)]
    #[grammar_inline = r#"
        number = { "-"? ~ ASCII_DIGIT{1, 12} }
        exchange = { number ~ "/" ~ number }
        lean = { "L" ~ number ~ "^" ~ number }
        along = { "→" ~ number }
        push = { exchange | lean | along }
    "#]
    pub struct ShelfParser;
}
use grammar::{Rule, ShelfParser};

impl FromPest for Push {
    type Rule = Rule;
    type Parser = ShelfParser;

    fn rule() -> Rule {
        Rule::push
    }

    fn from_pest(pair: pest::iterators::Pair<Rule>) -> parse::Result<Self> {
        let inner = pair.into_inner().next().into_err()?;
        let rule = inner.as_rule();
        let mut numbers = inner.into_inner();
        let mut number = || numbers.next().into_err();
        Ok(match rule {
            Rule::exchange => Push::Exchange(number()?.as_str().parse()?, number()?.as_str().parse()?),
            Rule::lean => Push::Lean(number()?.as_str().parse()?, number()?.as_str().parse()?),
            Rule::along => Push::Along(number()?.as_str().parse()?),
            r => return Err(ParseError::Unreachable(format!("{r:?}"))),
        })
    }
}

impl fmt::Display for Push {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Push::Exchange(a, b) => write!(f, "{a}/{b}"),
            Push::Lean(k, by) => write!(f, "L{k}^{by}"),
            Push::Along(n) => write!(f, "→{n}"),
        }
    }
}

/// What the notation means, read without the library
fn read(s: &str) -> Option<Push> {
    let number = |s: &str| {
        let digits = s.strip_prefix('-').unwrap_or(s);
        ((1..=12).contains(&digits.len()) && digits.bytes().all(|b| b.is_ascii_digit())).then(|| s.to_string())
    };
    if let Some(rest) = s.strip_prefix('→') {
        return Some(Push::Along(number(rest)?.parse().ok()?));
    }
    if let Some(rest) = s.strip_prefix('L') {
        let (k, by) = rest.split_once('^')?;
        return Some(Push::Lean(number(k)?.parse().ok()?, number(by)?.parse().ok()?));
    }
    let (a, b) = s.split_once('/')?;
    Some(Push::Exchange(number(a)?.parse().ok()?, number(b)?.parse().ok()?))
}

/// The puzzle: a row of spots, each with a book
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Shelf([(u32, u32, u8); 9]);

impl AsMove for Shelf {
    type Move = Push;
}

impl Movable<Push> for Shelf {
    fn apply(&mut self, m: &Push) {
        self.0.iter_mut().for_each(|w| *w = pushed(m, *w));
    }
}

impl Cube for Shelf {
    const SOLVED: Self = {
        let mut out = [(0, 0, 0); 9];
        let mut i = 0;
        while i < 9 {
            out[i] = (i as u32, home(i), 0);
            i += 1;
        }
        Shelf(out)
    };
}

thread_local! {
    static LATER: RefCell<Vec<Push>> = const { RefCell::new(vec![]) };
}

/// Draws one word and is it
impl Distribution<Push> for Standard {
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> Push {
        Push::Along(rng.next_u32() as i32)
    }
}

/// The words 0, 1, 2 ...
struct Counting(u32);

impl RngCore for Counting {
    fn next_u32(&mut self) -> u32 {
        self.0 += 1;
        self.0 - 1
    }
    fn next_u64(&mut self) -> u64 {
        self.next_u32().into()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        rand_fill(self, dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        rand_fill(self, dest);
        Ok(())
    }
}

fn rand_fill(r: &mut Counting, dest: &mut [u8]) {
    dest.iter_mut().for_each(|b| *b = r.next_u32() as u8);
}

fn sequence(ps: &[Push], t: &mut Tally) -> Res {
    t.nontrivial_if(ps.len() > 1);
    let alg = Alg::<Shelf>::new(ps.to_vec());
    ensure!(alg.moves == ps, "a sequence of {} moves is made as {} moves", ps.len(), alg.moves.len());
    let same: Alg<Shelf> = ps.iter().copied().collect();
    ensure!(same == alg && alg.clone() == alg, "a collected or copied sequence is another one");
    ensure!((alg == Alg::empty()) == ps.is_empty(), "the sequence of {} moves and the empty one: equality is wrong", ps.len());

    let mut states = vec![Shelf::SOLVED];
    for p in ps {
        let mut s = states[states.len() - 1].clone();
        s.0.iter_mut().for_each(|w| *w = pushed(p, *w));
        states.push(s);
    }
    let end = &states[ps.len()];
    let start = Shelf::new_solved();
    ensure!(start.is_solved() && end.is_solved() == (*end == start), "is_solved() is wrong");
    ensure!(start.clone().moved(&alg) == *end, "the whole sequence leads elsewhere than its moves");
    ensure!(start.clone().moved(&Alg::<Push>::new(ps.to_vec())) == *end, "the sequence of the move type leads elsewhere");
    ensure!(start.clone().moved(ps) == *end, "the moves as a slice lead elsewhere");
    let mut one = start.clone();
    ps.iter().for_each(|p| one.apply(p));
    ensure!(one == *end, "the moves one by one lead elsewhere");
    LATER.with(|l| *l.borrow_mut() = ps.to_vec());
    let lazy: Lazy<Alg<Push>> = Lazy::new(|| Alg::new(LATER.with(|l| l.borrow().clone())));
    ensure!(start.clone().moved(&lazy) == *end, "the sequence made when first used leads elsewhere");

    let back = alg.reversed();
    let want: Vec<Push> = ps.iter().rev().map(Move::inverse).collect();
    ensure!(back.moves == want, "reversed: {back}, not {}", Alg::<Push>::new(want));
    ensure!(end.clone().moved(&back) == start, "the reversed sequence does not lead back");

    let text = alg.to_string();
    let words: Vec<String> = ps.iter().map(Push::to_string).collect();
    ensure!(text == words.join(" "), "printed {text:?}, not {:?}", words.join(" "));
    match no_panic(|| Alg::<Shelf>::parse(&text))? {
        Ok(a) => ensure!(a == alg, "{text:?} is read as {a}"),
        Err(e) => fail!("{text:?} cannot be read: {e}"),
    }
    Ok(())
}

fn texts() -> BoxedStrategy<Vec<String>> {
    let number = || {
        prop_oneof![
            6 => (0i64..1100).prop_map(|n| n.to_string()),
            1 => (-20i64..6).prop_map(|n| n.to_string()),
            1 => prop::sample::select(vec!["255", "256", "4294967295", "4294967296", "2147483647", "2147483648", "-2147483648", "-2147483649", "007", "000000000012", "0000000000012", "-0", "", "-", "+1"]).prop_map(str::to_string),
        ]
    };
    let word = prop_oneof![
        4 => (number(), number()).prop_map(|(a, b)| format!("{a}/{b}")),
        4 => (number(), number()).prop_map(|(a, b)| format!("L{a}^{b}")),
        4 => number().prop_map(|a| format!("→{a}")),
        1 => "[0-9L/^→x-]{0,6}".prop_map(|s| s),
    ];
    let odd = prop_oneof![
        12 => word.clone().prop_map(|w| w),
        1 => (word.clone(), word.clone()).prop_map(|(a, b)| a + &b),
        1 => (word.clone(), prop::sample::select(vec!["x", "/", "é", "\u{0}", "'", "→", "\u{200b}"])).prop_map(|(a, b)| a + b),
        1 => (prop::sample::select(vec!["x", "-", "é", "\u{feff}", "l"]), word).prop_map(|(a, b)| a.to_string() + &b),
    ];
    prop::collection::vec(odd, 0..6).boxed()
}

pub fn c34(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if a history has more than two steps on more than one piece, or a sequence more than one move; every text counts.");
    ctx.prop("piece-sets", ctx.n(4_000, 1_000_000), || (0usize..64, shelf_ops(16)), |(k, ops), t| {
        choose!(shelf_history, *k, (ops, t): [0] [1] [2] [3] [7] [8] [16] [17] [31] [33])
    });
    ctx.prop("large-piece-sets", ctx.n(300, 60_000), || (0usize..64, shelf_ops(6)), |(k, ops), t| {
        choose!(shelf_history, *k, (ops, t): [63] [64] [65] [66] [128] [129] [200] [256] [257] [300])
    });
    // a single pair of duplicates anywhere
    ctx.prop("duplicates", ctx.n(1_500, 300_000), || (0usize..64, any::<[u16; 4]>(), 0u8..3), |(k, at, what), t| {
        fn one<const N: usize>(at: &[u16; 4], what: u8, t: &mut Tally) -> Res {
            t.nontrivial();
            let (i, j) = (at[0] as usize % N, at[1] as usize % N);
            let ops = match what {
                0 => ShelfOp::Edit(i as u16, Some(j as u16), None),
                1 => ShelfOp::Edit(i as u16, None, Some(j as u16)),
                _ => ShelfOp::Edit(i as u16, Some(j as u16), Some((at[2] as usize % N) as u16)),
            };
            let mut u = Tally::default();
            shelf_history::<N>(&[ShelfOp::Push(Push::Along(i32::from(at[3] % 1009))), ops], &mut u)
        }
        choose!(one, *k, (at, *what, t): [2] [3] [12] [24] [33] [48] [65] [96])
    });
    ctx.prop("sequences", ctx.n(20_000, 3_000_000), || prop::collection::vec(pushes(), 0..30), |ps, t| sequence(ps, t));
    ctx.prop("long-sequences", ctx.n(100, 20_000), || prop::collection::vec(pushes(), 0..3_000), |ps, t| sequence(ps, t));
    ctx.prop("notation", ctx.n(40_000, 5_000_000), || (texts(), prop::collection::vec(prop::sample::select(vec![" ", "  ", "\t", "\n", "\r\n", " \u{a0}", "\u{2003}", "\u{b}"]).prop_map(str::to_string), 7), any::<[bool; 2]>()), |(words, gaps, ends), t| {
        t.nontrivial();
        for w in words {
            let got = no_panic(|| Push::parse(w))?;
            match (read(w), got) {
                (Some(p), Ok(q)) => ensure!(p == q, "{w:?} means {p}, and is read as {q}"),
                (None, Err(_)) => {}
                (Some(p), Err(e)) => fail!("{w:?} means {p}, and is not read: {e}"),
                (None, Ok(q)) => fail!("{w:?} means nothing, and is read as {q}"),
            }
        }
        let mut text = if ends[0] { gaps[6].clone() } else { String::new() };
        for (i, w) in words.iter().enumerate() {
            if i > 0 {
                text += &gaps[i];
            }
            text += w;
        }
        if ends[1] {
            text += &gaps[0];
        }
        let want: Option<Vec<Push>> = text.split_whitespace().map(read).collect();
        t.class(if want.is_some() { "meaningful" } else { "meaningless" });
        let got = no_panic(|| Alg::<Push>::try_from(text.as_str()))?;
        match (want, got) {
            (Some(ps), Ok(a)) => ensure!(a.moves == ps, "{text:?} is read as {a}"),
            (None, Err(_)) => {}
            (Some(_), Err(e)) => fail!("{text:?} has a meaning, and is not read: {e}"),
            (None, Ok(a)) => fail!("{text:?} has no meaning, and is read as {a}"),
        }
        Ok(())
    });
    ctx.prop("drawn", ctx.n(2_000, 40_000), || prop_oneof![9 => 0usize..200, 1 => 200usize..5_000], |n, t| {
        t.nontrivial_if(*n > 1);
        let alg = Alg::<Shelf>::random_unnormalized_with_rng(*n, &mut Counting(0));
        ensure!(alg.moves.len() == *n, "{n} moves are asked for, and {} drawn", alg.moves.len());
        let drawn: HashSet<i32> = alg.moves.iter().map(|p| if let Push::Along(k) = p { *k } else { -1 }).collect();
        ensure!(drawn.len() == *n && !drawn.contains(&-1), "{} moves are taken from {} draws of the source", n, drawn.len());
        let other = Alg::<Push>::random_unnormalized(*n);
        ensure!(other.moves.len() == *n, "{n} moves are asked for, and {} drawn", other.moves.len());
        Ok(())
    });
}
