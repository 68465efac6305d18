//! C21, C26 and C31: the unfolded view, the playground and nets of any size.

use crate::{bridge::*, checks::notation, ctx::*, gen::*, model::*};
use barbarosa::{
    cube_n::{
        cube3::Cube3,
        space::Face,
        visualization::{unfolded::{Square, Unfolded}, Color, Colored, Colorscheme},
    },
    generic::{
        piece::{Coordinates, PieceSetDescriptor},
        Piece, PieceSet,
    },
};
use nalgebra::Vector3;
use palette::Srgb;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::{
    fmt,
    io::{Read, Write},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

// ---------------------------------------------------------------- the paper

/// Where rows grow to and where columns grow to on each face of the unfolded paper: F upright, U, L, R
/// and D folded to it along its sides, B folded to the lower side of D.
fn paper(f: u8) -> (u8, u8) {
    match FACES[f as usize] {
        'U' => (2, 0),
        'F' => (4, 0),
        'D' => (5, 0),
        'B' => (1, 0),
        'L' => (4, 2),
        _ => (4, 5),
    }
}

/// The place of the sticker in a row and column of a face, at half-sized model coordinates
fn spot(f: u8, row: usize, col: usize) -> V {
    let (r, c) = paper(f);
    let (v, r, c) = (face_vec(f), face_vec(r), face_vec(c));
    [0, 1, 2].map(|i| v[i] + r[i] * (row as i32 - 1) + c[i] * (col as i32 - 1))
}

fn colour(st: &[u8], f: u8, row: usize, col: usize) -> u8 {
    st[cell(3, f, spot(f, row, col).map(|x| 2 * x))]
}

/// All colours in the order in which the net is read
fn reading(st: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let block = |faces: &[u8], out: &mut Vec<u8>| {
        for row in 0..3 {
            for f in faces {
                out.extend((0..3).map(|col| colour(st, *f, row, col)));
            }
        }
    };
    block(&[1], &mut out);
    block(&[3, 2, 0], &mut out);
    block(&[4], &mut out);
    block(&[5], &mut out);
    out
}

type Rgb = [u8; 3];

/// What a terminal shows: the background of every character, by line
fn screen(text: &str) -> Result<Vec<Vec<Option<Rgb>>>, String> {
    let mut lines = vec![vec![]];
    let mut now = None;
    let mut c = text.chars();
    while let Some(x) = c.next() {
        match x {
            '\n' => lines.push(vec![]),
            '\u{1b}' => {
                if c.next() != Some('[') {
                    return Err("unknown escape".into());
                }
                let code: String = c.by_ref().take_while(|x| *x != 'm').collect();
                let parts: Vec<&str> = code.split(';').collect();
                match parts[..] {
                    ["0"] | [""] | ["49"] => now = None,
                    ["48", "2", r, g, b] => {
                        let n = |x: &str| x.parse::<u8>().map_err(|e| format!("{x}: {e}"));
                        now = Some([n(r)?, n(g)?, n(b)?]);
                    }
                    _ => return Err(format!("unknown escape {code:?}")),
                }
            }
            ' ' => lines.last_mut().unwrap().push(now),
            x => return Err(format!("the net contains {x:?}")),
        }
    }
    Ok(lines)
}

/// Colours of a line of the net: where each cell starts and its colour
fn cells(line: &[Option<Rgb>]) -> Result<Vec<(usize, Rgb)>, String> {
    let mut out = vec![];
    let mut i = 0;
    while i < line.len() {
        match line[i] {
            None => i += 1,
            Some(c) => {
                if line.get(i + 1) != Some(&Some(c)) {
                    return Err("a sticker is not two characters wide".into());
                }
                out.push((i, c));
                i += 2;
            }
        }
    }
    Ok(out)
}

fn near(a: Rgb, b: Rgb) -> bool {
    (0..3).all(|i| a[i].abs_diff(b[i]) <= 1)
}

/// Compares a printed net with the stickers of a 3x3
fn printed(text: &str, st: &[u8], scheme: &[Rgb; 6]) -> Res {
    printed_net(3, text, |f, row, col| colour(st, f, row, col), scheme)
}

/// Compares a printed net of faces of n by n squares with the colours it should have
fn printed_net(n: usize, text: &str, shown: impl Fn(u8, usize, usize) -> u8, scheme: &[Rgb; 6]) -> Res {
    let lines = screen(text)?;
    let rows: Vec<Vec<(usize, Rgb)>> = lines.iter().map(|l| cells(l)).collect::<Result<_, _>>()?;
    let full: Vec<usize> = (0..rows.len()).filter(|i| !rows[*i].is_empty()).collect();
    ensure!(full.len() == 4 * n, "the net has {} lines with stickers", full.len());
    let bands = [&[1u8][..], &[3, 2, 0], &[4], &[5]];
    let front = rows[full[n]].get(n).map(|c| c.0).ok_or("the net has no front face")?;
    for (b, faces) in bands.iter().enumerate() {
        for row in 0..n {
            let line = full[b * n + row];
            ensure!(line == full[b * n] + row, "the rows of {} are apart", FACES[faces[0] as usize]);
            let got = &rows[line];
            ensure!(got.len() == faces.len() * n, "line {line} of the net has {} stickers", got.len());
            for (k, f) in faces.iter().enumerate() {
                for col in 0..n {
                    let (at, rgb) = got[k * n + col];
                    let name = FACES[*f as usize];
                    let left = match name {
                        'L' => at < front,
                        'R' => at >= front + 2 * n,
                        _ => at == front + 2 * col,
                    };
                    ensure!(left, "sticker {col} in row {row} of {name} is printed in column {at}, the front face starts at {front}");
                    if col > 0 {
                        ensure!(at == got[k * n + col - 1].0 + 2, "the stickers of {name} are apart");
                    }
                    let want = shown(*f, row, col);
                    ensure!(
                        near(rgb, scheme[want as usize]),
                        "sticker {col} in row {row} of {name} is printed as {rgb:?}, the cube shows {} ({:?}) there",
                        FACES[want as usize],
                        scheme[want as usize]
                    );
                }
            }
        }
    }
    Ok(())
}

/// The documented colours: R red, U white, F green, L orange, D yellow, B blue
const DEFAULT: [[f32; 3]; 6] = [
    [0.529, 0.207, 0.207],
    [1.000, 1.000, 1.000],
    [0.207, 0.588, 0.227],
    [0.768, 0.443, 0.094],
    [0.858, 0.686, 0.254],
    [0.207, 0.243, 0.439],
];

/// The colours that the program shows for the faces of a solved cube, which must be distinct
fn default_scheme() -> [Rgb; 6] {
    let scheme: Colorscheme<Srgb> = Colorscheme::default();
    [0, 1, 2, 3, 4, 5].map(|f| {
        let c = scheme.get(&face(f));
        [c.red, c.green, c.blue].map(|x| (x * 255.0) as u8)
    })
}

struct Net<'a>(&'a Unfolded<3>, &'a Colorscheme<Srgb>);

impl fmt::Display for Net<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.write(self.1, f)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct ViewCase {
    state: State,
    scheme: [Rgb; 6],
    off: [i8; 3],
}

fn view(c: &ViewCase, t: &mut Tally) -> Res {
    let st = c.state.model(3).stickers();
    t.nontrivial_if(c.state != State::solved());
    let cube = c.state.cube();
    let mut un: Unfolded<3> = cube.clone().into();
    for (f, square) in un.iter().map(|(f, s)| (face_ix(&f), s)) {
        for row in 0..3 {
            for col in 0..3 {
                let want = colour(&st, f, row, col);
                let got = face_ix(&square.data[row][col].face);
                ensure!(
                    got == want,
                    "sticker {col} in row {row} of {} is {}, the cube shows {} there",
                    FACES[f as usize],
                    FACES[got as usize],
                    FACES[want as usize]
                );
            }
        }
    }
    for f in 0..6u8 {
        ensure!(face_ix(&un[&face(f)].data[1][1].face) == f, "the centre of {} is {:?}", FACES[f as usize], un[&face(f)].data[1][1]);
        for row in 0..3 {
            for col in 0..3 {
                let want = colour(&st, f, row, col);
                let p = spot(f, row, col);
                // a point close to the sticker belongs to it as well
                for off in [[0; 3], c.off] {
                    let v = Vector3::new(0, 1, 2).map(|i: usize| p[i] as f32 + off[i] as f32 / 512.0);
                    let got = un[&face(f)].at(&v, &face(f)).map(|c| face_ix(&c.face));
                    ensure!(got == Some(want), "at {v:?} on {} there is {got:?}, the cube shows {} there", FACES[f as usize], FACES[want as usize]);
                    let got = un.at_mut(&v, &face(f)).map(|c| face_ix(&c.face));
                    ensure!(got == Some(want), "at {v:?} on {} there is {got:?} to change, the cube shows {} there", FACES[f as usize], FACES[want as usize]);
                }
            }
        }
    }
    printed(&un.to_string(), &st, &default_scheme()).map_err(|e| e.within("the unfolded view"))?;
    printed(&cube.to_string(), &st, &default_scheme()).map_err(|e| e.within("the printed cube"))?;
    let scheme = Colorscheme::new(c.scheme.map(|[r, g, b]| {
        let x = |v: u8| (v as f32 + 0.5) / 255.0;
        Srgb::new(x(r).min(1.0), x(g).min(1.0), x(b).min(1.0))
    }));
    printed(&Net(&un, &scheme).to_string(), &st, &c.scheme).map_err(|e| e.within("with other colours"))
}

fn schemes() -> impl Strategy<Value = [Rgb; 6]> {
    prop_oneof![
        Just([[255, 0, 0], [0, 255, 0], [0, 0, 255], [255, 255, 0], [0, 255, 255], [255, 0, 255]]).prop_shuffle(),
        any::<[Rgb; 6]>(),
    ]
}

pub fn c21(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cube is not solved.");
    ctx.assume("A printed colour may differ by 1 of 255 from the exact one: how fractions are rounded is not specified.");
    ctx.all("default-colours", (0u8..6).collect(), |f, t| {
        t.nontrivial();
        let (got, want) = (default_scheme()[*f as usize], DEFAULT[*f as usize]);
        ensure!(near(got, want.map(|x| (x * 255.0) as u8)), "the colour of {} is {got:?}", FACES[*f as usize]);
        let known = [Color::RED, Color::WHITE, Color::GREEN, Color::ORANGE, Color::YELLOW, Color::BLUE];
        ensure!(known[*f as usize].face == face(*f) && Color::new(face(*f)).face == face(*f), "the colour named for {} is {:?}", FACES[*f as usize], known[*f as usize]);
        Ok(())
    });
    let off = || prop_oneof![Just([0i8; 3]), any::<[i8; 3]>().prop_map(|o| o.map(|x| x.clamp(-120, 120)))];
    // every piece in every place and orientation
    let single = |st: &State| ViewCase { state: st.clone(), scheme: [[9, 8, 7], [60, 50, 40], [99, 3, 200], [33, 77, 11], [250, 180, 20], [1, 2, 255]], off: [0; 3] };
    let mut one_turn = vec![single(&State::solved())];
    for a in 0..18 {
        let s = State::solved().turned(a);
        one_turn.push(single(&s));
        one_turn.extend((0..18).map(|b| single(&s.turned(b))));
    }
    ctx.all("up-to-two-turns", one_turn, view);
    ctx.prop("views", ctx.n(30_000, 600_000), || (state_mix(), schemes(), off()).prop_map(|(state, scheme, off)| ViewCase { state, scheme, off }), view);
    // moved by the code itself
    ctx.prop("moved", ctx.n(10_000, 200_000), || turns(30, 0), |ts, t| {
        use barbarosa::generic::{Cube, Movable};
        let mut cube = Cube3::SOLVED;
        let mut m = Model::solved(3);
        for x in ts {
            cube.apply(&axis_move(x.face, x.q));
            m.turn(*x);
        }
        t.nontrivial_if(ts.len() >= 2);
        printed(&cube.to_string(), &m.stickers(), &default_scheme())
    });
}

// ---------------------------------------------------------------- C31

/// A point of a face: how far down and right of its middle, in thousandths of the way to the outermost squares,
/// and how far along the axis of the face
type Point = (i32, i32, i32);

fn at_point(f: u8, (down, right, out): Point) -> Vector3<f32> {
    let (r, c) = paper(f);
    let (v, r, c) = (face_vec(f), face_vec(r), face_vec(c));
    Vector3::new(0, 1, 2).map(|i: usize| (v[i] * out + r[i] * down + c[i] * right) as f32 / 1000.0)
}

/// The square nearest to a coordinate, of n with their centres from -1 to 1; none if two are as near
fn nearest(n: usize, x: i32) -> Option<usize> {
    let last = n as i64 - 1;
    let apart = |i: usize| (x as i64 * last - (2 * i as i64 - last) * 1000).abs();
    let best = (0..n).min_by_key(|i| apart(*i))?;
    (0..n).all(|i| i == best || apart(i) > apart(best) + last.max(1)).then_some(best)
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct PointCase {
    n: usize,
    face: u8,
    at: Point,
    /// the face that gives the colour, not the one all squares have
    mark: u8,
}

macro_rules! for_size {
    ($n:expr, $f:ident ( $($arg:expr),* )) => {
        match $n {
            1 => $f::<1>($($arg),*), 2 => $f::<2>($($arg),*), 3 => $f::<3>($($arg),*), 4 => $f::<4>($($arg),*),
            5 => $f::<5>($($arg),*), 6 => $f::<6>($($arg),*), 7 => $f::<7>($($arg),*), 8 => $f::<8>($($arg),*),
            9 => $f::<9>($($arg),*), 10 => $f::<10>($($arg),*), 11 => $f::<11>($($arg),*), 17 => $f::<17>($($arg),*),
            65 => $f::<65>($($arg),*), 300 => $f::<300>($($arg),*), _ => $f::<32>($($arg),*),
        }
    };
}

const SIZES: [usize; 13] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 17, 32];

fn nearest_square<const N: usize>(c: &PointCase, t: &mut Tally) -> Res {
    let f = face(c.face);
    let v = at_point(c.face, c.at);
    let plain = (c.mark + 1) % 6;
    let mut square = Square::<N>::new(Color::new(face(plain)));
    ensure!(square.data.iter().flatten().all(|x| face_ix(&x.face) == plain), "a new square has several colours");
    if c.at.0.abs() >= 3000 || c.at.1.abs() >= 3000 {
        t.nontrivial();
        t.class("far away");
        ensure!(square.at(&v, &f).is_none(), "{v:?} is far from the squares of {}, but has a colour", FACES[c.face as usize]);
        ensure!(square.at_mut(&v, &f).is_none(), "{v:?} is far from the squares of {}, but has a colour to change", FACES[c.face as usize]);
        return Ok(());
    }
    let (Some(row), Some(col)) = (nearest(N, c.at.0), nearest(N, c.at.1)) else {
        t.class("between squares");
        return Ok(());
    };
    t.nontrivial_if(N > 1);
    square.data[row][col] = Color::new(face(c.mark));
    let got = square.at(&v, &f).map(|x| face_ix(&x.face));
    ensure!(got == Some(c.mark), "at {v:?}, the nearest square of {} is in row {row} and column {col} of {N}, which is not the one taken", FACES[c.face as usize]);
    square.data[row][col] = Color::new(face(plain));
    match square.at_mut(&v, &f) {
        Some(x) => *x = Color::new(face(c.mark)),
        None => ensure!(false, "at {v:?} there is nothing to change"),
    }
    for i in 0..N {
        for j in 0..N {
            let want = if (i, j) == (row, col) { c.mark } else { plain };
            ensure!(face_ix(&square.data[i][j].face) == want, "a change at {v:?} of {} reaches row {i} and column {j} of {N}, not row {row} and column {col}", FACES[c.face as usize]);
        }
    }
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct NetCase {
    n: usize,
    colours: u64,
    state: State,
}

fn net_of_size<const N: usize>(c: &NetCase, t: &mut Tally) -> Res {
    t.nontrivial_if(N != 3);
    // any colours, put there by place
    let mut seed = c.colours;
    let mut next = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 33) % 6) as u8
    };
    let mut un = Unfolded::<N>::default();
    let mut want = vec![vec![vec![0u8; N]; N]; 6];
    for (f, s) in un.iter() {
        let f = face_ix(&f);
        ensure!(s.data.iter().flatten().all(|x| face_ix(&x.face) == f), "the net starts with other colours on {}", FACES[f as usize]);
    }
    ensure!(un.iter().map(|(f, _)| 1 << face_ix(&f)).sum::<i32>() == 63, "the net does not have each face once");
    for f in 0..6u8 {
        for row in 0..N {
            for col in 0..N {
                let colour = next();
                want[f as usize][row][col] = colour;
                let place = |i: usize| if N == 1 { 0.0 } else { 2.0 * i as f32 / (N as f32 - 1.0) - 1.0 };
                let (r, k) = paper(f);
                let (v, r, k) = (face_vec(f), face_vec(r), face_vec(k));
                let p = Vector3::new(0, 1, 2).map(|i: usize| v[i] as f32 + r[i] as f32 * place(row) + k[i] as f32 * place(col));
                match un.at_mut(&p, &face(f)) {
                    Some(x) => *x = Color::new(face(colour)),
                    None => ensure!(false, "row {row} and column {col} of {} of {N} have no place in the net", FACES[f as usize]),
                }
            }
        }
    }
    for f in 0..6u8 {
        for row in 0..N {
            for col in 0..N {
                let got = face_ix(&un[&face(f)].data[row][col].face);
                ensure!(got == want[f as usize][row][col], "row {row} and column {col} of {} of {N} has another colour than it was given", FACES[f as usize]);
            }
        }
    }
    printed_net(N, &un.to_string(), |f, row, col| want[f as usize][row][col], &default_scheme()).map_err(|e| e.within("the net of a generated cube"))?;

    // the pieces of a cube
    if N >= 2 {
        let (cube, st) = (c.state.cube(), c.state.model(3).stickers());
        let mut un = Unfolded::<N>::default();
        un.populate_with(&cube.corners);
        let edges = N % 2 == 1;
        if edges {
            un.populate_with(&cube.edges);
        }
        for f in 0..6u8 {
            for row in 0..N {
                for col in 0..N {
                    // the same place in a net of three
                    let part = |i: usize| (2 * i % (N - 1) == 0).then(|| 2 * i / (N - 1)).filter(|x| edges || *x != 1);
                    let want = match (part(row), part(col)) {
                        (Some(r), Some(k)) if edges || (r != 1 && k != 1) => colour(&st, f, r, k),
                        _ => f,
                    };
                    let got = face_ix(&un[&face(f)].data[row][col].face);
                    ensure!(
                        got == want,
                        "with the corners{} in it, row {row} and column {col} of {} of {N} shows {}, the pieces show {}",
                        if edges { " and edges" } else { "" },
                        FACES[f as usize],
                        FACES[got as usize],
                        FACES[want as usize]
                    );
                }
            }
        }
    }
    Ok(())
}

/// A piece of one's own: a dot at any place (in thousandths) that shows on any faces
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
struct Dot {
    number: u32,
    at: [i32; 3],
    /// A face, and the colour there counted from the one of the place where the piece began
    shows: Vec<(u8, u8)>,
}

impl Piece for Dot {
    type Position = (u32, [i32; 3]);

    fn position(&self) -> Self::Position {
        (self.number, self.at)
    }

    fn is_solved(&self, original_pos: &Self::Position) -> bool {
        self.position() == *original_pos
    }
}

impl Coordinates for Dot {
    fn coordinates_pos((_, at): Self::Position) -> Vector3<f32> {
        Vector3::new(at[0], at[1], at[2]).map(|x| x as f32 / 1000.0)
    }
}

impl Colored for Dot {
    fn colors(&self, original_pos: Self::Position) -> Vec<(Face, Color)> {
        let first = original_pos.0 as u8;
        self.shows.iter().map(|(f, c)| (face(*f), Color::new(face((first + c) % 6)))).collect()
    }
}

/// Where the pieces of a set began: at numbers in no order
const fn began(i: usize) -> u32 {
    (i as u32 * 7 + 3) % 256
}

impl<const M: usize> PieceSetDescriptor<M> for Dot {
    const SOLVED: [Self; M] = [const { Dot { number: 0, at: [0; 3], shows: vec![] } }; M];

    const REFERENCE_POSITIONS: [Self::Position; M] = {
        let mut all = [(0, [0; 3]); M];
        let mut i = 0;
        while i < M {
            all[i] = (began(i), [0; 3]);
            i += 1;
        }
        all
    };
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct DotCase {
    n: usize,
    dots: Vec<([i32; 3], Vec<(u8, u8)>)>,
}

fn painted<const N: usize>(c: &DotCase, t: &mut Tally) -> Res {
    match c.dots.len() {
        0 => painted_set::<N, 0>(c, t),
        1 => painted_set::<N, 1>(c, t),
        2..=11 => painted_set::<N, 2>(c, t),
        12..=29 => painted_set::<N, 12>(c, t),
        _ => painted_set::<N, 30>(c, t),
    }
}

fn painted_set<const N: usize, const M: usize>(c: &DotCase, t: &mut Tally) -> Res {
    let mut want: Vec<Vec<Vec<Option<u8>>>> = (0..6).map(|f| vec![vec![Some(f); N]; N]).collect();
    let mut touched = vec![vec![vec![false; N]; N]; 6];
    let mut dots = vec![];
    for (i, (at, shows)) in c.dots.iter().take(M).enumerate() {
        let mut dot = Dot { number: (i as u32 * 5) % 31, at: *at, shows: vec![] };
        for (f, shade) in shows {
            let along = |d: u8| {
                let v = face_vec(d);
                (0..3).map(|k| v[k] * at[k]).sum::<i32>()
            };
            let (down, right) = paper(*f);
            // between two squares, either may be taken
            let (Some(row), Some(col)) = (nearest(N, along(down)), nearest(N, along(right))) else { continue };
            dot.shows.push((*f, *shade));
            let shown = (began(i) as u8 + shade) % 6;
            let (was, place) = (&mut touched[*f as usize][row][col], &mut want[*f as usize][row][col]);
            // of several colours in one square, any may be seen
            *place = if *was && *place != Some(shown) { None } else { Some(shown) };
            *was = true;
        }
        t.nontrivial_if(!dot.shows.is_empty());
        if dot.shows.len() > 3 {
            t.class("pieces with more than three stickers");
        }
        dots.push(dot);
    }
    let dots: [Dot; M] = dots.try_into().unwrap();
    let set = PieceSet::<Dot, M>::new(dots).map_err(|e| format!("the pieces, at places of their own, are no set: {e}"))?;
    let mut un = Unfolded::<N>::default();
    un.populate_with(&set);
    for f in 0..6u8 {
        for row in 0..N {
            for col in 0..N {
                let Some(want) = want[f as usize][row][col] else { continue };
                let got = face_ix(&un[&face(f)].data[row][col].face);
                ensure!(
                    got == want,
                    "with {M} pieces in it, row {row} and column {col} of {} of {N} shows {} instead of {}",
                    FACES[f as usize],
                    FACES[got as usize],
                    FACES[want as usize]
                );
            }
        }
    }
    Ok(())
}

pub fn c31(ctx: &Ctx) {
    ctx.rule("A point counts as non-trivial if there is more than one square, a net if it is not 3 by 3.");
    ctx.assume("Points that are (nearly) as near to two squares may belong to either; of points outside only those three times as far out as the outermost squares are judged.");
    let coordinate = || prop_oneof![
        5 => -1000i32..=1000,
        1 => prop_oneof![Just(-1000), Just(1000), Just(0)],
        1 => 3000i32..6000,
        1 => -6000i32..=-3000,
    ];
    let size = || prop::sample::select(SIZES.to_vec());
    let coordinates = move || (coordinate(), coordinate(), -3000i32..3000);
    ctx.prop(
        "points-large",
        ctx.n(800, 20_000),
        || (prop::sample::select(vec![65usize, 300]), 0u8..6, coordinates(), 0u8..6).prop_map(|(n, face, at, mark)| PointCase { n, face, at, mark }),
        |c, t| for_size!(c.n, nearest_square(c, t)),
    );
    // a grid of points over every size
    let mut grid = vec![];
    for n in SIZES {
        for f in 0..6u8 {
            for d in (-1000..=1000).step_by(125) {
                for r in (-1000..=1000).step_by(125) {
                    grid.push(PointCase { n, face: f, at: (d, r, 1000), mark: (f + 1) % 6 });
                }
            }
        }
    }
    ctx.all("grid", grid, |c, t| for_size!(c.n, nearest_square(c, t)));
    ctx.prop(
        "points",
        ctx.n(60_000, 1_000_000),
        || (size(), 0u8..6, (coordinate(), coordinate(), -3000i32..3000), 0u8..6).prop_map(|(n, face, at, mark)| PointCase { n, face, at, mark }),
        |c, t| for_size!(c.n, nearest_square(c, t)),
    );
    ctx.prop(
        "nets",
        ctx.n(6_000, 100_000),
        || (prop_oneof![40 => size(), 1 => Just(65usize)], any::<u64>(), state_mix()).prop_map(|(n, colours, state)| NetCase { n, colours, state }),
        |c, t| for_size!(c.n, net_of_size(c, t)),
    );
    ctx.prop(
        "own-pieces",
        ctx.n(20_000, 400_000),
        || {
            let x = || prop_oneof![4 => -1000i32..=1000, 2 => prop_oneof![Just(-1000), Just(1000), Just(0)]];
            let dot = ([x(), x(), x()], prop::collection::vec((0u8..6, 0u8..6), 0..7));
            let count = prop_oneof![Just(0usize), Just(1), Just(2), Just(12), Just(30)];
            (size(), count.prop_flat_map(move |k| prop::collection::vec(dot.clone(), k))).prop_map(|(n, dots)| DotCase { n, dots })
        },
        |c, t| for_size!(c.n, painted(c, t)),
    );
}

// ---------------------------------------------------------------- C26

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Script {
    lines: Vec<Vec<u8>>,
    /// how each line ends: with a carriage return as well
    cr: Vec<bool>,
    last_ends: bool,
    /// pause before what comes after this line, in the writing of the input
    chunk: usize,
}

impl Script {
    fn bytes(&self) -> Vec<u8> {
        let mut out = vec![];
        for (i, l) in self.lines.iter().enumerate() {
            out.extend(l.iter().filter(|b| **b != b'\n'));
            if i + 1 == self.lines.len() && !self.last_ends {
                break;
            }
            if self.cr.get(i) == Some(&true) {
                out.push(b'\r');
            }
            out.push(b'\n');
        }
        out
    }
}

fn input_lines(bytes: &[u8]) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(|l| l.to_vec()).collect();
    if v.last().is_some_and(|l| l.is_empty()) {
        v.pop();
    }
    v
}

struct Ran {
    out: Vec<u8>,
    err: Vec<u8>,
    status: Option<std::process::ExitStatus>,
}

const TOO_MUCH: u64 = 200 << 20;

fn run(bin: &str, input: &[u8], chunk: usize) -> Result<Ran, String> {
    let mut child = Command::new(bin)
        .arg("-p")
        .env_clear()
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .map_err(|e| format!("cannot start {bin}: {e}"))?;
    let (mut stdin, stdout, stderr) = (child.stdin.take().unwrap(), child.stdout.take().unwrap(), child.stderr.take().unwrap());
    std::thread::scope(|s| {
        let writer = s.spawn(move || {
            for c in input.chunks(chunk.max(1)) {
                if stdin.write_all(c).and_then(|_| stdin.flush()).is_err() {
                    break;
                }
            }
        });
        let read = |mut r: Box<dyn Read + Send>| {
            move || {
                let mut v = vec![];
                let _ = r.by_ref().take(TOO_MUCH).read_to_end(&mut v);
                v
            }
        };
        let out = s.spawn(read(Box::new(stdout)));
        let err = s.spawn(read(Box::new(stderr)));
        let start = Instant::now();
        let mut status = None;
        while start.elapsed() < Duration::from_secs(120) {
            match child.try_wait() {
                Ok(Some(x)) => {
                    status = Some(x);
                    break;
                }
                // reading stopped because there was too much: the program will not end by itself
                Ok(None) if out.is_finished() || err.is_finished() => {
                    std::thread::sleep(Duration::from_secs(1));
                    status = child.try_wait().ok().flatten();
                    break;
                }
                Ok(None) => std::thread::sleep(Duration::from_micros(if start.elapsed().as_millis() < 50 { 300 } else { 5_000 })),
                Err(e) => return Err(format!("cannot wait: {e}")),
            }
        }
        if status.is_none() {
            let _ = child.kill();
            let _ = child.wait();
        }
        let _ = writer.join();
        Ok(Ran { out: out.join().unwrap(), err: err.join().unwrap(), status })
    })
}

/// The background colours of all stickers in the output, in order
fn stickers_in(out: &[u8]) -> Result<Vec<Rgb>, String> {
    let text = std::str::from_utf8(out).map_err(|e| format!("the output is not text: {e}"))?;
    let mut all = vec![];
    let mut now: Option<Rgb> = None;
    let mut blanks = 0;
    let mut c = text.chars();
    while let Some(x) = c.next() {
        match x {
            '\u{1b}' => {
                let code: String = c.by_ref().take_while(|x| *x != 'm').collect();
                let n: Vec<u8> = code.trim_start_matches('[').split(';').filter_map(|x| x.parse().ok()).collect();
                now = match n[..] {
                    [48, 2, r, g, b] => Some([r, g, b]),
                    _ => None,
                };
                blanks = 0;
            }
            ' ' => {
                if let Some(rgb) = now {
                    blanks += 1;
                    if blanks == 2 {
                        all.push(rgb);
                        blanks = 0;
                    }
                }
            }
            _ => {}
        }
    }
    Ok(all)
}

fn playground(bin: &str, s: &Script, t: &mut Tally) -> Res {
    let bytes = s.bytes();
    let lines = input_lines(&bytes);
    let mut m = Model::solved(3);
    // how the cube is held, by where its centres are (they spin in place as well)
    let held = |m: &Model| {
        let at = |home: V| vec_face(m.cubies.iter().find(|c| c.home == home).unwrap().pos);
        Rot::from_faces(at([2, 0, 0]), at([0, 2, 0])).unwrap()
    };
    let mut shown = vec![m.stickers()];
    let mut wrong = 0;
    let mut moved = false;
    for l in &lines {
        let read = std::str::from_utf8(l).ok().and_then(notation::read_ext_line);
        match read {
            Some(ms) => {
                for x in &ms {
                    x.act(&mut m);
                }
                let mut rel = m.clone();
                rel.rotate(&held(&m).inverse());
                shown.push(rel.stickers());
                moved |= !ms.is_empty();
            }
            None => wrong += 1,
        }
    }
    t.nontrivial_if(moved);
    t.class(match (wrong, moved) {
        (0, false) => "nothing",
        (0, true) => "only moves",
        (_, false) => "only errors",
        (_, true) => "moves and errors",
    });
    let ran = run(bin, &bytes, s.chunk).map_err(Fail::Violation)?;
    let Some(status) = ran.status else {
        fail!("the playground does not end after its input ends ({} bytes of output so far)", ran.out.len())
    };
    ensure!(
        status.success(),
        "the playground ends with {status}: {}",
        String::from_utf8_lossy(&ran.err).chars().take(400).collect::<String>()
    );
    let scheme = default_scheme();
    let got = stickers_in(&ran.out)?;
    for (i, st) in shown.iter().enumerate() {
        let want = reading(st);
        for (k, w) in want.iter().enumerate() {
            let Some(g) = got.get(i * 54 + k) else {
                fail!("the output shows {} of {} nets", got.len() / 54, shown.len())
            };
            ensure!(
                near(*g, scheme[*w as usize]),
                "sticker {k} of net {i} (of {}) is {g:?}, the cube shows {} ({:?}) there",
                shown.len(),
                FACES[*w as usize],
                scheme[*w as usize]
            );
        }
    }
    ensure!(got.len() == 54 * shown.len(), "the output shows {} stickers, not {} nets", got.len(), shown.len());
    ensure!(
        (wrong > 0) == !ran.err.is_empty(),
        "{wrong} lines are wrong, and the errors reported are {:?}",
        String::from_utf8_lossy(&ran.err).chars().take(400).collect::<String>()
    );
    let reports = ran.err.split(|b| *b == b'\n').filter(|l| !l.is_empty()).count();
    ensure!(reports >= wrong, "{wrong} lines are wrong, but only {reports} lines of errors are reported");
    Ok(())
}

fn script() -> BoxedStrategy<Script> {
    let good = || prop::collection::vec(notation::good_word(), 0..5).prop_map(|w| w.join(" ").into_bytes());
    let any_line = prop_oneof![
        6 => good(),
        3 => notation::line().prop_map(|l| l.replace('\n', " ").into_bytes()),
        1 => prop::collection::vec(any::<u8>(), 0..8),
        // moves with something that is not text among them
        1 => (good(), any::<prop::sample::Index>(), 128u8..=255).prop_map(|(mut l, at, b)| { l.insert(at.index(l.len() + 1), b); l }),
        1 => Just(vec![]),
    ];
    // some lines are entered again
    let line = (any_line, prop::bool::weighted(0.2), prop_oneof![4 => Just(0usize), 1 => Just(1), 1 => 2usize..5]);
    (prop::collection::vec(line, 0..10), prop::bool::weighted(0.8), prop_oneof![3 => Just(1usize << 20), 1 => 1usize..9])
        .prop_map(|(l, last_ends, chunk)| {
            let (mut lines, mut cr): (Vec<Vec<u8>>, Vec<bool>) = (vec![], vec![]);
            for (line, r, again) in l {
                match again {
                    1.. if again <= lines.len() => lines.push(lines[lines.len() - again].clone()),
                    _ => lines.push(line),
                }
                cr.push(r);
            }
            Script { lines, cr, last_ends, chunk }
        })
        .boxed()
}

pub fn c26(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if at least one line makes a move.");
    ctx.assume("Standard output can be written to, and reading standard input does not fail (it may end at any point).");
    let bin = std::env::var("BARBAROSA_BIN").expect("BARBAROSA_BIN is the program under test");
    ctx.case_limit(600);
    let fixed: Vec<Script> = ["", "\n", "\n\n\n", "R", "R\n", "\r\n", "x\nR\nM\n", "garbage\nR U R' U'\n", "\u{0}\n", "R\u{0}\n", "99999999999999999999Rw\nR\n", "4294967295Rw\nU\n"]
        .iter()
        .map(|s| Script { lines: input_lines(s.as_bytes()), cr: vec![], last_ends: s.ends_with('\n'), chunk: 1 << 20 })
        .collect();
    ctx.all("fixed", fixed, |s, t| playground(&bin, s, t));
    ctx.prop("scripts", ctx.n(4_000, 60_000), script, |s, t| playground(&bin, s, t));
    // long sessions and long lines
    let long: Vec<(u32, u32, u32)> = vec![(3_000, 1, 0), (1, 50_000, 0), (200, 200, 0), (3_000, 1, 100), (3_000, 2, 50), (1, 30_000, 100), (70_000, 1, 90)];
    ctx.all("long", long, |(lines, words, bad), t| {
        let mut rng = proptest::test_runner::TestRng::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &[(*lines % 251) as u8; 32]);
        let all = ["R", "U'", "Fw2", "M", "x", "y'", "e2", "3Lw", "D2", "b'"];
        let lines = (0..*lines)
            .map(|_| {
                let mut l = (0..*words).map(|_| all[rng.random_range(0..all.len())]).collect::<Vec<_>>().join(" ").into_bytes();
                // so many percent of the lines are wrong, at their end or from the start
                if rng.random_range(0..100) < *bad {
                    match rng.random_range(0..3) {
                        0 => l.insert(0, b'#'),
                        1 => l.extend(b" Q"),
                        _ => l.push(0xff),
                    }
                }
                l
            })
            .collect();
        playground(&bin, &Script { lines, cr: vec![], last_ends: true, chunk: 1 << 16 }, t)
    });
}
