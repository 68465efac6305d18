//! Nearly solved big cubes: any reachable arrangement of pieces, brought about by turns.
//!
//! The stickers of the pieces of one kind form orbits of 24 under turns of layers (of wings, one of
//! two such orbits is taken). In every orbit a commutator is known that moves three pieces around and
//! nothing else; with turns before it and undone after it, it moves any three.

use crate::model::*;
use std::{
    collections::{HashMap, VecDeque},
    sync::OnceLock,
};

type Cell = u16;

struct Orbit {
    kind: Kind,
    /// The sticker cells, and the coordinates and face of each
    cells: Vec<Cell>,
    /// A commutator that moves `cycle[0]` to `cycle[1]` to `cycle[2]` to `cycle[0]`
    cycle: [u8; 3],
    word: Vec<Turn>,
    /// For three places (by index in `cells`) the turn to make first to get closer to `cycle`
    setup: HashMap<[u8; 3], Turn>,
}

pub struct Puzzle {
    pub n: i32,
    turns: Vec<(Turn, Vec<Cell>)>,
    orbits: Vec<Orbit>,
    /// orbit and index in it of the sticker cells that are in one
    index: Vec<Option<(u8, u8)>>,
    place: Vec<(V, u8)>,
    /// Turns of one face, and in which orbits they permute the pieces oddly
    starts: Vec<(Vec<Turn>, Vec<bool>)>,
}

/// Moves of single layers, the middle one included, as turns: the middle one is a turn of the whole
/// cube with all other layers turned back.
struct Layers {
    n: i32,
    frame: Rot,
    out: Vec<Turn>,
}

impl Layers {
    /// The layer `d` deep on the side of `f`, `q` quarters clockwise as seen on `f`
    fn turn(&mut self, f: u8, q: u8, d: i32) {
        let (f, q, d) = if 2 * d > self.n - 1 { ((f + 3) % 6, 4 - q, self.n - 1 - d) } else { (f, q, d) };
        let now = self.frame.inverse().face(f);
        if 2 * d == self.n - 1 {
            let max = (d - 1) as u32;
            self.out.push(Turn::new(now, 4 - q, max));
            self.out.push(Turn::new((now + 3) % 6, q, max));
            self.frame = self.frame.then(&Rot::of_face(f, q as i32));
        } else {
            self.out.push(Turn::new(now, q, d as u32));
            if d > 0 {
                self.out.push(Turn::new(now, 4 - q, d as u32 - 1));
            }
        }
    }
}

/// Cancels neighbouring turns of the same layers
pub fn tidy(ts: &[Turn]) -> Vec<Turn> {
    let mut out: Vec<Turn> = vec![];
    for t in ts {
        match out.last_mut() {
            Some(l) if l.face == t.face && l.depth == t.depth => {
                let q = (l.q + t.q) % 4;
                if q == 0 {
                    out.pop();
                } else {
                    l.q = q;
                }
            }
            _ => out.push(*t),
        }
    }
    out
}

pub fn inverse(ts: &[Turn]) -> Vec<Turn> {
    ts.iter().rev().map(|t| t.inverse()).collect()
}

pub fn cells_of(n: i32, ts: &[Turn]) -> Vec<Cell> {
    let mut m = Model::solved(n);
    m.turns(ts);
    cells_of_model(&m)
}

fn cells_of_model(m: &Model) -> Vec<Cell> {
    let n = m.n;
    let mut p: Vec<Cell> = (0..6 * n * n).map(|x| x as Cell).collect();
    for c in &m.cubies {
        for a in 0..3 {
            if c.home[a].abs() == n - 1 {
                let f = face_of(a, c.home[a]);
                p[cell(n, f, c.home)] = cell(n, c.rot.face(f), c.pos) as Cell;
            }
        }
    }
    p
}

impl Puzzle {
    pub fn of(n: i32) -> &'static Puzzle {
        static ALL: [OnceLock<Puzzle>; 8] = [const { OnceLock::new() }; 8];
        ALL[n as usize].get_or_init(|| Puzzle::new(n))
    }

    fn new(n: i32) -> Puzzle {
        let max = (n as u32 - 2) / 2;
        let mut turns = vec![];
        for f in 0..6 {
            for q in 1..4 {
                for d in 0..=max {
                    let t = Turn::new(f, q, d);
                    turns.push((t, cells_of(n, &[t])));
                }
            }
        }
        let count = (6 * n * n) as usize;
        let mut place = vec![([0; 3], 0); count];
        for c in &Model::solved(n).cubies {
            for a in 0..3 {
                if c.home[a].abs() == n - 1 {
                    let f = face_of(a, c.home[a]);
                    place[cell(n, f, c.home)] = (c.home, f);
                }
            }
        }
        let mut index = vec![None; count];
        let mut orbits: Vec<Orbit> = vec![];
        for start in 0..count {
            let (p, f) = place[start];
            let k = kind(n, p);
            let wing_taken = matches!(k, Kind::Wing(_)) && orbits.iter().any(|o| o.kind == k);
            if k == Kind::FixedCenter || index[start].is_some() || wing_taken {
                continue;
            }
            let mut cells: Vec<Cell> = group().iter().map(|g| cell(n, g.face(f), g.apply(p)) as Cell).collect();
            cells.sort();
            cells.dedup();
            assert_eq!(cells.len(), 24);
            for (i, c) in cells.iter().enumerate() {
                index[*c as usize] = Some((orbits.len() as u8, i as u8));
            }
            orbits.push(Orbit { kind: k, cells, cycle: [0; 3], word: vec![], setup: HashMap::new() });
        }
        let mut z = Puzzle { n, turns, orbits, index, place, starts: vec![] };
        for o in 0..z.orbits.len() {
            z.find_cycle(o);
            z.find_setups(o);
        }
        z.starts = (0u32..1 << (max + 1))
            .map(|set| {
                let ts: Vec<Turn> = (0..=max).filter(|d| set >> d & 1 == 1).map(|d| Turn::new(1, 1, d)).collect();
                let mut s = Model::solved(n);
                s.turns(&ts);
                let odd = z.parity(&s);
                (ts, odd)
            })
            .collect();
        z
    }

    fn table(&self, t: Turn) -> &[Cell] {
        let max = (self.n as usize - 2) / 2;
        let (x, p) = &self.turns[(t.face as usize * 3 + t.q as usize - 1) * (max + 1) + t.depth as usize];
        debug_assert_eq!(*x, t);
        p
    }

    /// Where the sticker cells go
    fn cells_after(&self, ts: &[Turn]) -> Vec<Cell> {
        let mut out: Vec<Cell> = (0..self.index.len() as Cell).collect();
        for t in ts {
            let p = self.table(*t);
            for c in &mut out {
                *c = p[*c as usize];
            }
        }
        out
    }

    fn stickers_of_piece(k: Kind) -> usize {
        match k {
            Kind::Corner => 3,
            Kind::Edge | Kind::Wing(_) => 2,
            _ => 1,
        }
    }

    fn find_cycle(&mut self, o: usize) {
        let n = self.n;
        let want = 3 * Self::stickers_of_piece(self.orbits[o].kind);
        // [A, X B X'] of single layers
        for a in 0..n {
            for x in 0..n {
                for b in 0..n {
                    for f in 0u8..3 {
                        for g in 0u8..3 {
                            for qx in [1u8, 3] {
                                for qb in [1u8, 3, 2] {
                                    let word = |s: &mut Layers, back: bool| {
                                        s.turn(g, qx, x);
                                        s.turn(f, if back { 4 - qb } else { qb }, b);
                                        s.turn(g, 4 - qx, x);
                                    };
                                    for h in 0u8..3 {
                                        if g == f || (n == 2 && h == g && a == x) {
                                            continue;
                                        }
                                        let mut s = Layers { n, frame: Rot::ID, out: vec![] };
                                        s.turn(h, 1, a);
                                        word(&mut s, false);
                                        s.turn(h, 3, a);
                                        word(&mut s, true);
                                        if s.frame != Rot::ID {
                                            continue;
                                        }
                                        let p = cells_of(n, &s.out);
                                        let moved: Vec<usize> = (0..p.len()).filter(|i| p[*i] as usize != *i).collect();
                                        if moved.len() != want {
                                            continue;
                                        }
                                        let own: Vec<usize> = moved.iter().copied().filter(|i| matches!(self.index[*i], Some((w, _)) if w as usize == o)).collect();
                                        let Some(&first) = own.first() else { continue };
                                        let second = p[first] as usize;
                                        let third = p[second] as usize;
                                        if p[third] as usize != first || self.place[first].0 == self.place[second].0 {
                                            continue;
                                        }
                                        let at = |c: usize| self.index[c].unwrap().1;
                                        let cycle = [at(first), at(second), at(third)];
                                        self.orbits[o].cycle = cycle;
                                        self.orbits[o].word = tidy(&s.out);
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        panic!("no three-cycle for {:?} on {n}", self.orbits[o].kind);
    }

    fn find_setups(&mut self, o: usize) {
        let orbit = &self.orbits[o];
        let maps: Vec<(Turn, Vec<u8>)> = self
            .turns
            .iter()
            .map(|(t, p)| (*t, orbit.cells.iter().map(|c| self.index[p[*c as usize] as usize].unwrap().1).collect()))
            .collect();
        let mut setup = HashMap::new();
        let mut queue = VecDeque::from([orbit.cycle]);
        let mut seen = std::collections::HashSet::from([orbit.cycle]);
        while let Some(now) = queue.pop_front() {
            for (t, map) in &maps {
                let before = now.map(|x| map[x as usize]);
                if seen.insert(before) {
                    // `t` took us there, so its inverse comes back
                    setup.insert(before, t.inverse());
                    queue.push_back(before);
                }
            }
        }
        self.orbits[o].setup = setup;
    }

    /// The turns that move the pieces of stickers `x` to `y` to `z` to `x`
    fn three_cycle(&self, o: usize, mut now: [u8; 3]) -> Vec<Turn> {
        let orbit = &self.orbits[o];
        let mut first = vec![];
        while now != orbit.cycle {
            let t = orbit.setup[&now];
            first.push(t);
            let p = self.table(t);
            now = now.map(|x| self.index[p[orbit.cells[x as usize] as usize] as usize].unwrap().1);
        }
        let mut out = first.clone();
        out.extend(&orbit.word);
        out.extend(inverse(&first));
        out
    }

    fn piece(&self, o: usize, x: u8) -> V {
        self.place[self.orbits[o].cells[x as usize] as usize].0
    }

    /// In which orbits an odd permutation of pieces is needed to get to `m`
    fn parity(&self, m: &Model) -> Vec<bool> {
        let to: HashMap<V, V> = m.cubies.iter().map(|c| (c.home, c.pos)).collect();
        self.orbits
            .iter()
            .map(|orbit| {
                let mut pieces: Vec<V> = orbit.cells.iter().map(|c| self.place[*c as usize].0).collect();
                pieces.sort();
                pieces.dedup();
                let mut seen = std::collections::HashSet::new();
                let mut odd = false;
                for p in pieces {
                    let mut len = 0;
                    let mut q = p;
                    while seen.insert(q) {
                        len += 1;
                        q = to[&q];
                    }
                    odd ^= len > 0 && len % 2 == 0;
                }
                odd
            })
            .collect()
    }

    /// Turns that make the arrangement `m` out of a solved cube, if there are any
    pub fn reach(&self, m: &Model) -> Option<Vec<Turn>> {
        let want = self.parity(m);
        let mut out = self.starts.iter().find(|s| s.1 == want)?.0.clone();
        let goal = cells_of_model(m);
        let mut at = self.cells_after(&out);
        for o in 0..self.orbits.len() {
            // rest[i]: where the sticker at i has to go
            let cells = &self.orbits[o].cells;
            let mut rest = [0u8; 24];
            for c in cells {
                let now = self.index[at[*c as usize] as usize]?.1;
                rest[now as usize] = self.index[goal[*c as usize] as usize]?.1;
            }
            let mut rounds = 0;
            while let Some(y) = (0..24u8).find(|y| rest[*y as usize] != *y) {
                rounds += 1;
                if rounds > 60 {
                    return None;
                }
                let x = (0..24u8).find(|x| rest[*x as usize] == y)?;
                let other = |a: u8, b: u8| {
                    let free = |z: &u8| self.piece(o, *z) != self.piece(o, a) && self.piece(o, *z) != self.piece(o, b);
                    (0..24u8).filter(free).find(|z| rest[*z as usize] != *z).or((0..24u8).find(free)).unwrap()
                };
                let cycle = if self.piece(o, x) == self.piece(o, y) {
                    // turned in itself: take it away first
                    let a = other(x, x);
                    [x, a, other(x, a)]
                } else {
                    let z = rest[y as usize];
                    let z = if self.piece(o, z) != self.piece(o, x) && self.piece(o, z) != self.piece(o, y) { z } else { other(x, y) };
                    [x, y, z]
                };
                let ts = self.three_cycle(o, cycle);
                let p = self.cells_after(&ts);
                let mut next = rest;
                for i in 0..24u8 {
                    let to = self.index[p[cells[i as usize] as usize] as usize].unwrap().1;
                    next[to as usize] = rest[i as usize];
                }
                rest = next;
                out.extend(ts);
            }
            at = self.cells_after(&out);
        }
        (at == goal).then(|| tidy(&out))
    }
}

/// A change to some pieces; the numbers choose among what there is
#[derive(Clone, Debug, serde::Serialize, serde::Deserialize)]
pub struct Change {
    pub how: u8,
    pub orbit: u8,
    pub x: [u8; 4],
}

pub const CHANGES: u8 = 9;

/// Whether `how` leaves every sticker on its face (with centres) is for the model to say.
pub fn near(n: i32, changes: &[Change]) -> Model {
    let z = Puzzle::of(n);
    let mut m = Model::solved(n);
    for c in changes {
        let o = c.orbit as usize % z.orbits.len();
        let orbit = &z.orbits[o];
        let sticker = |i: u8| z.place[orbit.cells[i as usize % 24] as usize];
        // Another sticker of the same piece-kind on a piece that is not yet taken
        let distinct = |xs: &[u8]| {
            let mut out: Vec<(V, u8)> = vec![];
            for x in xs {
                let mut i = *x;
                while out.iter().any(|o| o.0 == sticker(i).0) {
                    i = (i % 24 + 1) % 24;
                }
                out.push(sticker(i));
            }
            out
        };
        let face_mates = |i: u8| {
            let (p, f) = sticker(i);
            let mut all: Vec<(V, u8)> = orbit.cells.iter().map(|c| z.place[*c as usize]).filter(|q| q.1 == f && q.0 != p).collect();
            all.insert(0, (p, f));
            all
        };
        let mut moves: Vec<((V, u8), (V, u8))> = vec![];
        let x = c.x;
        match c.how % CHANGES {
            // three pieces around
            0 => {
                let s = distinct(&x[..3]);
                moves.extend([(s[0], s[1]), (s[1], s[2]), (s[2], s[0])]);
            }
            // two pairs exchanged
            1 => {
                let s = distinct(&x);
                moves.extend([(s[0], s[1]), (s[1], s[0]), (s[2], s[3]), (s[3], s[2])]);
            }
            // two pairs exchanged that lie symmetrically
            2 => {
                let g = symmetries()[x[2] as usize % symmetries().len()];
                let a = sticker(x[0]);
                let b = sticker(x[1]);
                for s in [a, b] {
                    let to = (g.apply(s.0), g.face(s.1));
                    let there = z.index[cell(n, to.1, to.0)].is_some_and(|w| w.0 as usize == o);
                    let to = if there || z.piece_kind_single(to.0, o) { to } else { continue };
                    let to = if there { to } else { z.other_sticker(o, to) };
                    if to.0 != s.0 && !moves.iter().any(|(m, _)| m.0 == s.0 || m.0 == to.0) {
                        moves.extend([(s, to), (to, s)]);
                    }
                }
            }
            // one pair exchanged
            3 => {
                let s = distinct(&x[..2]);
                moves.extend([(s[0], s[1]), (s[1], s[0])]);
            }
            // two pieces turned in themselves
            4 => {
                let s = distinct(&x[..2]);
                let next = |s: (V, u8), back: bool| {
                    let turned: Vec<Rot> = rots_taking(s.0, s.0).filter(|r| *r != Rot::ID && r.face(s.1) != s.1 && cell_exists(n, s.0, r.face(s.1))).collect();
                    turned.get(if back { turned.len().saturating_sub(1) } else { 0 }).map(|r| (s.0, r.face(s.1)))
                };
                // the first turned one way, the second the other, seen from their corners
                let (a, b) = (s[0], s[1]);
                if let (Some(a2), Some(b2)) = (next(a, false), next(b, true)) {
                    let (a2, b2) = match orbit.kind {
                        Kind::Corner => (clockwise(a), anticlockwise(b)),
                        _ => (a2, b2),
                    };
                    if z.index[cell(n, a2.1, a2.0)].is_some_and(|w| w.0 as usize == o) {
                        moves.extend([(a, a2), (b, b2)]);
                    }
                }
            }
            // pieces of one face among themselves
            5 => {
                let s = face_mates(x[0]);
                if s.len() > 1 {
                    let k = 1 + x[1] as usize % (s.len() - 1);
                    moves.extend([(s[0], s[k]), (s[k], s[0])]);
                    if s.len() == 4 {
                        let rest: Vec<_> = (1..4).filter(|i| *i != k).map(|i| s[i]).collect();
                        if x[2] % 2 == 0 {
                            moves.extend([(rest[0], rest[1]), (rest[1], rest[0])]);
                        }
                    }
                }
            }
            // all pieces of the orbit turned about the centre
            6 => {
                let g = group()[x[0] as usize % 24];
                let mut done: Vec<V> = vec![];
                for c in &orbit.cells {
                    let s = z.place[*c as usize];
                    if !done.contains(&s.0) {
                        done.push(s.0);
                        moves.push((s, (g.apply(s.0), g.face(s.1))));
                    }
                }
            }
            // all pieces of two opposite faces exchanged, or of one face with its neighbour
            7 => {
                let (f, g) = (x[0] % 6, (x[0] % 6 + 1 + x[1] % 5) % 6);
                let r = group().iter().find(|r| r.face(f) == g && r.face(g) == f);
                if let Some(r) = r {
                    if Puzzle::stickers_of_piece(orbit.kind) == 1 {
                        for c in &orbit.cells {
                            let s = z.place[*c as usize];
                            if s.1 == f || s.1 == g {
                                let to = (r.apply(s.0), r.face(s.1));
                                moves.push((s, to));
                            }
                        }
                    }
                }
            }
            // everything of some orbits turned about the centre
            _ => {
                let g = group()[x[0] as usize % 24];
                for (i, orbit) in z.orbits.iter().enumerate() {
                    if x[1] as usize >> (i % 8) & 1 == 1 {
                        let mut done: Vec<V> = vec![];
                        for c in &orbit.cells {
                            let s = z.place[*c as usize];
                            if !done.contains(&s.0) {
                                done.push(s.0);
                                moves.push((s, (g.apply(s.0), g.face(s.1))));
                            }
                        }
                    }
                }
            }
        }
        shift(&mut m, &moves);
    }
    // What remains is legal up to parity: mend that with as little as possible
    let parity = z.parity(&m);
    let find = |k: Kind| z.orbits.iter().position(|o| o.kind == k);
    if let (Some(c), Some(e)) = (find(Kind::Corner), find(Kind::Edge)) {
        if parity[c] != parity[e] {
            let seed = changes.last().map_or([0; 4], |c| c.x);
            let cells = &z.orbits[e].cells;
            let a = z.place[cells[seed[2] as usize % 24] as usize];
            let b = (0..24).map(|i| z.place[cells[(seed[3] as usize + i) % 24] as usize]).find(|b| b.0 != a.0).unwrap();
            shift(&mut m, &[(a, b), (b, a)]);
        }
    }
    let parity = z.parity(&m);
    let matched = z.starts.iter().map(|s| &s.1).find(|p| {
        (0..p.len()).all(|i| Puzzle::stickers_of_piece(z.orbits[i].kind) == 1 || p[i] == parity[i])
    });
    if let Some(p) = matched {
        for i in 0..p.len() {
            if p[i] != parity[i] {
                let (a, f) = z.place[z.orbits[i].cells[0] as usize];
                let (b, _) = z.orbits[i].cells.iter().map(|c| z.place[*c as usize]).find(|(b, g)| *b != a && *g == f).unwrap();
                shift(&mut m, &[((a, f), (b, f)), ((b, f), (a, f))]);
            }
        }
    }
    m
}

impl Puzzle {
    /// whether `o` is of wings and there is one at `p`
    fn piece_kind_single(&self, p: V, o: usize) -> bool {
        matches!(self.orbits[o].kind, Kind::Wing(_)) && kind(self.n, p) == self.orbits[o].kind
    }

    fn other_sticker(&self, o: usize, s: (V, u8)) -> (V, u8) {
        self.orbits[o].cells.iter().map(|c| self.place[*c as usize]).find(|q| q.0 == s.0).unwrap()
    }
}

fn cell_exists(n: i32, p: V, f: u8) -> bool {
    p[face_axis(f)] == (n - 1) * face_sign(f)
}

/// The next sticker of a corner
fn clockwise(s: (V, u8)) -> (V, u8) {
    let r = group().iter().find(|r| r.apply(s.0) == s.0 && **r != Rot::ID && corner_sense(r, s.0)).unwrap();
    (s.0, r.face(s.1))
}

fn anticlockwise(s: (V, u8)) -> (V, u8) {
    clockwise(clockwise(s))
}

/// Whether the rotation about the diagonal through `p` is by +120 degrees about `p`
fn corner_sense(r: &Rot, p: V) -> bool {
    let f = face_vec(face_of(0, p[0]));
    dot(cross(f, r.apply(f)), p) > 0
}

/// The pieces at the first places go to the second ones, the sticker on the face given to that given
fn shift(m: &mut Model, moves: &[((V, u8), (V, u8))]) {
    let map: HashMap<V, (V, Rot)> = moves
        .iter()
        .map(|(a, b)| {
            let r = rots_taking(a.0, b.0).find(|r| r.face(a.1) == b.1).expect("a rotation");
            (a.0, (b.0, r))
        })
        .collect();
    for c in &mut m.cubies {
        if let Some((p, r)) = map.get(&c.pos) {
            c.pos = *p;
            c.rot = c.rot.then(r);
        }
    }
}

/// The symmetries of order two of the cube, reflections included
fn symmetries() -> &'static [Rot] {
    static S: OnceLock<Vec<Rot>> = OnceLock::new();
    S.get_or_init(|| {
        let minus = |r: &Rot| Rot(r.0.map(|row| row.map(|x| -x)));
        group()
            .iter()
            .flat_map(|r| [*r, minus(r)])
            .filter(|r| *r != Rot::ID && r.then(r) == Rot::ID)
            .collect()
    })
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn reach_all() {
        for n in 2..=7 {
            let z = Puzzle::of(n);
            println!("{n}: {:?}", z.orbits.iter().map(|o| (o.kind, o.word.len(), o.setup.len() + 1)).collect::<Vec<_>>());
            let mut x = 12345u64;
            let mut rnd = |k: u64| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                ((x >> 33) % k) as u8
            };
            let mut done = 0;
            let mut len = 0;
            let mut fails = [0; CHANGES as usize];
            for _ in 0..200 {
                let c = Change { how: rnd(9), orbit: rnd(16), x: [rnd(24), rnd(24), rnd(24), rnd(24)] };
                let m = near(n, &[c.clone()]);
                match z.reach(&m) {
                    Some(ts) => {
                        let mut s = Model::solved(n);
                        s.turns(&ts);
                        assert_eq!(s.stickers(), m.stickers());
                        done += 1;
                        len += ts.len();
                    }
                    None => fails[c.how as usize] += 1,
                }
            }
            println!("{n}: {done} of 200, mean length {}, {fails:?}", len / done.max(1));
        }
    }
}
