//! Reference model of an NxNxN puzzle: cubies at integer coordinates moved by integer rotation
//! matrices. It shares nothing with the code under test.
//!
//! X points right, Y up, Z to the viewer. Faces are numbered R U F L D B = 0..6, so that face `f`
//! lies on axis `f % 3`, on the positive side if `f < 3`. The cubies of an N-cube sit at odd or even
//! coordinates from `-(N-1)` to `N-1` in steps of 2.

use std::sync::OnceLock;

pub type V = [i32; 3];

pub const FACES: [char; 6] = ['R', 'U', 'F', 'L', 'D', 'B'];

pub fn face_axis(f: u8) -> usize {
    f as usize % 3
}

pub fn face_sign(f: u8) -> i32 {
    if f < 3 {
        1
    } else {
        -1
    }
}

pub fn face_of(axis: usize, sign: i32) -> u8 {
    axis as u8 + if sign > 0 { 0 } else { 3 }
}

pub fn face_vec(f: u8) -> V {
    let mut v = [0; 3];
    v[face_axis(f)] = face_sign(f);
    v
}

pub fn vec_face(v: V) -> u8 {
    let a = (0..3).find(|&a| v[a] != 0).expect("nonzero");
    face_of(a, v[a])
}

pub fn dot(a: V, b: V) -> i32 {
    (0..3).map(|i| a[i] * b[i]).sum()
}

pub fn cross(a: V, b: V) -> V {
    [
        a[1] * b[2] - a[2] * b[1],
        a[2] * b[0] - a[0] * b[2],
        a[0] * b[1] - a[1] * b[0],
    ]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Rot(pub [[i32; 3]; 3]);

impl Rot {
    pub const ID: Rot = Rot([[1, 0, 0], [0, 1, 0], [0, 0, 1]]);

    pub fn apply(&self, v: V) -> V {
        [dot(self.0[0], v), dot(self.0[1], v), dot(self.0[2], v)]
    }

    /// First `self`, then `other`
    pub fn then(&self, other: &Rot) -> Rot {
        let mut m = [[0; 3]; 3];
        for (i, row) in m.iter_mut().enumerate() {
            for (j, x) in row.iter_mut().enumerate() {
                *x = (0..3).map(|k| other.0[i][k] * self.0[k][j]).sum();
            }
        }
        Rot(m)
    }

    pub fn inverse(&self) -> Rot {
        let mut m = [[0; 3]; 3];
        for (i, row) in m.iter_mut().enumerate() {
            for (j, x) in row.iter_mut().enumerate() {
                *x = self.0[j][i];
            }
        }
        Rot(m)
    }

    /// `q` quarter turns about `axis`, clockwise for somebody on the positive side looking at the
    /// origin (so -90 degrees by the right-hand rule)
    pub fn quarter(axis: usize, q: i32) -> Rot {
        let (b, c) = ((axis + 1) % 3, (axis + 2) % 3);
        let mut one = [[0; 3]; 3];
        one[axis][axis] = 1;
        one[b][c] = 1;
        one[c][b] = -1;
        let one = Rot(one);
        let mut r = Rot::ID;
        for _ in 0..q.rem_euclid(4) {
            r = r.then(&one);
        }
        r
    }

    /// A turn of `q` quarters, clockwise for somebody looking at face `f` from outside
    pub fn of_face(f: u8, q: i32) -> Rot {
        Rot::quarter(face_axis(f), q * face_sign(f))
    }

    pub fn face(&self, f: u8) -> u8 {
        vec_face(self.apply(face_vec(f)))
    }

    /// The rotation that takes face R to `r` and face U to `u`, if they are perpendicular
    pub fn from_faces(r: u8, u: u8) -> Option<Rot> {
        group().iter().copied().find(|g| g.face(0) == r && g.face(1) == u)
    }
}

/// The 24 rotations of the cube, generated from quarter turns
pub fn group() -> &'static [Rot] {
    static G: OnceLock<Vec<Rot>> = OnceLock::new();
    G.get_or_init(|| {
        let mut all = vec![Rot::ID];
        let mut i = 0;
        while i < all.len() {
            for a in 0..3 {
                let next = all[i].then(&Rot::quarter(a, 1));
                if !all.contains(&next) {
                    all.push(next);
                }
            }
            i += 1;
        }
        assert_eq!(all.len(), 24);
        all
    })
}

/// A turn of the `depth + 1` outermost layers of `face` by `q` clockwise quarters
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, serde::Serialize, serde::Deserialize)]
pub struct Turn {
    pub face: u8,
    pub q: u8,
    pub depth: u32,
}

impl Turn {
    pub fn new(face: u8, q: u8, depth: u32) -> Turn {
        Turn { face, q, depth }
    }
    pub fn inverse(self) -> Turn {
        Turn { q: 4 - self.q, ..self }
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Cubie {
    pub home: V,
    pub pos: V,
    pub rot: Rot,
}

/// What kind of piece sits at a coordinate
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Kind {
    Corner,
    Edge,
    Wing(u32),
    FixedCenter,
    CenterCorner(u32),
    CenterEdge(u32),
    /// side depth, normal depth (smaller first)
    CenterWing(u32, u32),
}

pub fn kind(n: i32, p: V) -> Kind {
    let m = n - 1;
    let mut depths: Vec<u32> = p.iter().filter(|x| x.abs() != m).map(|x| ((m - x.abs()) / 2) as u32).collect();
    depths.sort();
    let mid = |x: u32| n % 2 == 1 && x as i32 == m / 2;
    match depths[..] {
        [] => Kind::Corner,
        [d] if mid(d) => Kind::Edge,
        [d] => Kind::Wing(d),
        [a, b] if mid(a) && mid(b) => Kind::FixedCenter,
        [a, b] if mid(b) => Kind::CenterEdge(a),
        [a, b] if a == b => Kind::CenterCorner(a),
        [a, b] => Kind::CenterWing(a, b),
        _ => unreachable!("inner cubie"),
    }
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    pub n: i32,
    pub cubies: Vec<Cubie>,
}

impl Model {
    pub fn solved(n: i32) -> Model {
        let m = n - 1;
        let range: Vec<i32> = (0..n).map(|i| 2 * i - m).collect();
        let mut cubies = vec![];
        for &x in &range {
            for &y in &range {
                for &z in &range {
                    if [x, y, z].iter().any(|c| c.abs() == m) {
                        cubies.push(Cubie { home: [x, y, z], pos: [x, y, z], rot: Rot::ID });
                    }
                }
            }
        }
        Model { n, cubies }
    }

    pub fn turn(&mut self, t: Turn) {
        let (a, s) = (face_axis(t.face), face_sign(t.face));
        let limit = (self.n as i64 - 1) - 2 * t.depth as i64;
        let rot = Rot::of_face(t.face, t.q as i32);
        for c in &mut self.cubies {
            if (c.pos[a] * s) as i64 >= limit {
                c.pos = rot.apply(c.pos);
                c.rot = c.rot.then(&rot);
            }
        }
    }

    /// Turns the layers whose coordinate on `axis` satisfies `which`, as the rotation about `axis`
    pub fn turn_layers(&mut self, axis: usize, q: i32, which: impl Fn(i32) -> bool) {
        let rot = Rot::quarter(axis, q);
        for c in &mut self.cubies {
            if which(c.pos[axis]) {
                c.pos = rot.apply(c.pos);
                c.rot = c.rot.then(&rot);
            }
        }
    }

    pub fn rotate(&mut self, rot: &Rot) {
        for c in &mut self.cubies {
            c.pos = rot.apply(c.pos);
            c.rot = c.rot.then(rot);
        }
    }

    pub fn turns(&mut self, ts: &[Turn]) {
        for t in ts {
            self.turn(*t);
        }
    }

    /// The visible colour (as home face) of every sticker cell, in the order of [`cell`]
    pub fn stickers(&self) -> Vec<u8> {
        let n = self.n as usize;
        let mut out = vec![255; 6 * n * n];
        for c in &self.cubies {
            put_stickers(self.n, c.home, c.pos, &c.rot, &mut out);
        }
        out
    }

    pub fn is_solved(&self) -> bool {
        let n = self.n as usize;
        self.stickers().iter().enumerate().all(|(i, c)| *c as usize == i / (n * n))
    }
}

/// The index of the sticker cell on face `f` of the cubie at `p`
pub fn cell(n: i32, f: u8, p: V) -> usize {
    let a = face_axis(f);
    let (b, c) = ((a + 1) % 3, (a + 2) % 3);
    let i = (p[b] + n - 1) / 2;
    let j = (p[c] + n - 1) / 2;
    ((f as i32 * n + i) * n + j) as usize
}

pub fn put_stickers(n: i32, home: V, pos: V, rot: &Rot, out: &mut [u8]) {
    for a in 0..3 {
        if home[a].abs() == n - 1 {
            let f = face_of(a, home[a]);
            let now = rot.face(f);
            out[cell(n, now, pos)] = f;
        }
    }
}

/// The rotations that take `home` to `pos`
pub fn rots_taking(home: V, pos: V) -> impl Iterator<Item = Rot> {
    group().iter().copied().filter(move |g| g.apply(home) == pos)
}

/// The face of the orientation sticker of an edge at (or from) `p`: U/D if it has one, else F/B
pub fn orientation_face(p: V) -> u8 {
    if p[1] != 0 {
        face_of(1, p[1])
    } else {
        face_of(2, p[2])
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    fn m(n: i32, s: &str) -> Model {
        let mut m = Model::solved(n);
        for w in s.split_whitespace() {
            let f = FACES.iter().position(|c| *c == w.chars().next().unwrap()).unwrap() as u8;
            let depth = u32::from(w.contains('w'));
            let q = if w.ends_with('2') { 2 } else if w.ends_with('\'') { 3 } else { 1 };
            m.turn(Turn { face: f, q, depth });
        }
        m
    }

    #[test]
    fn physics() {
        // R brings F stickers to U
        let r = m(3, "R");
        assert_eq!(r.stickers()[cell(3, 1, [2, 2, 0])], 2);
        // U brings R stickers to F
        let u = m(3, "U");
        assert_eq!(u.stickers()[cell(3, 2, [0, 2, 2])], 0);
        // F brings U stickers to R
        let f = m(3, "F");
        assert_eq!(f.stickers()[cell(3, 0, [2, 0, 2])], 1);
        let t = "R U R' U' R' F R2 U' R' U' R U R' F'";
        assert!(!m(3, t).is_solved());
        assert!(m(3, &format!("{t} {t}")).is_solved());
        assert!(m(3, &"R U R' U' ".repeat(6)).is_solved());
        // The well known 4x4 OLL parity has order two on the wings it exchanges; superflip has order two
        let sf = "U R2 F B R B2 R U2 L B2 R U' D' R2 F R' L B2 U2 F2";
        assert!(!m(3, sf).is_solved());
        assert!(m(3, &format!("{sf} {sf}")).is_solved());
        // a wide double-layer checker pattern commutes
        assert!(m(4, &"Rw2 U2 ".repeat(12)).is_solved() || m(4, &"Rw2 U2 ".repeat(60)).is_solved());
    }
}

pub fn oriented_kind(n: i32, home: V) -> bool {
    matches!(kind(n, home), Kind::Corner | Kind::Edge)
}
