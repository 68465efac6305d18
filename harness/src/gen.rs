//! Generators of turns, sequences and cube states.

use crate::{bridge::*, model::*};
use barbarosa::{
    cube_n::{pieces::{corner::CornerSet, edge::EdgeSet}, Corner, Cube2, Cube3, Edge},
    generic::{piece::PieceSetDescriptor, PieceSet},
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub fn turn(max_depth: u32) -> impl Strategy<Value = Turn> + Clone {
    (0u8..6, 1u8..4, 0..=max_depth).prop_map(|(f, q, d)| Turn::new(f, q, d))
}

/// Sequences of turns: free ones, and ones that stay on few faces, so that equal states come up
pub fn turns(max_len: usize, max_depth: u32) -> impl Strategy<Value = Vec<Turn>> + Clone {
    prop_oneof![
        3 => prop::collection::vec(turn(max_depth), 0..=max_len),
        1 => (0u8..6, 0u8..6).prop_flat_map(move |(a, b)| {
            prop::collection::vec(
                (prop::bool::ANY, 1u8..4, 0..=max_depth).prop_map(move |(x, q, d)| {
                    Turn::new(if x { a } else { b }, q, d)
                }),
                0..=max_len,
            )
        }),
    ]
}

pub fn perm(n: usize) -> impl Strategy<Value = Vec<u8>> + Clone {
    Just((0..n as u8).collect::<Vec<_>>()).prop_shuffle()
}

/// 3x3 pieces in places: piece `i` (by reference order) is at the place of piece `cp[i]`/`ep[i]`
#[derive(Clone, PartialEq, Eq, Debug, Hash, Serialize, Deserialize)]
pub struct State {
    pub cp: Vec<u8>,
    /// clockwise twist 0..3
    pub co: Vec<u8>,
    pub ep: Vec<u8>,
    /// flip 0..2
    pub eo: Vec<u8>,
}

pub fn parity(p: &[u8]) -> bool {
    let mut odd = false;
    for i in 0..p.len() {
        for j in i + 1..p.len() {
            odd ^= p[i] > p[j];
        }
    }
    odd
}

/// The axis of the orientation sticker after `t` clockwise twists of an oriented corner at `p`
pub fn twisted_axis(p: V, t: u8) -> usize {
    let chirality = p[0].signum() * p[1].signum() * p[2].signum();
    // clockwise around RUF (seen from outside) the faces are U, R, F
    let order = if chirality > 0 { [1, 0, 2] } else { [1, 2, 0] };
    order[t as usize % 3]
}

pub fn twist_of(p: V, axis: usize) -> u8 {
    (0..3).find(|t| twisted_axis(p, *t) == axis).unwrap()
}

pub fn corner_home(i: usize) -> V {
    corner_pos(3, Corner::REFERENCE_POSITIONS[i])
}

pub fn edge_home(i: usize) -> V {
    edge_pos(3, Edge::REFERENCE_POSITIONS[i])
}

impl State {
    pub fn solved() -> State {
        State { cp: (0..8).collect(), co: vec![0; 8], ep: (0..12).collect(), eo: vec![0; 12] }
    }

    pub fn corners(&self) -> Vec<Corner> {
        (0..8)
            .map(|i| {
                let p = corner_home(self.cp[i] as usize);
                corner_at(p, twisted_axis(p, self.co[i]))
            })
            .collect()
    }

    pub fn edges(&self) -> Vec<Edge> {
        (0..12).map(|i| edge_at(edge_home(self.ep[i] as usize), self.eo[i] == 0)).collect()
    }

    pub fn cube(&self) -> Cube3 {
        Cube3 {
            corners: set_of(self.corners()),
            edges: set_of(self.edges()),
        }
    }

    pub fn cube2(&self) -> Cube2 {
        Cube2 { corners: set_of(self.corners()) }
    }

    pub fn of(cube: &Cube3) -> State {
        let mut s = State::of_corners(&cube.corners);
        (s.ep, s.eo) = State::of_edges(&cube.edges);
        s
    }

    pub fn of_corners(set: &CornerSet) -> State {
        let mut s = State::solved();
        for (i, c) in set.pieces().iter().enumerate() {
            let p = corner_pos(3, c.position);
            s.cp[i] = (0..8).find(|j| corner_home(*j) == p).unwrap() as u8;
            s.co[i] = twist_of(p, axis_ix(c.orientation_axis));
        }
        s
    }

    pub fn of_edges(set: &EdgeSet) -> (Vec<u8>, Vec<u8>) {
        set.pieces()
            .iter()
            .map(|e| {
                let p = edge_pos(3, e.position_());
                ((0..12).find(|j| edge_home(*j) == p).unwrap() as u8, u8::from(!e.oriented))
            })
            .unzip()
    }

    pub fn random(rng: &mut impl rand::Rng) -> State {
        use rand::seq::SliceRandom;
        let mut s = State::solved();
        s.cp.shuffle(rng);
        s.ep.shuffle(rng);
        s.co.iter_mut().for_each(|x| *x = rng.gen_range(0..3));
        s.eo.iter_mut().for_each(|x| *x = rng.gen_range(0..2));
        s.make_solvable()
    }

    pub fn twist_sum(&self) -> u8 {
        self.co.iter().sum::<u8>() % 3
    }

    pub fn flip_sum(&self) -> u8 {
        self.eo.iter().sum::<u8>() % 2
    }

    pub fn is_valid_perm(&self) -> bool {
        let ok = |p: &[u8]| {
            let mut q = p.to_vec();
            q.sort();
            q.iter().enumerate().all(|(i, x)| i == *x as usize)
        };
        ok(&self.cp) && ok(&self.ep)
    }

    pub fn solvable(&self) -> bool {
        self.is_valid_perm() && self.twist_sum() == 0 && self.flip_sum() == 0 && parity(&self.cp) == parity(&self.ep)
    }

    fn make_solvable(mut self) -> State {
        if parity(&self.cp) != parity(&self.ep) {
            self.ep.swap(10, 11);
        }
        self.co[7] = (self.co[7] + 3 - self.twist_sum()) % 3;
        self.eo[11] ^= self.flip_sum();
        self
    }

    /// The state made solvable without touching the given edges
    pub fn solvable_keeping(mut self, keep: &[usize]) -> State {
        let free: Vec<usize> = (0..12).filter(|i| !keep.contains(i)).collect();
        if parity(&self.cp) != parity(&self.ep) {
            self.ep.swap(free[0], free[1]);
        }
        self.co[7] = (self.co[7] + 3 - self.twist_sum()) % 3;
        self.eo[free[2]] ^= self.flip_sum();
        self
    }

    /// The model of the same state, as it is after turns from solved
    pub fn model(&self, n: i32) -> Model {
        let mut m = Model::solved(n);
        let mut seen = vec![];
        if n == 3 {
            let c = self.cube();
            see_corners(3, &c.corners, &mut seen);
            see_edges(3, &c.edges, &mut seen);
        } else {
            see_corners(2, &self.cube2().corners, &mut seen);
        }
        for s in seen {
            let c = m.cubies.iter_mut().find(|c| c.home == s.home).unwrap();
            c.pos = s.pos;
            c.rot = s.rot.expect("solvable states have a rotation for each piece");
        }
        m
    }
}

trait EdgePos {
    fn position_(&self) -> (barbarosa::cube_n::space::Axis, nalgebra::Vector2<barbarosa::cube_n::space::Direction>);
}

impl EdgePos for Edge {
    fn position_(&self) -> (barbarosa::cube_n::space::Axis, nalgebra::Vector2<barbarosa::cube_n::space::Direction>) {
        (self.normal_axis, self.slice_position)
    }
}

pub fn set_of<P: PieceSetDescriptor<N> + std::fmt::Debug, const N: usize>(v: Vec<P>) -> PieceSet<P, N> {
    let a: [P; N] = v.try_into().expect("right length");
    match PieceSet::new(a) {
        Ok(s) => s,
        Err(e) => panic!("a complete set of pieces is refused: {e:?}"),
    }
}

/// Any assembly of a 3x3 from its pieces
pub fn assembly() -> impl Strategy<Value = State> + Clone {
    (
        perm(8),
        prop::collection::vec(0u8..3, 8),
        perm(12),
        prop::collection::vec(0u8..2, 12),
    )
        .prop_map(|(cp, co, ep, eo)| State { cp, co, ep, eo })
}

/// Any reachable state of a 3x3
pub fn state() -> impl Strategy<Value = State> + Clone {
    assembly().prop_map(State::make_solvable)
}

/// A state of a 3x3, reached by few turns or any
pub fn state_mix() -> impl Strategy<Value = State> + Clone {
    prop_oneof![
        2 => state(),
        1 => turns(8, 0).prop_map(|ts| state_after(&ts)),
        1 => partial_state(),
    ]
}

/// States in which only a few pieces are away from home
pub fn partial_state() -> impl Strategy<Value = State> + Clone {
    (
        prop::collection::vec((0usize..8, 0usize..8), 0..3),
        prop::collection::vec((0usize..12, 0usize..12), 0..3),
        prop::collection::vec((0usize..8, 0u8..3), 0..3),
        prop::collection::vec(0usize..12, 0..3),
    )
        .prop_map(|(cs, es, co, eo)| {
            let mut s = State::solved();
            for (a, b) in cs {
                s.cp.swap(a, b);
            }
            for (a, b) in es {
                s.ep.swap(a, b);
            }
            for (i, t) in co {
                s.co[i] = (s.co[i] + t) % 3;
            }
            for i in eo {
                s.eo[i] ^= 1;
            }
            s.make_solvable()
        })
}

/// The state of the model after turns from solved
pub fn state_after(ts: &[Turn]) -> State {
    let mut m = Model::solved(3);
    m.turns(ts);
    state_of_model(&m)
}

pub fn state_of_model(m: &Model) -> State {
    assert_eq!(m.n, 3);
    let mut s = State::solved();
    for c in &m.cubies {
        match kind(3, c.home) {
            Kind::Corner => {
                let i = (0..8).find(|i| corner_home(*i) == c.home).unwrap();
                s.cp[i] = (0..8).find(|i| corner_home(*i) == c.pos).unwrap() as u8;
                let axis = (0..3).find(|a| c.rot.apply([0, 1, 0])[*a] != 0).unwrap();
                s.co[i] = twist_of(c.pos, axis);
            }
            Kind::Edge => {
                let i = (0..12).find(|i| edge_home(*i) == c.home).unwrap();
                s.ep[i] = (0..12).find(|i| edge_home(*i) == c.pos).unwrap() as u8;
                s.eo[i] = u8::from(c.rot.face(orientation_face(c.home)) != orientation_face(c.pos));
            }
            _ => {}
        }
    }
    s
}

/// A move on an orientable cube. Wide turns have depths around the size of the cubes, or huge.
pub fn ext() -> impl Strategy<Value = Ext> + Clone {
    prop_oneof![
        2 => (0u8..6, 1u8..4).prop_map(|(f, q)| Ext::Face(f, q)),
        3 => (0u8..6, 1u8..4, depth()).prop_map(|(f, q, d)| Ext::Wide(f, q, d)),
        2 => (0u8..3, 1u8..4).prop_map(|(a, q)| Ext::Rotate(a, q)),
        2 => (0u8..3, 1u8..4, prop::bool::ANY).prop_map(|(a, q, w)| Ext::Slice(a, q, w)),
    ]
}

pub fn depth() -> impl Strategy<Value = u32> + Clone {
    prop_oneof![
        8 => 0u32..9,
        1 => any::<u32>(),
        1 => prop::sample::select(vec![u32::MAX, u32::MAX - 1, u32::MAX - 2, 1 << 31, (1 << 31) - 1, 255, 256, 65535]),
    ]
}

/// Changes that make a nearly solved cube (see `orbits`)
#[cfg(any(feature = "turns", feature = "values"))]
pub fn changes(max_len: usize) -> impl Strategy<Value = Vec<crate::orbits::Change>> + Clone {
    use crate::orbits::{Change, CHANGES};
    let one = (0..CHANGES, 0u8..10, prop::array::uniform4(0u8..24)).prop_map(|(how, orbit, x)| Change { how, orbit, x });
    prop_oneof![
        4 => prop::collection::vec(one.clone(), 0..=max_len),
        // several of the same pieces
        1 => (prop::collection::vec(one, 0..=max_len), 0u8..10).prop_map(|(mut v, o)| {
            v.iter_mut().for_each(|c| c.orbit = o);
            v
        }),
    ]
}

/// A length of up to `max`, often close to a power of two
pub fn length(max: usize) -> impl Strategy<Value = usize> + Clone {
    let top = max.ilog2();
    prop_oneof![
        1 => (4..=top, -2i64..=2).prop_map(|(k, d)| ((1i64 << k) + d) as usize),
        1 => (4..=top, any::<u32>()).prop_map(|(k, r)| (1usize << k) + r as usize % (1 << k)),
    ]
    .prop_map(move |l| l.min(max + 2))
}

/// A long sequence, made from a seed so that it stays small to write down
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Long {
    pub seed: u64,
    pub len: usize,
    pub style: u8,
}

pub fn long(max: usize) -> impl Strategy<Value = Long> + Clone {
    (any::<u64>(), length(max), 0u8..6).prop_map(|(seed, len, style)| Long { seed, len, style })
}

impl Long {
    pub fn turns(&self, max_depth: u32) -> Vec<Turn> {
        use rand::{rngs::StdRng, Rng, SeedableRng};
        let mut r = StdRng::seed_from_u64(self.seed);
        let free = |r: &mut StdRng| Turn::new(r.gen_range(0..6), r.gen_range(1..4), r.gen_range(0..=max_depth));
        let mut v: Vec<Turn> = vec![];
        match self.style {
            // stretches of one face or axis
            1 => {
                while v.len() < self.len {
                    let (a, both) = (r.gen_range(0u8..6), r.gen::<bool>());
                    for _ in 0..r.gen_range(1..60) {
                        let f = if both && r.gen() { (a + 3) % 6 } else { a };
                        v.push(Turn { face: f, ..free(&mut r) });
                    }
                }
            }
            // one face or axis only
            2 => {
                let (a, both) = (r.gen_range(0u8..6), r.gen::<bool>());
                v = (0..self.len).map(|_| Turn { face: if both && r.gen() { (a + 3) % 6 } else { a }, ..free(&mut r) }).collect();
            }
            // all of it undone
            3 => {
                v = (0..self.len / 2).map(|_| free(&mut r)).collect();
                let back: Vec<Turn> = v.iter().rev().map(|t| t.inverse()).collect();
                if self.len % 2 == 1 {
                    v.push(free(&mut r));
                }
                v.extend(back);
            }
            // one part again and again
            4 => {
                let part: Vec<Turn> = (0..r.gen_range(1..20)).map(|_| free(&mut r)).collect();
                v = (0..self.len).map(|i| part[i % part.len()]).collect();
            }
            // nothing to merge
            5 => {
                while v.len() < self.len {
                    let t = free(&mut r);
                    if v.last().is_none_or(|l| l.face % 3 != t.face % 3) {
                        v.push(t);
                    }
                }
            }
            _ => v = (0..self.len).map(|_| free(&mut r)).collect(),
        }
        v.truncate(self.len);
        v
    }

    /// Moves of a held cube in the same styles
    pub fn exts(&self) -> Vec<Ext> {
        self.turns(9)
            .into_iter()
            .map(|t| match t.depth {
                0..=2 => Ext::Face(t.face, t.q),
                3..=5 => Ext::Wide(t.face, t.q, t.depth - 2),
                6 | 7 => Ext::Rotate(t.face % 3, t.q),
                d => Ext::Slice(t.face % 3, t.q, d == 9),
            })
            .collect()
    }
}
