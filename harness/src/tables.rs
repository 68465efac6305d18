//! Distances by breadth-first search over coordinates of the reference model.

use crate::{gen::*, model::*};
use std::sync::{
    atomic::{AtomicU64, AtomicU8, Ordering},
    OnceLock,
};

/// What each of the 18 turns does to places, by place index (reference order of the pieces)
pub struct Turns {
    /// place a corner goes to, and the twist it gets
    pub cp: [[u8; 8]; 18],
    pub co: [[u8; 8]; 18],
    pub ep: [[u8; 12]; 18],
    pub eo: [[u8; 12]; 18],
}

/// Turn number of a face turn
pub fn turn_no(t: Turn) -> usize {
    t.face as usize * 3 + t.q as usize - 1
}

pub fn turn_by_no(i: usize) -> Turn {
    Turn::new((i / 3) as u8, (i % 3) as u8 + 1, 0)
}

pub fn turns_table() -> &'static Turns {
    static T: OnceLock<Turns> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Turns { cp: [[0; 8]; 18], co: [[0; 8]; 18], ep: [[0; 12]; 18], eo: [[0; 12]; 18] };
        for m in 0..18 {
            // piece i starts oriented at place i
            let s = state_after(&[turn_by_no(m)]);
            t.cp[m].copy_from_slice(&s.cp);
            t.co[m].copy_from_slice(&s.co);
            t.ep[m].copy_from_slice(&s.ep);
            t.eo[m].copy_from_slice(&s.eo);
        }
        t
    })
}

impl State {
    pub fn turned(&self, m: usize) -> State {
        let t = turns_table();
        let mut s = self.clone();
        for i in 0..8 {
            let p = self.cp[i] as usize;
            s.cp[i] = t.cp[m][p];
            s.co[i] = (self.co[i] + t.co[m][p]) % 3;
        }
        for i in 0..12 {
            let p = self.ep[i] as usize;
            s.ep[i] = t.ep[m][p];
            s.eo[i] = self.eo[i] ^ t.eo[m][p];
        }
        s
    }
}

/// Rank of a choice of distinct numbers below `n`, first number most significant
pub fn rank(p: &[u8], n: usize) -> usize {
    let mut used = 0u32;
    let mut r = 0;
    for (i, &x) in p.iter().enumerate() {
        let smaller = x as u32 - (used & ((1 << x) - 1)).count_ones();
        r = r * (n - i) + smaller as usize;
        used |= 1 << x;
    }
    r
}

pub fn unrank(mut r: usize, k: usize, n: usize, out: &mut [u8]) {
    let mut digits = [0usize; 12];
    for i in (0..k).rev() {
        digits[i] = r % (n - i);
        r /= n - i;
    }
    let mut used = 0u32;
    for i in 0..k {
        let mut left = digits[i];
        let mut x = 0;
        loop {
            if used & (1 << x) == 0 {
                if left == 0 {
                    break;
                }
                left -= 1;
            }
            x += 1;
        }
        used |= 1 << x;
        out[i] = x as u8;
    }
}

pub const CORNER_PERMS: usize = 40320;
pub const TWISTS: usize = 2187;
pub const CORNERS: usize = CORNER_PERMS * TWISTS;
pub const HALF_PLACES: usize = 665_280;
pub const HALF_EDGES: usize = HALF_PLACES * 64;

/// An arrangement of the corners, by its number
pub fn corners_of(i: usize) -> ([u8; 8], [u8; 8]) {
    let mut cp = [0; 8];
    unrank(i / TWISTS, 8, 8, &mut cp);
    let mut co = [0; 8];
    // the twists are numbered by place, so that turns act on them regardless of the permutation
    let by_place = twists_of(i % TWISTS);
    for k in 0..8 {
        co[k] = by_place[cp[k] as usize];
    }
    (cp, co)
}

pub fn corners_no(cp: &[u8], co: &[u8]) -> usize {
    let mut by_place = [0; 8];
    for k in 0..8 {
        by_place[cp[k] as usize] = co[k];
    }
    rank(cp, 8) * TWISTS + twists_no(&by_place)
}

fn twists_of(mut i: usize) -> [u8; 8] {
    let mut t = [0u8; 8];
    let mut sum = 0;
    for x in t.iter_mut().take(7) {
        *x = (i % 3) as u8;
        sum += *x;
        i /= 3;
    }
    t[7] = (30 - sum) % 3;
    t
}

fn twists_no(t: &[u8; 8]) -> usize {
    t[..7].iter().rev().fold(0, |a, x| a * 3 + *x as usize)
}

/// An arrangement of six edges, by its number: the places and the flips
pub fn half_of(i: usize) -> ([u8; 6], [u8; 6]) {
    let mut ep = [0; 6];
    unrank(i / 64, 6, 12, &mut ep);
    let mut eo = [0; 6];
    for (k, x) in eo.iter_mut().enumerate() {
        *x = (i >> k & 1) as u8;
    }
    (ep, eo)
}

pub fn half_no(ep: &[u8], eo: &[u8]) -> usize {
    rank(&ep[..6], 12) * 64 + (0..6).map(|k| (eo[k] as usize) << k).sum::<usize>()
}

fn corner_perm_moves() -> Vec<[u16; 18]> {
    let t = turns_table();
    (0..CORNER_PERMS)
        .map(|i| {
            let mut p = [0u8; 8];
            unrank(i, 8, 8, &mut p);
            let mut row = [0; 18];
            for (m, x) in row.iter_mut().enumerate() {
                *x = rank(&p.map(|a| t.cp[m][a as usize]), 8) as u16;
            }
            row
        })
        .collect()
}

fn twist_moves() -> Vec<[u16; 18]> {
    let t = turns_table();
    (0..TWISTS)
        .map(|i| {
            let o = twists_of(i);
            let mut row = [0; 18];
            for (m, x) in row.iter_mut().enumerate() {
                let mut n = [0; 8];
                for p in 0..8 {
                    n[t.cp[m][p] as usize] = (o[p] + t.co[m][p]) % 3;
                }
                *x = twists_no(&n) as u16;
            }
            row
        })
        .collect()
}

fn half_moves() -> (Vec<[u32; 18]>, Vec<[u8; 18]>) {
    let t = turns_table();
    let mut places = vec![[0; 18]; HALF_PLACES];
    let mut flips = vec![[0; 18]; HALF_PLACES];
    for i in 0..HALF_PLACES {
        let mut p = [0u8; 6];
        unrank(i, 6, 12, &mut p);
        for m in 0..18 {
            places[i][m] = rank(&p.map(|a| t.ep[m][a as usize]), 12) as u32;
            flips[i][m] = (0..6).map(|k| t.eo[m][p[k] as usize] << k).sum();
        }
    }
    (places, flips)
}

/// Splits a range among threads
pub fn parallel(n: usize, threads: usize, f: impl Fn(std::ops::Range<usize>) + Sync) {
    let chunk = (n / (threads * 16)).max(1024);
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..threads {
            s.spawn(|| loop {
                let from = next.fetch_add(chunk as u64, Ordering::Relaxed) as usize;
                if from >= n {
                    break;
                }
                f(from..(from + chunk).min(n));
            });
        }
    });
}

fn bfs(n: usize, start: usize, threads: usize, next: impl Fn(usize, usize) -> usize + Sync) -> Vec<u8> {
    let dist: Vec<AtomicU8> = (0..n).map(|_| AtomicU8::new(255)).collect();
    dist[start].store(0, Ordering::Relaxed);
    let mut done = 1;
    for d in 0u8.. {
        let found = AtomicU64::new(0);
        let backwards = done > n / 2;
        parallel(n, threads, |range| {
            let mut mine = 0;
            for i in range {
                let now = dist[i].load(Ordering::Relaxed);
                if backwards {
                    // the turns come with their inverses, so look for a neighbour that is done
                    if now == 255 && (0..18).any(|m| dist[next(i, m)].load(Ordering::Relaxed) == d) {
                        dist[i].store(d + 1, Ordering::Relaxed);
                        mine += 1;
                    }
                } else if now == d {
                    for m in 0..18 {
                        let j = next(i, m);
                        if dist[j].compare_exchange(255, d + 1, Ordering::Relaxed, Ordering::Relaxed).is_ok() {
                            mine += 1;
                        }
                    }
                }
            }
            found.fetch_add(mine, Ordering::Relaxed);
        });
        let found = found.into_inner() as usize;
        if found == 0 {
            break;
        }
        done += found;
    }
    dist.into_iter().map(|x| x.into_inner()).collect()
}

/// Least number of turns that solve each arrangement of the corners
pub fn corner_distances(threads: usize) -> Vec<u8> {
    let (perms, twists) = (corner_perm_moves(), twist_moves());
    bfs(CORNERS, 0, threads, |i, m| perms[i / TWISTS][m] as usize * TWISTS + twists[i % TWISTS][m] as usize)
}

/// Least number of turns that solve each arrangement of the first six edges
pub fn half_distances(threads: usize) -> Vec<u8> {
    let (places, flips) = half_moves();
    bfs(HALF_EDGES, 0, threads, |i, m| places[i >> 6][m] as usize * 64 + ((i & 63) ^ flips[i >> 6][m] as usize))
}

/// Cross states of a face: the places and flips of its four edges (in reference order)
pub struct Cross {
    /// reference indices of the edges of the face
    pub edges: [usize; 4],
    dist: Vec<u8>,
}

pub const CROSS_STATES: usize = 12 * 11 * 10 * 9 * 16;

impl Cross {
    pub fn new(face: u8) -> Cross {
        let v = face_vec(face);
        let edges: Vec<usize> = (0..12).filter(|i| dot(edge_home(*i), v) > 0).collect();
        let edges: [usize; 4] = edges.try_into().expect("a face has four edges");
        let t = turns_table();
        let home = edges.map(|e| e as u8);
        let dist = bfs(CROSS_STATES, rank(&home, 12) * 16, 1, |i, m| {
            let mut p = [0u8; 4];
            unrank(i >> 4, 4, 12, &mut p);
            let flips: usize = (0..4).map(|k| (t.eo[m][p[k] as usize] as usize) << k).sum();
            rank(&p.map(|a| t.ep[m][a as usize]), 12) * 16 + ((i & 15) ^ flips)
        });
        Cross { edges, dist }
    }

    pub fn no(&self, s: &State) -> usize {
        let p = self.edges.map(|e| s.ep[e]);
        rank(&p, 12) * 16 + (0..4).map(|k| (s.eo[self.edges[k]] as usize) << k).sum::<usize>()
    }

    pub fn distance(&self, s: &State) -> u8 {
        self.dist[self.no(s)]
    }

    pub fn distance_no(&self, i: usize) -> u8 {
        self.dist[i]
    }

    /// A state with the given cross; the other pieces are filled in with the help of `filler`
    pub fn state(&self, i: usize, filler: &State) -> State {
        let mut p = [0u8; 4];
        unrank(i >> 4, 4, 12, &mut p);
        let mut s = filler.clone();
        for k in 0..4 {
            // whichever piece is there takes the place of this one
            let e = self.edges[k];
            let other = s.ep.iter().position(|x| *x == p[k]).unwrap();
            s.ep.swap(e, other);
            s.eo[e] = (i >> k & 1) as u8;
        }
        s.solvable_keeping(&self.edges)
    }
}

pub fn crosses() -> &'static [Cross] {
    static C: OnceLock<Vec<Cross>> = OnceLock::new();
    C.get_or_init(|| {
        std::thread::scope(|s| {
            let h: Vec<_> = (0..6).map(|f| s.spawn(move || Cross::new(f))).collect();
            h.into_iter().map(|h| h.join().unwrap()).collect()
        })
    })
}

/// Every state within a few turns of solved, with its distance
pub fn shallow(depth: usize) -> std::collections::HashMap<State, u8> {
    let mut all = std::collections::HashMap::new();
    all.insert(State::solved(), 0);
    let mut last = vec![State::solved()];
    for d in 1..=depth {
        let mut next = vec![];
        for s in &last {
            for m in 0..18 {
                let n = s.turned(m);
                if !all.contains_key(&n) {
                    all.insert(n.clone(), d as u8);
                    next.push(n);
                }
            }
        }
        last = next;
    }
    all
}
