//! C18 to C20: the search, crosses, and the estimates for them.

use crate::{bridge::*, ctx::*, gen::*, model::*, tables::*};
use barbarosa::{
    cube_n::{
        cube3::{cfop::cross, heuristics},
        pieces::edge::min_moves_to_solve,
        AxisMove, Cube2, Cube3,
    },
    generic::{
        moves::AsMove,
        piece::Piece,
        search::{ida::IDASearcher, Searcher, Solver},
        Alg, Cube, Movable, Move,
    },
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

// ---------------------------------------------------------------- C18: a puzzle given by its graph

/// A puzzle whose states are the nodes of a small graph
#[derive(Debug, Clone, PartialEq, Eq)]
struct Node(u8);

/// Equal nodes have equal hashes, and so have some that differ: more is not to be relied on
impl std::hash::Hash for Node {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        (self.0 % 3).hash(h);
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
struct Step {
    from: u8,
    to: u8,
    label: u8,
}

impl Move for Step {
    fn inverse(&self) -> Self {
        Step { from: self.to, to: self.from, label: self.label }
    }
}

impl AsMove for Node {
    type Move = Step;
}

impl Movable<Step> for Node {
    fn apply(&mut self, m: &Step) {
        if self.0 == m.from {
            self.0 = m.to;
        }
    }
}

impl Cube for Node {
    const SOLVED: Self = Node(0);
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct GraphCase {
    /// for each node, the nodes its moves lead to
    next: Vec<Vec<u8>>,
    goal: Vec<bool>,
    start: u8,
    max_depth: i32,
    /// in quarters, for each node
    estimate: Vec<u16>,
    kind: u8,
}

const FAR: u32 = u32::MAX;

impl GraphCase {
    fn distances_to_goal(&self) -> Vec<u32> {
        let n = self.next.len();
        let mut back = vec![vec![]; n];
        for (a, to) in self.next.iter().enumerate() {
            for b in to {
                back[*b as usize].push(a);
            }
        }
        let mut d = vec![FAR; n];
        let mut queue = VecDeque::new();
        for i in 0..n {
            if self.goal[i] {
                d[i] = 0;
                queue.push_back(i);
            }
        }
        while let Some(i) = queue.pop_front() {
            for &j in &back[i] {
                if d[j] == FAR {
                    d[j] = d[i] + 1;
                    queue.push_back(j);
                }
            }
        }
        d
    }

    /// The estimate of a node, by kind: none, exact, whole numbers or fractions that never
    /// overestimate, a constant that may, or anything
    fn estimates(&self, dist: &[u32]) -> Vec<f32> {
        dist.iter()
            .zip(&self.estimate)
            .map(|(d, e)| {
                let e = *e as f32 / 4.0;
                let cap = if *d == FAR { 40.0 } else { *d as f32 };
                match self.kind {
                    0 => 0.0,
                    1 => cap,
                    2 => e.floor().min(cap),
                    3 => e.min(cap),
                    // a fraction of the way
                    4 => cap * (e / 4.0).fract(),
                    5 => {
                        if *d == FAR {
                            f32::INFINITY
                        } else {
                            e.min(cap)
                        }
                    }
                    6 => e,
                    _ => {
                        if *d == 0 {
                            0.0
                        } else {
                            e
                        }
                    }
                }
            })
            .collect()
    }

    fn admissible(&self) -> bool {
        self.kind < 6
    }
}

const KINDS: [&str; 8] = [
    "no estimate",
    "exact estimate",
    "whole estimate",
    "fractional estimate",
    "a fraction of the way",
    "infinite where there is no way",
    "any estimate",
    "any estimate, none at a goal",
];

fn graph_case(max_nodes: usize) -> BoxedStrategy<GraphCase> {
    let graph = prop_oneof![
        // any graph
        3 => (2..=max_nodes).prop_flat_map(|n| prop::collection::vec(prop::collection::vec(0..n as u8, 0..=3), n)),
        // a line with ways back and some shortcuts, so that solutions are long
        2 => (2..=max_nodes).prop_flat_map(|n| {
            prop::collection::vec((prop::bool::ANY, prop::option::weighted(0.2, 0..n as u8), prop::bool::ANY), n).prop_map(move |v| {
                v.into_iter().enumerate().map(|(i, (back, jump, first))| {
                    let mut to = vec![];
                    if i > 0 { to.push(i as u8 - 1); }
                    if back && i + 1 < n { to.push(i as u8 + 1); }
                    to.extend(jump);
                    if first { to.reverse(); }
                    to
                }).collect()
            })
        }),
    ];
    graph
        .prop_flat_map(|next: Vec<Vec<u8>>| {
            let n = next.len();
            let goal = prop_oneof![
                2 => Just((0..n).map(|i| i == 0).collect::<Vec<_>>()),
                1 => prop::collection::vec(prop::bool::weighted(0.2), n),
            ];
            let start = prop_oneof![2 => Just(n as u8 - 1), 1 => 0..n as u8];
            let max_depth = prop_oneof![3 => 0..=n as i32 + 1, 1 => Just(12)];
            (Just(next), goal, start, max_depth, prop::collection::vec(0u16..40, n), 0u8..8)
        })
        .prop_map(|(next, goal, start, max_depth, estimate, kind)| GraphCase { next, goal, start, max_depth, estimate, kind })
        .boxed()
}

fn graph_search(c: &GraphCase, t: &mut Tally) -> Res {
    let dist = c.distances_to_goal();
    let h = c.estimates(&dist);
    let searcher = IDASearcher::new(
        |n: &Node| h[n.0 as usize],
        |n: &Node| {
            let from = n.0;
            c.next[from as usize].iter().enumerate().map(move |(i, to)| (Node(*to), Step { from, to: *to, label: i as u8 })).collect::<Vec<_>>()
        },
        c.max_depth,
    );
    let d = dist[c.start as usize];
    t.class(KINDS[c.kind as usize]);
    t.class(match d {
        FAR => "no solution",
        0 => "already at a goal",
        1..=2 => "1 or 2 moves away",
        _ => "3 or more moves away",
    });
    t.nontrivial_if(d != FAR && d >= 2);
    let only_solved = c.goal.iter().enumerate().all(|(i, g)| *g == (i == 0));
    let found = searcher.search(&Node(c.start), |n| c.goal[n.0 as usize]);
    if only_solved {
        // the solver is the search for the solved state
        let solved = searcher.solve(&Node(c.start));
        ensure!(
            solved == found.as_ref().map(|f| f.0.clone()),
            "solving gives {solved:?} where searching the solved state gives {found:?}"
        );
    }
    match found {
        Some((alg, end)) => {
            let mut at = c.start;
            for m in &alg.moves {
                ensure!(
                    m.from == at && c.next[at as usize].get(m.label as usize) == Some(&m.to),
                    "the solution {:?} makes the move {m:?} at {at}",
                    alg.moves
                );
                at = m.to;
            }
            ensure!(Node(at) == end, "the solution {:?} leads to {at}, but {end:?} is returned", alg.moves);
            ensure!(c.goal[at as usize], "the solution {:?} leads to {at}, which is no goal", alg.moves);
            if d == 0 {
                ensure!(alg.moves.is_empty(), "the start is a goal, but the solution is {:?}", alg.moves);
            }
            if c.admissible() {
                ensure!(
                    alg.moves.len() == d as usize,
                    "with estimates {h:?} the solution {:?} has {} moves, while {d} are enough",
                    alg.moves,
                    alg.moves.len()
                );
            }
        }
        None => {
            ensure!(d != 0, "the start is a goal, but the search gives up");
            ensure!(
                !c.admissible() || d == FAR || d as i64 > c.max_depth as i64,
                "with estimates {h:?} the search gives up, while {d} moves are enough and {} are allowed",
                c.max_depth
            );
            t.class("gives up");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18: the cubes

fn alg_turns(alg: &Alg<AxisMove>) -> Vec<Turn> {
    alg.moves.iter().map(turn_of).collect()
}

fn played(s: &State, ts: &[Turn]) -> State {
    ts.iter().fold(s.clone(), |s, t| s.turned(turn_no(*t)))
}

fn shown(ts: &[Turn]) -> String {
    ts.iter().map(|t| format!("{}{}", FACES[t.face as usize], ["", "", "2", "'"][t.q as usize])).collect::<Vec<_>>().join(" ")
}

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CubeCase {
    turns: Vec<Turn>,
    /// how the estimate is made
    kind: u8,
    noise: u8,
}

/// The largest of the exact cross distances: never more than the true distance
fn cross_estimate(s: &State) -> u8 {
    crosses().iter().map(|c| c.distance(s)).max().unwrap()
}

fn cube3_search(c: &CubeCase, near: &std::collections::HashMap<State, u8>, t: &mut Tally) -> Res {
    let s = state_after(&c.turns);
    let Some(d) = near.get(&s).copied() else { return Ok(()) };
    let cube = s.cube();
    let noise = c.noise as f32 / 8.0;
    let found = match c.kind {
        0 => cube.solve_with_heuristic(heuristics::zero),
        1 => cube.solve_with_heuristic(heuristics::manhattan),
        2 => cube.solve_with_heuristic(|x| cross_estimate(&State::of(x)) as f32),
        3 => cube.solve_with_heuristic(|x| (cross_estimate(&State::of(x)) as f32 - noise).max(0.0)),
        4 => cube.solve_with_heuristic(|x| near.get(&State::of(x)).map_or(5.0 - noise, |d| *d as f32)),
        5 => cube.solve_with_heuristic(|x| near.get(&State::of(x)).map_or(5.0, |d| *d as f32) * noise.min(1.0)),
        _ => {
            let searcher = IDASearcher::new(|x: &Cube3| f32::from(x.edges != Cube3::SOLVED.edges), Cube3::successors, d as i32);
            searcher.solve(&cube)
        }
    };
    t.nontrivial_if(d >= 2);
    t.class(format!("{d} turns away"));
    t.class(["no estimate", "manhattan", "crosses", "crosses less a bit", "exact", "part of the exact", "0 or 1"][c.kind as usize]);
    let Some(alg) = found else { fail!("gives up on a cube {d} turns from solved") };
    let ts = alg_turns(&alg);
    ensure!(played(&s, &ts) == State::solved(), "the solution {} does not solve the cube", shown(&ts));
    let mut same = cube.clone();
    same.apply(&alg);
    ensure!(same.is_solved(), "the solution {} does not solve the cube", shown(&ts));
    ensure!(d != 0 || ts.is_empty(), "a solved cube gets the solution {}", shown(&ts));
    // the manhattan estimate does overestimate: a half turn may count 1.5
    if c.kind != 1 {
        ensure!(ts.len() == d as usize, "the solution {} has {} turns, while {d} are enough", shown(&ts), ts.len());
    }
    Ok(())
}

fn cube2_search(ts: &[Turn], t: &mut Tally) -> Res {
    let s = state_after(ts);
    let mut cube = Cube2::SOLVED;
    for m in ts {
        cube.apply(&axis_move(m.face, m.q));
    }
    let searcher = IDASearcher::new(
        |_: &Cube2| 0.0,
        |c: &Cube2| (0..18).map(|m| axis_move(m / 3, m % 3 + 1)).map(|m| (c.clone().moved(&m), m)).collect::<Vec<_>>(),
        ts.len() as i32,
    );
    let Some((alg, end)) = searcher.search(&cube, |c| c.is_solved()) else {
        fail!("gives up on a 2x2 at most {} turns from solved", ts.len())
    };
    t.nontrivial_if(alg.moves.len() >= 2);
    let out = alg_turns(&alg);
    ensure!(out.len() <= ts.len(), "{} turns, where {} are enough", out.len(), ts.len());
    let p = played(&s, &out);
    ensure!(p.cp == State::solved().cp && p.co == State::solved().co, "the solution {} does not solve the 2x2", shown(&out));
    ensure!(end.is_solved(), "the state returned is not solved");
    Ok(())
}

/// Searching another goal than the solved state: a cross, with exact and with lowered estimates
fn cross_goal(c: &CrossCase, t: &mut Tally) -> Res {
    let f = c.face;
    let x = &crosses()[f as usize];
    let s = x.state(c.cross, &c.filler);
    let d = x.distance_no(c.cross);
    let less = if d <= 5 { c.less as f32 / 8.0 } else { (c.less % 8) as f32 / 8.0 };
    let h = |s: &State| (x.distance(s) as f32 - less).max(0.0);
    let searcher = IDASearcher::new(|c: &Cube3| h(&State::of(c)), Cube3::successors, d as i32);
    let cube = s.cube();
    let Some((alg, end)) = searcher.search(&cube, |c| x.distance(&State::of(c)) == 0) else {
        fail!("gives up on a cross {d} turns away")
    };
    let ts = alg_turns(&alg);
    t.nontrivial_if(d >= 2);
    t.class(format!("{d} turns away"));
    let after = played(&s, &ts);
    ensure!(end == after.cube(), "the state returned is not the one after {}", shown(&ts));
    ensure!(x.distance(&after) == 0, "the solution {} does not reach the goal", shown(&ts));
    ensure!(ts.len() == d as usize, "the solution {} has {} turns, while {d} are enough", shown(&ts), ts.len());
    Ok(())
}

/// A place on a ring; the goal is 0
#[derive(Debug, Clone, PartialEq, Eq, Hash)]
struct Place(u32);

#[derive(Debug, Clone, PartialEq, Eq)]
struct Walk {
    ring: u32,
    up: bool,
}

impl Move for Walk {
    fn inverse(&self) -> Self {
        Walk { up: !self.up, ..*self }
    }
}

impl AsMove for Place {
    type Move = Walk;
}

impl Movable<Walk> for Place {
    fn apply(&mut self, m: &Walk) {
        self.0 = if m.up { self.0 + 1 } else { self.0 + m.ring - 1 } % m.ring;
    }
}

impl Cube for Place {
    const SOLVED: Self = Place(0);
}

/// Long ways: on a ring, the goal is `short` steps away, and `short + extra` the other way around
#[derive(Debug, Clone, Serialize, Deserialize)]
struct RingCase {
    short: u32,
    extra: u32,
    up_first: bool,
    mirror: bool,
    kind: u8,
    /// largest value of the estimate
    cap: u32,
    /// how much deeper than needed
    spare: i32,
}

fn ring_case() -> BoxedStrategy<RingCase> {
    // no estimate makes it slow
    let size = prop_oneof![
        4 => (1u32..500, Just(0u8)),
        4 => (1u32..1400, 1u8..4),
        1 => (250u32..262, 0u8..4),
    ];
    (size, prop_oneof![3 => 0u32..4, 1 => 0u32..40], any::<bool>(), any::<bool>(), prop_oneof![1u32..40, 1u32..1000], prop_oneof![2 => -3i32..4, 1 => Just(2000)])
        .prop_map(|((short, kind), extra, up_first, mirror, cap, spare)| RingCase { short, extra, up_first, mirror, kind, cap, spare })
        .boxed()
}

fn ring_search(c: &RingCase, t: &mut Tally) -> Res {
    let ring = 2 * c.short + c.extra;
    let from = if c.mirror { ring - c.short } else { c.short };
    let steps = |p: &Place| p.0.min(ring - p.0);
    let estimate = |p: &Place| match c.kind {
        0 => 0.0,
        1 => steps(p) as f32,
        2 => steps(p).min(c.cap) as f32,
        _ => steps(p).min(c.cap) as f32 * 0.75,
    };
    let next = |p: &Place| {
        [c.up_first, !c.up_first].map(|up| {
            let m = Walk { ring, up };
            (p.clone().moved(&m), m)
        })
    };
    let start = Place(from);
    let first = estimate(&start);
    // the bound may grow by this much over the first estimate
    let depth = (c.short as f32 - first).ceil() as i32 + c.spare;
    t.nontrivial_if(c.short >= 2);
    t.class(match c.short {
        0..=50 => "up to 50 moves away",
        51..=255 => "51 to 255 moves away",
        _ => "more than 255 moves away",
    });
    let found = IDASearcher::new(estimate, next, depth).search(&start, |p| p.0 == 0);
    match found {
        None => ensure!(c.spare < 0, "gives up although a goal is {} moves away, which is within the bound (estimate {first}, {depth} more)", c.short),
        Some((alg, end)) => {
            let mut p = start;
            for m in &alg.moves {
                ensure!(m.ring == ring, "a move that was not offered");
                p.apply(m);
            }
            ensure!(p == end && end.0 == 0, "the {} moves found lead to {p:?}, and the state found is {end:?}", alg.moves.len());
            ensure!(alg.moves.len() as u32 == c.short, "{} moves where {} are enough", alg.moves.len(), c.short);
        }
    }
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the start is at least two moves away from the nearest goal.");
    ctx.case_limit(200);
    ctx.prop("any-graph", ctx.n(400_000, 8_000_000), || graph_case(7), graph_search);
    ctx.prop("bigger-graph", ctx.n(60_000, 2_000_000), || graph_case(10), graph_search);
    ctx.prop("long-ways", ctx.n(400, 10_000), ring_case, ring_search);
    let near = shallow(if ctx.thorough() { 5 } else { 4 });
    let len = 5;
    ctx.prop(
        "cube3",
        ctx.n(12_000, 100_000),
        || {
            (prop_oneof![Just(1u8), Just(2), Just(2), Just(3), Just(4), Just(5), Just(6), Just(0)], 0u8..8).prop_flat_map(move |(kind, noise)| {
                let n = match kind {
                    2 | 4 => len,
                    0 | 6 => 3,
                    _ => 3,
                };
                (turns(n, 0), Just(kind), Just(noise)).prop_map(|(turns, kind, noise)| CubeCase { turns, kind, noise })
            })
        },
        |c, t| cube3_search(c, &near, t),
    );
    ctx.prop("cube2", ctx.n(3_000, 30_000), || turns(3, 0), |ts, t| cube2_search(ts, t));
    ctx.prop("cross-as-goal", ctx.n(20_000, 300_000), cross_case, cross_goal);
    ctx.assume("Estimates are not negative and not NaN. With estimates that may overestimate only validity of the solution is required, not that one is found.");
}

// ---------------------------------------------------------------- C19

#[derive(Debug, Clone, Serialize, Deserialize)]
struct CrossCase {
    face: u8,
    cross: usize,
    filler: State,
    less: u8,
}

fn cross_case() -> BoxedStrategy<CrossCase> {
    (0u8..6, 0..CROSS_STATES, state(), 0u8..16).prop_map(|(face, cross, filler, less)| CrossCase { face, cross, filler, less }).boxed()
}

/// Pieces of a cross that are home
fn home_pieces(x: &Cross, s: &State) -> i32 {
    x.edges.iter().filter(|e| s.ep[**e] as usize == **e && s.eo[**e] == 0).count() as i32
}

fn solved_by(f: u8, optimal: bool, s: &State, t: &mut Tally) -> Res {
    let x = &crosses()[f as usize];
    let d = x.distance(s);
    let cube = s.cube();
    let name = if optimal { "the optimal solver" } else { "the fast solver" };
    let found = if optimal { cross::solve_cross(&cube, &face(f)) } else { cross::solve_cross_fast(&cube, &face(f)) };
    t.nontrivial_if(d >= 2);
    t.class(format!("{} turns away", d));
    let Some((alg, end)) = found else { fail!("{name} gives up on the {} cross", FACES[f as usize]) };
    let ts = alg_turns(&alg);
    let after = played(s, &ts);
    ensure!(
        x.distance(&after) == 0 && home_pieces(x, &after) == 4,
        "after {} by {name} only {} pieces of the {} cross are home",
        shown(&ts),
        home_pieces(x, &after),
        FACES[f as usize]
    );
    ensure!(end == after.cube(), "the cube returned by {name} is not the one after {}", shown(&ts));
    let mut moved = cube;
    moved.apply(&alg);
    ensure!(end == moved, "the cube returned by {name} is not the one that its turns {alg} make");
    ensure!(d != 0 || ts.is_empty(), "the cross is solved, but {name} gives {alg}");
    if optimal {
        ensure!(
            ts.len() == d as usize,
            "{name} solves the {} cross in {} turns ({alg}), while {d} are enough",
            FACES[f as usize],
            ts.len()
        );
    }
    t.class(match ts.len() as i32 - d as i32 {
        0 => "shortest",
        1 => "one turn more",
        _ => "two or more turns more",
    });
    Ok(())
}

fn pieces_counted(s: &State, t: &mut Tally) -> Res {
    let cube = s.cube();
    for f in 0..6u8 {
        let x = &crosses()[f as usize];
        let n = cross::count_cross_pieces(&cube, &face(f));
        let home = home_pieces(x, s);
        t.nontrivial_if((1..4).contains(&home));
        ensure!(n == home, "{n} pieces of the {} cross are counted, {home} are home and oriented", FACES[f as usize]);
    }
    Ok(())
}

fn pieces_listed(f: &u8, t: &mut Tally) -> Res {
    t.nontrivial();
    let v = face_vec(*f);
    let listed = cross::get_cross_pieces(&face(*f));
    let mut got: Vec<V> = listed.iter().map(|p| edge_pos(3, *p)).collect();
    got.sort();
    let mut want: Vec<V> = (0..12).map(edge_home).filter(|p| dot(*p, v) > 0).collect();
    want.sort();
    ensure!(got == want, "the pieces of the {} cross are listed as {listed:?}", FACES[*f as usize]);
    for i in 0..12 {
        let p = edge_home(i);
        let is = cross::is_cross_edge(&edge_at(p, true).position(), &face(*f));
        ensure!(is == (dot(p, v) > 0), "the edge {} is {}said to be of the {} cross", name_place(3, p), if is { "" } else { "not " }, FACES[*f as usize]);
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the cross is at least two turns away (or, for counting, if some but not all of its pieces are home).");
    ctx.case_limit(300);
    ctx.all("listed", (0..6).collect(), pieces_listed);
    ctx.prop("counted", ctx.n(40_000, 1_000_000), state_mix, pieces_counted);
    ctx.prop("counted-near", ctx.n(20_000, 400_000), || turns(6, 0).prop_map(|t| state_after(&t)), pieces_counted);
    ctx.prop("fast", ctx.n(12_000, 60_000), cross_case, |c, t| {
        solved_by(c.face, false, &crosses()[c.face as usize].state(c.cross, &c.filler), t)
    });
    // the optimal solver needs long where the cross is far away
    let far = if ctx.thorough() { 8 } else { 6 };
    ctx.prop("optimal", ctx.n(2_000, 10_000), cross_case, move |c, t| {
        let x = &crosses()[c.face as usize];
        if x.distance_no(c.cross) > far {
            return Ok(());
        }
        solved_by(c.face, true, &x.state(c.cross, &c.filler), t)
    });
    // the few farthest ones
    let pick = |f: u8, d: u8| -> Vec<usize> { (0..CROSS_STATES).filter(|i| crosses()[f as usize].distance_no(*i) == d).collect() };
    let farthest: Vec<(u8, usize, bool)> = (0..6u8)
        .flat_map(|f| {
            let (seven, eight) = (pick(f, 7), pick(f, 8));
            let r = ctx.seed_u64("farthest") as usize;
            let seven = seven[(r + f as usize * 977) % seven.len()];
            let eight = eight[(r + f as usize) % eight.len()];
            [(f, seven, true), (f, seven, false), (f, eight, false)]
        })
        .collect();
    ctx.all("farthest", farthest, |(f, i, optimal), t| {
        solved_by(*f, *optimal, &crosses()[*f as usize].state(*i, &State::solved()), t)
    });
    let near = |c: &(u8, Vec<Turn>)| (c.0, state_after(&c.1));
    ctx.prop("optimal-near", ctx.n(30_000, 400_000), || (0u8..6, turns(5, 0)), move |c, t| {
        let (f, s) = near(c);
        solved_by(f, true, &s, t)
    });
    ctx.prop("fast-near", ctx.n(20_000, 200_000), || (0u8..6, turns(7, 0)), move |c, t| {
        let (f, s) = near(c);
        solved_by(f, false, &s, t)
    });
}

// ---------------------------------------------------------------- C20

/// Least number of turns for one edge from every place and flip to every home
fn edge_distances() -> Vec<[u8; 24]> {
    let t = turns_table();
    (0..12)
        .map(|home| {
            let mut d = [u8::MAX; 24];
            d[home * 2] = 0;
            let mut queue = VecDeque::from([home * 2]);
            while let Some(i) = queue.pop_front() {
                for m in 0..18 {
                    let j = t.ep[m][i / 2] as usize * 2 + (i % 2 ^ t.eo[m][i / 2] as usize);
                    if d[j] == u8::MAX {
                        d[j] = d[i] + 1;
                        queue.push_back(j);
                    }
                }
            }
            d
        })
        .collect()
}

fn estimates(s: &State, single: &[[u8; 24]], t: &mut Tally) -> Res {
    let cube = s.cube();
    for f in 0..6u8 {
        let x = &crosses()[f as usize];
        let each = x.edges.map(|e| single[e][s.ep[e] as usize * 2 + s.eo[e] as usize]);
        let d = x.distance(s);
        t.nontrivial_if(d >= 2);
        let safe = cross::worse_but_admissable_cross_heuristic(&cube, &face(f));
        let fast = cross::good_cross_heuristic(&cube, &face(f));
        let max = each.iter().copied().max().unwrap();
        let sum: u8 = each.iter().sum();
        let name = FACES[f as usize];
        ensure!(safe <= d as f32, "the safe estimate of the {name} cross is {safe}, but {d} turns are enough");
        ensure!((safe == 0.0) == (d == 0), "the safe estimate of the {name} cross is {safe}, the distance {d}");
        ensure!(safe == max as f32, "the safe estimate of the {name} cross is {safe}, the figures of its edges are {each:?}");
        ensure!(fast == sum as f32 / 2.0, "the fast estimate of the {name} cross is {fast}, the figures of its edges are {each:?}");
    }
    Ok(())
}

pub fn c20(ctx: &Ctx) {
    ctx.rule("A case counts as non-trivial if the edge is not home (single edges), or if a cross is at least two turns away.");
    let single = edge_distances();
    let cases: Vec<(usize, usize, u8)> = (0..12).flat_map(|h| (0..12).flat_map(move |p| (0..2).map(move |o| (h, p, o)))).collect();
    ctx.all("single-edges", cases, |(h, p, o), t| {
        let home = edge_at(edge_home(*h), true).position();
        let d = single[*h][*p * 2 + *o as usize];
        let n = min_moves_to_solve(&home, &edge_at(edge_home(*p), *o == 0));
        t.nontrivial_if(d > 0);
        ensure!(
            n == d as i32,
            "{n} moves are said to be needed from {} ({}) to {}, the least number is {d}",
            name_place(3, edge_home(*p)),
            if *o == 0 { "oriented" } else { "flipped" },
            name_place(3, edge_home(*h))
        );
        Ok(())
    });
    ctx.prop("estimates", ctx.n(60_000, 2_000_000), state_mix, |s, t| estimates(s, &single, t));
    ctx.prop("estimates-near", ctx.n(20_000, 400_000), || turns(5, 0).prop_map(|t| state_after(&t)), |s, t| estimates(s, &single, t));
    // every arrangement of the edges of every cross
    ctx.all("every-cross", (0..6u8).flat_map(|f| (0..CROSS_STATES / 990).map(move |b| (f, b))).collect(), |(f, block), t| {
        let x = &crosses()[*f as usize];
        t.nontrivial();
        for i in block * 990..(block + 1) * 990 {
            let s = x.state(i, &State::solved());
            let d = x.distance_no(i);
            let safe = cross::worse_but_admissable_cross_heuristic(&s.cube(), &face(*f));
            let max = x.edges.iter().map(|e| single[*e][s.ep[*e] as usize * 2 + s.eo[*e] as usize]).max().unwrap();
            ensure!(
                safe == max as f32 && safe <= d as f32 && (safe == 0.0) == (d == 0),
                "the safe estimate is {safe} for the cross number {i} at distance {d}, the largest figure of an edge is {max}"
            );
        }
        Ok(())
    });
}
