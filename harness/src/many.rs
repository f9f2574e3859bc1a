//! Several traversals of the same trees under way at once: taking turns on one thread, or on threads of their own.
use crate::{geom::*, query, session::*};
use rtbvh::*;
use serde_json::{json, Value};
use std::sync::Barrier;

/// Asks a traversal for its next offer, and limits the ray's distance then
type Turn<'a> = Box<dyn FnMut(Option<f32>) -> Option<(u32, i32)> + 'a>;

fn one(r: &mut Ray, c: Option<f32>) -> i32 {
    if let Some(c) = c {
        r.t = r.t.min(c);
    }
    key(r.t) as i32
}

fn four(r: &mut RayPacket4, c: Option<f32>) -> i32 {
    if let Some(c) = c {
        for l in 0..4 {
            r.t[l] = r.t[l].min(c);
        }
    }
    key(r.t.x) as i32
}

macro_rules! turn {
    ($cut:ident, $it:expr) => {{
        let mut it = $it;
        Box::new(move |c| it.next().map(|(id, r)| (id, $cut(r, c))))
    }};
}

macro_rules! turns {
    ($cut:ident, $ray:ident, $prims:ident, $tree:expr, $made:path, $parts:expr, $api:ident, $X:ident, $O:ident, $T:ident, $U:ident, $idx:ident, $obj:ident) => {{
        let o = |x: (&'a P, _)| (x.0.id, x.1);
        let (nodes, idx) = $parts;
        match ($api, $tree) {
            ("sobj", _) => turn!($cut, $O::from_slices($ray, nodes, idx, $prims).map(o)),
            ("idx", $made(b)) => turn!($cut, b.$idx($ray)),
            ("nidx", $made(b)) => turn!($cut, $X::new($ray, b)),
            ("tidx", $made(b)) => turn!($cut, $T::iter(b, $ray)),
            ("obj", $made(b)) => turn!($cut, b.$obj($ray, $prims).map(o)),
            ("nobj", $made(b)) => turn!($cut, $O::new($ray, b, $prims).map(o)),
            ("tobj", $made(b)) => turn!($cut, $U::iter(b, $ray, $prims).map(o)),
            _ => turn!($cut, $X::from_slices($ray, nodes, idx)),
        }
    }};
}

enum Rays {
    One(Ray),
    Four(RayPacket4),
}

fn turn<'a>(tree: &'a Tree, wide: &'a Wide, on: &str, api: &str, ray: &'a mut Rays, prims: &'a [P]) -> Turn<'a> {
    match (on, ray) {
        ("b", Rays::One(r)) => {
            turns!(one, r, prims, tree, Tree::Bvh, tree.parts(), api, BvhIndexIterator, BvhIterator, IntoRayIndexIterator, IntoRayIterator, traverse_iter_indices, traverse_iter)
        }
        ("b", Rays::Four(r)) => {
            turns!(four, r, prims, tree, Tree::Bvh, tree.parts(), api, BvhPacketIndexIterator, BvhPacketIterator, IntoPacketIndexIterator, IntoPacketIterator, traverse_iter_indices_packet, traverse_iter_packet)
        }
        (_, Rays::One(r)) => {
            turns!(one, r, prims, wide, Wide::Mbvh, wide.parts(), api, MbvhIndexIterator, MbvhIterator, IntoRayIndexIterator, IntoRayIterator, traverse_iter_indices, traverse_iter)
        }
        (_, Rays::Four(r)) => {
            turns!(four, r, prims, wide, Wide::Mbvh, wide.parts(), api, MbvhPacketIndexIterator, MbvhPacketIterator, IntoPacketIndexIterator, IntoPacketIterator, traverse_iter_indices_packet, traverse_iter_packet)
        }
    }
}

fn copy(t: &Tree) -> Tree {
    match t {
        Tree::Bvh(b) => Tree::Bvh(b.clone()),
        t => Tree::Raw(t.parts().0.to_vec(), t.parts().1.to_vec()),
    }
}

fn copyw(t: &Wide) -> Wide {
    match t {
        Wide::Mbvh(b) => Wide::Mbvh(b.clone()),
        t => Wide::Raw(t.parts().0.to_vec(), t.parts().1.to_vec()),
    }
}

struct Job {
    on: String,
    api: String,
    kind: String,
    rays: Vec<RaySpec>,
    cuts: Vec<Option<f32>>,
}

impl Job {
    fn rays(&self) -> Rays {
        if self.kind == "r" {
            Rays::One(mk_ray(self.rays[0], "new"))
        } else {
            Rays::Four(mk_packet(&self.rays))
        }
    }
}

/// A whole traversal; ends are written as -1, and it is asked once more after its end
fn whole(tree: &Tree, wide: &Wide, prims: &[P], j: &Job, cap: usize, mut pause: impl FnMut(usize)) -> Vec<[i64; 2]> {
    let mut r = j.rays();
    let mut t = turn(tree, wide, &j.on, &j.api, &mut r, prims);
    let (mut got, mut ends) = (Vec::new(), 0);
    while ends < 2 && got.len() < cap {
        let i = got.len();
        pause(i);
        match t(j.cuts.get(i).copied().flatten()) {
            Some((id, t)) => got.push([id as i64, t as i64]),
            None => {
                ends += 1;
                got.push([-1, 0]);
            }
        }
    }
    got
}

/// Is it a tree that traversals may be run on?
pub fn many(s: &mut Session, op: &Value) -> Vec<Value> {
    let mut cap = 64;
    let jobs: Vec<Job> = op["ts"]
        .as_array()
        .unwrap()
        .iter()
        .filter(|t| if t["on"] == "b" { !matches!(s.tree, Tree::None | Tree::Ffi(_)) } else { !matches!(s.wide, Wide::None | Wide::Ffi(_)) })
        .map(|t| {
            let on = t["on"].as_str().unwrap().to_owned();
            cap = cap.max(4 * if on == "b" { s.tree.parts().1.len() } else { s.wide.parts().1.len() } + 16);
            Job {
                api: t["api"].as_str().unwrap().to_owned(),
                kind: t["kind"].as_str().unwrap().to_owned(),
                rays: query::rays(s, t),
                cuts: t["cuts"].as_array().unwrap().iter().map(|t| s.grid.t(t)).collect(),
                on,
            }
        })
        .collect();
    if jobs.is_empty() {
        return vec![];
    }
    // Each of them alone, on copies of the trees, each on a thread that has never traversed anything
    let (tree, wide) = (copy(&s.tree), copyw(&s.wide));
    let prims = s.prims.clone();
    let alone: Vec<Vec<[i64; 2]>> = jobs
        .iter()
        .map(|j| std::thread::scope(|x| x.spawn(|| whole(&tree, &wide, &prims, j, cap, |_| ())).join()).unwrap_or_else(|p| std::panic::resume_unwind(p)))
        .collect();
    let mode = op["mode"].as_str().unwrap();
    // What was offered, in the order of offers: which traversal, id, distance
    let mut got: Vec<[i64; 3]> = Vec::new();
    let (tree, wide, prims) = (&s.tree, &s.wide, &s.prims[..]);
    if mode == "threads" {
        let gate = Barrier::new(jobs.len());
        let seed = op["seed"].as_u64().unwrap_or(0);
        let all: Vec<Vec<[i64; 2]>> = std::thread::scope(|x| {
            let hs: Vec<_> = jobs
                .iter()
                .enumerate()
                .map(|(w, j)| {
                    let gate = &gate;
                    x.spawn(move || {
                        gate.wait();
                        let mut h = seed.wrapping_mul(0x9e3779b97f4a7c15) ^ w as u64;
                        whole(tree, wide, prims, j, cap, |_| {
                            h = h.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            if h >> 62 == 0 {
                                std::thread::yield_now();
                            }
                        })
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap_or_else(|p| std::panic::resume_unwind(p))).collect()
        });
        for (w, a) in all.iter().enumerate() {
            got.extend(a.iter().map(|x| [w as i64, x[0], x[1]]));
        }
    } else {
        let mut rays: Vec<Rays> = jobs.iter().map(|j| j.rays()).collect();
        let mut ts: Vec<Option<Turn>> = rays.iter_mut().zip(&jobs).map(|(r, j)| Some(turn(tree, wide, &j.on, &j.api, r, prims))).collect();
        let mut at = vec![0; jobs.len()];
        for w in op["order"].as_array().unwrap() {
            let w = w.as_i64().unwrap();
            let (w, drop) = if w < 0 { (-1 - w as i64, true) } else { (w, false) };
            let w = w as usize % jobs.len();
            if drop {
                ts[w] = None;
            }
            // It has ended and has been asked once more
            if at[w] >= alone[w].len() {
                continue;
            }
            if let Some(t) = &mut ts[w] {
                let x = t(jobs[w].cuts.get(at[w]).copied().flatten());
                at[w] += 1;
                got.push(match x {
                    Some((id, t)) => [w as i64, id as i64, t as i64],
                    None => [w as i64, -1, 0],
                });
            }
        }
    }
    let (bn, bi) = s.tree.parts();
    let (wn, wi) = s.wide.parts();
    vec![json!({"e": "many", "mode": mode, "alone": alone, "got": got, "nodes": nodes_json(bn), "idx": bi, "wn": wide_json(wn), "widx": wi})]
}
