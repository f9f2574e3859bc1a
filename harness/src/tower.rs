//! Hand-made trees that are too large to be written down node by node: leaf i holds `fat` entries, its box spans i..i+1 along x and
//! 0..1 along y and z, every node has exactly the box of what is below it. Results are written down as runs of ids.
//! Everything runs on a thread with an ordinary stack.
use crate::{ffi, geom::{RaySpec, P}, query, session::*};
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};

pub struct Tower {
    pub n: usize,
    pub fat: usize,
    pub shape: String,
    pub prims: Vec<P>,
    pub tree: Tree,
    pub wide: Wide,
    /// The row has moved by this much, by refitting
    pub off: i64,
    pub refits: i64,
    pub leaf: usize,
    /// The same, made through the C interface
    pub ffi: Option<ffi::Handle>,
    pub wffi: Option<ffi::Handle>,
}

fn node(lo: usize, hi: usize) -> BvhNode {
    let mut r = BvhNode::new();
    r.bounds.min = vec3(lo as f32, 0.0, 0.0);
    r.bounds.max = vec3(hi as f32, 1.0, 1.0);
    r
}

pub fn make(n: usize, fat: usize, shape: &str) -> (Vec<BvhNode>, Vec<u32>) {
    let mut nodes = vec![BvhNode::new()];
    let mut work = vec![(0, 0, n / fat)];
    while let Some((at, lo, hi)) = work.pop() {
        let mut x = node(lo, hi);
        if hi - lo == 1 {
            x.bounds.extra1 = fat as i32;
            x.bounds.extra2 = (lo * fat) as i32;
            nodes[at] = x;
            continue;
        }
        let m = match shape {
            "left" => hi - 1,
            "right" => lo + 1,
            "comb" if hi - lo > 16 => hi - 8,
            "combr" if hi - lo > 16 => lo + 8,
            "zig" => {
                if (hi - lo) % 2 == 1 {
                    lo + 1
                } else {
                    hi - 1
                }
            }
            _ => (lo + hi) / 2,
        };
        let f = nodes.len();
        nodes.push(BvhNode::new());
        nodes.push(BvhNode::new());
        x.bounds.extra1 = -1;
        x.bounds.extra2 = f as i32;
        nodes[at] = x;
        work.push((f, lo, m));
        work.push((f + 1, m, hi));
    }
    (nodes, (0..n as u32).collect())
}

/// A sequence of numbers as its ascending runs [first, last, step], in order of appearance
fn ascents(v: &[u32]) -> Vec<[u32; 3]> {
    let mut r: Vec<[u32; 3]> = Vec::new();
    for &x in v {
        match r.last_mut() {
            Some(l) if l[0] == l[1] && x > l[1] => *l = [l[0], x, x - l[0]],
            Some(l) if l[0] < l[1] && l[1].checked_add(l[2]) == Some(x) => l[1] = x,
            _ => r.push([x, x, 1]),
        }
        if r.len() > 2000 {
            break;
        }
    }
    r
}

/// A bag of numbers: the runs of different numbers, and how many repetitions there were
fn runs(mut v: Vec<u32>) -> (Vec<[u32; 3]>, usize) {
    v.sort_unstable();
    let n = v.len();
    v.dedup();
    (ascents(&v), n - v.len())
}

/// Rays are given relative to the row
pub fn ray(s: &[i64], off: i64) -> Ray {
    let x = (s[1] + 2 * off) as f32 * 0.5;
    let mut r = if s[0] == 0 {
        Ray::new(vec3(x, 0.5, 0.5), vec3(s[2] as f32, 0.0, 0.0))
    } else {
        Ray::new(vec3(x, -1.0, 0.5), vec3(0.0, s[2] as f32, 0.0))
    };
    if s[3] >= 0 {
        r.t = s[3] as f32;
    }
    r
}

impl Tower {
    pub fn new(op: &Value) -> Self {
        let n = op["n"].as_i64().unwrap() as usize;
        let fat = op["fat"].as_i64().unwrap() as usize;
        let shape = op["shape"].as_str().unwrap().to_owned();
        let (nodes, idx) = make(n, fat, &shape);
        let prims = (0..n).map(|i| P { id: i as u32, v: [Vec3::ZERO; 3], c: Vec3::ZERO }).collect();
        let tree = match bvh_from_raw(&nodes, &idx) {
            Some(b) => Tree::Bvh(b),
            None => Tree::Raw(nodes, idx),
        };
        Self { n, fat, shape, prims, tree, wide: Wide::None, off: 0, refits: 0, leaf: 0, ffi: None, wffi: None }
    }

    /// Built by the library from a row of triangles with the same boxes
    pub fn build(op: &Value) -> (Self, Value) {
        let n = op["n"].as_i64().unwrap() as usize;
        let leaf = op["leaf"].as_i64().unwrap() as usize;
        let b = op["b"].as_str().unwrap();
        // Their places in the row are a permutation
        let place = |i: usize| (i * op["mul"].as_i64().unwrap() as usize) % n;
        let prims: Vec<P> = (0..n)
            .map(|i| {
                let x = place(i) as f32;
                P { id: i as u32, v: [vec3(x, 0.0, 0.0), vec3(x + 1.0, 1.0, 1.0), vec3(x, 1.0, 0.0)], c: vec3(x + 0.5, 0.5, 0.5) }
            })
            .collect();
        let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
        let via = op["via"].as_str().unwrap_or("lib");
        let mut h = None;
        let builder = Builder { aabbs: if op["bb"] == "none" { None } else { Some(&boxes) }, primitives: &prims, primitives_per_leaf: std::num::NonZeroUsize::new(leaf) };
        let t = match b {
            _ if via == "ffi" => {
                h = ffi::build(b, leaf, if op["bb"] == "none" { None } else { Some(&boxes) }, &prims, op).0;
                Ok(h.and_then(|h| bvh_from_raw(h.bvh_nodes(), h.indices())).unwrap_or_default())
            }
            "binned" => builder.construct_binned_sah(),
            "spatial" => builder.construct_spatial_sah(),
            _ => builder.construct_locally_ordered_clustered(),
        };
        let t = match t {
            Ok(t) => t,
            Err(_) => Bvh::default(),
        };
        // Everything that can be reached, children in the order of their boxes
        let (nodes, idx) = (t.nodes(), t.indices());
        let (mut reached, mut at, mut ids) = (Vec::new(), Vec::new(), Vec::new());
        let (mut back, mut most, mut empty, mut bad) = (0, 0, 0, 0);
        let mut hash = 0xcbf29ce484222325u64;
        let mut mix = |x: u64| hash = (hash ^ x).wrapping_mul(0x100000001b3).rotate_left(23);
        let mut work = vec![0usize];
        while let Some(i) = work.pop() {
            if i >= nodes.len() || reached.len() > 2 * nodes.len() {
                bad += 1;
                continue;
            }
            let x = &nodes[i];
            reached.push(i as u32);
            for v in [x.bounds.min, x.bounds.max] {
                for a in 0..3 {
                    mix(v[a].to_bits() as u64);
                }
            }
            let (c, f) = (x.bounds.extra1, x.bounds.extra2);
            mix(c as u64);
            if c >= 0 {
                empty += (c == 0) as i32;
                most = most.max(c);
                let mut own = Vec::new();
                for p in f as i64..f as i64 + c as i64 {
                    match idx.get(p as usize) {
                        Some(id) => {
                            at.push(p as u32);
                            own.push(*id);
                        }
                        None => bad += 1,
                    }
                }
                own.sort_unstable();
                own.iter().for_each(|x| mix(*x as u64));
                ids.extend(own);
            } else {
                back += (f as i64 <= i as i64) as i32;
                work.push(f as usize + 1);
                work.push(f as usize);
            }
        }
        let (ids, rep) = runs(ids);
        let (at, again) = runs(at);
        let (reached, twice) = runs(reached);
        let e = json!({"e": "tbuild", "via": via, "b": b, "leaf": leaf, "bb": op["bb"], "mul": op["mul"], "nodes": nodes.len(), "refs": idx.len(), "ids": ids, "rep": rep, "at": at, "again": again,
            "reached": reached, "twice": twice, "back": back, "most": most, "empty": empty, "bad": bad, "valid": t.validate(n) as i32,
            "sig": [(hash & 0xffffff) as i64, ((hash >> 24) & 0xffffff) as i64, (hash >> 48) as i64]});
        (Self { n, fat: 1, shape: "built".to_owned(), prims, tree: Tree::Bvh(t), wide: Wide::None, off: 0, refits: 0, leaf, ffi: h, wffi: None }, e)
    }

    /// Which places the entries with these numbers have
    fn places(&self, ids: Vec<u32>) -> Vec<u32> {
        if self.shape != "built" {
            return ids;
        }
        ids.into_iter().map(|i| self.prims.get(i as usize).map_or(i, |p| p.v[0].x as u32)).collect()
    }

    pub fn run(&mut self, op: &Value) -> Vec<Value> {
        let e = match op["op"].as_str().unwrap() {
            "tower_validate" => match &self.tree {
                Tree::Bvh(b) => {
                    // Leaf i holds id i modulo m, and never gap
                    let (m, gap) = (op["mod"].as_u64().unwrap() as u32, op["gap"].as_i64().unwrap());
                    let swap = |i: u32| if i as i64 == gap { (i + 1) % m } else { i };
                    let idx: Vec<u32> = b.indices().iter().map(|i| swap(i % m)).collect();
                    let b = match bvh_from_raw(b.nodes(), &idx) {
                        Some(b) => b,
                        None => return vec![],
                    };
                    let r: Vec<i32> = ints_of(&op["cnts"]).iter().map(|c| b.validate(*c as usize) as i32).collect();
                    json!({"e": "tvalidate", "mod": m, "gap": gap, "cnts": op["cnts"], "r": r})
                }
                _ => return vec![],
            },
            "tower_mbvh" => {
                let via = op["via"].as_str().unwrap();
                let m = match (&self.tree, via) {
                    (Tree::Bvh(b), "construct") => Mbvh::construct(b),
                    (Tree::Bvh(b), "from") => Mbvh::from(b.clone()),
                    (t, _) => {
                        let (n, i) = t.parts();
                        Mbvh::construct_from_raw(n, i)
                    }
                };
                let mut evs = vec![self.wide_event(via, m.quad_nodes(), m.indices())];
                self.wide = Wide::Mbvh(m);
                self.wffi.take().iter().for_each(|h| h.free_wide());
                self.wffi = self.ffi.and_then(|h| h.to_wide().0);
                if self.ffi.is_some() {
                    let none: (&[MbvhNode], &[u32]) = (&[], &[]);
                    let (n, i) = self.wffi.as_ref().map_or(none, |h| (h.wide_nodes(), h.indices()));
                    evs.push(self.wide_event("ffi", n, i));
                }
                return evs.into_iter().map(|e| self.sign(e)).collect();
            }
            "tower_refit" => {
                let b = match &mut self.tree {
                    Tree::Bvh(b) => b,
                    _ => return vec![],
                };
                self.off = op["off"].as_i64().unwrap();
                let (fat, off, built) = (self.fat, self.off, self.shape == "built");
                let boxes: Vec<Aabb> = self
                    .prims
                    .iter()
                    .enumerate()
                    .map(|(i, p)| {
                        let x = (if built { p.v[0].x as i64 } else { (i / fat) as i64 } + off) as f32;
                        let mut r = Aabb::new();
                        r.min = vec3(x, 0.0, 0.0);
                        r.max = vec3(x + 1.0, 1.0, 1.0);
                        r
                    })
                    .collect();
                b.refit(&boxes);
                if let Some(h) = self.ffi {
                    h.refit(&boxes, 0);
                }
                self.refits += 1;
                self.wide = Wide::None;
                json!({"e": "trefit", "off": off})
            }
            _ => {
                let on = op["on"].as_str().unwrap();
                if on == "w" && matches!(self.wide, Wide::None) {
                    return vec![];
                }
                let kind = op["kind"].as_str().unwrap();
                let rs: Vec<Ray> = op["rays"].as_array().unwrap().iter().map(|r| ray(&ints_of(r), self.off)).collect();
                let plen = (op["plen"].as_i64().unwrap_or(self.n as i64) as usize).min(self.n);
                let mut ys = Vec::new();
                for api in ["idx", "sidx", "nidx", "tidx", "obj", "sobj", "nobj", "tobj"] {
                    let mut got = Vec::new();
                    let cap = 4 * self.n + 16;
                    let a = if kind == "r" {
                        let mut r = rs[0];
                        query::single(&self.tree, &self.wide, on, api, &mut r, &self.prims[..plen], |i, _| {
                            got.push(i);
                            got.len() >= cap
                        })
                    } else {
                        let mut r = packet4(&rs);
                        query::packet(&self.tree, &self.wide, on, api, &mut r, &self.prims[..plen], |i, _| {
                            got.push(i);
                            got.len() >= cap
                        })
                    };
                    if let Some(a) = a {
                        let over = got.len() >= cap;
                        let (r, again) = runs(self.places(got));
                        ys.push(json!({"api": api, "obj": api.ends_with("obj") as i32, "runs": r, "rep": again, "again": a as i32, "over": over as i32}));
                    }
                }
                if let Some(h) = if on == "b" { self.ffi } else { self.wffi } {
                    let mut con = query::Consumer { con: query::Con::None, prims: &[], cuts: vec![], stop: -1, y: vec![], stopped: 0, over: false, cap: 4 * self.n + 16, first: None };
                    let rays: Vec<RaySpec> = rs.iter().map(|r| (r.origin, r.direction, r.t, None)).collect();
                    ffi::query(&h, on, kind, &rays, &mut con, 0);
                    let over = con.over;
                    let got = con.y.iter().map(|y| y[0].as_u64().unwrap() as u32).collect();
                    let (r, again) = runs(self.places(got));
                    ys.push(json!({"api": "ffi", "obj": 0, "runs": r, "rep": again, "again": 0, "over": over as i32}));
                }
                json!({"e": "tq", "on": on, "kind": kind, "rays": op["rays"], "plen": plen, "ys": ys})
            }
        };
        vec![self.sign(e)]
    }

    fn sign(&self, mut e: Value) -> Value {
        e["refits"] = json!(self.refits);
        e["leaf"] = json!(self.leaf);
        e["n"] = json!(self.n);
        e["fat"] = json!(self.fat);
        e["shape"] = json!(self.shape);
        e
    }

    /// Every slot that can be reached
    fn wide_event(&self, via: &str, w: &[MbvhNode], idx: &[u32]) -> Value {
        let (mut leaves, mut kids, mut empty, mut bad) = (Vec::new(), vec![0], 0, 0);
        let mut work = vec![0usize];
        while let Some(i) = work.pop() {
            if i >= w.len() {
                bad += 1;
                continue;
            }
            for s in 0..4 {
                let (c, f) = (w[i].counts[s], w[i].children[s]);
                if c >= 0 && f >= 0 {
                    empty += (c == 0) as i32;
                    let past = f as i64 + c as i64 > idx.len() as i64;
                    bad += past as i32;
                    leaves.extend((f as u32..(f as u32).saturating_add(c as u32)).take(idx.len() + 1));
                } else if c < 0 && f >= 0 {
                    kids.push(f as u32);
                    work.push(f as usize);
                }
            }
            if kids.len() > 3 * w.len() + 10 {
                break;
            }
        }
        let (leaves, again) = runs(leaves);
        let (_, twice) = runs(kids);
        let (ids, rep) = runs(idx.to_vec());
        let rep0 = runs(self.tree.parts().1.to_vec()).1;
        json!({"e": "tmbvh", "via": via, "leaves": leaves, "again": again, "twice": twice, "empty": empty, "bad": bad, "ids": ids, "rep": rep, "rep0": rep0,
            "refs": idx.len(), "kept": (self.shape == "built" || ascents(idx).len() == 1) as i32})
    }
}

impl Drop for Tower {
    fn drop(&mut self) {
        for h in self.ffi.iter() {
            h.free();
        }
        for h in self.wffi.iter() {
            h.free_wide();
        }
    }
}

fn ints_of(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}

fn packet4(rs: &[Ray]) -> RayPacket4 {
    let o = |i: usize| rs[i].origin.extend(0.0);
    let d = |i: usize| rs[i].direction.extend(0.0);
    let mut p = RayPacket4::new([o(0), o(1), o(2), o(3)], [d(0), d(1), d(2), d(3)]);
    p.t = vec4(rs[0].t, rs[1].t, rs[2].t, rs[3].t);
    p
}

/// On a thread of its own, with the stack threads usually have
pub fn op(s: &mut Session, op: &Value) -> Vec<Value> {
    struct Any<T>(T);
    unsafe impl<T> Send for Any<T> {}
    let t = Any(&mut s.tower);
    let r = std::thread::scope(|x| {
        x.spawn(move || {
            let t = t;
            let t: &mut Option<Tower> = t.0;
            if op["op"] == "tower" {
                *t = Some(Tower::new(op));
                return vec![];
            }
            if op["op"] == "tower_build" {
                let (x, mut e) = Tower::build(op);
                e["n"] = json!(x.n);
                *t = Some(x);
                return vec![e];
            }
            t.as_mut().expect("TOOL: no tower").run(op)
        })
        .join()
    });
    r.unwrap_or_else(|p| std::panic::resume_unwind(p))
}
