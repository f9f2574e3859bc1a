//! Queries: one traversal with a consumer, or every entry point with the same ray.
use crate::{ffi, geom::*, session::*};
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};

pub const NONE: i64 = -1;

#[derive(Clone, Copy, PartialEq)]
pub enum Con {
    None,
    Closest,
    Any,
    Cut,
    /// Like Cut, but the distance may become longer, too
    Set,
}

pub struct Consumer<'a> {
    pub con: Con,
    pub prims: &'a [P],
    pub cuts: Vec<Vec<Option<f32>>>,
    /// Stop after this many offers
    pub stop: i64,
    pub y: Vec<Value>,
    /// Length of y when the consumer asked to stop; 0: it did not
    pub stopped: usize,
    pub over: bool,
    pub cap: usize,
    /// What else the caller does when it is called for the first time
    pub first: Option<Box<dyn FnOnce() + 'a>>,
}

impl<'a> Consumer<'a> {
    fn done(&mut self) -> bool {
        if let Some(f) = self.first.take() {
            f();
        }
        if self.y.len() >= self.cap {
            self.over = true;
        }
        if self.y.len() as i64 == self.stop {
            self.stop_here();
        }
        self.over || self.stopped > 0
    }

    fn stop_here(&mut self) {
        if self.stopped == 0 {
            self.stopped = self.y.len();
        }
    }

    fn cut(&self, lane: usize) -> Option<f32> {
        let i = self.y.len();
        *self.cuts.get(lane)?.get(i)?
    }

    pub fn ray(&mut self, id: u32, ray: &mut Ray) -> bool {
        let mut hit = false;
        match self.con {
            Con::Closest | Con::Any => {
                if let Some(p) = self.prims.get(id as usize) {
                    hit = p.intersect(ray);
                }
            }
            Con::Cut | Con::Set => {
                if let Some(c) = self.cut(0) {
                    ray.t = if self.con == Con::Set { c } else { ray.t.min(c) };
                }
            }
            Con::None => {}
        }
        self.y.push(json!([id, key(ray.t)]));
        if hit && self.con == Con::Any {
            self.stop_here();
        }
        self.done()
    }

    pub fn packet(&mut self, id: u32, p4: &mut RayPacket4) -> bool {
        let mut hit = false;
        match self.con {
            Con::Closest | Con::Any => {
                if let Some(p) = self.prims.get(id as usize) {
                    hit = p.intersect4(p4, Vec4::splat(1e-4)).is_some();
                }
            }
            Con::Cut | Con::Set => {
                for l in 0..4 {
                    if let Some(c) = self.cut(l) {
                        p4.t[l] = if self.con == Con::Set { c } else { p4.t[l].min(c) };
                    }
                }
            }
            Con::None => {}
        }
        self.y.push(json!([id, key(p4.t.x), key(p4.t.y), key(p4.t.z), key(p4.t.w)]));
        if hit && self.con == Con::Any {
            self.stop_here();
        }
        self.done()
    }
}

fn drive<R>(mut it: impl Iterator<Item = (u32, R)>, mut f: impl FnMut(u32, R) -> bool) -> bool {
    loop {
        match it.next() {
            Some((id, r)) => {
                if f(id, r) {
                    return false;
                }
            }
            None => return it.next().is_some() || it.next().is_some(),
        }
    }
}

/// Runs one traversal; None when the entry point does not exist for this object.
/// The result tells whether an exhausted iterator came back to life.
pub fn single(tree: &Tree, wide: &Wide, on: &str, api: &str, ray: &mut Ray, prims: &[P], f: impl FnMut(u32, &mut Ray) -> bool) -> Option<bool> {
    let o = |x: (&P, _)| (x.0.id, x.1);
    Some(if on == "b" {
        let (nodes, idx) = tree.parts();
        match (api, tree) {
            ("sidx", _) => drive(BvhIndexIterator::from_slices(ray, nodes, idx), f),
            ("sobj", _) => drive(BvhIterator::from_slices(ray, nodes, idx, prims).map(o), f),
            ("idx", Tree::Bvh(b)) => drive(b.traverse_iter_indices(ray), f),
            ("nidx", Tree::Bvh(b)) => drive(BvhIndexIterator::new(ray, b), f),
            ("tidx", Tree::Bvh(b)) => drive(IntoRayIndexIterator::iter(b, ray), f),
            ("obj", Tree::Bvh(b)) => drive(b.traverse_iter(ray, prims).map(o), f),
            ("nobj", Tree::Bvh(b)) => drive(BvhIterator::new(ray, b, prims).map(o), f),
            ("tobj", Tree::Bvh(b)) => drive(IntoRayIterator::iter(b, ray, prims).map(o), f),
            _ => return None,
        }
    } else {
        let (nodes, idx) = wide.parts();
        match (api, wide) {
            ("sidx", _) => drive(MbvhIndexIterator::from_slices(ray, nodes, idx), f),
            ("sobj", _) => drive(MbvhIterator::from_slices(ray, nodes, idx, prims).map(o), f),
            ("idx", Wide::Mbvh(b)) => drive(b.traverse_iter_indices(ray), f),
            ("nidx", Wide::Mbvh(b)) => drive(MbvhIndexIterator::new(ray, b), f),
            ("tidx", Wide::Mbvh(b)) => drive(IntoRayIndexIterator::iter(b, ray), f),
            ("obj", Wide::Mbvh(b)) => drive(b.traverse_iter(ray, prims).map(o), f),
            ("nobj", Wide::Mbvh(b)) => drive(MbvhIterator::new(ray, b, prims).map(o), f),
            ("tobj", Wide::Mbvh(b)) => drive(IntoRayIterator::iter(b, ray, prims).map(o), f),
            _ => return None,
        }
    })
}

pub fn packet(tree: &Tree, wide: &Wide, on: &str, api: &str, ray: &mut RayPacket4, prims: &[P], f: impl FnMut(u32, &mut RayPacket4) -> bool) -> Option<bool> {
    let o = |x: (&P, _)| (x.0.id, x.1);
    Some(if on == "b" {
        let (nodes, idx) = tree.parts();
        match (api, tree) {
            ("sidx", _) => drive(BvhPacketIndexIterator::from_slices(ray, nodes, idx), f),
            ("sobj", _) => drive(BvhPacketIterator::from_slices(ray, nodes, idx, prims).map(o), f),
            ("idx", Tree::Bvh(b)) => drive(b.traverse_iter_indices_packet(ray), f),
            ("nidx", Tree::Bvh(b)) => drive(BvhPacketIndexIterator::new(ray, b), f),
            ("tidx", Tree::Bvh(b)) => drive(IntoPacketIndexIterator::iter(b, ray), f),
            ("obj", Tree::Bvh(b)) => drive(b.traverse_iter_packet(ray, prims).map(o), f),
            ("nobj", Tree::Bvh(b)) => drive(BvhPacketIterator::new(ray, b, prims).map(o), f),
            ("tobj", Tree::Bvh(b)) => drive(IntoPacketIterator::iter(b, ray, prims).map(o), f),
            _ => return None,
        }
    } else {
        let (nodes, idx) = wide.parts();
        match (api, wide) {
            ("sidx", _) => drive(MbvhPacketIndexIterator::from_slices(ray, nodes, idx), f),
            ("sobj", _) => drive(MbvhPacketIterator::from_slices(ray, nodes, idx, prims).map(o), f),
            ("idx", Wide::Mbvh(b)) => drive(b.traverse_iter_indices_packet(ray), f),
            ("nidx", Wide::Mbvh(b)) => drive(MbvhPacketIndexIterator::new(ray, b), f),
            ("tidx", Wide::Mbvh(b)) => drive(IntoPacketIndexIterator::iter(b, ray), f),
            ("obj", Wide::Mbvh(b)) => drive(b.traverse_iter_packet(ray, prims).map(o), f),
            ("nobj", Wide::Mbvh(b)) => drive(MbvhPacketIterator::new(ray, b, prims).map(o), f),
            ("tobj", Wide::Mbvh(b)) => drive(IntoPacketIterator::iter(b, ray, prims).map(o), f),
            _ => return None,
        }
    })
}

fn keyn(t: Option<f32>) -> i64 {
    t.map(|t| key(t) as i64).unwrap_or(NONE)
}

/// What the triangle test alone says, per lane and primitive
fn brute(prims: &[P], rs: &[RaySpec], kind: &str) -> Vec<Vec<i64>> {
    if kind == "r" {
        vec![prims
            .iter()
            .map(|p| {
                let mut r = mk_ray(rs[0], "new");
                keyn(if p.intersect(&mut r) { Some(r.t) } else { None })
            })
            .collect()]
    } else {
        let mut lanes = vec![Vec::new(); 4];
        for p in prims {
            let mut r = mk_packet(rs);
            let h = p.intersect4(&mut r, Vec4::splat(1e-4)).unwrap_or([false; 4]);
            for l in 0..4 {
                lanes[l].push(if h[l] { key(r.t[l]) as i64 } else { NONE });
            }
        }
        lanes
    }
}

fn must(prims: &[P], rs: &[RaySpec], flt: bool) -> Value {
    if !flt {
        return json!([]);
    }
    Value::Array(
        rs.iter()
            .map(|(o, d, ..)| {
                Value::Array(
                    prims
                        .iter()
                        .filter_map(|p| robust_hit(p, *o, *d).map(|t| json!([p.id, key((t * 1.001) as f32)])))
                        .collect(),
                )
            })
            .collect(),
    )
}

fn consumer<'a>(s: &'a Session, op: &Value, leafs: usize) -> Consumer<'a> {
    let con = match op["con"].as_str().unwrap_or("none") {
        "closest" => Con::Closest,
        "any" => Con::Any,
        "cut" => Con::Cut,
        "set" => Con::Set,
        _ => Con::None,
    };
    let cuts = op["cuts"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|l| l.as_array().unwrap().iter().map(|t| s.grid.t(t)).collect())
                .collect()
        })
        .unwrap_or_default();
    Consumer {
        con,
        prims: &s.prims,
        cuts,
        stop: op["stop"].as_i64().unwrap_or(-1),
        y: Vec::new(),
        stopped: 0,
        over: false,
        cap: leafs * 4 + 16,
        first: None,
    }
}

pub fn rays(s: &Session, op: &Value) -> Vec<RaySpec> {
    op["rays"].as_array().unwrap().iter().map(|r| s.grid.ray(r)).collect()
}

fn lanes(v: Vec4) -> Value {
    json!([key(v.x), key(v.y), key(v.z), key(v.w)])
}

pub fn query(s: &mut Session, op: &Value) -> Vec<Value> {
    let on = op["on"].as_str().unwrap();
    let kind = op["kind"].as_str().unwrap();
    let api = op["api"].as_str().unwrap_or("idx");
    let rs = rays(s, op);
    let plen = op["plen"].as_i64().map(|p| p as usize).unwrap_or(s.prims.len()).min(s.prims.len());
    let leafs = if on == "b" { s.tree.parts().1.len() } else { s.wide.parts().1.len() };
    let mut c = consumer(s, op, leafs);
    let prims = &s.prims[..plen];
    let mut code = 0;
    let mut norig = 1;
    let (again, t0, tf) = if api == "ffi" {
        let h = match (on, &s.tree, &s.wide) {
            ("b", Tree::Ffi(h), _) => h,
            ("w", _, Wide::Ffi(h)) => h,
            _ => return vec![],
        };
        let (r, t0, tf, n) = ffi::query(h, on, kind, &rs, &mut c, op["al"].as_i64().unwrap_or(0) as usize);
        code = r;
        norig = n;
        (false, t0, tf)
    } else if kind == "r" {
        let mut r = mk_ray(rs[0], op["mk"].as_str().unwrap_or("new"));
        let t0 = json!([key(r.t)]);
        match single(&s.tree, &s.wide, on, api, &mut r, prims, |i, r| c.ray(i, r)) {
            Some(a) => (a, t0, json!([key(r.t)])),
            None => return vec![],
        }
    } else {
        let mut r = mk_packet(&rs);
        let t0 = lanes(r.t);
        match packet(&s.tree, &s.wide, on, api, &mut r, prims, |i, r| c.packet(i, r)) {
            Some(a) => (a, t0, lanes(r.t)),
            None => return vec![],
        }
    };
    let br = match c.con {
        Con::Closest | Con::Any => json!(brute(&s.prims, &rs, kind)),
        _ => json!([]),
    };
    vec![json!({
        "e": "q", "on": on, "kind": kind, "api": api, "con": op["con"].as_str().unwrap_or("none"),
        "rays": op["rays"], "plen": plen, "y": c.y, "again": again as i32, "over": c.over as i32,
        "stopped": c.stopped, "t0": t0, "tf": tf, "brute": br,
        "lim": op["stop"].as_i64().unwrap_or(-1),
        "must": must(&s.prims, &rs, s.grid.flt), "code": code, "once": norig,
    })]
}

/// Every entry point with the same ray or packet and a consumer that changes nothing
pub fn qall(s: &mut Session, op: &Value) -> Vec<Value> {
    let on = op["on"].as_str().unwrap();
    let kind = op["kind"].as_str().unwrap();
    let rs = rays(s, op);
    let plen = op["plen"].as_i64().map(|p| p as usize).unwrap_or(s.prims.len()).min(s.prims.len());
    let leafs = if on == "b" { s.tree.parts().1.len() } else { s.wide.parts().1.len() };
    let prims = &s.prims[..plen];
    let mut ys = Vec::new();
    for api in ["idx", "sidx", "nidx", "tidx", "obj", "sobj", "nobj", "tobj"] {
        let mut c = consumer(s, op, leafs);
        let a = if kind == "r" {
            let mut r = mk_ray(rs[0], op["mk"].as_str().unwrap_or("new"));
            single(&s.tree, &s.wide, on, api, &mut r, prims, |i, r| c.ray(i, r))
        } else {
            let mut r = mk_packet(&rs);
            packet(&s.tree, &s.wide, on, api, &mut r, prims, |i, r| c.packet(i, r))
        };
        if let Some(a) = a {
            let ids: Vec<i64> = c.y.iter().map(|y| y[0].as_i64().unwrap()).collect();
            ys.push(json!({"api": api, "obj": api.ends_with("obj") as i32, "y": ids, "again": a as i32, "over": c.over as i32}));
        }
    }
    let t0 = if kind == "r" { json!([key(mk_ray(rs[0], "new").t)]) } else { lanes(mk_packet(&rs).t) };
    vec![json!({"e": "qall", "on": on, "kind": kind, "rays": op["rays"], "plen": plen, "ys": ys, "t0": t0,
        "must": must(&s.prims, &rs, s.grid.flt)})]
}
