#![allow(dead_code, unused_imports)]
use glam::*;
use rtbvh::*;
use std::num::NonZeroUsize;

#[derive(Debug, Clone, Copy)]
pub struct Tri(pub [Vec3; 3], pub Vec3);

pub fn tri(a: Vec3, b: Vec3, c: Vec3) -> Tri {
    Tri([a, b, c], (a + b + c) / 3.0)
}

impl Primitive for Tri {
    fn center(&self) -> Vec3 {
        self.1
    }
    fn aabb(&self) -> Aabb {
        let mut bb = Aabb::empty();
        for v in self.0.iter() {
            bb.grow(*v);
        }
        bb
    }
}

impl SpatialTriangle for Tri {
    fn vertex0(&self) -> Vec3 {
        self.0[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.0[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.0[2]
    }
}

pub struct Rng(pub u64);

impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    pub fn f(&mut self) -> f32 {
        (self.next() >> 40) as f32 / (1u64 << 24) as f32
    }
    pub fn v(&mut self, s: f32) -> Vec3 {
        vec3(self.f() - 0.5, self.f() - 0.5, self.f() - 0.5) * s
    }
}

pub fn random(n: usize, seed: u64, extent: f32, size: f32) -> Vec<Tri> {
    let mut r = Rng(seed * 7919 + 1);
    (0..n)
        .map(|_| {
            let o = r.v(extent);
            tri(o + r.v(size), o + r.v(size), o + r.v(size))
        })
        .collect()
}

pub fn boxes(t: &[Tri]) -> Vec<Aabb> {
    t.iter().map(|t| t.aabb()).collect()
}

pub fn build(kind: usize, bb: Option<&[Aabb]>, t: &[Tri], leaf: usize) -> Bvh {
    let b = Builder { aabbs: bb, primitives: t, primitives_per_leaf: NonZeroUsize::new(leaf) };
    match kind {
        0 => b.construct_binned_sah(),
        1 => b.construct_spatial_sah(),
        _ => b.construct_locally_ordered_clustered(),
    }
    .unwrap()
}

/// (node, depth) of everything reachable
pub fn walk(b: &Bvh) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut st = vec![(0usize, 0usize)];
    while let Some((n, d)) = st.pop() {
        out.push((n, d));
        let node = &b.nodes()[n];
        if !node.is_leaf() {
            let f = node.get_left_first().unwrap() as usize;
            st.push((f, d + 1));
            st.push((f + 1, d + 1));
        }
        assert!(out.len() <= b.nodes().len(), "a node is reached twice");
    }
    out
}

pub fn leaf_ids(b: &Bvh, n: usize) -> Vec<u32> {
    let node = &b.nodes()[n];
    let f = node.get_left_first().unwrap() as usize;
    b.indices()[f..f + node.get_count().unwrap() as usize].to_vec()
}

/// All ids below a node
pub fn below(b: &Bvh, n: usize) -> Vec<u32> {
    let mut out = vec![];
    let mut st = vec![n];
    while let Some(n) = st.pop() {
        let node = &b.nodes()[n];
        if node.is_leaf() {
            out.extend(leaf_ids(b, n));
        } else {
            let f = node.get_left_first().unwrap() as usize;
            st.push(f);
            st.push(f + 1);
        }
    }
    out
}

pub fn inside(a: &Aabb, b: &Aabb) -> bool {
    a.min.cmpge(b.min).all() && a.max.cmple(b.max).all()
}

/// The tree without numbering
pub fn canon(b: &Bvh, n: usize) -> String {
    let mut out = String::new();
    let mut st = vec![n];
    while let Some(n) = st.pop() {
        let x = &b.nodes()[n];
        out += &format!("{:?}{:?}", x.bounds.min, x.bounds.max);
        if x.is_leaf() {
            let mut ids = leaf_ids(b, n);
            ids.sort();
            out += &format!("{:?}", ids);
        } else {
            let f = x.get_left_first().unwrap() as usize;
            st.push(f);
            st.push(f + 1);
        }
    }
    out
}

/// A binary tree from raw parts, through serialisation
pub fn raw(nodes: Vec<BvhNode>, idx: Vec<u32>) -> Bvh {
    let mut v = serde_json::to_value(Bvh::default()).unwrap();
    v["nodes"] = serde_json::to_value(nodes).unwrap();
    v["prim_indices"] = serde_json::to_value(idx).unwrap();
    serde_json::from_value(v).unwrap()
}

pub fn brute(t: &[Tri], o: Vec3, d: Vec3, tmax: f32) -> (f32, Vec<u32>) {
    let mut best = tmax;
    let mut ids = vec![];
    for (i, x) in t.iter().enumerate() {
        let mut r = Ray::new(o, d);
        r.t = tmax;
        if x.intersect(&mut r) {
            ids.push(i as u32);
            best = best.min(r.t);
        }
    }
    (best, ids)
}
