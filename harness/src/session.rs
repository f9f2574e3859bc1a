//! The operations of one scenario: a current binary tree, a current 4-wide tree, a current scene.
use crate::{calc, ffi, geom::*, many, query, tower};
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};
use std::num::NonZeroUsize;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum Tree {
    None,
    Bvh(Bvh),
    Raw(Vec<BvhNode>, Vec<u32>),
    Ffi(ffi::Handle),
}

pub enum Wide {
    None,
    Mbvh(Mbvh),
    Raw(Vec<MbvhNode>, Vec<u32>),
    Ffi(ffi::Handle),
}

impl Tree {
    pub fn parts(&self) -> (&[BvhNode], &[u32]) {
        match self {
            Tree::None => (&[], &[]),
            Tree::Bvh(b) => (b.nodes(), b.indices()),
            Tree::Raw(n, i) => (n, i),
            Tree::Ffi(h) => (h.bvh_nodes(), h.indices()),
        }
    }
}

impl Wide {
    pub fn parts(&self) -> (&[MbvhNode], &[u32]) {
        match self {
            Wide::None => (&[], &[]),
            Wide::Mbvh(b) => (b.quad_nodes(), b.indices()),
            Wide::Raw(n, i) => (n, i),
            Wide::Ffi(h) => (h.wide_nodes(), h.indices()),
        }
    }
}

pub struct Session {
    pub grid: Grid,
    pub cen: String,
    pub prims: Vec<P>,
    pub tree: Tree,
    pub wide: Wide,
    /// The tree as it was built, and whether it has been refitted since
    pub built: Option<Bvh>,
    /// A tree too large to be written down, with everything that is done to it
    pub tower: Option<tower::Tower>,
}

pub fn run_case(case: &Value) -> Vec<Value> {
    let grid = Grid::new(case);
    let cen = case["cen"].as_str().unwrap_or("centroid").to_owned();
    let prims = if case["tris"].is_array() {
        grid.prims(&case["tris"], &cen)
    } else {
        Vec::new()
    };
    let mut s = Session {
        grid,
        cen,
        prims,
        tree: Tree::None,
        wide: Wide::None,
        built: None,
        tower: None,
    };
    let mut evs = Vec::new();
    for (i, op) in case["ops"].as_array().expect("ops").iter().enumerate() {
        match catch_unwind(AssertUnwindSafe(|| s.op(op))) {
            Ok(e) => evs.extend(e),
            Err(p) => {
                let msg = p
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                if msg.starts_with("TOOL:") {
                    eprintln!("{} in case {}", msg, case["id"]);
                    std::process::exit(70);
                }
                let msg: String = msg.chars().filter(|c| c.is_ascii() && *c != '"' && *c != '\\').take(200).collect();
                evs.push(json!({"e": "panic", "at": i, "op": op["op"], "msg": msg}));
                break;
            }
        }
    }
    evs
}

fn set_cpus(n: usize) {
    unsafe {
        let mut set: libc::cpu_set_t = std::mem::zeroed();
        for i in 0..n {
            libc::CPU_SET(i, &mut set);
        }
        libc::sched_setaffinity(0, std::mem::size_of::<libc::cpu_set_t>(), &set);
    }
}

/// Runs f with the given number of worker threads and visible processors
fn with_threads<R: Send>(n: usize, f: impl FnOnce() -> R + Send) -> R {
    if n == 0 {
        return f();
    }
    let pool = rayon::ThreadPoolBuilder::new()
        .num_threads(n)
        .build()
        .expect("TOOL: pool");
    pool.install(|| {
        set_cpus(n.min(8));
        f()
    })
}

fn bounds_json(b: &Aabb) -> Value {
    json!([key(b.min.x), key(b.min.y), key(b.min.z), key(b.max.x), key(b.max.y), key(b.max.z)])
}

fn bt(b: BuildType) -> &'static str {
    match b {
        BuildType::None => "none",
        BuildType::LocallyOrderedClustered => "locb",
        BuildType::BinnedSAH => "binned",
        BuildType::Spatial => "spatial",
    }
}

impl Session {
    pub fn boxes(&self, tris: Option<&Value>, pad: i64) -> Vec<Aabb> {
        let own;
        let prims = match tris {
            Some(t) if t.is_array() => {
                own = self.grid.prims(t, &self.cen);
                &own
            }
            _ => &self.prims,
        };
        let d = pad as f32 * self.grid.scale;
        prims
            .iter()
            .map(|p| {
                let mut b = p.aabb();
                b.min -= Vec3::splat(d);
                b.max += Vec3::splat(d);
                b
            })
            .collect()
    }

    fn op(&mut self, op: &Value) -> Vec<Value> {
        match op["op"].as_str().unwrap() {
            "build" => vec![self.build(op)],
            "empty" => {
                self.tree = Tree::Bvh(Bvh::default());
                self.wide = Wide::Mbvh(Mbvh::construct(&Bvh::default()));
                self.built = None;
                vec![json!({"e": "empty", "nodes": nodes_json(self.tree.parts().0), "idx": self.tree.parts().1,
                    "wn": wide_json(self.wide.parts().0), "widx": self.wide.parts().1})]
            }
            "synth" => {
                let nodes: Vec<BvhNode> = op["nodes"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| {
                        let n = ints(n);
                        let mut r = BvhNode::new();
                        r.bounds.min = self.grid.point(&n[0..3]);
                        r.bounds.max = self.grid.point(&n[3..6]);
                        r.bounds.extra1 = n[6] as i32;
                        r.bounds.extra2 = n[7] as i32;
                        r
                    })
                    .collect();
                let idx: Vec<u32> = ints(&op["idx"]).iter().map(|i| *i as u32).collect();
                self.tree = match bvh_from_raw(&nodes, &idx) {
                    Some(b) if op["raw"].as_i64().unwrap_or(0) == 0 => Tree::Bvh(b),
                    _ => Tree::Raw(nodes, idx),
                };
                self.wide = Wide::None;
                self.built = match &self.tree {
                    Tree::Bvh(b) => Some(b.clone()),
                    _ => None,
                };
                let (n, i) = self.tree.parts();
                vec![json!({"e": "synth", "nodes": nodes_json(n), "idx": i})]
            }
            "synthw" => {
                let nodes: Vec<MbvhNode> = op["wn"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|n| {
                        let mut r = MbvhNode::new();
                        for (i, s) in n.as_array().unwrap().iter().enumerate() {
                            let s = ints(s);
                            r.counts[i] = s[6] as i32;
                            r.children[i] = s[7] as i32;
                            if s[6] >= 0 || s[7] >= 0 {
                                let lo = self.grid.point(&s[0..3]);
                                let hi = self.grid.point(&s[3..6]);
                                r.set_bounds(i, &lo.to_array(), &hi.to_array());
                            }
                        }
                        r
                    })
                    .collect();
                let idx: Vec<u32> = ints(&op["idx"]).iter().map(|i| *i as u32).collect();
                self.wide = Wide::Raw(nodes, idx);
                let (n, i) = self.wide.parts();
                vec![json!({"e": "synthw", "wn": wide_json(n), "idx": i})]
            }
            "mbvh" => {
                let via = op["via"].as_str().unwrap_or("construct");
                let (w, code) = match (&self.tree, via) {
                    (Tree::Bvh(b), "construct") => (Wide::Mbvh(Mbvh::construct(b)), 0),
                    (Tree::Bvh(b), "from") => (Wide::Mbvh(Mbvh::from(b.clone())), 0),
                    (Tree::Ffi(h), _) => {
                        let (h, code) = h.to_wide();
                        (h.map(Wide::Ffi).unwrap_or(Wide::None), code)
                    }
                    (t, _) => {
                        let (n, i) = t.parts();
                        (Wide::Mbvh(Mbvh::construct_from_raw(n, i)), 0)
                    }
                };
                self.wide = w;
                let (n, i) = self.wide.parts();
                let (bn, bnd, pc) = match &self.wide {
                    Wide::Mbvh(m) => (nodes_json(m.nodes()), bounds_json(&m.bounds()), m.prim_count() as i64),
                    _ => (nodes_json(self.tree.parts().0), json!([]), i.len() as i64),
                };
                vec![json!({"e": "mbvh", "via": via, "code": code, "wn": wide_json(n), "idx": i, "bn": bn, "bnd": bnd, "pc": pc})]
            }
            "refit" => {
                let mut bb = self.boxes(Some(&op["tris"]), op["pad"].as_i64().unwrap_or(0));
                // Extra data of the caller's boxes is the caller's
                for (i, b) in bb.iter_mut().enumerate() {
                    b.extra1 = op["x"].as_i64().unwrap_or(0) as i32 * (i as i32 + 1);
                    b.extra2 = op["x"].as_i64().unwrap_or(0) as i32 * -7;
                }
                let mut code = 0;
                match &mut self.tree {
                    Tree::Bvh(b) => b.refit(&bb),
                    Tree::Ffi(h) => code = h.refit(&bb, op["bal"].as_i64().unwrap_or(0) as usize),
                    _ => panic!("TOOL: refit needs a tree"),
                }
                let fresh = match &self.built {
                    Some(b) => {
                        let mut f = b.clone();
                        f.refit(&bb);
                        nodes_json(f.nodes())
                    }
                    None => json!([]),
                };
                let (n, i) = self.tree.parts();
                vec![json!({"e": "refit", "tris": op["tris"], "pad": op["pad"].as_i64().unwrap_or(0), "code": code,
                    "nodes": nodes_json(n), "idx": i, "fresh": fresh, "hasfresh": self.built.is_some() as i32})]
            }
            "scene" => {
                // Later operations see the primitives at their new places
                self.prims = self.grid.prims(&op["tris"], &self.cen);
                vec![json!({"e": "scene", "tris": op["tris"]})]
            }
            "serde" => {
                if let Tree::Bvh(b) = &self.tree {
                    let v = serde_json::to_value(b).expect("to_value");
                    let back: Bvh = serde_json::from_value(v).expect("from_value");
                    let bin = to_stream(b);
                    let again: Bvh = from_stream(&bin);
                    let k0 = bt(b.build_type());
                    let e = json!({"e": "serde", "on": "b", "nodes": nodes_json(back.nodes()), "idx": back.indices(), "wn": [],
                        "nodes2": nodes_json(again.nodes()), "idx2": again.indices(), "wn2": [],
                        "k0": k0, "k1": bt(back.build_type()), "k2": bt(again.build_type())});
                    self.tree = Tree::Bvh(back);
                    let mut r = vec![e];
                    if let Wide::Mbvh(m) = &self.wide {
                        let v = serde_json::to_value(m).unwrap();
                        let back: Mbvh = serde_json::from_value(v).unwrap();
                        let again: Mbvh = from_stream(&to_stream(m));
                        r.push(json!({"e": "serde", "on": "w", "nodes": nodes_json(back.nodes()), "idx": back.indices(),
                            "wn": wide_json(back.quad_nodes()), "nodes2": nodes_json(again.nodes()), "idx2": again.indices(),
                            "wn2": wide_json(again.quad_nodes()), "k0": "none", "k1": "none", "k2": "none"}));
                        self.wide = Wide::Mbvh(back);
                    }
                    r
                } else {
                    vec![]
                }
            }
            "validate" => {
                let cnt = op["cnt"].as_i64().unwrap() as usize;
                let b = match &self.tree {
                    Tree::Bvh(b) => b,
                    _ => return vec![],
                };
                let muts = op["mut"].as_array().cloned().unwrap_or_default();
                let b = if muts.is_empty() {
                    b.clone()
                } else {
                    let mut idx = b.indices().to_vec();
                    for m in muts {
                        let m = ints(&m);
                        if idx.is_empty() {
                            return vec![];
                        }
                        let p = m[0] as usize % idx.len();
                        idx[p] = (m[1] as u32) % (cnt.max(1) as u32);
                    }
                    match bvh_from_raw(b.nodes(), &idx) {
                        Some(b) => b,
                        None => return vec![],
                    }
                };
                // Only trees that reference nothing at or above the count have a verdict
                if b.indices().iter().any(|i| *i as usize >= cnt) {
                    return vec![];
                }
                let r = b.validate(cnt);
                vec![json!({"e": "validate", "cnt": cnt, "nodes": nodes_json(b.nodes()), "idx": b.indices(), "r": r as i32})]
            }
            "into" => {
                // The by-value accessors
                match &self.tree {
                    Tree::Bvh(b) => {
                        let (n, i) = b.clone().into_raw();
                        let n2 = b.clone().into_raw_nodes();
                        let i2 = b.clone().into_raw_indices();
                        let mut r = vec![json!({"e": "into", "on": "b", "nodes": nodes_json(&n), "idx": i, "nodes2": nodes_json(&n2), "idx2": i2, "wn": [], "wn2": []})];
                        if let Wide::Mbvh(m) = &self.wide {
                            let (n, i) = m.clone().into_raw();
                            let n2 = m.clone().into_raw_nodes();
                            let i2 = m.clone().into_raw_indices();
                            r.push(json!({"e": "into", "on": "w", "wn": wide_json(&n), "idx": i, "wn2": wide_json(&n2), "idx2": i2, "nodes": [], "nodes2": []}));
                        }
                        r
                    }
                    _ => vec![],
                }
            }
            "q" => query::query(self, op),
            "qall" => query::qall(self, op),
            "many" => many::many(self, op),
            "calc" => calc::run(self, op),
            "ffi" => ffi::history(self, op),
            "crowd" => ffi::crowd(op),
            "ledger" => crate::ledger::run(op),
            "tower" | "tower_validate" | "tower_mbvh" | "tower_q" | "tower_build" | "tower_refit" => tower::op(self, op),
            o => panic!("TOOL: unknown op {}", o),
        }
    }

    fn build(&mut self, op: &Value) -> Value {
        let b = op["b"].as_str().unwrap();
        let leaf = op["leaf"].as_i64().unwrap_or(0) as usize;
        let mode = op["bb"].as_str().unwrap_or("own");
        let pad = op["pad"].as_i64().unwrap_or(0);
        let n = op["n"].as_i64().map(|n| n as usize).unwrap_or(self.prims.len());
        let prims = &self.prims[..n];
        let mut boxes = self.boxes(None, pad);
        boxes.truncate(n);
        // Extra data of the caller's boxes is the caller's
        for (i, b) in boxes.iter_mut().enumerate() {
            b.extra1 = op["bx"].as_i64().unwrap_or(0) as i32 * (i as i32 + 1);
            b.extra2 = op["bx"].as_i64().unwrap_or(0) as i32 * -7;
        }
        if mode == "len" {
            let m = op["m"].as_i64().unwrap() as usize;
            boxes.resize(m, Aabb::new());
        }
        self.tree = Tree::None;
        self.wide = Wide::None;
        self.built = None;
        if op["via"].as_str() == Some("ffi") {
            let (h, code) = ffi::build(b, leaf, if mode == "none" { None } else { Some(&boxes) }, prims, op);
            let mut e = json!({"e": "build", "b": b, "leaf": leaf, "bb": mode, "pad": pad, "n": n, "via": "ffi", "code": code, "ok": 0, "k": "none",
                "nodes": [], "idx": [], "pc": -1, "bnd": [], "m": boxes.len()});
            if let Some(h) = h {
                e["ok"] = json!(1);
                e["nodes"] = nodes_json(h.bvh_nodes());
                e["idx"] = json!(h.indices());
                e["pc"] = json!(h.indices().len());
                self.built = bvh_from_raw(h.bvh_nodes(), h.indices());
                self.tree = Tree::Ffi(h);
            }
            return e;
        }
        #[cfg(rtbvh_verif)]
        {
            rtbvh::verif::set_spawn_threshold(op["spawn"].as_i64().unwrap_or(1024) as usize);
            rtbvh::verif::set_perturb(op["perturb"].as_i64().unwrap_or(0) as u64);
        }
        let r = with_threads(op["thr"].as_i64().unwrap_or(0) as usize, || {
            let builder = Builder {
                aabbs: if mode == "none" { None } else { Some(&boxes) },
                primitives: prims,
                primitives_per_leaf: NonZeroUsize::new(leaf),
            };
            match b {
                "binned" => builder.construct_binned_sah(),
                "spatial" => builder.construct_spatial_sah(),
                "locb" => builder.construct_locally_ordered_clustered(),
                _ => panic!("TOOL: builder"),
            }
        });
        #[cfg(rtbvh_verif)]
        {
            rtbvh::verif::set_spawn_threshold(1024);
            rtbvh::verif::set_perturb(0);
        }
        match r {
            Ok(t) => {
                let e = json!({"e": "build", "b": b, "leaf": leaf, "bb": mode, "pad": pad, "n": n, "m": boxes.len(), "via": "lib", "code": 0, "ok": 1,
                    "k": bt(t.build_type()), "nodes": nodes_json(t.nodes()), "idx": t.indices(), "pc": t.prim_count(),
                    "bnd": bounds_json(&t.bounds())});
                self.built = Some(t.clone());
                self.tree = Tree::Bvh(t);
                e
            }
            Err(x) => {
                let (err, a, p) = match x {
                    BuildError::NoPrimitives => ("noprims", 0, 0),
                    BuildError::InequalAabbsAndPrimitives(a, p) => ("inequal", a, p),
                };
                json!({"e": "build", "b": b, "leaf": leaf, "bb": mode, "pad": pad, "n": n, "m": boxes.len(), "via": "lib", "code": 0, "ok": 0,
                    "k": "none", "nodes": [], "idx": [], "pc": -1, "bnd": [], "err": err, "ea": a, "ep": p})
            }
        }
    }
}

pub fn bvh_from_raw(nodes: &[BvhNode], idx: &[u32]) -> Option<Bvh> {
    let mut v = serde_json::to_value(Bvh::default()).ok()?;
    let o = v.as_object_mut()?;
    *o.get_mut("nodes")? = serde_json::to_value(nodes).ok()?;
    *o.get_mut("prim_indices")? = serde_json::to_value(idx).ok()?;
    let b: Bvh = serde_json::from_value(v).ok()?;
    if b.nodes().len() == nodes.len() && b.indices() == idx {
        Some(b)
    } else {
        None
    }
}

// A second, positional format: fields come in declaration order without names
pub fn to_stream<T: serde::Serialize>(t: &T) -> Vec<u8> {
    bincode::serialize(t).expect("serialize")
}

pub fn from_stream<T: serde::de::DeserializeOwned>(v: &[u8]) -> T {
    bincode::deserialize(v).expect("deserialize")
}
