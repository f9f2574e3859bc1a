//! How much memory is in use: structures are created, converted, refitted, traversed and freed, and after each call the bytes that
//! are allocated more than at the start are written down, next to the size of the tables the call's structure shows.
use crate::{ffi, geom::P, query, session, tower};
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI64, Ordering::Relaxed};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, Relaxed);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        LIVE.fetch_add(n as i64 - l.size() as i64, Relaxed);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOCATOR: Counting = Counting;

enum Thing {
    Bvh(Bvh),
    Mbvh(Mbvh),
    C(ffi::Handle),
    CWide(ffi::Handle),
}

fn row(n: usize) -> Vec<P> {
    (0..n)
        .map(|i| {
            let x = (i * 7919 % n) as f32;
            P { id: i as u32, v: [vec3(x, 0.0, 0.0), vec3(x + 1.0, 1.0, 1.0), vec3(x, 1.0, 0.0)], c: vec3(x + 0.5, 0.5, 0.5) }
        })
        .collect()
}

fn make(via: &str, b: &str, prims: &[P], own: bool) -> Option<Thing> {
    // Trees as deep as they get
    if b == "left" || b == "right" {
        let (nodes, idx) = tower::make(prims.len(), 1, b);
        if let Some(b) = session::bvh_from_raw(&nodes, &idx) {
            return Some(Thing::Bvh(b));
        }
    }
    let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
    let aabbs = if own { Some(&boxes[..]) } else { None };
    if via == "ffi" {
        return ffi::build(b, 1, aabbs, prims, &json!({})).0.map(Thing::C);
    }
    let x = Builder { aabbs, primitives: prims, primitives_per_leaf: None };
    match b {
        "binned" => x.construct_binned_sah(),
        "spatial" => x.construct_spatial_sah(),
        _ => x.construct_locally_ordered_clustered(),
    }
    .ok()
    .map(Thing::Bvh)
}

/// The bytes of the tables it shows
fn tables(t: &Thing) -> usize {
    match t {
        Thing::Bvh(b) => b.nodes().len() * 32 + b.indices().len() * 4,
        Thing::Mbvh(m) => m.quad_nodes().len() * 128 + m.indices().len() * 4,
        Thing::C(h) => h.bvh_nodes().len() * 32 + h.indices().len() * 4,
        Thing::CWide(h) => h.wide_nodes().len() * 128 + h.indices().len() * 4,
    }
}

fn wide(t: &Thing) -> Option<Thing> {
    match t {
        Thing::Bvh(b) => Some(Thing::Mbvh(Mbvh::construct(b))),
        Thing::C(h) => h.to_wide().0.map(Thing::CWide),
        _ => None,
    }
}

fn refit(t: &mut Thing, prims: &[P], by: f32) {
    let boxes: Vec<Aabb> = prims
        .iter()
        .map(|p| {
            let mut b = p.aabb();
            b.min.y += by;
            b.max.y += by;
            b
        })
        .collect();
    match t {
        Thing::Bvh(b) => b.refit(&boxes),
        Thing::C(h) => {
            h.refit(&boxes, 0);
        }
        _ => {}
    }
}

/// Some traversals, a few of which are given up
fn ask(t: &Thing, prims: &[P], seed: usize) {
    for k in 0..400 {
        let x = ((seed + k) % prims.len()) as f32 + 0.5;
        let (o, d) = if k % 16 > 1 { (vec3(x, -9.0, 0.5), Vec3::Y) } else if k % 16 == 0 { (vec3(-2.0, 0.5, 0.5), Vec3::X) } else { (vec3(prims.len() as f32 + 2.0, 0.5, 0.5), -Vec3::X) };
        let stop = if k % 3 == 0 { 1 + k % 2 } else { usize::MAX };
        let mut r = Ray::new(o, d);
        let mut p = RayPacket4::new([o.extend(0.0); 4], [d.extend(0.0); 4]);
        match (t, k % 4 < 2) {
            (Thing::Bvh(b), true) => drop(b.traverse_iter_indices(&mut r).take(stop).count()),
            (Thing::Bvh(b), _) => drop(b.traverse_iter_packet(&mut p, prims).take(stop).count()),
            (Thing::Mbvh(b), true) => drop(b.traverse_iter(&mut r, prims).take(stop).count()),
            (Thing::Mbvh(b), _) => drop(b.traverse_iter_indices_packet(&mut p).take(stop).count()),
            (Thing::C(h), one) | (Thing::CWide(h), one) => {
                let mut con = query::Consumer { con: query::Con::None, prims: &[], cuts: vec![], stop: stop.min(1 << 20) as i64, y: vec![], stopped: 0, over: false, cap: 1 << 20, first: None };
                let on = if matches!(t, Thing::C(_)) { "b" } else { "w" };
                ffi::query(h, on, if one { "r" } else { "p" }, &[(o, d, 1e34, None)], &mut con, 0);
            }
        }
    }
}

fn free(t: Thing) {
    match t {
        Thing::C(h) => h.free(),
        Thing::CWide(h) => h.free_wide(),
        _ => {}
    }
}

/// Whether a freed structure still answers
fn again(t: &Thing, act: &str, prims: &[P]) -> i64 {
    match (t, act) {
        (Thing::C(h), "wide") => (h.to_wide().1 == 0) as i64,
        (Thing::C(h), "refit") => {
            let boxes: Vec<Aabb> = prims.iter().map(|p| p.aabb()).collect();
            (h.refit(&boxes, 0) == 0) as i64
        }
        (Thing::C(h), _) => {
            h.free();
            0
        }
        (Thing::CWide(h), _) => {
            h.free_wide();
            0
        }
        _ => 0,
    }
}

pub fn run(op: &Value) -> Vec<Value> {
    let via = op["via"].as_str().unwrap();
    let steps = op["steps"].as_array().unwrap();
    let sizes: Vec<usize> = op["sizes"].as_array().unwrap().iter().map(|n| n.as_i64().unwrap() as usize).collect();
    // What threads and the first use of things allocate, and room they may want to use again
    for b in ["binned", "spatial", "locb"] {
        for n in [3, sizes.iter().copied().max().unwrap(), 700] {
            let p = row(n);
            if let Some(t) = make(via, b, &p, true) {
                ask(&t, &p, 0);
                if let Some(w) = wide(&t) {
                    ask(&w, &p, 0);
                    free(w);
                }
                free(t);
            }
        }
    }
    let rows: Vec<Vec<P>> = sizes.iter().map(|n| row(*n)).collect();
    let mut things: BTreeMap<i64, (Thing, usize)> = BTreeMap::new();
    // Handles whose structures have been freed
    let mut gone: Vec<(i64, Thing)> = Vec::with_capacity(steps.len());
    let mut out: Vec<[i64; 3]> = Vec::with_capacity(steps.len());
    let base = LIVE.load(Relaxed);
    for s in steps {
        let h = s["h"].as_i64().unwrap();
        let mut tab = 0;
        let mut did = 0;
        match s["c"].as_str().unwrap() {
            "create" => {
                let k = s["k"].as_i64().unwrap() as usize;
                if let Some(t) = make(via, s["b"].as_str().unwrap(), &rows[k], s["own"] == 1) {
                    (tab, did) = (tables(&t), 1);
                    things.insert(h, (t, k));
                }
            }
            "wide" => {
                let k = things.get(&s["from"].as_i64().unwrap()).and_then(|(t, k)| wide(t).map(|w| (w, *k)));
                if let Some((t, k)) = k {
                    (tab, did) = (tables(&t), 1);
                    things.insert(h, (t, k));
                }
            }
            "refit" => {
                if let Some((t, k)) = things.get_mut(&h) {
                    did = 1;
                    for i in 0..s["n"].as_i64().unwrap_or(1) {
                        refit(t, &rows[*k], 2.0 + (i % 3) as f32);
                    }
                }
            }
            "ask" => {
                if let Some((t, k)) = things.get(&h) {
                    did = 1;
                    ask(t, &rows[*k], out.len());
                }
            }
            // Calls that cannot be answered: on what has been freed, without primitives
            "again" => {
                if let Some((_, t)) = gone.iter().find(|(g, _)| *g == h) {
                    did = again(t, s["a"].as_str().unwrap(), &rows[0]);
                }
            }
            // Structures that live for a moment
            "cycle" => {
                did = 1;
                let p = row(s["k"].as_i64().unwrap() as usize);
                for i in 0..s["n"].as_i64().unwrap() {
                    if let Some(mut t) = make(via, s["b"].as_str().unwrap(), &p, s["own"] == 1) {
                        let w = wide(&t);
                        refit(&mut t, &p, 1.0);
                        if i % 2 == 0 {
                            free(t);
                            w.into_iter().for_each(free);
                        } else {
                            w.into_iter().for_each(free);
                            free(t);
                        }
                    }
                }
            }
            "empty" => {
                if let Some(t) = make(via, s["b"].as_str().unwrap(), &[], s["own"] == 1) {
                    (tab, did) = (tables(&t), 1);
                    free(t);
                }
            }
            _ => {
                if let Some((t, _)) = things.remove(&h) {
                    did = 1;
                    match t {
                        Thing::C(x) => gone.push((h, Thing::C(x))),
                        Thing::CWide(x) => gone.push((h, Thing::CWide(x))),
                        _ => {}
                    }
                    free(t);
                }
            }
        }
        // Work that other threads have not put away yet
        let mut live = LIVE.load(Relaxed);
        for _ in 0..20 {
            std::thread::sleep(std::time::Duration::from_micros(200));
            let l = LIVE.load(Relaxed);
            if l == live {
                break;
            }
            live = l;
        }
        out.push([did, tab as i64, live - base]);
    }
    things.into_values().for_each(|(t, _)| free(t));
    vec![json!({"e": "ledger", "via": via, "sizes": op["sizes"], "steps": op["steps"], "out": out})]
}
