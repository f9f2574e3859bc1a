//! The C interface, called the way a C program does: handles by value, raw pointers, callbacks.
use crate::{geom::*, query::Consumer, session::Session};
use glam::*;
use rtbvh::{Aabb, BvhNode, MbvhNode, Ray, RayPacket4};
use rtbvh_rs as c;
use serde_json::{json, Value};
use std::ffi::c_void;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

/// What the C header declares for both kinds of handles
#[derive(Debug, Clone, Copy)]
#[repr(C)]
pub struct Handle {
    pub id: u32,
    pub node_count: u32,
    pub nodes: *const c_void,
    pub index_count: u32,
    pub indices: *const u32,
}

unsafe impl Send for Handle {}
unsafe impl Sync for Handle {}

const EMPTY: Handle = Handle {
    id: u32::MAX,
    node_count: 0x5a5a5a5a,
    nodes: std::ptr::null(),
    index_count: 0x5a5a5a5a,
    indices: std::ptr::null(),
};

impl Handle {
    fn b(&self) -> c::RTBvh {
        unsafe { std::mem::transmute(*self) }
    }
    fn m(&self) -> c::RTMbvh {
        unsafe { std::mem::transmute(*self) }
    }
    fn out_b(&mut self) -> *mut c::RTBvh {
        self as *mut Handle as *mut c::RTBvh
    }
    fn out_m(&mut self) -> *mut c::RTMbvh {
        self as *mut Handle as *mut c::RTMbvh
    }
    fn written(&self) -> bool {
        self.id != u32::MAX || self.node_count != EMPTY.node_count || !self.nodes.is_null()
            || self.index_count != EMPTY.index_count || !self.indices.is_null()
    }
    pub fn bvh_nodes(&self) -> &[BvhNode] {
        if self.nodes.is_null() || self.node_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.nodes as *const BvhNode, self.node_count as usize) }
    }
    pub fn wide_nodes(&self) -> &[MbvhNode] {
        if self.nodes.is_null() || self.node_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.nodes as *const MbvhNode, self.node_count as usize) }
    }
    pub fn indices(&self) -> &[u32] {
        if self.indices.is_null() || self.index_count == 0 {
            return &[];
        }
        unsafe { std::slice::from_raw_parts(self.indices, self.index_count as usize) }
    }
    pub fn free(&self) {
        c::free_bvh(self.b())
    }
    pub fn free_wide(&self) {
        c::free_mbvh(self.m())
    }
    pub fn to_wide(&self) -> (Option<Handle>, i32) {
        let mut h = EMPTY;
        let r = unsafe { c::create_mbvh(self.b(), h.out_m()) } as i32;
        (if h.written() { Some(h) } else { None }, r)
    }
    pub fn refit(&self, bb: &[Aabb], al: usize) -> i32 {
        let buf = CBoxes::new(bb, al);
        unsafe { c::refit(buf.ptr(), self.b()) as i32 }
    }
}

extern "C" {
    fn mmap(at: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(at: *mut c_void, len: usize, prot: i32) -> i32;
    fn munmap(at: *mut c_void, len: usize) -> i32;
}

const PAGE: usize = 4096;

/// An array of the caller that ends right before memory nobody may read. What is not written holds NaNs.
struct Room {
    base: *mut c_void,
    size: usize,
}

impl Room {
    fn new(floats: usize) -> Self {
        let size = ((floats + 12) * 4 + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), size + PAGE, 3, 0x22, -1, 0);
            assert!(base as isize != -1, "TOOL: mmap");
            assert!(mprotect((base as *mut u8).add(size) as *mut c_void, PAGE, 0) == 0, "TOOL: mprotect");
            let mut r = Room { base, size };
            r.all().fill(f32::from_bits(BLANK));
            r
        }
    }
    /// Mostly untouched memory, for records that are far apart
    fn vast(floats: usize) -> Self {
        let size = (floats * 4 + PAGE - 1) / PAGE * PAGE;
        unsafe {
            let base = mmap(std::ptr::null_mut(), size + PAGE, 3, 0x4022, -1, 0);
            assert!(base as isize != -1, "TOOL: mmap");
            assert!(mprotect((base as *mut u8).add(size) as *mut c_void, PAGE, 0) == 0, "TOOL: mprotect");
            Room { base, size }
        }
    }
    fn all(&mut self) -> &mut [f32] {
        unsafe { std::slice::from_raw_parts_mut(self.base as *mut f32, self.size / 4) }
    }
    /// Where an array of that many floats starts that ends `gap` floats before the end
    fn at(&self, floats: usize, gap: usize) -> *mut f32 {
        unsafe { (self.base as *mut f32).add(self.size / 4 - floats - gap) }
    }
    fn last(&mut self, floats: usize, gap: usize) -> &mut [f32] {
        unsafe { std::slice::from_raw_parts_mut(self.at(floats, gap), floats) }
    }
}

impl Drop for Room {
    fn drop(&mut self) {
        unsafe { munmap(self.base, self.size + PAGE) };
    }
}

const BLANK: u32 = 0x7fc01234;

/// The caller's array of boxes, `al` floats before the next 16 byte boundary
struct CBoxes(Room, usize, usize);

impl CBoxes {
    fn new(bb: &[Aabb], al: usize) -> Self {
        let n = bb.len() * 8;
        let mut room = Room::new(n);
        unsafe { room.last(n, al).copy_from_slice(std::slice::from_raw_parts(bb.as_ptr() as *const f32, n)) };
        CBoxes(room, n, al)
    }
    fn ptr(&self) -> *const c::RTAabb {
        self.0.at(self.1, self.2) as *const c::RTAabb
    }
}

/// Builds through the C interface. Strides are bytes; unused bytes of a record hold NaNs.
pub fn build(b: &str, leaf: usize, boxes: Option<&[Aabb]>, prims: &[P], op: &Value) -> (Option<Handle>, i32) {
    let cs = op["cs"].as_i64().unwrap_or(12) as usize;
    let vs = op["vs"].as_i64().unwrap_or(12) as usize;
    let ts = op["ts"].as_i64().unwrap_or(3 * vs as i64) as usize;
    let n = prims.len();
    // Records that belong to a larger structure need not be complete at the end
    let trim = op["trim"].as_i64().unwrap_or(0) == 1;
    let last = n.max(1) - 1;
    let cn = if trim { last * cs / 4 + 3 } else { n * cs / 4 };
    let vn = (last * ts + 2 * vs) / 4 + 3;
    let vn = if trim { vn } else { vn.max(n * ts / 4) };
    let room = |floats: usize| if floats < 1 << 24 { Room::new(floats) } else { Room::vast(floats) };
    let (mut croom, mut vroom) = (room(cn), room(vn));
    let centers = croom.last(cn, 0);
    let verts = vroom.last(vn, 0);
    // What else is in the records is the caller's business
    if let Some(f) = op["fill"].as_f64() {
        if cn.max(vn) < 1 << 24 {
            centers.fill(f as f32);
            verts.fill(f as f32);
        }
    }
    for (i, p) in prims.iter().enumerate() {
        for k in 0..3 {
            centers[i * cs / 4 + k] = p.c[k];
            for v in 0..3 {
                verts[i * ts / 4 + v * vs / 4 + k] = p.v[v][k];
            }
        }
    }
    let room = boxes.map(|b| CBoxes::new(b, op["bal"].as_i64().unwrap_or(0) as usize));
    let bb = room.as_ref().map(|b| b.ptr()).unwrap_or(std::ptr::null());
    let null = op["null"].as_str().unwrap_or("");
    let cptr = if null == "centers" { std::ptr::null() } else { centers.as_ptr() };
    let mut h = EMPTY;
    let out = if null == "result" { std::ptr::null_mut() } else { h.out_b() };
    let r = unsafe {
        if b == "spatial" {
            c::create_spatial_Bvh(bb, n, cptr, cs, verts.as_ptr(), vs, ts, leaf as u32, out)
        } else {
            let t = if b == "locb" { c::BvhType::LocallyOrderedClustered } else { c::BvhType::BinnedSAH };
            c::create_bvh(bb, n, cptr, cs, leaf, t, out)
        }
    } as i32;
    (if h.written() { Some(h) } else { None }, r)
}

struct Call<'a, 'b> {
    con: &'a mut Consumer<'b>,
    ray: Ray,
    packet: RayPacket4,
}

extern "C" fn on_ray(id: u32, t: *mut f32, user: *mut c_void) -> bool {
    let u = unsafe { &mut *(user as *mut Call) };
    unsafe {
        u.ray.t = *t;
        let stop = u.con.ray(id, &mut u.ray);
        *t = u.ray.t;
        stop
    }
}

extern "C" fn on_packet(id: u32, t: *mut f32, user: *mut c_void) -> bool {
    let u = unsafe { &mut *(user as *mut Call) };
    unsafe {
        for i in 0..4 {
            u.packet.t[i] = *t.add(i);
        }
        let stop = u.con.packet(id, &mut u.packet);
        for i in 0..4 {
            *t.add(i) = u.packet.t[i];
        }
        stop
    }
}

thread_local! {
    static ROOMS: std::cell::RefCell<Vec<Room>> = std::cell::RefCell::new((0..7).map(|_| Room::new(4)).collect());
}

/// `al`: how many floats are between the caller's arrays and the end of readable memory
pub fn query(h: &Handle, on: &str, kind: &str, rs: &[RaySpec], con: &mut Consumer, al: usize) -> (i32, Value, Value, i32) {
    let mut call = Call {
        con,
        ray: Ray::new(rs[0].0, rs[0].1),
        packet: mk_packet(rs),
    };
    let user = &mut call as *mut Call as *mut c_void;
    let lane = |i: usize| rs[i % rs.len()];
    let n = if kind == "r" { 1 } else { 4 };
    let mut rooms = ROOMS.with(|r| r.take());
    if rooms.is_empty() {
        rooms = (0..7).map(|_| Room::new(4)).collect();
    }
    let len = |k: usize| if k == 6 { n } else if kind == "r" { 3 } else { 4 };
    for (k, room) in rooms.iter_mut().enumerate() {
        let at = room.last(len(k), al);
        for i in 0..at.len() {
            at[i] = match (kind, k) {
                ("r", 0) => rs[0].0[i],
                ("r", 1) => rs[0].1[i],
                ("r", _) => rs[0].2,
                (_, 6) => lane(i).2,
                (_, 0..=2) => lane(i).0[k],
                _ => lane(i).1[k - 3],
            };
        }
    }
    let p: Vec<*mut f32> = rooms.iter().enumerate().map(|(k, r)| r.at(len(k), al)).collect();
    let t0: Vec<i32> = rooms[6].last(n, al).iter().map(|t| key(*t)).collect();
    let r = unsafe {
        match (on, kind) {
            ("b", "r") => c::intersect(h.b(), p[0], p[1], p[6], user, on_ray),
            ("w", "r") => c::intersect_mbvh(h.m(), p[0], p[1], p[6], user, on_ray),
            ("b", _) => c::intersect_packet(h.b(), p[0], p[1], p[2], p[3], p[4], p[5], p[6], user, on_packet),
            _ => c::intersect_mbvh_packet(h.m(), p[0], p[1], p[2], p[3], p[4], p[5], p[6], user, on_packet),
        }
    } as i32;
    let tf: Vec<i32> = rooms[6].last(n, al).iter().map(|t| key(*t)).collect();
    for (k, room) in rooms.iter_mut().enumerate() {
        room.last(len(k), al).fill(f32::from_bits(BLANK));
    }
    // Nothing next to the caller's distances may be written
    let clean = rooms.iter_mut().all(|r| r.last(12, 0).iter().all(|t| t.to_bits() == BLANK));
    ROOMS.with(|r| *r.borrow_mut() = rooms);
    (r, json!(t0), json!(tf), clean as i32)
}

/// A history of calls, by one or several threads. Calls are stamped when they start and when they
/// have returned, so that the specification can look for an order that explains all answers.
pub fn history(s: &mut Session, op: &Value) -> Vec<Value> {
    let clock = Arc::new(AtomicU64::new(1));
    let log: Mutex<Vec<Value>> = Mutex::new(Vec::new());
    let handles: Mutex<std::collections::BTreeMap<i64, Handle>> = Mutex::new(Default::default());
    let s: &Session = s;
    for phase in op["phases"].as_array().unwrap() {
        let start = &std::sync::Barrier::new(phase.as_array().unwrap().len());
        std::thread::scope(|sc| {
            for (ti, thread) in phase.as_array().unwrap().iter().enumerate() {
                let (clock, log, handles) = (clock.clone(), &log, &handles);
                sc.spawn(move || {
                    start.wait();
                    for call in thread.as_array().unwrap() {
                        one(s, call, &clock, handles, ti, log);
                    }
                });
            }
        });
    }
    let mut evs = log.into_inner().unwrap();
    evs.sort_by_key(|e| e["s1"].as_u64());
    vec![json!({"e": "ffi", "scenes": op["scenes"], "calls": evs})]
}

type Names = Mutex<std::collections::BTreeMap<i64, Handle>>;

fn one(s: &Session, call: &Value, clock: &AtomicU64, handles: &Names, thread: usize, log: &Mutex<Vec<Value>>) {
    let c_name = call["c"].as_str().unwrap();
    let name = call["h"].as_i64().unwrap_or(0);
    let get = |n: i64| -> Handle {
        handles.lock().unwrap().get(&n).copied().unwrap_or(Handle {
            // A handle nobody ever returned
            id: 1_000_000 + n as u32,
            node_count: 0,
            nodes: 16 as *const c_void,
            index_count: 0,
            indices: 16 as *const u32,
        })
    };
    let prims = call["tris"].is_array().then(|| s.grid.prims(&call["tris"], &s.cen)).unwrap_or_default();
    let boxes: Vec<Aabb> = prims.iter().map(|p| rtbvh::Primitive::aabb(p)).collect();
    let mut out: Option<Handle> = None;
    let mut nodes = json!([]);
    let mut idx = json!([]);
    let mut wn = json!([]);
    let mut id = -1i64;
    let target = if name != 0 { get(name) } else { EMPTY };
    let from = get(call["from"].as_i64().unwrap_or(0));
    let mut qry = json!([]);
    let s0;
    let s1;
    let r;
    match c_name {
        "create" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            let (h, code) = build(call["b"].as_str().unwrap(), call["leaf"].as_i64().unwrap_or(0) as usize,
                if call["bb"].as_str() == Some("none") { None } else { Some(&boxes) }, &prims, call);
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = code;
            out = h;
        }
        "wide" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            let (h, code) = from.to_wide();
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = code;
            out = h;
        }
        "refit" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            r = target.refit(&boxes, call["bal"].as_i64().unwrap_or(0) as usize);
            s1 = clock.fetch_add(1, Ordering::SeqCst);
        }
        "free" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            c::free_bvh(target.b());
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = 0;
        }
        "freew" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            c::free_mbvh(target.m());
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = 0;
        }
        "look" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            nodes = nodes_json(target.bvh_nodes());
            idx = json!(target.indices());
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = 0;
        }
        "lookw" => {
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            wn = wide_json(target.wide_nodes());
            idx = json!(target.indices());
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = 0;
        }
        "q" | "qw" => {
            // The callback may use the interface itself
            let rs: Vec<RaySpec> = call["rays"].as_array().unwrap().iter().map(|r| s.grid.ray(r)).collect();
            let (on, kind) = (if c_name == "q" { "b" } else { "w" }, call["kind"].as_str().unwrap());
            let mut con = Consumer {
                con: crate::query::Con::None,
                prims: &[],
                cuts: vec![],
                stop: call["stop"].as_i64().unwrap_or(-1),
                y: vec![],
                stopped: 0,
                over: false,
                cap: target.index_count as usize * 4 + 16,
                first: Some(Box::new(|| {
                    for inner in call["inner"].as_array().map(|a| &a[..]).unwrap_or(&[]) {
                        one(s, inner, clock, handles, thread, log);
                    }
                })),
            };
            s0 = clock.fetch_add(1, Ordering::SeqCst);
            let (code, t0, tf, clean) = query(&target, on, kind, &rs, &mut con, call["al"].as_i64().unwrap_or(0) as usize);
            s1 = clock.fetch_add(1, Ordering::SeqCst);
            r = code;
            qry = json!([{"on": on, "kind": kind, "api": "ffi", "con": "none", "rays": call["rays"], "y": con.y, "over": con.over as i32, "stopped": con.stopped,
                "t0": t0, "tf": tf, "once": clean}]);
        }
        _ => panic!("TOOL: ffi call"),
    }
    let wrote = out.is_some();
    if let Some(h) = out {
        id = h.id as i64;
        handles.lock().unwrap().insert(name, h);
    }
    let e = json!({"c": c_name, "h": name, "from": call["from"].as_i64().unwrap_or(0), "sc": call["sc"].as_i64().unwrap_or(0), "r": r, "id": id,
        "wrote": wrote as i32, "nodes": nodes, "idx": idx, "wn": wn, "s0": s0, "s1": s1, "th": thread, "b": call["b"].as_str().unwrap_or(""), "q": qry});
    log.lock().unwrap().push(e);
}

/// So many structures that their number has more digits than usual: structure i holds one triangle around x = 2i. What happens to
/// structure i is said for i modulo the number of classes: "w" converted, "m" moved by refitting, "f" freed, in the order given.
pub fn crowd(op: &Value) -> Vec<Value> {
    let n = op["n"].as_i64().unwrap() as usize;
    let th = op["th"].as_i64().unwrap() as usize;
    let shift = op["shift"].as_i64().unwrap();
    let acts: Vec<&str> = op["acts"].as_array().unwrap().iter().map(|a| a.as_str().unwrap()).collect();
    let m = acts.len();
    let prim = |i: usize| {
        let x = 2.0 * i as f32;
        P { id: i as u32, v: [Vec3::new(x, 0.0, 0.0), Vec3::new(x + 1.0, 1.0, 1.0), Vec3::new(x, 1.0, 0.0)], c: Vec3::new(x + 0.5, 0.5, 0.5) }
    };
    let builders = ["binned", "spatial", "locb"];
    let mut bs: Vec<Option<Handle>> = vec![None; n];
    let mut ws: Vec<Option<Handle>> = vec![None; n];
    let bad = std::sync::atomic::AtomicUsize::new(0);
    let note = |ok: bool| {
        if !ok {
            bad.fetch_add(1, Ordering::SeqCst);
        }
    };
    let share = (n + th - 1) / th;
    std::thread::scope(|sc| {
        for (t, (bs, ws)) in bs.chunks_mut(share).zip(ws.chunks_mut(share)).enumerate() {
            let (acts, note) = (&acts, &note);
            sc.spawn(move || {
                for k in 0..bs.len() {
                    let i = t * share + k;
                    let p = [prim(i)];
                    let bb = [rtbvh::Primitive::aabb(&p[0])];
                    let (h, r) = build(builders[i / m % 3], 1, if i / m % 2 == 0 { Some(&bb) } else { None }, &p, &json!({}));
                    note(r == 0);
                    bs[k] = h;
                }
                for k in 0..bs.len() {
                    let i = t * share + k;
                    let h = match bs[k] {
                        Some(h) => h,
                        None => continue,
                    };
                    for a in acts[i % m].chars() {
                        match a {
                            'w' => {
                                let (w, r) = h.to_wide();
                                note(r == 0);
                                ws[k] = w;
                            }
                            'm' => {
                                let mut bb = rtbvh::Primitive::aabb(&prim(i));
                                bb.min.x += shift as f32;
                                bb.max.x += shift as f32;
                                note(h.refit(&[bb], 0) == 0);
                            }
                            'f' => c::free_bvh(h.b()),
                            _ => {
                                if let Some(w) = ws[k] {
                                    c::free_mbvh(w.m());
                                }
                            }
                        }
                    }
                }
            });
        }
    });
    let ids = |hs: &[Option<Handle>]| {
        let mut v: Vec<u32> = hs.iter().filter_map(|h| h.map(|h| h.id)).collect();
        v.sort_unstable();
        let k = v.len();
        v.dedup();
        (k, k - v.len())
    };
    // What the live ones show: where the box is against where the triangle was, how many nodes and entries there are and which, and
    // what rays through the old and the new place of the triangle find
    let mut shows: Vec<[i64; 9]> = Vec::new();
    for (on, hs, gone) in [(0, &bs, 'f'), (1, &ws, 'g')] {
        for class in 0..m {
            if acts[class].contains(gone) || on == 1 && !acts[class].contains('w') {
                continue;
            }
            let mut i = class;
            let from = shows.len();
            while i < n {
                let now = match hs[i] {
                    None => [on, class as i64, i as i64, i as i64, 0, 0, 0, 0, 0],
                    Some(h) => {
                        let (count, x) = if on == 0 {
                            let k = h.bvh_nodes();
                            (k.len(), k.get(0).map(|k| (k.bounds.min.x + k.bounds.max.x) * 0.5))
                        } else {
                            let k = h.wide_nodes();
                            (k.len(), k.get(0).map(|k| {
                                let p = k.points();
                                (p.0.x + p.1.x) * 0.5
                            }))
                        };
                        let x = x.map_or(i64::MIN / 2, |x| (x - 0.5).round() as i64 - 2 * i as i64);
                        let idx = h.indices();
                        let hit = |at: f32| {
                            let mut con = Consumer { con: crate::query::Con::None, prims: &[], cuts: vec![], stop: -1, y: vec![], stopped: 0, over: false, cap: 8, first: None };
                            let ray = (Vec3::new(at, -1.0, 0.5), Vec3::new(0.0, 1.0, 0.0), 100.0, None);
                            query(&h, if on == 0 { "b" } else { "w" }, "r", &[ray], &mut con, 0);
                            con.y.len() as i64
                        };
                        let here = 2.0 * i as f32 + 0.5;
                        [on, class as i64, i as i64, i as i64, x.clamp(-1 << 30, 1 << 30), idx.len() as i64 * 1000 + idx.get(0).map_or(999, |i| *i as i64), (count > 0) as i64,
                            hit(here), hit(here + shift as f32)]
                    }
                };
                match shows[from..].last_mut() {
                    Some(l) if l[3] + m as i64 == i as i64 && l[4..] == now[4..] => l[3] = i as i64,
                    _ => shows.push(now),
                }
                if shows.len() - from > 50 {
                    break;
                }
                i += m;
            }
        }
    }
    for h in bs.iter().flatten() {
        c::free_bvh(h.b());
    }
    for h in ws.iter().flatten() {
        c::free_mbvh(h.m());
    }
    let (k, rep) = ids(&bs);
    let (kw, repw) = ids(&ws);
    vec![json!({"e": "crowd", "n": n, "th": th, "shift": shift, "acts": op["acts"], "made": k, "rep": rep, "madew": kw, "repw": repw,
        "bad": bad.load(Ordering::SeqCst), "shows": shows})]
}
