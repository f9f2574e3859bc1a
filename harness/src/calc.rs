//! Functions without state: boxes, triangle tests, rays and packets, Morton codes.
use crate::{geom::*, session::{from_stream, to_stream, Session}};
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};

fn bx(s: &Session, v: &Value, x: i32) -> Aabb {
    let v = ints(v);
    let mut b = Aabb::<i32>::empty();
    if v.len() == 6 {
        b.min = s.grid.point(&v[0..3]);
        b.max = s.grid.point(&v[3..6]);
    }
    b.extra1 = x;
    b.extra2 = -3 * x;
    b
}

fn bj(b: &Aabb) -> Value {
    json!([key(b.min.x), key(b.min.y), key(b.min.z), key(b.max.x), key(b.max.y), key(b.max.z), b.extra1, b.extra2])
}

fn v3(v: Vec3) -> Value {
    json!([key(v.x), key(v.y), key(v.z)])
}

fn bits3(v: Vec3) -> Value {
    json!([v.x.to_bits() as i32, v.y.to_bits() as i32, v.z.to_bits() as i32])
}

/// Everything observable about a ray: its fields and what a list of boxes says to it
fn sig(r: &Ray, boxes: &[Aabb]) -> Value {
    let b: Vec<Value> = boxes
        .iter()
        .map(|b| json!([b.intersect(r).map(|t| key(t)).unwrap_or(i32::MIN + 1), b.intersects(r) as i32]))
        .collect();
    json!({"o": bits3(r.origin), "d": bits3(r.direction), "t": key(r.t), "tm": key(r.t_min), "b": b})
}

pub fn run(s: &Session, op: &Value) -> Vec<Value> {
    let f = op["f"].as_str().unwrap();
    let mut e = op.clone();
    let o = e.as_object_mut().unwrap();
    o.remove("op");
    o.insert("e".into(), json!(f));
    let out = match f {
        "box" => boxes(s, op),
        "tri" => tri(s, op),
        "rays" => ray_ops(s, op),
        "morton" => morton(s, op),
        "node" => node_ops(s, op),
        "cam" => camera(op),
        _ => panic!("TOOL: calc"),
    };
    o.insert("out".into(), out);
    vec![e]
}

fn boxes(s: &Session, op: &Value) -> Value {
    let a = bx(s, &op["a"], 11);
    let b = bx(s, &op["b"], 23);
    let p = s.grid.point(&ints(&op["p"]));
    let d = op["d"].as_i64().unwrap_or(0) as f32 * s.grid.scale;
    let list: Vec<Aabb> = op["list"].as_array().unwrap().iter().enumerate().map(|(i, v)| bx(s, v, 31 + i as i32)).collect();
    let pts: Vec<Vec3> = op["pts"].as_array().unwrap().iter().map(|v| s.grid.point(&ints(v))).collect();
    let m = op["m"].as_array().filter(|m| m.len() == 16).map(|_| {
        let m = ints(&op["m"]);
        let mut c = [0.0f32; 16];
        for i in 0..16 {
            c[i] = m[i] as f32;
        }
        Mat4::from_cols_array(&c)
    });
    let with = |f: &dyn Fn(&mut Aabb)| {
        let mut x = a;
        f(&mut x);
        bj(&x)
    };
    let as_pair: (Vec3, Vec3) = a.into();
    let from_pair: Aabb = as_pair.into();
    let (q0, q1) = a.points();
    let tr = m.map(|m| {
        let mut t = a;
        t.transform(m);
        json!([bj(&a.transformed(m)), bj(&t)])
    });
    let arr: Aabb = Aabb::from([p, q0, q1]);
    json!({
        "union": bj(&a.union_of(&b)), "inter": bj(&a.intersection(&b)),
        "grow": with(&|x| x.grow(p)), "growbb": with(&|x| x.grow_bb(&b)), "growbbs": with(&|x| x.grow_bbs(&list)),
        "shrink": with(&|x| x.shrink(&b)), "offset": with(&|x| x.offset_by(d)), "woffset": bj(&a.with_offset(d)),
        "contains": a.contains(p) as i32, "valid": a.is_valid() as i32, "volume": key(a.volume()), "area": key(a.area()),
        "harea": key(a.half_area()), "center": v3(a.center()), "pcenter": v3(Primitive::center(&a)), "paabb": bj(&Primitive::aabb(&a)),
        "bounds": bj(&Bounds::bounds(&a)), "lengths": v3(a.lengths()), "diag": v3(a.diagonal()),
        "ext": [key(a.extend(0)), key(a.extend(1)), key(a.extend(2))], "axis": a.longest_axis(), "longest": key(a.longest_extent()),
        "corners": a.all_corners().iter().map(|c| v3(*c)).collect::<Vec<_>>(),
        "points": [v3(q0), v3(q1)], "pair": [v3(as_pair.0), v3(as_pair.1)], "frompair": bj(&from_pair),
        "index": [v3(a[0]), v3(a[1])], "frompts": bj(&Aabb::from_points(&pts)), "fromarr": bj(&arr), "macro": bj(&rtbvh::aabb!(p, q0, q1)),
        "ulist": bj(&Aabb::union_of_list(&list)), "empty": bj(&Aabb::empty()), "new": bj(&Aabb::new()), "full": bj(&Aabb::full()),
        "def": bj(&Aabb::default()), "tr": tr.unwrap_or(json!([])),
    })
}

fn tri(s: &Session, op: &Value) -> Value {
    let prims = s.grid.prims(&json!([op["tri"]]), "centroid");
    let p = &prims[0];
    let rs: Vec<RaySpec> = op["rays"].as_array().unwrap().iter().map(|r| s.grid.ray(r)).collect();
    let single: Vec<Value> = rs
        .iter()
        .map(|(o, d, t, _)| {
            let mut r = Ray::new(*o, *d);
            r.t = *t;
            let r0 = r;
            let h = p.intersect(&mut r);
            let same = bits3(r.origin) == bits3(r0.origin) && bits3(r.direction) == bits3(r0.direction) && r.t_min == r0.t_min;
            json!([h as i32, key(r0.t), key(r.t), same as i32])
        })
        .collect();
    let mut k = mk_packet(&rs);
    let k0 = k;
    let h = p.intersect4(&mut k, Vec4::splat(1e-4));
    let all = |k: &RayPacket4| -> Vec<u32> {
        [k.origin_x, k.origin_y, k.origin_z, k.direction_x, k.direction_y, k.direction_z]
            .iter()
            .flat_map(|v| v.to_array().map(f32::to_bits))
            .collect()
    };
    let same = all(&k) == all(&k0);
    let some = h.is_some();
    let h = h.unwrap_or([false; 4]);
    let lanes: Vec<Value> = (0..4).map(|i| json!([h[i] as i32, key(k0.t[i]), key(k.t[i]), same as i32])).collect();
    // The same with a minimum distance of its own for every lane
    let tms: Vec<f32> = op["tms"].as_array().map(|a| a.iter().map(|t| s.grid.t(t).unwrap_or(1e-4)).collect()).unwrap_or_default();
    let tmin = if tms.len() == 4 {
        let mut k = mk_packet(&rs);
        let h = p.intersect4(&mut k, Vec4::new(tms[0], tms[1], tms[2], tms[3])).unwrap_or([false; 4]);
        let singles: Vec<Value> = (0..4)
            .map(|i| {
                let (o, d, t, _) = rs[i % rs.len()];
                let mut r = Ray::new(o, d);
                r.t = t;
                r.t_min = tms[i];
                let h = p.intersect(&mut r);
                json!([h as i32, key(t), key(r.t), 1])
            })
            .collect();
        let lanes: Vec<Value> = (0..4).map(|i| json!([h[i] as i32, key(k0.t[i]), key(k.t[i]), 1])).collect();
        Some(json!({"single": singles, "lanes": lanes}))
    } else {
        None
    };
    json!({"single": single, "lanes": lanes, "some": some as i32, "tmin": tmin.unwrap_or(json!({"single": [], "lanes": []}))})
}

fn ray_ops(s: &Session, op: &Value) -> Value {
    let rs: Vec<RaySpec> = op["rays"].as_array().unwrap().iter().map(|r| s.grid.ray(r)).collect();
    let bs: Vec<Aabb> = op["boxes"].as_array().unwrap().iter().map(|v| bx(s, v, 0)).collect();
    let mut k = mk_packet(&rs);
    let (ox, oy, oz) = k.origin_xyz();
    let (dx, dy, dz) = k.direction_xyz();
    let raw: Vec<Value> = (0..4)
        .map(|i| json!({"o": bits3(vec3(ox[i], oy[i], oz[i])), "d": bits3(vec3(dx[i], dy[i], dz[i])), "t": key(k.t()[i])}))
        .collect();
    let lanes: Vec<Value> = (0..4).map(|i| sig(&k.ray(i), &bs)).collect();
    // What boxes say to the packet as a whole
    let box4: Vec<Value> = bs
        .iter()
        .map(|b| b.intersect4(&k).map(|t| json!([key(t[0]), key(t[1]), key(t[2]), key(t[3])])).unwrap_or(json!([])))
        .collect();
    let back: RayPacket4 = from_stream(&to_stream(&k));
    let saved: Vec<Value> = (0..4).map(|i| sig(&back.ray(i), &bs)).collect();
    let saved4: Vec<Value> = bs
        .iter()
        .map(|b| {
            let b: Aabb = from_stream(&to_stream(b));
            b.intersect4(&back).map(|t| json!([key(t[0]), key(t[1]), key(t[2]), key(t[3])])).unwrap_or(json!([]))
        })
        .collect();
    // One lane's distance changes, then all are reset
    let one = op["lane"].as_i64().unwrap_or(0) as usize % 4;
    let t1 = s.grid.t(&op["t1"]).unwrap_or(2.0);
    k.t[one] = t1;
    let after: Vec<Value> = (0..4).map(|i| sig(&k.ray(i), &bs)).collect();
    k.t[(one + 1) % 4] = f32::INFINITY;
    k.t[(one + 2) % 4] = 5e34;
    k.reset();
    let reset: Vec<Value> = (0..4).map(|i| sig(&k.ray(i), &bs)).collect();
    let direct: Vec<Value> = (0..4)
        .map(|i| {
            let (o, d, t, _) = rs[i % rs.len()];
            let mut n = Ray::new(o, d);
            let fresh = sig(&n, &bs);
            n.t = t;
            let set = sig(&n, &bs);
            let valid = n.is_valid() as i32;
            let mut m = n;
            m.t = t1;
            let set1 = sig(&m, &bs);
            m.reset();
            let res = sig(&m, &bs);
            // Whatever the distances were: of any size, with a minimum of the caller's own
            m.t = if i % 2 == 0 { f32::INFINITY } else { f32::NAN };
            m.t_min = 0.25;
            m.reset();
            let res2 = sig(&m, &bs);
            let conv = sig(&Ray::from((o, d)), &bs);
            // With minimum distances of the caller's own
            let tms: Vec<Value> = op["mins"]
                .as_array()
                .map(|a| {
                    a.iter()
                        .map(|x| {
                            let mut m = Ray::new(o, d);
                            m.t_min = s.grid.t(x).unwrap();
                            sig(&m, &bs)["b"].clone()
                        })
                        .collect()
                })
                .unwrap_or_default();
            let saved: Ray = from_stream(&to_stream(&n));
            let back: (Vec3, Vec3) = n.into();
            let at = v3(n.get_point_at(op["at"].as_i64().unwrap_or(1) as f32));
            let hp = s.grid.point(&ints(&op["hp"]));
            let nn = ints(&op["nn"]);
            let nn = vec3(nn[0] as f32, nn[1] as f32, nn[2] as f32);
            let eps = op["eps"].as_i64().unwrap_or(0) as f32 / 1024.0;
            let mut n = n;
            n.t_min = t1;
            let rf = n.reflect(hp, nn, eps);
            let rfn = Ray::new(rf.origin, rf.direction);
            json!({"fresh": fresh, "set": set, "set1": set1, "res": res, "res2": [res2["o"], res2["d"], res2["t"], res2["tm"]], "conv": conv, "back": [bits3(back.0), bits3(back.1)], "valid": valid,
                "at": at, "rf": sig(&rf, &bs), "rfn": sig(&rfn, &bs), "saved": sig(&saved, &bs), "tms": tms, "rfo": v3(rf.origin), "rfd": v3(rf.direction)})
        })
        .collect();
    json!({"raw": raw, "lanes": lanes, "after": after, "reset": reset, "direct": direct, "t1": key(t1), "box4": box4, "saved": saved, "saved4": saved4})
}

fn morton(s: &Session, op: &Value) -> Value {
    let split: Vec<u32> = ints(&op["ints"]).iter().map(|i| morton_split(*i as u32)).collect();
    let codes: Vec<u32> = op["cells"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| {
            let c = ints(c);
            MortonEncoder::morton_encode(c[0] as u32, c[1] as u32, c[2] as u32)
        })
        .collect();
    let b = bx(s, &op["box"], 0);
    let dim = op["dim"].as_i64().unwrap() as usize;
    let enc = MortonEncoder::new(&b, dim);
    let pts: Vec<Vec3> = op["pts"].as_array().unwrap().iter().map(|p| s.grid.point(&ints(p))).collect();
    let enc_codes: Vec<u32> = pts.iter().map(|p| enc.encode(*p)).collect();
    // Only the centres count, wherever the boxes are
    let prims: Vec<P> = pts.iter().enumerate().map(|(i, p)| P { id: i as u32, v: [pts[(i * 7 + 1) % pts.len()]; 3], c: *p }).collect();
    let boxes: Vec<Aabb> = prims.iter().map(Primitive::aabb).collect();
    let (order, mc) = enc.get_sorted_indices(&boxes, &prims);
    json!({"split": split, "codes": codes, "enc": enc_codes, "order": order, "mc": mc, "max": MortonEncoder::MAX_GRID_DIM})
}

/// Node records: what is put into them and what they say about it
fn node_ops(s: &Session, op: &Value) -> Value {
    let bs: Vec<Aabb> = op["boxes"].as_array().unwrap().iter().map(|v| bx(s, v, 0)).collect();
    let rs: Vec<RaySpec> = op["rays"].as_array().unwrap().iter().map(|r| s.grid.ray(r)).collect();
    let opt = |v: &Value| v.as_i64().filter(|x| *x >= 0).map(|x| x as u32);
    let say = |n: &BvhNode| {
        let o = |v: Option<u32>| v.map(|x| x as i64).unwrap_or(-1);
        json!({"first": o(n.get_left_first()), "rfirst": n.get_left_first_unchecked(), "count": o(n.get_count()), "rcount": n.get_count_unchecked(),
            "leaf": n.is_leaf() as i32, "inner": n.has_children() as i32, "valid": n.is_valid() as i32, "b": bj(&n.bounds).as_array().unwrap()[..6].to_vec()})
    };
    let mut n = if op["how"] == 0 { BvhNode::new() } else { BvhNode::default() };
    let fresh = bj(&n.bounds).as_array().unwrap()[..6].to_vec();
    n.bounds = bs[0];
    let says: Vec<Value> = op["sets"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let v = opt(&x[1]);
            match x[0].as_i64().unwrap() {
                0 => n.set_left_first(v),
                1 => n = n.clone().with_left_first(v),
                2 => n.set_count(v),
                _ => n = n.clone().with_count(v),
            }
            say(&n)
        })
        .collect();
    let pk = mk_packet(&rs);
    let t4 = |x: Option<[f32; 4]>| x.map(|t| json!([key(t[0]), key(t[1]), key(t[2]), key(t[3])])).unwrap_or(json!([]));
    let t1 = |x: Option<f32>| x.map(|t| key(t)).unwrap_or(i32::MIN + 1);
    let asks: Vec<Value> = rs
        .iter()
        .map(|r| {
            let mut q = Ray::new(r.0, r.1);
            q.t = r.2;
            json!([t1(n.intersect(&q)), t1(n.bounds.intersect(&q))])
        })
        .collect();
    let mut w = if op["how"] == 0 { MbvhNode::new() } else { MbvhNode::default() };
    let cols = |w: &MbvhNode| {
        let l = |v: Vec4| vec![key(v[0]), key(v[1]), key(v[2]), key(v[3])];
        let (a, b, c, d, e, f) = w.points();
        let (g, h, i) = w.min_points();
        let (j, k, m) = w.max_points();
        json!({"all": [l(a), l(c), l(e), l(b), l(d), l(f)], "mm": [l(g), l(h), l(i), l(j), l(k), l(m)], "kids": [w.children.to_vec(), w.counts.to_vec()]})
    };
    let first = cols(&w);
    let wides: Vec<Value> = op["puts"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| {
            let b = &bs[x[1].as_i64().unwrap() as usize];
            let slot = x[0].as_i64().unwrap() as usize;
            if x[2] == 0 {
                w.set_bounds(slot, &b.min.to_array(), &b.max.to_array());
            } else {
                w.set_bounds_bb(slot, b);
            }
            cols(&w)
        })
        .collect();
    json!({"fresh": fresh, "says": says, "asks": asks, "ask4": [t4(n.intersect4(&pk)), t4(n.bounds.intersect4(&pk))], "first": first, "wides": wides})
}

/// The camera and the triangle of the examples
fn camera(op: &Value) -> Value {
    use shared::{CameraView3D, Triangle};
    let iv = |v: &Value| {
        let v = ints(v);
        vec3(v[0] as f32, v[1] as f32, v[2] as f32)
    };
    let px: Vec<[u32; 2]> = op["px"].as_array().unwrap().iter().map(|p| { let p = ints(p); [p[0] as u32, p[1] as u32] }).collect();
    let look = |c: &CameraView3D| {
        let single: Vec<Ray> = px.iter().map(|p| c.generate_ray(p[0], p[1])).collect();
        let k = c.generate_ray4([px[0][0], px[1][0], px[2][0], px[3][0]], [px[0][1], px[1][1], px[2][1], px[3][1]]);
        let one: Vec<Value> = single.iter().map(|r| json!({"o": v3(r.origin), "d": v3(r.direction), "t": key(r.t), "tm": key(r.t_min)})).collect();
        let four: Vec<Value> = (0..4)
            .map(|i| {
                let r = k.ray(i);
                let inv = vec3(k.inv_direction_x[i], k.inv_direction_y[i], k.inv_direction_z[i]);
                json!({"o": v3(r.origin), "d": v3(r.direction), "t": key(r.t), "tm": key(r.t_min),
                    "inv": (bits3(inv) == bits3(Vec3::ONE / r.direction)) as i32})
            })
            .collect();
        json!({"one": one, "four": four, "dir": v3(c.direction), "pos": v3(c.pos)})
    };
    let res = ints(&op["res"]);
    let (w, h) = (1.0 / res[0] as f32, 1.0 / res[1] as f32);
    let raw = CameraView3D { pos: iv(&op["pos"]), p1: iv(&op["p1"]), right: iv(&op["right"]), up: iv(&op["up"]), direction: Vec3::Z, inv_width: w, inv_height: h, aspect_ratio: 1.0, fov: 90.0 };
    let mut cam = CameraView3D { pos: iv(&op["pos"]), direction: iv(&op["dir"]), inv_width: w, inv_height: h, aspect_ratio: op["asp"].as_i64().unwrap() as f32, fov: 90.0, ..Default::default() };
    let mut moves = vec![];
    for m in op["moves"].as_array().unwrap() {
        cam.translate(iv(m));
        moves.push(look(&cam));
    }
    cam.translate_target(iv(&op["turn"]) * 0.125);
    let turned = look(&cam);
    cam.translate(iv(&op["after"]));
    let after = look(&cam);
    let t = ints(&op["tri"]);
    let v = |i: usize| vec4(t[3 * i] as f32, t[3 * i + 1] as f32, t[3 * i + 2] as f32, op["w"].as_i64().unwrap() as f32);
    let t = Triangle::new(v(0), v(1), v(2));
    json!({"raw": look(&raw), "moves": moves, "turned": turned, "after": after, "normal": v3(t.normal), "center": v3(Primitive::center(&t)),
        "box": bj(&Primitive::aabb(&t)).as_array().unwrap()[..6].to_vec(),
        "v": [v3(SpatialTriangle::vertex0(&t)), v3(SpatialTriangle::vertex1(&t)), v3(SpatialTriangle::vertex2(&t))]})
}
