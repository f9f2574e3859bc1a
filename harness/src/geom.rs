//! Scenes, rays and number encodings shared by all operations.
//!
//! Every f32 that leaves the harness is written as an order preserving integer ("key"): the bit
//! pattern of a positive float, the negated bit pattern of the magnitude of a negative one.
use glam::*;
use rtbvh::*;
use serde_json::{json, Value};

pub fn key(f: f32) -> i32 {
    if f.is_nan() {
        return i32::MAX;
    }
    let b = f.to_bits();
    if b >> 31 == 0 {
        b as i32
    } else {
        -((b & 0x7fff_ffff) as i32)
    }
}

pub fn unkey(k: i64) -> f32 {
    if k == i32::MAX as i64 {
        f32::NAN
    } else if k >= 0 {
        f32::from_bits(k as u32)
    } else {
        f32::from_bits((-k) as u32 | 0x8000_0000)
    }
}

#[derive(Debug, Clone)]
pub struct P {
    pub id: u32,
    pub v: [Vec3; 3],
    pub c: Vec3,
}

impl Primitive for P {
    fn center(&self) -> Vec3 {
        self.c
    }
    fn aabb(&self) -> Aabb {
        let mut b = Aabb::empty();
        // Not Aabb::grow, which is under test itself
        b.min = self.v[0].min(self.v[1]).min(self.v[2]);
        b.max = self.v[0].max(self.v[1]).max(self.v[2]);
        b
    }
}

impl SpatialTriangle for P {
    fn vertex0(&self) -> Vec3 {
        self.v[0]
    }
    fn vertex1(&self) -> Vec3 {
        self.v[1]
    }
    fn vertex2(&self) -> Vec3 {
        self.v[2]
    }
}

/// How integers of a scenario become coordinates: value * 2^-sh + off, or floats given as keys.
#[derive(Debug, Clone, Copy)]
pub struct Grid {
    pub flt: bool,
    pub scale: f32,
    pub off: Vec3,
}

pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_i64().expect("int")).collect())
        .unwrap_or_default()
}

impl Grid {
    pub fn new(case: &Value) -> Grid {
        let off = ints(&case["off"]);
        let off = if off.len() == 3 {
            vec3(off[0] as f32, off[1] as f32, off[2] as f32)
        } else {
            Vec3::ZERO
        };
        let sh = case["sh"].as_i64().unwrap_or(0);
        Grid {
            flt: case["flt"].as_i64().unwrap_or(0) != 0,
            scale: (2.0f32).powi(-(sh as i32)),
            off,
        }
    }
    pub fn point(&self, a: &[i64]) -> Vec3 {
        if self.flt {
            vec3(unkey(a[0]), unkey(a[1]), unkey(a[2]))
        } else {
            vec3(a[0] as f32, a[1] as f32, a[2] as f32) * self.scale + self.off
        }
    }
    pub fn prims(&self, tris: &Value, cen: &str) -> Vec<P> {
        tris.as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(i, t)| {
                let t = ints(t);
                let v = [self.point(&t[0..3]), self.point(&t[3..6]), self.point(&t[6..9])];
                let lo = v[0].min(v[1]).min(v[2]);
                let hi = v[0].max(v[1]).max(v[2]);
                let c = match cen {
                    "box" => (lo + hi) * 0.5,
                    "v0" => v[0],
                    "zero" => self.off,
                    // centres that have nothing to do with the boxes, or are no numbers
                    "wild" | "nan" => {
                        let mut x = (i as u32).wrapping_mul(2654435761) ^ t[0] as u32;
                        let mut c = Vec3::ZERO;
                        for k in 0..3 {
                            x = x.wrapping_mul(1664525).wrapping_add(1013904223);
                            c[k] = ((x >> 8) as f32 / (1 << 24) as f32 - 0.5) * 400.0;
                            if cen == "nan" && x >> 29 == 0 {
                                c[k] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, 3e38][(x >> 26) as usize & 3];
                            }
                        }
                        c
                    }
                    _ => (v[0] + v[1] + v[2]) * (1.0 / 3.0),
                };
                P { id: i as u32, v, c }
            })
            .collect()
    }
    pub fn dir(&self, d: &[i64], nz: &[i64]) -> Vec3 {
        let mut r = Vec3::ZERO;
        for i in 0..3 {
            r[i] = if self.flt { unkey(d[i]) } else { d[i] as f32 };
            if d[i] == 0 && nz.get(i).copied().unwrap_or(0) != 0 {
                r[i] = -0.0;
            }
        }
        r
    }
    /// A distance given in grid units as [numerator, denominator]
    pub fn t(&self, t: &Value) -> Option<f32> {
        let t = ints(t);
        if t.len() == 2 && t[1] > 0 {
            Some(t[0] as f32 / t[1] as f32 * if self.flt { 1.0 } else { self.scale })
        } else {
            None
        }
    }
    pub fn ray(&self, r: &Value) -> RaySpec {
        let mut o = self.point(&ints(&r["o"]));
        let mut d = self.dir(&ints(&r["d"]), &ints(&r["nz"]));
        match r["nan"].as_i64().unwrap_or(0) {
            0 => {}
            k @ 1..=3 => o[k as usize - 1] = f32::NAN,
            k => d[(k as usize - 4).min(2)] = f32::NAN,
        }
        let far = match ints(&r["t"])[..] {
            [1, 0] => f32::MAX,
            [_, 0] => f32::INFINITY,
            _ => 1e34,
        };
        (o, d, self.t(&r["t"]).unwrap_or(far), self.t(&r["tm"]))
    }
}

/// Origin, direction, initial distance and minimum distance (the default when there is none)
pub type RaySpec = (Vec3, Vec3, f32, Option<f32>);

pub fn mk_ray((o, d, t, tm): RaySpec, via: &str) -> Ray {
    let mut r = match via {
        "from" => Ray::from((o, d)),
        "lane" => {
            let mut p = RayPacket4::new([o.extend(0.0); 4], [d.extend(0.0); 4]);
            p.t = Vec4::splat(t);
            p.ray(2)
        }
        _ => Ray::new(o, d),
    };
    if let Some(tm) = tm {
        r.t_min = tm;
    }
    r.t = t;
    r
}

pub fn mk_packet(rs: &[RaySpec]) -> RayPacket4 {
    let f = |i: usize| rs[i % rs.len()];
    let mut p = RayPacket4::new(
        [f(0).0.extend(1.0), f(1).0.extend(2.0), f(2).0.extend(3.0), f(3).0.extend(4.0)],
        [f(0).1.extend(0.0), f(1).1.extend(0.0), f(2).1.extend(0.0), f(3).1.extend(0.0)],
    );
    p.t = vec4(f(0).2, f(1).2, f(2).2, f(3).2);
    p
}

pub fn node_json(n: &BvhNode) -> Value {
    let b = &n.bounds;
    json!([
        key(b.min.x), key(b.min.y), key(b.min.z),
        key(b.max.x), key(b.max.y), key(b.max.z),
        n.get_count_unchecked(), n.get_left_first_unchecked()
    ])
}

pub fn nodes_json(n: &[BvhNode]) -> Value {
    Value::Array(n.iter().map(node_json).collect())
}

pub fn wide_json(n: &[MbvhNode]) -> Value {
    Value::Array(
        n.iter()
            .map(|n| {
                let (nx, xx, ny, xy, nz, xz) = n.points();
                let (mx, my, mz) = n.min_points();
                let (hx, hy, hz) = n.max_points();
                assert_eq!([mx, my, mz, hx, hy, hz], [nx, ny, nz, xx, xy, xz]);
                Value::Array(
                    (0..4)
                        .map(|i| {
                            json!([
                                key(nx[i]), key(ny[i]), key(nz[i]),
                                key(xx[i]), key(xy[i]), key(xz[i]),
                                n.counts[i], n.children[i]
                            ])
                        })
                        .collect(),
                )
            })
            .collect(),
    )
}

/// Robust hit in double precision: used only for scenes with arbitrary float coordinates, to pick
/// the hits whose existence does not depend on rounding.
pub fn robust_hit(p: &P, o: Vec3, d: Vec3) -> Option<f64> {
    let (o, d) = (o.as_dvec3(), d.as_dvec3());
    let v: Vec<DVec3> = p.v.iter().map(|v| v.as_dvec3()).collect();
    let (e1, e2) = (v[1] - v[0], v[2] - v[0]);
    let h = d.cross(e2);
    let a = e1.dot(h);
    // Skip near-parallel rays and slivers
    if a.abs() < 1e-3 * e1.length() * e2.length() * d.length() || a.abs() < 1e-4 {
        return None;
    }
    let s = o - v[0];
    let u = s.dot(h) / a;
    let q = s.cross(e1);
    let w = d.dot(q) / a;
    let t = e2.dot(q) / a;
    if u > 1e-2 && w > 1e-2 && u + w < 1.0 - 1e-2 && t * d.length() > 1e-2 {
        Some(t)
    } else {
        None
    }
}
