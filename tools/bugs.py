BUGS = []
def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))

S = "src/builders/spatial_sah.rs"; BI = "src/builders/binned_sah.rs"; L = "src/builders/locb.rs"
M = "src/mbvh_node.rs"; A = "src/aabb.rs"; B = "src/bvh.rs"; IT = "src/iter.rs"; IX = "src/iter_indices.rs"; F = "rtbvh_ffi/src/lib.rs"

bug("c01-node-room", "C01", "a scene whose overlapping triangles are split so often that there are more leaves than primitives (one primitive per leaf)",
    "spatial SAH sizes its node array by the number of primitives, not by the number of references: builds with many spatial splits panic",
    [(S, "let mut nodes = vec![BvhNode::new(); 2 * max_reference_count + 1];", "let mut nodes = vec![BvhNode::new(); 2 * prim_count + 1];")],
    """
fn main() {
    // Long thin diagonal triangles crossing each other
    for seed in 0..6u64 {
        let mut r = Rng(seed + 3);
        let t: Vec<Tri> = (0..300)
            .map(|_| {
                let o = r.v(4.0);
                let d = r.v(16.0);
                tri(o, o + d, o + d * 0.5 + r.v(0.2))
            })
            .collect();
        let bb = boxes(&t);
        let b = build(1, Some(&bb), &t, 1);
        assert!(b.validate(t.len()));
    }
}
""")

bug("c02-spare-nodes", "C02", "spatial SAH with more than one primitive per leaf",
    "the node array of a spatial SAH tree is cut to twice the number of references instead of to the nodes that were allocated: it ends in nodes nobody refers to",
    [(S, "nodes.resize(node_count.load(SeqCst), BvhNode::new());", "nodes.resize(2 * reference_count.load(SeqCst) - 1, BvhNode::new());")],
    """
fn main() {
    for seed in 0..5 {
        for leaf in [1usize, 4, 8] {
            // Coincident triangles share leaves
            let mut t = random(60, seed, 8.0, 2.0);
            for i in 0..20 {
                t[i] = t[0];
            }
            let bb = boxes(&t);
            for k in 0..3 {
                let b = build(k, Some(&bb), &t, leaf);
                assert_eq!(walk(&b).len(), b.nodes().len(), "unreachable nodes, builder {} leaf {}", k, leaf);
            }
        }
    }
}
""")

bug("c03-clip-edge", "C03", "a triangle whose edge from the third back to the first vertex crosses a spatial split plane where no other crossing lies further out",
    "the part of a split triangle to the right of the plane does not include where the edge from vertex 2 to vertex 0 crosses it: bounds miss parts of the primitive",
    [(S, """            let m = split_edge(p[2], p[0]);
            left.grow(m);
            right.grow(m);""", """            let m = split_edge(p[2], p[0]);
            left.grow(m);
            left.grow(m);""")],
    """
fn main() {
    // Every part of a triangle lies in one of the two boxes
    let mut r = Rng(5);
    for _ in 0..3000 {
        let t = tri(r.v(4.0), r.v(4.0), r.v(4.0));
        for axis in 0..3 {
            let at = r.v(2.0).x;
            let (lo, hi) = t.split(axis, at);
            for k in 0..60 {
                let (mut u, mut v) = (r.f(), r.f());
                if k % 3 == 0 {
                    v = 1.0 - u;
                }
                if k % 3 == 1 {
                    u = 0.0;
                }
                if u + v > 1.0 {
                    u = 1.0 - u;
                    v = 1.0 - v;
                }
                let p = t.0[0] + u * (t.0[1] - t.0[0]) + v * (t.0[2] - t.0[0]);
                let q = Aabb::<i32> { min: p, max: p, ..Aabb::empty() };
                assert!(inside(&q, &lo.with_offset(1e-3)) || inside(&q, &hi.with_offset(1e-3)), "{} in neither {} nor {}", p, lo, hi);
            }
        }
    }
}
""")

bug("c03-bin-centre", "C03", "primitives whose centre is not the centre of their box (binned SAH)",
    "binned SAH puts primitives into bins by the centre of their box but partitions by the primitive's own centre: child bounds leave out primitives",
    [(BI, """                    self.builder.primitives[p_id].center(),
""", """                    self.builder.aabbs[p_id].center(),
""")],
    """
fn main() {
    for seed in 0..5 {
        let t = random(200, seed, 6.0, 4.0);
        let bb = boxes(&t);
        let b = build(0, Some(&bb), &t, 1);
        for (n, _) in walk(&b) {
            for id in below(&b, n) {
                assert!(inside(&bb[id as usize], &b.nodes()[n].bounds), "node {} leaves out primitive {}", n, id);
            }
        }
    }
}
""")

bug("c04-own-boxes", "C04", "primitives whose centre lies outside their own box, built with binned SAH without a list of boxes",
    "computing the boxes itself, binned SAH also makes them contain the centres: the tree differs from one built with the primitives' own boxes",
    [(B, """                .map(|p| p.aabb())
                .collect::<Vec<_>>();

            Ok(BinnedSahBuilder::new""", """                .map(|p| {
                    let mut aabb = p.aabb();
                    aabb.grow(p.center());
                    aabb
                })
                .collect::<Vec<_>>();

            Ok(BinnedSahBuilder::new""")],
    """
fn main() {
    let mut r = Rng(9);
    let mut t = random(80, 2, 8.0, 1.0);
    for x in t.iter_mut() {
        x.1 += r.v(3.0);
    }
    let bb = boxes(&t);
    for k in 0..3 {
        assert_eq!(canon(&build(k, None, &t, 2), 0), canon(&build(k, Some(&bb), &t, 2), 0), "builder {}", k);
    }
}
""")

bug("c05-wide-far", "C05", "a ray with a maximum distance that ends inside a box of a 4-wide tree, before leaving it",
    "4-wide nodes are skipped by single rays that end inside them",
    [(M, "let result = t_max.cmpge(t_min) & t_min.cmplt(Vec4::splat(ray.t));", "let result = t_max.cmpge(t_min) & t_max.cmplt(Vec4::splat(ray.t));")],
    """
fn main() {
    for seed in 0..4 {
        let t = random(60, seed, 6.0, 3.0);
        let bb = boxes(&t);
        let mut r = Rng(seed + 77);
        for k in 0..3 {
            let b = build(k, Some(&bb), &t, 1);
            let m = Mbvh::construct(&b);
            for _ in 0..300 {
                let (o, d) = (r.v(6.0), r.v(2.0));
                let tm = 0.1 + r.f() * 2.0;
                let (_, ids) = brute(&t, o, d, tm);
                let mut ray = Ray::new(o, d);
                ray.t = tm * 1.0001;
                let got: Vec<u32> = m.traverse_iter_indices(&mut ray).map(|x| x.0).collect();
                for i in ids {
                    assert!(got.contains(&i), "primitive {} is hit but not offered", i);
                }
            }
        }
    }
}
""")

bug("c06-lane-distance", "C06", "a packet on a 4-wide tree whose rays have different maximum distances",
    "4-wide nodes test each ray of a packet against the smallest of the four maximum distances",
    [(M, "let less_than_t = t_min.cmplt(Vec4::splat(packet.t[i]));", "let less_than_t = t_min.cmplt(Vec4::splat(packet.t.min_element()));")],
    """
fn main() {
    for seed in 0..4 {
        let t = random(60, seed, 6.0, 3.0);
        let bb = boxes(&t);
        let mut r = Rng(seed + 77);
        let b = build(0, Some(&bb), &t, 1);
        let m = Mbvh::construct(&b);
        for _ in 0..300 {
            let o: Vec<Vec3> = (0..4).map(|_| r.v(12.0)).collect();
            let d: Vec<Vec3> = (0..4).map(|_| r.v(2.0)).collect();
            let mut p = RayPacket4::new([o[0].extend(0.), o[1].extend(0.), o[2].extend(0.), o[3].extend(0.)],
                [d[0].extend(0.), d[1].extend(0.), d[2].extend(0.), d[3].extend(0.)]);
            p.t = vec4(1e34, 0.3, 5.0, 1e34);
            let ts = p.t;
            let got: Vec<u32> = m.traverse_iter_indices_packet(&mut p).map(|x| x.0).collect();
            for l in 0..4 {
                for i in brute(&t, o[l], d[l], ts[l] * 0.9999).1 {
                    assert!(got.contains(&i), "lane {} hits {} but it is not offered", l, i);
                }
            }
        }
    }
}
""")

bug("c06-packet-far-z", "C06", "a packet on a binary tree with a ray going towards negative z",
    "the packet box test takes the z plane with the larger coordinate for the far one whatever the direction of the ray",
    [(A, "let t_max_z = t1_z.max(t2_z);", "let t_max_z = t2_z;")],
    """
fn main() {
    for seed in 0..4 {
        let t = random(60, seed, 6.0, 3.0);
        let bb = boxes(&t);
        let mut r = Rng(seed + 77);
        let b = build(0, Some(&bb), &t, 1);
        for _ in 0..300 {
            let o: Vec<Vec3> = (0..4).map(|_| r.v(8.0)).collect();
            let d: Vec<Vec3> = (0..4).map(|_| r.v(2.0)).collect();
            let mut p = RayPacket4::new([o[0].extend(0.), o[1].extend(0.), o[2].extend(0.), o[3].extend(0.)],
                [d[0].extend(0.), d[1].extend(0.), d[2].extend(0.), d[3].extend(0.)]);
            let got: Vec<u32> = b.traverse_iter_indices_packet(&mut p).map(|x| x.0).collect();
            for l in 0..4 {
                for i in brute(&t, o[l], d[l], 1e30).1 {
                    assert!(got.contains(&i), "lane {} hits {} but it is not offered", l, i);
                }
            }
        }
    }
}
""")

bug("c07-early-out", "C07", "a closest-hit search with a single ray over the primitives of a 4-wide tree: the distance shrinks while subtrees wait on the stack, and the first of them is beyond it while a later one is not",
    "4-wide traversal stops altogether at the first waiting subtree that turns out to be beyond the shrunk distance",
    [(IT, """                        .get_unchecked(self.current as usize)
                        .intersect(&self.ray)
                };
                self.i = 0;""", """                        .get_unchecked(self.current as usize)
                        .intersect(&self.ray)
                };
                // Nothing can be closer anymore
                if self.hit.result == [false; 4] && self.ray.is_valid() {
                    return None;
                }
                self.i = 0;""")],
    """
fn main() {
    for seed in 0..6 {
        let t = random(400, seed, 10.0, 3.0);
        let bb = boxes(&t);
        let mut r = Rng(seed + 77);
        for k in 0..3 {
            let m = Mbvh::construct(&build(k, Some(&bb), &t, 1));
            for _ in 0..300 {
                let (o, d) = (r.v(30.0), r.v(2.0));
                let (best, _) = brute(&t, o, d, 1e34);
                let mut ray = Ray::new(o, d);
                for (p, ray) in m.traverse_iter(&mut ray, &t) {
                    p.intersect(ray);
                }
                assert_eq!(ray.t, best);
            }
        }
    }
}
""")

bug("c08-nan-lane", "C08", "a packet with a NaN in the y component of a direction, traversed with the object iterator made from slices",
    "one of the packet entry points does not reject NaN directions",
    [(IT, """            || ray.direction_x.is_nan()
            || ray.direction_y.is_nan()
            || ray.direction_z.is_nan()
            || primitives.is_empty()
""", """            || ray.direction_x.is_nan()
            || ray.direction_z.is_nan()
            || primitives.is_empty()
""", 1)],
    """
fn main() {
    let t = random(30, 1, 6.0, 3.0);
    let bb = boxes(&t);
    let b = build(0, Some(&bb), &t, 1);
    for c in 0..3 {
        for lane in 0..4 {
            for dir in [false, true] {
                let o = [vec4(-9.0, 0.1, 0.1, 0.0); 4];
                let d = [vec4(1.0, 0.01, 0.01, 0.0); 4];
                let (mut o, mut d) = (o, d);
                if dir { d[lane][c] = f32::NAN } else { o[lane][c] = f32::NAN }
                let mut p = RayPacket4::new(o, d);
                assert_eq!(b.traverse_iter_packet(&mut p, &t).count(), 0);
                assert_eq!(b.traverse_iter_indices_packet(&mut p).count(), 0);
                assert_eq!(BvhPacketIterator::from_slices(&mut p, b.nodes(), b.indices(), &t).count(), 0, "component {} lane {}", c, lane);
                assert_eq!(BvhPacketIndexIterator::from_slices(&mut p, b.nodes(), b.indices()).count(), 0);
            }
        }
    }
}
""")

bug("c09-depth-cap", "C09", "a binary tree more than 60 levels deep in which every level leaves a subtree waiting, traversed with the object iterator",
    "the object iterator silently skips subtrees once more than 60 are waiting",
    [(IT, """            } else if left_first > -1 {
                self.stack_ptr = BvhNode::sort_nodes(
""", """            } else if left_first > -1 && self.stack_ptr < 60 {
                self.stack_ptr = BvhNode::sort_nodes(
""")],
    """
fn main() {
    let n = 100usize;
    let t: Vec<Tri> = (0..n)
        .map(|i| { let x = i as f32; tri(vec3(x, -1.0, -1.0), vec3(x, 1.0, -1.0), vec3(x, 0.0, 2.0)) })
        .collect();
    for (o, d) in [(-5.0f32, 1.0f32), (200.0, -1.0)] {
        for flip in [false, true] {
            // A chain: every inner node has a leaf and the rest
            let mut nodes = vec![BvhNode::new(); 2 * n - 1];
            let bb = |lo: usize, hi: usize| {
                let mut b = Aabb::empty();
                for x in &t[lo..hi] { b.grow_bb(&x.aabb()); }
                b.with_offset(0.01)
            };
            let (mut at, mut lo, mut hi, mut free) = (0, 0, n, 1);
            while hi - lo > 1 {
                nodes[at].bounds = bb(lo, hi);
                nodes[at].set_left_first(Some(free as u32));
                nodes[at].set_count(None);
                let leaf = if flip { hi - 1 } else { lo };
                nodes[free].bounds = bb(leaf, leaf + 1);
                nodes[free].set_left_first(Some(leaf as u32));
                nodes[free].set_count(Some(1));
                if flip { hi -= 1 } else { lo += 1 }
                at = free + 1;
                free += 2;
            }
            nodes[at].bounds = bb(lo, hi);
            nodes[at].set_left_first(Some(lo as u32));
            nodes[at].set_count(Some(1));
            let b = raw(nodes, (0..n as u32).collect());
            let mut ray = Ray::new(vec3(o, 0.0, 0.0), vec3(d, 0.0, 0.0));
            assert_eq!(b.traverse_iter(&mut ray, &t).count(), n);
        }
    }
}
""")

bug("c10-sibling-bounds", "C10", "a binary tree in which the right child of an inner node's right child is a leaf: the fourth slot",
    "the fourth slot of a 4-wide node gets the bounds of the third one's node when it is a leaf",
    [(M, """                            leafs[3] = bvh_pool[left_first as usize + 1].get_count_unchecked();
                            mbvh_pool[m_index]
                                .set_bounds_bb(3, &bvh_pool[left_first as usize + 1].bounds);""",
         """                            leafs[3] = bvh_pool[left_first as usize + 1].get_count_unchecked();
                            mbvh_pool[m_index]
                                .set_bounds_bb(3, &bvh_pool[left_first as usize].bounds);""")],
    """
fn main() {
    for seed in 0..5 {
        let t = random(50, seed, 20.0, 0.5);
        let bb = boxes(&t);
        for k in 0..3 {
            let m = Mbvh::construct(&build(k, Some(&bb), &t, 1));
            for (i, x) in t.iter().enumerate() {
                let mut ray = Ray::new(vec3(100.0, x.1.y, x.1.z), vec3(-1.0, 0.0, 0.0));
                let mut r2 = ray;
                if x.intersect(&mut r2) {
                    assert!(m.traverse_iter_indices(&mut ray).any(|y| y.0 == i as u32), "primitive {} is not offered", i);
                }
            }
        }
    }
}
""")

bug("c11-history", "C11", "a refit after which an inner node should have become smaller",
    "refitting only ever grows inner nodes: their bounds accumulate everything they ever held",
    [(B, """                    // Grow using child nodes
                    // Left node
                    aabb.grow_bb(&self.nodes[left_first as usize].bounds);""", """                    // Grow using child nodes
                    // Left node
                    aabb.grow_bbs(&[self.nodes[left_first as usize].bounds, self.nodes[i].bounds]);""")],
    """
fn main() {
    let t = random(40, 3, 8.0, 1.0);
    let bb = boxes(&t);
    let moved: Vec<Aabb> = bb.iter().map(|b| Aabb { min: b.min * 10.0, max: b.max * 10.0, ..*b }).collect();
    for k in 0..3 {
        let b = build(k, Some(&bb), &t, 1);
        let mut once = b.clone();
        once.refit(&bb);
        let mut more = b.clone();
        more.refit(&moved);
        more.refit(&bb);
        for (x, y) in once.nodes().iter().zip(more.nodes()) {
            assert!(x.bounds.min == y.bounds.min && x.bounds.max == y.bounds.max, "bounds depend on earlier refits");
        }
    }
}
""")

bug("c12-longer-list", "C12", "locally ordered clustering with a list of boxes that is longer than the list of primitives",
    "a box list longer than the primitives is accepted and gives an empty tree",
    [(B, "if aabbs.len() != self.primitives.len() {", "if aabbs.len() < self.primitives.len() {", 2)],
    """
fn main() {
    let t = random(10, 3, 8.0, 1.0);
    let mut bb = boxes(&t);
    bb.push(bb[0]);
    for k in 0..3 {
        let b = Builder { aabbs: Some(&bb), primitives: &t, primitives_per_leaf: None };
        let r = match k { 0 => b.construct_binned_sah(), 1 => b.construct_spatial_sah(), _ => b.construct_locally_ordered_clustered() };
        assert_eq!(r.err(), Some(BuildError::InequalAabbsAndPrimitives(11, 10)));
    }
}
""")

bug("c13-shared-scratch", "C13", "two build threads evaluating object splits of spatial SAH at the same time",
    "the accumulated boxes of an object split are kept from the start of the shared array instead of from the start of the task's own range: concurrent tasks overwrite each other's",
    [(S, "self.accumulated_aabbs.set(i, aabb);", "self.accumulated_aabbs.set(i - begin, aabb);"),
     (S, "+ self.accumulated_aabbs[i + 1].half_area() * (end - (i + 1)) as f32;", "+ self.accumulated_aabbs[i + 1 - begin].half_area() * (end - (i + 1)) as f32;"),
     (S, "right_box: self.accumulated_aabbs[i + 1],", "right_box: self.accumulated_aabbs[i + 1 - begin],")],
    """
fn main() {
    let t = random(20000, 1, 50.0, 0.4);
    let bb = boxes(&t);
    let first = canon(&build(1, Some(&bb), &t, 1), 0);
    for _ in 0..12 {
        assert!(first == canon(&build(1, Some(&bb), &t, 1), 0), "a second build of the same scene differs");
    }
}
""")

bug("c13-split-budget", "C13", "spatial SAH on a scene large enough for several threads: whether a node may still be split depends on how many leaves other threads have finished",
    "spatial SAH stops splitting primitives once the leaves made so far hold a number of references: the tree depends on the order in which threads run",
    [(S, "if overlap > spatial_threshold && (self.work_item.split_end - self.work_item.end) > 0 {",
      "if overlap > spatial_threshold\n            && (self.work_item.split_end - self.work_item.end) > 0\n            && reference_count.load(SeqCst) < 64\n        {")],
    """
fn main() {
    let mut r = Rng(3);
    // Long thin triangles crossing each other, in groups far apart
    let t: Vec<Tri> = (0..8000)
        .map(|i| {
            let o = r.v(4.0) + vec3((i % 4) as f32 * 100.0, 0.0, 0.0);
            let d = r.v(16.0);
            tri(o, o + d, o + d * 0.5 + r.v(0.2))
        })
        .collect();
    let bb = boxes(&t);
    let first = canon(&build(1, Some(&bb), &t, 1), 0);
    for _ in 0..10 {
        assert!(first == canon(&build(1, Some(&bb), &t, 1), 0), "a second build of the same scene differs");
    }
}
""")

bug("c14-remove", "C14", "freeing a binary structure while newer ones are still in use",
    "freeing a binary structure removes it from the registry: every later handle refers to its neighbour",
    [(F, """        if let Some(m) = lock.get_mut(id as usize) {
            *m.get_mut() = Bvh::default();
            Ok(())
        } else {""", """        if (id as usize) < lock.len() {
            lock.remove(id as usize);
            Ok(())
        } else {""")],
    """
use rtbvh_rs as c;
fn main() {
    let make = |x: f32| {
        let mut cs: Vec<[f32; 4]> = (0..5).map(|i| [x + i as f32, 0.0, 0.0, 0.0]).collect();
        let mut h = c::RTBvh::default();
        let r = unsafe { c::create_bvh(std::ptr::null(), 5, cs.as_mut_ptr() as *const f32, 16, 1, c::BvhType::BinnedSAH, &mut h) };
        assert!(r == c::ResultCode::Ok);
        h
    };
    let (a, b, d) = (make(0.0), make(100.0), make(200.0));
    c::free_bvh(a);
    let mut m = c::RTMbvh::default();
    let bb: Vec<Aabb> = (0..5).map(|i| Aabb::from((Vec3::splat(1000.0), Vec3::splat(1001.0 + i as f32)))).collect();
    // Refitting b shows through b and through nothing else
    unsafe { assert!(c::refit(bb.as_ptr() as *const c::RTAabb, b) == c::ResultCode::Ok) };
    let hits = |h: c::RTBvh, x: f32| {
        extern "C" fn cb(_: u32, _: *mut f32, u: *mut std::ffi::c_void) -> bool { unsafe { *(u as *mut u32) += 1 }; false }
        let (o, dir) = ([x, 0.0f32, -5.0], [0.0f32, 0.0, 1.0]);
        let mut t = 1e34f32;
        let mut n = 0u32;
        unsafe { c::intersect(h, o.as_ptr(), dir.as_ptr(), &mut t, &mut n as *mut u32 as *mut std::ffi::c_void, cb) };
        n
    };
    assert!(hits(d, 202.0) > 0, "refitting one handle changed another one");
    assert!(hits(b, 102.0) == 0);
    unsafe { assert!(c::create_mbvh(d, &mut m) == c::ResultCode::Ok) };
}
""")

bug("c15-start-distance", "C15", "a single-ray C query on a 4-wide structure with a finite maximum distance",
    "the 4-wide single-ray C query ignores the caller's maximum distance",
    [(F, """    let mut ray = Ray::new(origin, direction);
    ray.t = *t;

    let nodes = slice::from_raw_parts(bvh.nodes as *const MbvhNode, bvh.node_count as usize);""",
      """    let mut ray = Ray::new(origin, direction);
    ray.t = (*t).max(ray.t);

    let nodes = slice::from_raw_parts(bvh.nodes as *const MbvhNode, bvh.node_count as usize);""")],
    """
use rtbvh_rs as c;
extern "C" fn cb(_: u32, t: *mut f32, u: *mut std::ffi::c_void) -> bool { unsafe { *(u as *mut f32) = *t }; false }
fn main() {
    let cs: Vec<[f32; 4]> = (0..5).map(|i| [i as f32, 0.0, 0.0, 0.0]).collect();
    let mut h = c::RTBvh::default();
    let mut m = c::RTMbvh::default();
    unsafe {
        assert!(c::create_bvh(std::ptr::null(), 5, cs.as_ptr() as *const f32, 16, 1, c::BvhType::BinnedSAH, &mut h) == c::ResultCode::Ok);
        assert!(c::create_mbvh(h, &mut m) == c::ResultCode::Ok);
        let (o, d) = ([2.0f32, 0.0, -5.0], [0.0f32, 0.0, 1.0]);
        let (mut t, mut seen) = (7.0f32, 7.0f32);
        c::intersect_mbvh(m, o.as_ptr(), d.as_ptr(), &mut t, &mut seen as *mut f32 as *mut std::ffi::c_void, cb);
        assert_eq!((t, seen), (7.0, 7.0));
    }
}
""")

bug("c15-triangle-stride", "C15", "a spatial build through the C API with triangles that are further apart than three vertices",
    "the C API finds the first vertex of a triangle by its vertex stride instead of by the triangle stride",
    [(F, "        .map(|i| RTTriangleWrapper {", "        .map(|i| (i, triangle_stride.min(3 * vertex_stride)))\n        .map(|(i, triangle_stride)| RTTriangleWrapper {")],
    """
use rtbvh_rs as c;
extern "C" fn cb(id: u32, _: *mut f32, u: *mut std::ffi::c_void) -> bool { unsafe { (*(u as *mut Vec<u32>)).push(id) }; false }
fn main() {
    for pad in [0usize, 1, 5] {
        let t = random(20, 3, 30.0, 1.0);
        let ts = 9 + pad;
        let mut v = vec![500.0f32; ts * 21];
        let mut cs = vec![0.0f32; 60];
        for (i, x) in t.iter().enumerate() {
            for k in 0..3 {
                cs[i * 3 + k] = x.1[k];
                for j in 0..3 { v[i * ts + j * 3 + k] = x.0[j][k]; }
            }
        }
        let mut h = c::RTBvh::default();
        unsafe {
            assert!(c::create_spatial_Bvh(std::ptr::null(), 20, cs.as_ptr(), 12, v.as_ptr(), 12, ts * 4, 1, &mut h) == c::ResultCode::Ok);
            for (i, x) in t.iter().enumerate() {
                let o = [x.1.x, x.1.y, x.1.z - 40.0];
                let d = [0.0f32, 0.0, 1.0];
                let mut far = 1e34f32;
                let mut ids: Vec<u32> = vec![];
                c::intersect(h, o.as_ptr(), d.as_ptr(), &mut far, &mut ids as *mut Vec<u32> as *mut std::ffi::c_void, cb);
                assert!(ids.contains(&(i as u32)), "triangle {} is not offered", i);
            }
        }
    }
}
""")

bug("c16-count", "C16", "validating against more primitives than the tree's index list has entries",
    "validation only looks at as many ids as the index list has entries",
    [(B, "for (i, index) in found_indices.iter().copied().enumerate() {", "for (i, index) in found_indices.iter().copied().enumerate().take(self.prim_indices.len()) {")],
    """
fn main() {
    let t = random(20, 3, 8.0, 1.0);
    let bb = boxes(&t);
    for k in 0..3 {
        let b = build(k, Some(&bb), &t, 1);
        assert!(b.validate(20));
        assert!(!b.validate(21 + b.indices().len() - 20), "a primitive without a leaf goes unnoticed");
    }
    assert!(!Bvh::default().validate(1));
}
""")

bug("c17-depth", "C17", "a scene that makes binned SAH go deeper than 24 levels: primitives at exponentially decreasing distances",
    "binned SAH gives up at depth 24: what is left there ends in one leaf, however much it is",
    [(BI, "            max_depth: 64,\n", "            max_depth: 24,\n")],
    """
fn main() {
    let mut x = 2.0f32.powi(60);
    let mut t = vec![];
    for _ in 0..37 {
        t.push(tri(vec3(x, 0.0, 0.0), vec3(x, x * 0.1, 0.0), vec3(x, 0.0, x * 0.1)));
        x *= 0.25;
    }
    let bb = boxes(&t);
    let b = build(0, Some(&bb), &t, 1);
    for (n, d) in walk(&b) {
        if b.nodes()[n].is_leaf() && d < 64 {
            assert!(leaf_ids(&b, n).len() <= 1, "a leaf at depth {} has {} primitives", d, leaf_ids(&b, n).len());
        }
    }
}
""")

bug("c18-longest", "C18", "a box whose z extent lies between its y extent and its x extent",
    "the longest axis compares z with y even when x is longer than both",
    [(A, "if self.extend(2) > self.extend(a) {", "if self.extend(2) > self.extend(1) {")],
    """
fn main() {
    for (x, y, z, want) in [(3.0, 1.0, 2.0, 0), (1.0, 3.0, 2.0, 1), (1.0, 2.0, 3.0, 2), (3.0, 2.0, 1.0, 0)] {
        let b: Aabb = (Vec3::ZERO, vec3(x, y, z)).into();
        assert_eq!(b.longest_axis(), want);
        assert_eq!(b.longest_extent(), 3.0);
    }
}
""")

bug("c18-corner", "C18", "transforming a box with a rotation or shear that makes the corner at high x, low y, high z the extreme one",
    "one of the eight corners of a box is wrong, so transformed boxes can be too small",
    [(A, "            min + x_l + z_l,\n", "            min + x_l + y_l,\n")],
    """
fn main() {
    let b: Aabb = (vec3(-1.0, -2.0, -3.0), vec3(1.0, 2.0, 3.0)).into();
    let mut r = Rng(3);
    for _ in 0..200 {
        let m = Mat4::from_euler(EulerRot::XYZ, r.f() * 6.0, r.f() * 6.0, r.f() * 6.0);
        let t = b.transformed(m).with_offset(1e-3);
        for i in 0..8 {
            let p = vec3([-1.0, 1.0][i & 1], [-2.0, 2.0][i >> 1 & 1], [-3.0, 3.0][i >> 2]);
            assert!(t.contains(m.transform_point3(p)), "corner {} is outside", p);
        }
    }
}
""")

bug("c19-min-distance", "C19", "a ray with a minimum distance of its own",
    "the triangle test compares with the default minimum distance, not with the ray's",
    [(S, "if t > ray.t_min && t < ray.t {", "if t > Ray::DEFAULT_T_MIN && t < ray.t {")],
    """
fn main() {
    let t = tri(vec3(-1.0, -1.0, 5.0), vec3(1.0, -1.0, 5.0), vec3(0.0, 2.0, 5.0));
    for (tmin, hit) in [(1e-4, true), (4.0, true), (6.0, false)] {
        let mut r = Ray::new(Vec3::ZERO, Vec3::Z);
        r.t_min = tmin;
        assert_eq!(t.intersect(&mut r), hit, "minimum distance {}", tmin);
    }
}
""")

bug("c19-lane-min", "C19", "a packet whose lanes have different minimum distances",
    "the packet triangle test uses the first lane's minimum distance for all lanes",
    [(S, "let mask = mask.bitand(t_value.cmpge(t_min) & t_value.cmplt(packet.t));", "let mask = mask.bitand(t_value.cmpge(t_min.xxxx()) & t_value.cmplt(packet.t));")],
    """
fn main() {
    let t = tri(vec3(-1.0, -1.0, 5.0), vec3(1.0, -1.0, 5.0), vec3(0.0, 2.0, 5.0));
    let mut p = RayPacket4::new([Vec4::ZERO; 4], [vec4(0.0, 0.0, 1.0, 0.0); 4]);
    let r = t.intersect4(&mut p, vec4(0.1, 6.0, 4.0, 7.0));
    assert_eq!(r, Some([true, false, true, false]));
}
""")

bug("c20-lanes", "C20", "a packet whose third and fourth ray have different origins in y",
    "the third and the fourth ray of a packet get each other's y origin",
    [("src/ray.rs", "origin_y: vec4(origins[0].y, origins[1].y, origins[2].y, origins[3].y),", "origin_y: vec4(origins[0].y, origins[1].y, origins[3].y, origins[2].y),")],
    """
fn main() {
    let mut r = Rng(3);
    let o: Vec<Vec4> = (0..4).map(|_| r.v(4.0).extend(0.0)).collect();
    let d: Vec<Vec4> = (0..4).map(|_| r.v(4.0).extend(0.0)).collect();
    let p = RayPacket4::new([o[0], o[1], o[2], o[3]], [d[0], d[1], d[2], d[3]]);
    for i in 0..4 {
        assert_eq!(p.ray(i), Ray::new(o[i].truncate(), d[i].truncate()));
    }
}
""")

bug("c21-y-entry", "C21", "a ray that passes a box between where it would enter in y and leave in z",
    "the single-ray box test forgets where the ray enters in y: boxes are visited that the ray clearly misses",
    [(A, """        if y_min > ray_min {
            ray_min = y_min;
        }""", """        if y_min < ray_min {
            ray_min = y_min;
        }""", 0)],
    """
fn main() {
    let t = random(200, 4, 20.0, 0.5);
    let bb = boxes(&t);
    let mut r = Rng(8);
    let b = build(0, Some(&bb), &t, 1);
    for _ in 0..300 {
        let (o, d) = (r.v(30.0), r.v(1.0).normalize());
        let mut ray = Ray::new(o, d);
        for (id, _) in b.traverse_iter_indices(&mut ray) {
            // Distance of the line from the middle of the small box
            let m = bb[id as usize].center() - o;
            assert!((m - d * m.dot(d)).length() < 1.5, "primitive {} is far from the ray", id);
        }
    }
}
""")

bug("c21-wide-any", "C21", "a packet traversing a 4-wide tree: a box that every ray misses",
    "4-wide packet traversal takes a box for hit when its slabs are ordered in any way for distances: the overlap test is lost for rays whose exit is in front of them",
    [(M, "result |= greater_than_min & less_than_t;", "result |= (greater_than_min | t_max.cmpgt(Vec4::ZERO)) & less_than_t;")],
    """
fn main() {
    let c = [vec3(-40.0, -8.0, 0.0), vec3(-40.0, 8.0, 0.0), vec3(40.0, -8.0, 0.0), vec3(40.0, 8.0, 0.0)];
    let t: Vec<Tri> = c.iter().map(|c| tri(*c, *c + Vec3::X, *c + Vec3::ONE)).collect();
    let bb = boxes(&t);
    let mut r = Rng(8);
    let m = Mbvh::construct(&build(0, Some(&bb), &t, 1));
    for _ in 0..300 {
        let (o, d) = (r.v(120.0), r.v(1.0).normalize());
        let mut p = RayPacket4::new([o.extend(0.0); 4], [d.extend(0.0); 4]);
        for (id, _) in m.traverse_iter_indices_packet(&mut p) {
            let m = bb[id as usize].center() - o;
            assert!((m - d * m.dot(d)).length() < 3.0, "primitive {} is far from the ray", id);
        }
    }
}
""")

bug("c22-clamp", "C22", "a point on or beyond the upper side of the box it is encoded in",
    "points at the upper end are clamped to one cell beyond the grid",
    [("src/morton.rs", "let min = (self.grid_dim - 1) as i32;", "let min = self.grid_dim as i32;")],
    """
fn main() {
    for dim in [4usize, 64, 1024] {
        let e = MortonEncoder::new(&(Vec3::ZERO, Vec3::ONE).into(), dim);
        let top = dim as u32 - 1;
        assert_eq!(e.encode([1.0f32, 1.0, 1.0]), MortonEncoder::morton_encode(top, top, top));
        assert_eq!(e.encode([2.0f32, -1.0, 0.0]), MortonEncoder::morton_encode(top, 0, 0));
    }
}
""")

bug("c23-skip", "C23", "loading a saved 4-wide tree and asking for its bounds",
    "the binary nodes kept in a 4-wide tree are not saved: a loaded tree has no bounds",
    [(B, """pub struct Mbvh {
    pub(crate) nodes: Vec<BvhNode>,""", """pub struct Mbvh {
    #[cfg_attr(feature = "serde", serde(skip))]
    pub(crate) nodes: Vec<BvhNode>,""")],
    """
fn main() {
    let t = random(20, 4, 20.0, 0.5);
    let bb = boxes(&t);
    let m = Mbvh::construct(&build(0, Some(&bb), &t, 1));
    let back: Mbvh = serde_json::from_value(serde_json::to_value(&m).unwrap()).unwrap();
    assert_eq!(back.bounds().min, m.bounds().min);
    assert_eq!(back.nodes().len(), m.nodes().len());
}
""")

bug("c24-behind", "C24", "a ray that has left a box in z before its origin, while the other slabs lie ahead",
    "the yes/no box test forgets where the ray leaves in z: it reports boxes that lie behind",
    [(A, """        if z_max < ray_max {
            ray_max = z_max;
        }""", """        if z_max > ray_max {
            ray_max = z_max;
        }""", 1)],
    """
fn main() {
    let mut r = Rng(11);
    for _ in 0..5000 {
        let o = r.v(2.0);
        let b: Aabb = (o, o + r.v(1.0).abs()).into();
        let ray = Ray::new(r.v(6.0), r.v(2.0));
        assert_eq!(b.intersects(&ray), b.intersect(&ray).is_some(), "{} {:?}", b, ray);
    }
}
""")

bug("c05-flat-far", "C05", "a flat box so far from the origin that padding by 0.0001 does not make it thicker, in a 4-wide tree, and a single ray",
    "the single-ray test of 4-wide nodes leaves out boxes that are entered and left at the same distance",
    [(M, "        let result = t_max.cmpge(t_min) & t_min.cmplt(Vec4::splat(ray.t));", "        let result = t_max.cmpgt(t_min) & t_min.cmplt(Vec4::splat(ray.t));")],
    """
fn main() {
    for z in [0.0f32, 8192.0, -65536.0] {
        let t: Vec<Tri> = (0..40)
            .map(|i| { let x = 4.0 * i as f32; tri(vec3(x, 0.0, z), vec3(x + 2.0, 0.0, z), vec3(x, 2.0, z)) })
            .collect();
        let m = Mbvh::construct(&build(0, Some(&boxes(&t)), &t, 1));
        for i in 0..40u32 {
            let mut r = Ray::new(vec3(4.0 * i as f32 + 0.5, 0.5, z - 64.0), Vec3::Z);
            assert!(m.traverse_iter_indices(&mut r).any(|(id, _)| id == i), "triangle {} at {} is not offered", i, z);
        }
    }
}
""")

bug("c11-crowd", "C11", "refitting a tree with a leaf of more than 255 primitives of which one of the last reaches furthest",
    "refitting looks at the first 255 primitives of a leaf only",
    [(B, "                    for i in 0..count {\n                        let prim_id", "                    for i in 0..count.min(u8::MAX as i32) {\n                        let prim_id")],
    """
fn main() {
    let t: Vec<Tri> = (0..600).map(|_| tri(vec3(0.0, 0.0, 0.0), vec3(0.0, 1.0, 0.0), vec3(0.0, 0.0, 1.0))).collect();
    for kind in 0..2 {
        let mut b = build(kind, Some(&boxes(&t)), &t, 1000);
        for far in [0usize, 300, 599] {
            let mut bb = boxes(&t);
            bb[far] = Aabb::from((Vec3::splat(50.0), Vec3::splat(51.0)));
            b.refit(&bb);
            for (n, _) in walk(&b) {
                for i in below(&b, n) {
                    assert!(inside(&bb[i as usize], &b.nodes()[n].bounds), "primitive {} is outside of node {}", i, n);
                }
            }
        }
    }
}
""")

bug("c14-reentry", "C14", "freeing, building or refitting another structure from the callback of a query",
    "queries hold the registry's lock while they call the caller back: a callback that frees a structure never returns",
    [(F, """    let mut ray = Ray::new(origin, direction);
    ray.t = *t;

    let nodes = slice::from_raw_parts(bvh.nodes as *const BvhNode, bvh.node_count as usize);""", """    let mut ray = Ray::new(origin, direction);
    ray.t = *t;

    let _lock = MANAGER.structures.read();
    let nodes = slice::from_raw_parts(bvh.nodes as *const BvhNode, bvh.node_count as usize);""")],
    """
use rtbvh_rs as c;
fn make(x: f32) -> c::RTBvh {
    let cs: Vec<[f32; 4]> = (0..5).map(|i| [x + i as f32, 0.0, 0.0, 0.0]).collect();
    let mut h = c::RTBvh::default();
    let r = unsafe { c::create_bvh(std::ptr::null(), 5, cs.as_ptr() as *const f32, 16, 1, c::BvhType::BinnedSAH, &mut h) };
    assert!(r == c::ResultCode::Ok);
    h
}
extern "C" fn cb(_: u32, _: *mut f32, u: *mut std::ffi::c_void) -> bool {
    let other = unsafe { &mut *(u as *mut c::RTBvh) };
    c::free_bvh(*other);
    *other = make(50.0);
    false
}
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(20));
        eprintln!("a query with a callback that frees another structure does not return");
        std::process::exit(3);
    });
    let (a, mut b) = (make(0.0), make(10.0));
    let (o, dir) = ([1.0f32, 0.0, -5.0], [0.0f32, 0.0, 1.0]);
    let mut t = 1e34f32;
    unsafe { c::intersect(a, o.as_ptr(), dir.as_ptr(), &mut t, &mut b as *mut c::RTBvh as *mut std::ffi::c_void, cb) };
}
""")

bug("c15-homogeneous", "C15", "a C caller whose centres are four floats of which the last is not 1, building with boxes",
    "the C API divides 16-byte centres by the fourth float, which belongs to the caller",
    [(F, "impl Primitive for Vector4 {\n    fn center(&self) -> Vec3 {\n        vec3(self.data[0], self.data[1], self.data[2])", "impl Primitive for Vector4 {\n    fn center(&self) -> Vec3 {\n        let w = if self.data[3] > 0.0 { self.data[3] } else { 1.0 };\n        vec3(self.data[0], self.data[1], self.data[2]) / w")],
    """
use rtbvh_rs as c;
fn main() {
    let mut seen = vec![];
    for w in [0.0f32, 1.0, 2.0, f32::NAN] {
        let mut r = Rng(5);
        let bb: Vec<Aabb> = (0..40).map(|_| { let o = r.v(20.0); Aabb::from((o, o + Vec3::splat(12.0))) }).collect();
        let cs: Vec<[f32; 4]> = bb.iter().enumerate().map(|(i, b)| { let m = b.center(); [m.x, m.y, m.z, if i % 2 == 0 { w } else { 1.0 }] }).collect();
        let mut h = c::RTBvh::default();
        let x = unsafe { c::create_bvh(bb.as_ptr() as *const c::RTAabb, 40, cs.as_ptr() as *const f32, 16, 1, c::BvhType::BinnedSAH, &mut h) };
        assert!(x == c::ResultCode::Ok);
        let mut ids: Vec<u32> = vec![];
        extern "C" fn cb(id: u32, _: *mut f32, u: *mut std::ffi::c_void) -> bool { unsafe { (*(u as *mut Vec<u32>)).push(id) }; false }
        for i in 0..40 {
            let m = bb[i].center();
            let (o, d) = ([m.x, m.y, -50.0], [0.0f32, 0.0, 1.0]);
            let mut t = 1e34f32;
            unsafe { c::intersect(h, o.as_ptr(), d.as_ptr(), &mut t, &mut ids as *mut Vec<u32> as *mut std::ffi::c_void, cb) };
        }
        seen.push(ids);
    }
    assert!(seen.windows(2).all(|w| w[0] == w[1]), "the tree depends on the unused floats");
}
""")

bug("c17-spatial-depth", "C17", "a scene that makes spatial SAH go deeper than 56 levels",
    "spatial SAH gives up at 56 levels and leaves everything that remains in one leaf",
    [(S, "            max_depth: 64,", "            max_depth: 56,")],
    """
fn main() {
    // Splitting by area takes off one at a time as long as areas can tell
    let mut at: Vec<f32> = vec![];
    let mut s = 2f64.powi(63);
    for k in 0..60 {
        at.push(s as f32);
        s /= (60.0 - k as f64).max(2.0).sqrt();
        if s * s <= 1e-44 { s = 1e-38; }
    }
    let mut s = 1e21f64;
    for _ in 0..5 {
        let m = at.len();
        for i in 0..m { at.push((s * (1.0 + 0.1 * i as f64 / m as f64)) as f32); }
        s *= 300.0;
    }
    let t: Vec<Tri> = at.iter().map(|x| tri(Vec3::splat(*x), Vec3::splat(*x), Vec3::splat(*x))).collect();
    let b = build(1, Some(&boxes(&t)), &t, 1);
    for (n, d) in walk(&b) {
        let node = &b.nodes()[n];
        if node.is_leaf() && d < 63 {
            assert!(node.get_count() == Some(1), "a leaf of {:?} at depth {}", node.get_count(), d);
        }
    }
}
""")

bug("c18-nan-valid", "C18", "a box with a NaN component",
    "a box with a NaN in it counts as valid",
    [(A, "Vec3A::from(self.min).cmple(self.max.into()).all()", "!Vec3A::from(self.min).cmpgt(self.max.into()).any()")],
    """
fn main() {
    for i in 0..3 {
        let mut b: Aabb = (Vec3::ZERO, Vec3::ONE).into();
        assert!(b.is_valid());
        b.max[i] = f32::NAN;
        assert!(!b.is_valid(), "{}", b);
    }
}
""")

bug("c20-reflected", "C20", "reflecting a ray whose minimum distance is not the default",
    "a reflected ray starts with the minimum distance of the ray it came from",
    [("src/ray.rs", """            inv_direction: Vec3::ONE / direction,
            t_min: Self::DEFAULT_T_MIN,
            t: Self::DEFAULT_T_MAX,
            signs,
        }
    }

    #[inline(always)]
    pub fn is_valid""", """            inv_direction: Vec3::ONE / direction,
            t_min: self.t_min,
            t: Self::DEFAULT_T_MAX,
            signs,
        }
    }

    #[inline(always)]
    pub fn is_valid""")],
    """
fn main() {
    for tmin in [1e-4f32, 0.5, 100.0] {
        let mut r = Ray::new(Vec3::ZERO, vec3(1.0, -1.0, 0.0));
        r.t_min = tmin;
        let x = r.reflect(vec3(3.0, -3.0, 0.0), Vec3::Y, 1e-3);
        assert_eq!(x.t_min, 1e-4);
        let wall = tri(vec3(5.0, -9.0, -9.0), vec3(5.0, -9.0, 9.0), vec3(5.0, 9.0, 0.0));
        let mut x = x;
        assert!(wall.intersect(&mut x));
    }
}
""")

bug("c22-flat", "C22", "a box that is flatter than 0.001 along an axis",
    "coordinates along an axis in which everything lies within 0.001 all get the same few cells",
    [("src/morton.rs", "let world_to_grid = grid_dim as f32 * (1.0 / aabb.diagonal());", "let world_to_grid = grid_dim as f32 * (1.0 / aabb.diagonal().max(Vec3::splat(1e-3)));")],
    """
fn main() {
    for s in [1.0f32, 1.0 / 1024.0, 1.0 / 65536.0] {
        let e = MortonEncoder::new(&(Vec3::ZERO, vec3(s, 1.0, 1.0)).into(), 16);
        for i in 0..16u32 {
            assert_eq!(e.encode([s * (i as f32 + 0.5) / 16.0, 0.0, 0.0]), MortonEncoder::morton_encode(i, 0, 0), "size {}", s);
        }
    }
}
""")

bug("c24-tie", "C24", "a ray whose minimum distance is exactly where it leaves a box",
    "the box test that gives the distance also reports boxes that end where the ray begins; the yes/no test does not",
    [(A, "        if ray_max > ray.t_min {\n            Some(ray_max)", "        if ray_max >= ray.t_min {\n            Some(ray_max)")],
    """
fn main() {
    let b: Aabb = (vec3(-1.0, -1.0, 2.0), vec3(1.0, 1.0, 4.0)).into();
    for tmin in [1.0f32, 3.0, 4.0, 5.0] {
        let mut r = Ray::new(Vec3::ZERO, Vec3::Z);
        r.t_min = tmin;
        assert_eq!(b.intersect(&r).is_some(), tmin < 4.0, "minimum distance {}", tmin);
        assert_eq!(b.intersects(&r), tmin < 4.0, "minimum distance {}", tmin);
    }
}
""")

bug("c25-first-child", "C25", "a node whose first child has the number 0",
    "a node whose first child is node 0 counts as one without children",
    [("src/bvh_node.rs", "self.bounds.extra1 < 0 && self.bounds.extra2 >= 0", "self.bounds.extra1 < 0 && self.bounds.extra2 > 0")],
    """
fn main() {
    for first in [None, Some(0), Some(1), Some(70000)] {
        for count in [None, Some(0), Some(1), Some(300)] {
            let n = BvhNode::new().with_left_first(first).with_count(count);
            assert_eq!(n.has_children(), count.is_none() && first.is_some(), "{:?} {:?}", first, count);
            assert_eq!(n.is_leaf(), count.is_some());
            assert_eq!(n.get_left_first(), first);
            assert_eq!(n.get_count(), count);
        }
    }
}
""")

bug("c25-slot-bounds", "C25", "reading the lower corners of a 4-wide node whose boxes differ in y and z",
    "MbvhNode::min_points gives the lower y coordinates as the lower z coordinates",
    [(M, """                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_z.as_ptr()) }),
            )""", """                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
                Vec4::from(unsafe { core::arch::x86_64::_mm_loadu_ps(self.min_y.as_ptr()) }),
            )""", 0)],
    """
fn main() {
    let mut n = MbvhNode::new();
    for i in 0..4 {
        let f = i as f32;
        n.set_bounds(i, &[f, 10.0 + f, 20.0 + f], &[f + 1.0, 11.0 + f, 21.0 + f]);
    }
    let (a, b, c, d, e, f) = n.points();
    assert_eq!(n.min_points(), (a, c, e));
    assert_eq!(n.max_points(), (b, d, f));
}
""")

bug("c26-pixel-width", "C26", "a packet of camera rays for a picture that is not square, with a camera whose two pixel sizes differ",
    "packets of camera rays use the pixel width for the vertical direction, too",
    [("shared/src/lib.rs", "let v = y * self.inv_height;", "let v = y * self.inv_width;")],
    """
use shared::CameraView3D;
fn main() {
    for (w, h) in [(64u32, 64u32), (128, 64), (64, 256)] {
        let mut c = CameraView3D {
            pos: vec3(1.0, 2.0, 3.0), direction: Vec3::X, inv_width: 1.0 / w as f32, inv_height: 1.0 / h as f32,
            aspect_ratio: w as f32 / h as f32, fov: 70.0, ..Default::default()
        };
        c.translate(Vec3::ZERO);
        for y in (0..h).step_by(13) {
            let p = c.generate_ray4([1, 9, 17, 33], [y, 0, y / 2, h - 1]);
            for (i, (x, y)) in [(1, y), (9, 0), (17, y / 2), (33, h - 1)].iter().enumerate() {
                let (a, b) = (p.ray(i).direction, c.generate_ray(*x, *y).direction);
                assert!((a - b).length() < 1e-5, "pixel {} {}: {} and {}", x, y, a, b);
            }
        }
    }
}
""")

bug("c27-cursor", "C27", "two packet traversals of 4-wide trees on one thread taking turns, one of them stopped in the middle of a leaf",
    "the packet iterators of 4-wide trees share one position in the current leaf per thread: traversals that take turns repeat or leave out primitives",
    [(IX, "use crate::*;", "use crate::*;\n\nthread_local! {\n    static IN_LEAF: std::cell::Cell<i32> = std::cell::Cell::new(0);\n}", 0),
     (IX, """                        if self.j < count {
                            let prim_id = unsafe {
                                *self.indices.get_unchecked((left_first + self.j) as usize)
                            };
                            self.j += 1;
                            return Some((prim_id, unsafe {
                                std::mem::transmute::<&mut RayPacket4, &'a mut RayPacket4>(self.ray)""", """                        let j = IN_LEAF.with(|j| j.get());
                        if j < count {
                            let prim_id =
                                unsafe { *self.indices.get_unchecked((left_first + j) as usize) };
                            IN_LEAF.with(|i| i.set(j + 1));
                            return Some((prim_id, unsafe {
                                std::mem::transmute::<&mut RayPacket4, &'a mut RayPacket4>(self.ray)"""),
     (IX, "                        self.j = 0;", "                        IN_LEAF.with(|j| j.set(0));", 1)],
    """
fn main() {
    let t = random(200, 3, 8.0, 3.0);
    let b = build(0, Some(&boxes(&t)), &t, 8);
    let m = Mbvh::construct(&b);
    let packet = |i: f32| {
        let rays: Vec<Ray> = (0..4).map(|l| Ray::new(vec3(-20.0, i, l as f32 * 0.3), Vec3::X)).collect();
        RayPacket4::new(
            [rays[0].origin.extend(0.0), rays[1].origin.extend(0.0), rays[2].origin.extend(0.0), rays[3].origin.extend(0.0)],
            [Vec4::X; 4],
        )
    };
    let alone = |i: f32| {
        let mut p = packet(i);
        m.traverse_iter_indices_packet(&mut p).map(|(id, _)| id).collect::<Vec<_>>()
    };
    let (mut p, mut q) = (packet(0.0), packet(0.5));
    let (mut a, mut b) = (m.traverse_iter_indices_packet(&mut p), m.traverse_iter_indices_packet(&mut q));
    let (mut got, mut other) = (vec![], vec![]);
    loop {
        let (x, y) = (a.next().map(|x| x.0), b.next().map(|x| x.0));
        got.extend(x);
        other.extend(y);
        assert!(got.len() + other.len() < 1000);
        if x.is_none() && y.is_none() {
            break;
        }
    }
    assert!(got.len() > 4);
    assert_eq!(got, alone(0.0));
    assert_eq!(other, alone(0.5));
}
""")

bug("c27-box-memo", "C27", "two traversals of one tree with the same line but other distances, taking turns",
    "the results of the last boxes tested are remembered by node and ray, without the distance and the beginning of the ray: a traversal gets the results of another one",
    [("src/bvh_node.rs", "        self.bounds.intersect(ray)", """        thread_local! {
            static LAST: std::cell::Cell<([usize; 2], [Vec3; 2], [Option<f32>; 2])> =
                std::cell::Cell::new(([0; 2], [Vec3::ZERO; 2], [None; 2]));
        }
        let at = self as *const Self as usize;
        LAST.with(|l| {
            let (ids, line, hits) = l.get();
            if line == [ray.origin, ray.direction] {
                if ids[0] == at {
                    return hits[0];
                }
                if ids[1] == at {
                    return hits[1];
                }
            }
            let hit = self.bounds.intersect(ray);
            l.set(([at, ids[0]], [ray.origin, ray.direction], [hit, hits[0]]));
            hit
        })""")],
    """
fn main() {
    // Neighbours far along the line: one of the two traversals begins behind the first ones
    let t: Vec<Tri> = (0..30).map(|i| tri(vec3(i as f32, 0.0, 0.0), vec3(i as f32 + 0.5, 1.0, 0.0), vec3(i as f32, 0.5, 1.0))).collect();
    let b = build(0, Some(&boxes(&t)), &t, 1);
    let ray = |from: f32| {
        let mut r = Ray::new(vec3(-1.0, 0.5, 0.5), Vec3::X);
        r.t_min = from;
        r
    };
    let alone = |from: f32| {
        let mut r = ray(from);
        b.clone().traverse_iter_indices(&mut r).map(|x| x.0).collect::<Vec<_>>()
    };
    for from in [3.0f32, 10.0, 20.0, 28.0, 100.0] {
        let (mut p, mut q) = (ray(from), ray(1e-4));
        let (mut x, mut y) = (b.traverse_iter_indices(&mut p), b.traverse_iter_indices(&mut q));
        let (mut got, mut other) = (vec![], vec![]);
        loop {
            let (i, j) = (x.next().map(|x| x.0), y.next().map(|x| x.0));
            got.extend(i);
            other.extend(j);
            if i.is_none() && j.is_none() {
                break;
            }
        }
        assert_eq!(got, alone(from));
        assert_eq!(other, alone(1e-4));
    }
}
""")

bug("c01-short-index", "C01", "a scene of more than 65536 primitives, built with locally-ordered clustering",
    "the leaves of a locally-ordered clustering tree keep 16 bits of their place in the sorted order: big scenes lose primitives",
    [(L, "            node.set_left_first(Some(i as u32));", "            node.set_left_first(Some(i as u16 as u32));")],
    """
fn main() {
    for n in [1000usize, 65536, 65600] {
        let t = random(n, 5, 100.0, 0.5);
        let b = build(2, Some(&boxes(&t)), &t, 1);
        let mut seen = vec![0; n];
        for (x, _) in walk(&b) {
            if b.nodes()[x].is_leaf() {
                leaf_ids(&b, x).into_iter().for_each(|i| seen[i as usize] += 1);
            }
        }
        assert!(seen.into_iter().all(|x| x == 1), "{} primitives", n);
    }
}
""")

bug("c11-short-index", "C11", "a refit of a tree of more than 65535 nodes",
    "refitting goes through the nodes with 16-bit numbers: in big trees, most nodes keep their old bounds",
    [(B, "        for i in (0..self.nodes.len()).rev() {", "        for i in (0..self.nodes.len() as u16).rev() {\n            let i = i as usize;")],
    """
fn main() {
    for n in [1000usize, 40000] {
        let mut t = random(n, 5, 100.0, 0.5);
        let mut b = build(0, Some(&boxes(&t)), &t, 1);
        for x in t.iter_mut() {
            *x = tri(x.0[0] + 300.0, x.0[1] + 300.0, x.0[2] + 300.0);
        }
        let bb = boxes(&t);
        b.refit(&bb);
        for (x, _) in walk(&b) {
            if b.nodes()[x].is_leaf() {
                leaf_ids(&b, x).into_iter().for_each(|i| assert!(inside(&bb[i as usize], &b.nodes()[x].bounds), "{} primitives, node {}", n, x));
            }
        }
    }
}
""")

bug("c16-wrap", "C16", "a tree that refers to a primitive exactly 256 times",
    "validate counts the references of each primitive in a byte: a primitive with 256 references counts as missing",
    [(B, "                    checks[prim_id] = 1;", "                    checks[prim_id] = checks[prim_id].wrapping_add(1);")],
    """
fn main() {
    for n in [1u32, 2, 255, 256, 257, 512] {
        let mut root = BvhNode::new().with_left_first(Some(0)).with_count(Some(n + 1));
        root.bounds.grow(Vec3::ZERO);
        root.bounds.grow(Vec3::ONE);
        let mut idx = vec![0u32; n as usize];
        idx.push(1);
        assert!(raw(vec![root], idx).validate(2), "{} references", n);
    }
}
""")

bug("c10-leaf-size", "C10", "a tree with a leaf of more than 32767 entries as a grandchild of a converted node",
    "the 4-wide nodes keep 16 bits of a leaf's number of entries: very big leaves are cut off",
    [(M, "                            leafs[0] = bvh_pool[left_first as usize].get_count_unchecked();", "                            leafs[0] = bvh_pool[left_first as usize].get_count_unchecked() as i16 as i32;")],
    """
fn main() {
    for n in [3u32, 1000, 32767, 32768, 65536, 70000] {
        let mut nodes = vec![BvhNode::new(); 7];
        for (i, x) in nodes.iter_mut().enumerate() {
            x.bounds.grow(Vec3::ZERO);
            x.bounds.grow(Vec3::ONE);
            if i < 3 {
                x.set_left_first(Some(2 * i as u32 + 1));
                x.set_count(None);
            } else {
                x.set_left_first(Some((i as u32 - 3) * n));
                x.set_count(Some(n));
            }
        }
        let m = Mbvh::construct_from_raw(&nodes, &(0..4 * n).collect::<Vec<_>>());
        let mut r = Ray::new(vec3(-1.0, 0.5, 0.5), Vec3::X);
        let mut ids: Vec<u32> = m.traverse_iter_indices(&mut r).map(|x| x.0).collect();
        ids.sort();
        assert!(ids == (0..4 * n).collect::<Vec<_>>(), "{} entries: {} of {} found", n, ids.len(), 4 * n);
    }
}
""")

LEDGER_DEMO = """
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, Ordering::SeqCst};
struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size() as i64, SeqCst);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, SeqCst);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;
"""

bug("c28-retired", "C28", "a structure is freed while a younger one lives",
    "freed structures that are not the youngest are set aside instead of being released, so that pointers a C program has kept stay readable: the memory never comes back",
    [("rtbvh_ffi/src/lib.rs", """            *m.get_mut() = Bvh::default();
            Ok(())""", """            let old = std::mem::take(m.get_mut());
            if id as usize + 1 != lock.len() {
                // A caller may still look at the nodes
                self.retired.write().push(old);
            }
            Ok(())"""),
     ("rtbvh_ffi/src/lib.rs", "    m_structures: RwLock<Vec<RwLock<Mbvh>>>,\n}", "    m_structures: RwLock<Vec<RwLock<Mbvh>>>,\n    retired: RwLock<Vec<Bvh>>,\n}"),
     ("rtbvh_ffi/src/lib.rs", "            m_structures: RwLock::new(Vec::new()),\n", "            m_structures: RwLock::new(Vec::new()),\n            retired: RwLock::new(Vec::new()),\n")],
    LEDGER_DEMO + """
use rtbvh_rs as c;

fn made(p: &[f32]) -> c::RTBvh {
    let mut b = c::RTBvh::default();
    let boxes: Vec<c::RTAabb> = p.chunks(3).map(|p| c::RTAabb { min: [p[0], p[1], p[2]], count: 0, max: [p[0] + 1.0, p[1] + 1.0, p[2] + 1.0], left_first: 0 }).collect();
    let r = unsafe { c::create_bvh(boxes.as_ptr(), p.len() / 3, p.as_ptr(), 12, 1, c::BvhType::BinnedSAH, &mut b) };
    assert!(r == c::ResultCode::Ok);
    b
}

fn main() {
    let p: Vec<f32> = (0..15000).map(|i| (i * 7919 % 15000) as f32).collect();
    c::free_bvh(made(&p));
    let base = LIVE.load(SeqCst);
    for _ in 0..20 {
        let (a, b) = (made(&p), made(&p));
        c::free_bvh(a);
        c::free_bvh(b);
    }
    let left = LIVE.load(SeqCst) - base;
    assert!(left < 200_000, "{} bytes are still in use", left);
}
""")

bug("c28-own-boxes", "C28", "builds without boxes whose trees are gone",
    "the boxes that the binned builder computes itself are never released",
    [("src/bvh.rs", """                .map(|p| p.aabb())
                .collect::<Vec<_>>();

            Ok(BinnedSahBuilder::new(&aabbs, self.primitives, self.primitives_per_leaf).build())""", """                .map(|p| p.aabb())
                .collect::<Vec<_>>();
            // The builder's tasks may run on other threads, so they get a slice that outlives them
            let aabbs: &'static [Aabb<i32>] = Vec::leak(aabbs);

            Ok(BinnedSahBuilder::new(aabbs, self.primitives, self.primitives_per_leaf).build())""")],
    LEDGER_DEMO + """
use glam::*;
use rtbvh::*;

#[derive(Debug, Clone, Copy)]
struct P(Vec3);
impl Primitive for P {
    fn center(&self) -> Vec3 {
        self.0
    }
    fn aabb(&self) -> Aabb {
        let mut b = Aabb::empty();
        b.grow(self.0);
        b.grow(self.0 + Vec3::ONE);
        b
    }
}

fn main() {
    let p: Vec<P> = (0..5000).map(|i| P(vec3((i * 7919 % 5000) as f32, 0.0, 0.0))).collect();
    let build = || drop(Builder { aabbs: None, primitives: &p, primitives_per_leaf: None }.construct_binned_sah().unwrap());
    build();
    let base = LIVE.load(SeqCst);
    for _ in 0..20 {
        build();
    }
    let left = LIVE.load(SeqCst) - base;
    assert!(left < 200_000, "{} bytes are still in use", left);
}
""")
