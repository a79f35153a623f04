use crate::{gen::*, req, scores::rot, Ctx};
use perception_eval::utils::math::*;
use std::f64::consts::PI;

type Q = [f64; 4];
fn mul(a: &Q, b: &Q) -> Q {
    [a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3], a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2], a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1], a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0]]
}
fn unit(r: &mut Rng) -> Q {
    if r.chance(25) {
        let s = 0.5f64.sqrt();
        return *r.pick(&[[1.0, 0.0, 0.0, 0.0], [0.0, 1.0, 0.0, 0.0], [0.0, 0.0, 1.0, 0.0], [0.0, 0.0, 0.0, 1.0], [s, s, 0.0, 0.0], [s, 0.0, s, 0.0], [s, 0.0, 0.0, s], [s, 0.0, 0.0, -s], [0.5, 0.5, 0.5, 0.5], [0.5, -0.5, 0.5, -0.5], [0.0, s, s, 0.0], [-1.0, 0.0, 0.0, 0.0]]);
    }
    loop {
        let q = [r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0, r.f() * 2.0 - 1.0];
        let n = q.iter().map(|x| x * x).sum::<f64>().sqrt();
        if n > 0.1 { return q.map(|x| x / n) }
    }
}
fn pt(r: &mut Rng) -> [f64; 3] { [r.coord(9), r.coord(9), r.coord(9)] }
fn near(a: &[f64], b: &[f64], e: f64) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| (x - y).abs() <= e) }
fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 { (0..3).map(|i| a[i] * b[i]).sum() }
pub fn c12(c: &mut Ctx) {
    c.rule = "the rotations are not the identity and do not commute".into();
    for _ in 0..c.n * 4000 {
        let (q, s, p, t) = (unit(&mut c.rng), unit(&mut c.rng), pt(&mut c.rng), pt(&mut c.rng));
        let k = 0.25 + c.rng.f() * 4.0;
        c.case(format!("q {q:?} s {s:?} p {p:?} t {t:?} k {k}"), !near(&mul(&q, &s), &mul(&s, &q), 1e-3), || {
            const E: f64 = 1e-9;
            let w = rot(&q, p);
            let r = rotate(&p, &q);
            req!(near(&r, &w, E), "rotate gives {r:?}, q p q* is {w:?}");
            req!(near(&rotate_inv(&r, &q), &p, E), "rotating back gives {:?}", rotate_inv(&r, &q));
            let r2 = rotate(&t, &q);
            req!((dot(&r, &r2) - dot(&p, &t)).abs() < 1e-7, "the dot product changes from {} to {}", dot(&p, &t), dot(&r, &r2));
            req!(near(&translate(&p, &t), &[p[0] + t[0], p[1] + t[1], p[2] + t[2]], E), "translate gives {:?}", translate(&p, &t));
            req!(near(&translate_inv(&translate(&p, &t), &t), &p, E) && near(&translate_inv(&p, &t), &[p[0] - t[0], p[1] - t[1], p[2] - t[2]], E), "translating back gives {:?}", translate_inv(&translate(&p, &t), &t));
            let qs = rotate_q(&q, &s);
            req!(near(&qs, &mul(&s, &q), E), "rotate_q gives {qs:?}, expected {:?}", mul(&s, &q));
            req!(near(&rotate(&p, &qs), &rotate(&rotate(&p, &q), &s), E), "rotating by the composed orientation gives {:?}, rotating twice {:?}", rotate(&p, &qs), rotate(&rotate(&p, &q), &s));
            req!(near(&rotate_q_inv(&qs, &s), &q, E), "the inverse rotation of the orientation gives {:?}", rotate_q_inv(&qs, &s));
            let m = quaternion2rotation(&q);
            for i in 0..3 { for j in 0..3 { let mut e = [0.0; 3]; e[j] = 1.0; let x = rot(&q, e)[i]; req!((m[(i, j)] - x).abs() < E, "matrix entry ({i}, {j}) is {}, expected {x}", m[(i, j)]) } }
            // a quaternion of any length: the inverse, and the order of composition
            let z = q.map(|x| x * k);
            let iv = inverse_quaternion(&z);
            req!(near(&mul(&z, &iv), &[1.0, 0.0, 0.0, 0.0], E), "q times its inverse is {:?}", mul(&z, &iv));
            req!(near(&rotate_q_inv(&rotate_q(&s, &z), &z), &s, E), "rotating back by a scaled quaternion gives {:?}", rotate_q_inv(&rotate_q(&s, &z), &z));
            Ok(())
        });
        if c.done() { return }
    }
}
pub fn c13(c: &mut Ctx) {
    c.rule = "the object is rotated and longer than wide".into();
    for _ in 0..c.n * 4000 {
        let mut o = obj(&mut c.rng, 3);
        let flat = c.rng.chance(50);
        if !flat { o.orientation = unit(&mut c.rng) }
        c.case(format!("{}", short(&o)), o.orientation[0].abs() < 0.99 && o.size[0] != o.size[1], || {
            const E: f64 = 1e-9;
            let f = o.footprint();
            req!(f.len() == 4, "{} corners", f.len());
            let s = [(1.0, 1.0), (-1.0, 1.0), (-1.0, -1.0), (1.0, -1.0)];
            let want: Vec<[f64; 3]> = s.iter().map(|(a, b)| { let r = rot(&o.orientation, [b * o.size[1] / 2.0 * 0.0 + a * o.size[1] / 2.0, b * o.size[0] / 2.0, 0.0]); [r[0] + o.position[0], r[1] + o.position[1], r[2] + o.position[2]] }).collect();
            // ring order: any start and either direction
            let ok = (0..4).any(|i| (0..4).all(|j| near(&f[j], &want[(i + j) % 4], E)) || (0..4).all(|j| near(&f[j], &want[(i + 4 - j) % 4], E)));
            req!(ok, "footprint {f:?}, expected the ring {want:?}");
            if flat { for p in &f { req!((p[2] - o.position[2]).abs() < E, "a corner lies at height {}", p[2]) } }
            req!((o.area() - o.size[0] * o.size[1]).abs() < E && (o.volume() - o.size[0] * o.size[1] * o.size[2]).abs() < E, "area {} volume {}", o.area(), o.volume());
            Ok(())
        });
        if c.done() { return }
    }
}
pub fn c23(c: &mut Ctx) {
    c.rule = "the rotation is not the identity".into();
    for _ in 0..c.n * 4000 {
        let t = match c.rng.below(4) { 0 => c.rng.range(-11, 12) as f64 * PI / 12.0, 1 => PI - c.rng.f() * 1e-3, 2 => -PI + c.rng.f() * 1e-3, _ => (c.rng.f() * 2.0 - 1.0) * 3.14159 };
        let mut o = obj(&mut c.rng, 1);
        o.orientation = yaw_q(t);
        if c.rng.chance(30) { o.orientation = o.orientation.map(|x| -x) }
        c.case(format!("heading of a rotation by {t}: {:?}", o.orientation), t != 0.0, || {
            let d = (o.heading() - t).abs();
            req!(d < 1e-7 || (d - 2.0 * PI).abs() < 1e-7 && (t.abs() - PI).abs() < 1e-7, "heading {}", o.heading());
            Ok(())
        });
        let q = unit(&mut c.rng);
        let s = 2.0 * (q[0] * q[2] - q[1] * q[3]);
        if s.abs() > 0.9999 { continue }
        c.case(format!("angles of {q:?}"), q[0].abs() < 0.99, || {
            let [r, p, y] = quaternion2euler(&q);
            let (h, x) = (|a: f64| (a / 2.0).sin_cos(), [r, p, y]);
            req!(x.iter().all(|v| v.is_finite()) && r.abs() <= PI + 1e-12 && y.abs() <= PI + 1e-12 && p.abs() <= PI / 2.0 + 1e-9, "angles {x:?} out of range");
            let z = mul(&mul(&[h(y).1, 0.0, 0.0, h(y).0], &[h(p).1, 0.0, h(p).0, 0.0]), &[h(r).1, h(r).0, 0.0, 0.0]);
            let e = 1e-6;
            req!(near(&z, &q, e) || near(&z.map(|v| -v), &q, e), "angles {x:?} denote {z:?}");
            o.orientation = q;
            let (eu, hd) = (o.euler(), o.heading());
            req!(near(&eu, &x, 1e-12) && (hd - y).abs() < 1e-9, "object angles {eu:?} heading {hd}, expected {x:?}");
            Ok(())
        });
        if c.done() { return }
    }
}
