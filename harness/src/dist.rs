//! the distance between events
use crate::util::*;
use crate::vx::*;
use cres::distance::EuclWithScaledPt;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::traits::Distance;
use noisy_float::prelude::*;

const PIDS: [i32; 3] = [21, 11, -11];

/// momentum along one axis
fn axis(k: usize, x: N64) -> FourVector {
    let z = n64(0.);
    match k {
        0 => p4(x.abs(), x, z, z),
        1 => p4(x.abs(), z, x, z),
        _ => p4(x.abs(), z, z, x),
    }
}
type P = Vec<(i32, FourVector)>;
fn event(p: &P) -> Event {
    let mut b = EventBuilder::new();
    b.add_weight(n64(1.));
    for (i, q) in p {
        b.add_outgoing(pid(*i), *q);
    }
    b.build()
}
/// up to n particles of k types along the given axis
fn particles(t: &str, n: u64, k: u64, ax: usize) -> P {
    let m = pick(t, 0, n);
    (0..m).map(|_| (PIDS[pick("pid", 0, k - 1)], axis(ax, grid_n("p", -32, 32, 8)))).collect()
}
/// metric axioms, independence of the order of particles: particles, types, axis, largest law
#[no_mangle]
pub extern "C" fn h_metric(n: u64, k: u64, ax: u64, laws: u64) {
    let ax = ax as usize;
    // momenta along the beam have no transverse momentum
    let tau = if ax == 2 || n == 1 { grid("tau", 0, 32, 8) } else { 0. };
    let d = EuclWithScaledPt::new(n64(tau));
    let law = pick("law", 0, laws);
    let a = particles("na", n, k, ax);
    if law == 0 {
        check(d.distance(&event(&a), &event(&a)) == 0., "distance to itself");
        let mut ar = a.clone();
        ar.reverse();
        check(d.distance(&event(&ar), &event(&a)) == 0., "distance to a reordered copy");
        return;
    }
    let b = particles("nb", n, k, ax);
    let (ea, eb) = (event(&a), event(&b));
    let dab = d.distance(&ea, &eb);
    check(dab >= 0., "negative");
    match law {
        1 => check(close(d.distance(&eb, &ea).raw(), dab.raw()), "asymmetric"),
        2 => {
            let mut ar = a.clone();
            ar.reverse();
            check(close(d.distance(&event(&ar), &eb).raw(), dab.raw()), "depends on the order of particles");
        }
        3 => {
            // an extra particle without momentum changes nothing
            let mut az = a.clone();
            az.push((PIDS[0], axis(ax, n64(0.))));
            check(close(d.distance(&event(&az), &eb).raw(), dab.raw()), "particle without momentum");
        }
        _ => {
            let c = particles("nc", n, k, ax);
            let ec = event(&c);
            check(dab <= d.distance(&ea, &ec) + d.distance(&ec, &eb), "triangle inequality");
        }
    }
    if a.len() == n as usize && b.len() == n as usize {
        cover("full events");
    }
}
/// many particles of one type: distance to a reordered copy, symmetry, dependence on the order
#[no_mangle]
pub extern "C" fn h_many(n: u64, ax: u64, law: u64, free: u64) {
    let (n, ax) = (n as usize, ax as usize);
    let d = EuclWithScaledPt::new(n64(1.));
    let gen = |t: &str, free: u64, c: [f64; 5]| -> P { (0..n).map(|i| (21, axis(ax, if (i as u64) < free { grid_n(t, -32, 32, 8) } else { n64(c[i]) }))).collect() };
    let a = gen("a", free, [2., 0.5, -3., 1., 4.]);
    let ea = event(&a);
    if law == 0 {
        check(d.distance(&ea, &ea) == 0., "distance to itself");
        let mut ar = a.clone();
        ar.rotate_left(1);
        ar.swap(0, 1);
        check(d.distance(&event(&ar), &ea) == 0., "distance to a reordered copy");
        return;
    }
    let b = gen("b", free / 2, [3., -1., 3.5, 2., -2.]);
    let eb = event(&b);
    let dab = d.distance(&ea, &eb);
    if law == 3 {
        let ec = event(&gen("c", free / 2, [-1., 2.5, 0., -3.5, 1.]));
        check(dab <= d.distance(&ea, &ec) + d.distance(&ec, &eb), "triangle inequality");
        return;
    }
    let (x, y) = if law == 1 {
        (eb, ea)
    } else {
        let mut br = b.clone();
        br.reverse();
        (ea, event(&br))
    };
    check(close(d.distance(&x, &y).raw(), dab.raw()), "asymmetric");
}
/// the formula for single particles: |p - q|^2 + tau^2 (pt_p - pt_q)^2
#[no_mangle]
pub extern "C" fn h_formula(ca: u64, cb: u64, _: u64, _: u64) {
    // pythagorean directions keep transverse momenta rational
    const DIR: [[f64; 3]; 7] = [[1., 0., 0.], [0., 1., 0.], [0., 0., 1.], [3., 4., 0.], [-4., 3., 2.], [0., 0., -1.], [5., -12., 1.]];
    let _ = (ca, cb);
    let tau = grid_n("tau", 0, 32, 8);
    let mut ps = vec![];
    let mut es = vec![];
    for _ in 0..2 {
        let k = DIR[pick("dir", 0, 6)];
        let s = grid_n("scale", 0, 32, 8);
        let v: Vec<N64> = k.iter().map(|x| s * *x).collect();
        let pt = s * (k[0] * k[0] + k[1] * k[1]).sqrt();
        es.push(event(&vec![(21, p4(s * 20., v[0], v[1], v[2]))]));
        ps.push((v, pt));
    }
    let d = EuclWithScaledPt::new(tau).distance(&es[0], &es[1]);
    let mut w = n64(0.);
    for i in 0..3 {
        let x = ps[0].0[i] - ps[1].0[i];
        w += x * x;
    }
    let x = tau * (ps[0].1 - ps[1].1);
    w += x * x;
    check(close((d * d).raw(), w.raw()), "distance formula");
    // and to nothing
    let d = EuclWithScaledPt::new(tau).distance(&es[0], &event(&vec![]));
    let mut w = n64(0.);
    for i in 0..3 {
        w += ps[0].0[i] * ps[0].0[i];
    }
    let x = tau * ps[0].1;
    w += x * x;
    check(close((d * d).raw(), w.raw()), "distance to the empty event");
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}
/// the distance is that of the best pairing: na and nb particles of one type along an axis
#[no_mangle]
pub extern "C" fn h_pairing(na: u64, nb: u64, ax: u64, conc: u64) {
    let ax = ax as usize;
    let gen = |t: &str, n: u64, c: bool| -> Vec<N64> { (0..n).map(|i| if c { n64([3., -1., 7., 2., 5.][i as usize]) } else { grid_n(t, -32, 32, 8) }).collect() };
    let a = gen("a", na, conc > 0);
    let mut b = gen("b", nb, false);
    if conc > 2 {
        for i in 2..b.len() {
            b[i] = n64([0., 0., 6., 1.5, -2.][i]);
        }
    }
    let ea = event(&a.iter().map(|x| (21, axis(ax, *x))).collect());
    // energies, which determine the order of particles in an event, need not follow the momenta
    let q = |i: usize, x: N64| -> FourVector {
        let p = axis(ax, x);
        if conc > 1 { p4(n64([2., 9., 4., 7., 1.][i]), p[1], p[2], p[3]) } else { p }
    };
    let eb = event(&b.iter().enumerate().map(|(i, x)| (21, q(i, *x))).collect());
    let tau = n64(if ax == 2 { 1. } else { 0. });
    let d = EuclWithScaledPt::new(tau).distance(&ea, &eb);
    let n = a.len().max(b.len());
    let at = |v: &Vec<N64>, i: usize| v.get(i).copied().unwrap_or(n64(0.));
    let mut reached = false;
    for p in perms(n) {
        let mut s = n64(0.);
        for i in 0..n {
            s += (at(&a, i) - at(&b, p[i])).abs();
        }
        check(or(d <= s, close(d.raw(), s.raw())), "better pairing exists");
        reached = or(reached, close(d.raw(), s.raw()));
    }
    check(reached, "distance of no pairing");
}
/// particles of different types are never paired: the distance is the sum over types
#[no_mangle]
pub extern "C" fn h_mixed(n: u64, k: u64, ax: u64, _: u64) {
    let ax = ax as usize;
    let d = EuclWithScaledPt::new(n64(0.));
    let a = particles("na", n, k, ax);
    let b = particles("nb", n, k, ax);
    let total = d.distance(&event(&a), &event(&b));
    let mut s = n64(0.);
    for id in PIDS {
        let f = |p: &P| -> Event { event(&p.iter().filter(|q| q.0 == id).cloned().collect()) };
        s += d.distance(&f(&a), &f(&b));
    }
    check(close(total.raw(), s.raw()), "sum over particle types");
}

/// up to one particle of each of k types in either event: symmetry, order of particles, sum over types
#[no_mangle]
pub extern "C" fn h_types(k: u64, _: u64, _: u64, _: u64) {
    const T: [i32; 6] = [21, -11, 82, 11, 5, 22];
    let k = k as usize;
    let d = EuclWithScaledPt::new(n64(0.));
    let mut ev = |t: &str| -> Vec<Option<N64>> {
        let m = pick(t, 0, (1 << k) - 1);
        (0..k).map(|i| if m >> i & 1 == 1 { Some(grid_n("p", -32, 32, 8)) } else { None }).collect()
    };
    let (a, b) = (ev("a"), ev("b"));
    let list = |x: &[Option<N64>]| -> P { x.iter().enumerate().filter_map(|(i, p)| p.map(|p| (T[i], axis(i % 3, p)))).collect() };
    let (la, lb) = (list(&a), list(&b));
    let dab = d.distance(&event(&la), &event(&lb));
    let mut want = n64(0.);
    for i in 0..k {
        want += (a[i].unwrap_or_default() - b[i].unwrap_or_default()).abs();
    }
    check(close(dab.raw(), want.raw()), "sum over particle types");
    let mut ra = la.clone();
    ra.reverse();
    check(close(d.distance(&event(&lb), &event(&ra)).raw(), dab.raw()), "asymmetric");
    if la.is_empty() && lb.len() == k {
        cover("all types on one side");
    }
}

/// many particles of several types on a line, one of them anywhere: the best pairing is that of the ordered momenta
#[no_mangle]
pub extern "C" fn h_crowd(na: u64, nb: u64, types: u64, _: u64) {
    let ax = pick("axis", 0, 2);
    let d = EuclWithScaledPt::new(n64(if ax == 2 { 3. } else { 0. }));
    let x = n64(byte("p", b"\x00\x10\x21\x32\x43\x54\x65\x76\x87\x98\xa9\xff") as f64) / 8. - 16.;
    let which = pick("type", 0, types - 1);
    let gen = |n: u64, s: u64, free: bool| -> Vec<Vec<N64>> {
        (0..types).map(|t| (0..n).map(|i| if free && t as usize == which && i == n / 2 { x } else { n64(((i * 37 + t * 11 + s) % 101) as f64 / 4. - 12.) }).collect()).collect()
    };
    let (a, b) = (gen(na, 5, true), gen(nb, 50, false));
    let ev = |v: &[Vec<N64>], rev: bool| -> Event {
        let mut p: P = v.iter().enumerate().flat_map(|(t, v)| v.iter().map(move |x| (t as i32 - 3, axis(ax, *x)))).collect();
        if rev {
            p.reverse();
        }
        event(&p)
    };
    let mut want = n64(0.);
    for (a, b) in a.iter().zip(&b) {
        let (mut a, mut b) = (a.clone(), b.clone());
        let n = a.len().max(b.len());
        a.resize(n, n64(0.));
        b.resize(n, n64(0.));
        a.sort();
        b.sort();
        for (a, b) in a.iter().zip(&b) {
            want += (*a - *b).abs();
        }
    }
    let (ea, eb) = (ev(&a, false), ev(&b, false));
    check(close(d.distance(&ea, &eb).raw(), want.raw()), "distance");
    check(close(d.distance(&eb, &ev(&a, true)).raw(), want.raw()), "symmetry or order of particles");
    check(d.distance(&ea, &ev(&a, true)) == 0., "distance to a reordered copy");
}
