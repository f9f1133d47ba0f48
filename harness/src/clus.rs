//! clustering into infrared-safe objects
use crate::util::*;
use crate::vx::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition, NO_CLUSTERING};
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use cres::traits::Clustering;
use noisy_float::prelude::*;

const ALG: [JetAlgorithm; 3] = [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen];
// gluon, b, pi+, p, e-, mu+, tau, nu_e, anti-nu_mu, photon, Z, H, top, W-
const IDS: [i32; 14] = [21, -5, 211, -2212, 11, -13, 15, 12, -14, 22, 23, 25, 6, -24];
/// momenta far away from each other
fn mom(i: usize) -> FourVector {
    let v = [[3., 4., 0.], [-8., 6., 5.], [5., -12., -3.], [-7., -24., 1.]][i % 4];
    let e = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] as f64).sqrt();
    p4(n64(e), n64(v[0]), n64(v[1]), n64(v[2]))
}
const PT: [f64; 4] = [5., 10., 13., 25.];
fn def(alg: usize, radius: f64, min_pt: f64) -> JetDefinition {
    JetDefinition { algorithm: ALG[alg], radius, min_pt }
}
fn build(ps: &[(i32, FourVector)], w: N64) -> Event {
    let mut b = EventBuilder::new();
    b.add_weight(w);
    b.add_weight(w * 2.);
    for (i, p) in ps {
        b.add_outgoing(pid(*i), *p);
    }
    let mut e = b.build();
    e.id = 7;
    e
}
fn same(a: &FourVector, b: &FourVector) -> bool {
    let mut r = true;
    for i in 0..4 {
        r = and(r, (a[i] - b[i]).abs() < 1e-9);
    }
    r
}
/// well-separated particles, at most one jet constituent each: every particle ends up in its own object
#[no_mangle]
pub extern "C" fn h_route(n: u64, nids: u64, _: u64, _: u64) {
    let n = n as usize;
    let alg = pick("algorithm", 0, 2);
    let jpt = grid("jet pt", 0, 30, 1);
    let lpt = grid("lepton pt", 0, 30, 1);
    let leptons = flag("leptons");
    let neutrinos = flag("neutrinos");
    let w = grid_n("w", -64, 64, 8);
    let ids: Vec<i32> = (0..n).map(|_| IDS[pick("pid", 0, nids - 1)]).collect();
    let ev = build(&ids.iter().enumerate().map(|(i, p)| (*p, mom(i))).collect::<Vec<_>>(), w);
    let mut c = DefaultClustering::new(def(alg, 0.4, jpt)).include_neutrinos(neutrinos);
    if leptons {
        c = c.with_lepton_def(def((alg + 1) % 3, 0.1, lpt));
    }
    let out = c.cluster(ev).unwrap();
    check(out.id() == 7, "id");
    check(out.n_weights() == 2, "number of weights");
    check(out.weight() == w, "weight");
    check(weights(&out)[1] == w * 2., "second weight");
    let mut left = 0;
    for (i, id) in ids.iter().enumerate() {
        let a = id.abs();
        let to = match a {
            21 | 5 | 211 | 2212 => {
                if cases(n64(PT[i]) > jpt) {
                    Some(81)
                } else {
                    None
                }
            }
            11 | 13 | 22 if leptons => {
                if cases(n64(PT[i]) > lpt) {
                    Some(82)
                } else {
                    None
                }
            }
            12 | 14 => neutrinos.then_some(*id),
            _ => Some(*id),
        };
        if let Some(t) = to {
            left += 1;
            let mut hit = false;
            for q in out.outgoing_with_pid(pid(t)) {
                hit = or(hit, same(q, &mom(i)));
            }
            check(hit, "particle in the wrong object");
        }
    }
    let total: usize = out.outgoing().iter().map(|o| o.1.len()).sum();
    check(total == left, "number of objects");
    if left == 0 {
        cover("all removed");
    }
}
/// nearby particles of one kind: combined up to the radius
#[no_mangle]
pub extern "C" fn h_merge(kind: u64, _: u64, _: u64, _: u64) {
    let alg = pick("algorithm", 0, 2);
    let radius = grid("radius", 1, 64, 16);
    let cut = grid("pt cut", 0, 40, 1);
    // azimuths 0 and arctan(3/4), equal rapidity
    let (a, b) = (p4(n64(10.), n64(10.), n64(0.), n64(0.)), p4(n64(15.), n64(12.), n64(9.), n64(0.)));
    let dr = (0.75f64).atan();
    assume((radius - dr).abs() > 1e-6);
    let (ids, tag) = match kind {
        0 => ([21, -211], 81),
        1 => ([11, 22], 82),
        _ => ([-13, 22], 82),
    };
    let ev = build(&[(ids[0], a), (ids[1], b)], n64(1.));
    let far = def(alg, 0.01, 0.);
    let near = def(alg, radius, cut);
    let c = if kind == 0 { DefaultClustering::new(near).with_lepton_def(far) } else { DefaultClustering::new(far).with_lepton_def(near) };
    let out = c.cluster(ev).unwrap();
    let got = out.outgoing_with_pid(pid(tag));
    let want: Vec<FourVector> = if cases(radius > dr) { vec![a + b] } else { vec![a, b] };
    let mut n = 0;
    for q in &want {
        if cases(q.pt() > cut) {
            n += 1;
            let mut hit = false;
            for g in got {
                hit = or(hit, same(g, q));
            }
            check(hit, "wrong combination");
        }
    }
    check(got.len() == n, "number of objects");
    check(out.outgoing().iter().map(|o| o.1.len()).sum::<usize>() == n, "other objects");
    if n == 1 && want.len() == 1 {
        cover("combined");
    }
    if n == 2 {
        cover("separate");
    }
}
/// a photon with another particle nearby
#[no_mangle]
pub extern "C" fn h_photon(nids: u64, _: u64, _: u64, _: u64) {
    let photon = p4(n64(25.), n64(15.), n64(20.), n64(0.));
    // same rapidity, azimuths differ by arctan(4/3) - arctan(3/4)
    let other = p4(n64(10.), n64(8.), n64(6.), n64(0.));
    let behind = p4(n64(13.), n64(-5.), n64(-12.), n64(0.));
    let dr = (4f64 / 3.).atan() - (0.75f64).atan();
    let id = IDS[pick("pid", 0, nids - 1)];
    let leptons = flag("leptons");
    let radius = grid("radius", 1, 32, 16);
    let min_pt = grid("min pt", 0, 40, 1);
    let frac = grid("fraction", 0, 64, 8);
    assume((radius - dr).abs() > 1e-6);
    let ev = build(&[(22, photon), (id, other), (2, behind)], n64(-1.));
    let mut c = DefaultClustering::new(def(0, 0.01, 0.)).include_neutrinos(true).with_photon_def(PhotonDefinition { min_e_fraction: frac, radius, min_pt });
    if leptons {
        c = c.with_lepton_def(def(1, 0.01, 0.));
    }
    let out = c.cluster(ev).unwrap();
    let a = id.abs();
    let ignored = a == 12 || a == 14 || a == 13;
    let cone = if !ignored && cases(radius > dr) { 10. } else { 0. };
    let iso = and(min_pt <= 25., 25. > frac * cone);
    let found = out.outgoing_with_pid(pid(83));
    let mut hit = false;
    for q in found {
        hit = or(hit, same(q, &photon));
    }
    if id != 22 {
        check(cases(iso) == hit, "isolation");
        check(found.len() == hit as usize, "number of isolated photons");
    } else if cases(iso) {
        check(hit, "isolation");
    } else {
        check(!hit, "isolation");
    }
    if !hit {
        let tag = if leptons { 82 } else { 22 };
        let mut there = false;
        for q in out.outgoing_with_pid(pid(tag)) {
            there = or(there, same(q, &photon));
        }
        check(there, "photon lost");
        cover("not isolated");
    } else {
        cover("isolated");
    }
    check(out.outgoing().iter().map(|o| o.1.len()).sum::<usize>() == 3, "number of objects");
}
/// no clustering: nothing changes
#[no_mangle]
pub extern "C" fn h_noclus(n: u64, _: u64, _: u64, _: u64) {
    let w = grid_n("w", -64, 64, 8);
    let ps: Vec<(i32, FourVector)> = (0..n as usize).map(|i| (IDS[pick("pid", 0, 13)], mom(i))).collect();
    let out = NO_CLUSTERING.cluster(build(&ps, w)).unwrap();
    check(out == build(&ps, w), "event changed");
    check(out.id() == 7 && out.weight() == w, "event changed");
}
/// pt, rapidity and azimuth of many directions far away from each other
fn place(i: usize) -> (f64, f64, f64) {
    (5.25 + i as f64 / 2., (i / 8) as f64 * 1.25 - 2., (i % 8) as f64 * 0.785)
}
fn at(p: (f64, f64, f64)) -> FourVector {
    let (pt, y, phi) = p;
    p4(n64(pt * y.cosh()), n64(pt * phi.cos()), n64(pt * phi.sin()), n64(pt * y.sinh()))
}
const CUTS: &[u8] = b"\x00\x05\x06\x0a\x10\x16\x1c\x30";
/// many particles, all of them far away from each other
#[no_mangle]
pub extern "C" fn h_route_big(n: u64, nids: u64, _: u64, _: u64) {
    let (n, nids) = (n as usize, nids as usize);
    let alg = pick("algorithm", 0, 2);
    let jpt = byte("jet pt", CUTS) as f64;
    let lpt = byte("lepton pt", CUTS) as f64;
    let leptons = flag("leptons");
    let neutrinos = flag("neutrinos");
    let id = |i: usize| IDS[if nids == 0 { 9 } else { (i * 3) % nids }];
    let ps: Vec<_> = (0..n).map(|i| (id(i), at(place(i)))).collect();
    let mut c = DefaultClustering::new(def(alg, 0.4, jpt)).include_neutrinos(neutrinos);
    if leptons {
        c = c.with_lepton_def(def((alg + 1) % 3, 0.1, lpt));
    }
    let out = c.cluster(build(&ps, n64(2.))).unwrap();
    let mut left = 0;
    for (i, (id, p)) in ps.iter().enumerate() {
        let to = match id.abs() {
            21 | 5 | 211 | 2212 => cases(place(i).0 > jpt).then_some(81),
            11 | 13 | 22 if leptons => cases(place(i).0 > lpt).then_some(82),
            12 | 14 => neutrinos.then_some(*id),
            _ => Some(*id),
        };
        if let Some(t) = to {
            left += 1;
            check(out.outgoing_with_pid(pid(t)).iter().any(|q| same(q, p)), "particle in the wrong object");
        }
    }
    check(out.outgoing().iter().map(|o| o.1.len()).sum::<usize>() == left, "number of objects");
}
/// many photons, some of them with a hadron nearby
#[no_mangle]
pub extern "C" fn h_photon_big(n: u64, _: u64, _: u64, _: u64) {
    let n = n as usize;
    let leptons = flag("leptons");
    let min_pt = byte("min pt", CUTS) as f64;
    let frac = byte("fraction", b"\x00\x01\x02\x04\x08") as f64;
    let first = pick("hadrons near even or odd photons", 0, 1);
    let mut ps = vec![];
    let mut want = vec![];
    for i in 0..n {
        let p = place(i);
        ps.push((22, at(p)));
        let near = i % 2 == first;
        if near {
            ps.push(([211, 21, -2212][i % 3], at((3.75, p.1, p.2 + 0.1))));
        }
        want.push(cases(min_pt <= p.0) && (!near || cases(p.0 > frac * 3.75)));
    }
    let mut c = DefaultClustering::new(def(0, 0.01, 0.)).with_photon_def(PhotonDefinition { min_e_fraction: frac, radius: 0.25, min_pt });
    if leptons {
        c = c.with_lepton_def(def(1, 0.01, 0.));
    }
    let out = c.cluster(build(&ps, n64(2.))).unwrap();
    let mut count = 0;
    for i in 0..n {
        let tag = if want[i] {
            count += 1;
            83
        } else if leptons {
            82
        } else {
            22
        };
        check(out.outgoing_with_pid(pid(tag)).iter().any(|q| same(q, &at(place(i)))), "isolation");
    }
    check(out.outgoing_with_pid(pid(83)).len() == count, "number of isolated photons");
    check(out.outgoing().iter().map(|o| o.1.len()).sum::<usize>() == ps.len(), "number of objects");
}
