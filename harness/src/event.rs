//! construction of events, four-vectors
use crate::util::*;
use crate::vx::*;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use jetty::PseudoJet;
use noisy_float::prelude::*;

const PIDS: [i32; 4] = [21, 5, -5, -11];

/// events are independent of the order in which particles are added
#[no_mangle]
pub extern "C" fn h_event(n: u64, w: u64, _: u64, _: u64) {
    let n = n as usize;
    let ps: Vec<(i32, N64)> = (0..n).map(|_| (PIDS[pick("pid", 0, 3)], grid_n("p", -32, 32, 8))).collect();
    let ws: Vec<N64> = (0..w).map(|_| grid_n("w", -32, 32, 8)).collect();
    let build = |ord: &[usize]| -> Event {
        let mut b = if ord.len() % 2 == 0 { EventBuilder::new() } else { EventBuilder::with_capacity(1) };
        for x in &ws {
            b.add_weight(*x);
        }
        for i in ord {
            b.add_outgoing(pid(ps[*i].0), px(ps[*i].1));
        }
        b.build()
    };
    let fwd: Vec<usize> = (0..n).collect();
    let mut oth = fwd.clone();
    let r = pick("rotate", 0, n as u64 - 1);
    oth.rotate_left(r);
    if flag("swap") {
        oth.swap(0, n - 1);
    }
    let (a, b) = (build(&fwd), build(&oth));
    check(a.id() == 0, "fresh id");
    check(a == b, "order of particles matters");
    let wa = weights(&a);
    check(wa.len() == ws.len(), "number of weights");
    for (x, y) in wa.iter().zip(&ws) {
        check(x == y, "weight");
    }
    check(a.n_weights() == ws.len(), "n_weights");
    if !ws.is_empty() {
        check(a.weight() == ws[0], "central weight");
    }
    let mut total = 0;
    let mut last: Option<i32> = None;
    for (id, out) in a.outgoing() {
        let id = id.id();
        check(last.is_none_or(|l| l > id), "types not in order");
        last = Some(id);
        check(!out.is_empty(), "empty type");
        total += out.len();
        // the same multiset of momenta: sums of powers agree over the grid
        let mut cnt = 0;
        let (mut s1, mut s2) = (n64(0.), n64(0.));
        for (i, x) in &ps {
            if *i == id {
                cnt += 1;
                s1 += *x;
                s2 += x.abs();
            }
        }
        let (mut t1, mut t2) = (n64(0.), n64(0.));
        for q in out.iter() {
            t1 += q[1];
            t2 += q.pt();
        }
        check(cnt == out.len(), "multiplicity");
        check(close(s1.raw(), t1.raw()), "momenta");
        check(close(s2.raw(), t2.raw()), "transverse momenta");
        for (i, x) in &ps {
            if *i == id {
                let mut hit = false;
                for q in out.iter() {
                    hit = or(hit, eqv(q, &px(*x)));
                }
                check(hit, "particle lost");
            }
        }
        for k in 1..out.len() {
            check(out[k - 1] >= out[k], "momenta not in order");
        }
        let sel = a.outgoing_with_pid(pid(id));
        check(sel.len() == out.len(), "selection by type");
        for (x, y) in sel.iter().zip(out.iter()) {
            check(eqv(x, y), "selection by type");
        }
    }
    check(total == n, "number of particles");
    for i in [1, 22, -5, 21, 5, -11] {
        if !ps.iter().any(|p| p.0 == i) {
            check(a.outgoing_with_pid(pid(i)).is_empty(), "particles of an absent type");
        }
    }
    log("types", a.outgoing().len() as u64);
}
/// transverse momentum stays consistent with the components
#[no_mangle]
pub extern "C" fn h_fourvec(_: u64, _: u64, _: u64, _: u64) {
    let g = |t: &str| grid_n(t, -64, 64, 8);
    let a = [g("a"), g("a"), g("a"), g("a")];
    let b = [g("b"), g("b"), g("b"), g("b")];
    let (p, q): (FourVector, FourVector) = (a.into(), b.into());
    let sum: FourVector = [a[0] + b[0], a[1] + b[1], a[2] + b[2], a[3] + b[3]].into();
    let dif: FourVector = [a[0] - b[0], a[1] - b[1], a[2] - b[2], a[3] - b[3]].into();
    let (x, y);
    if flag("assign") {
        let mut s = p;
        s += q;
        x = s;
        let mut s = p;
        s -= q;
        y = s;
    } else {
        x = p + q;
        y = p - q;
    }
    check(eqv(&x, &sum), "sum");
    check(eqv(&y, &dif), "difference");
    for (v, c) in [(&p, &a), (&x, &[sum[0], sum[1], sum[2], sum[3]]), (&y, &[dif[0], dif[1], dif[2], dif[3]])] {
        check(close((v.pt() * v.pt()).raw(), (c[1] * c[1] + c[2] * c[2]).raw()), "transverse momentum");
        check(v.pt() >= 0., "transverse momentum sign");
        check(close(v.spatial_norm_sq().raw(), (c[1] * c[1] + c[2] * c[2] + c[3] * c[3]).raw()), "spatial norm");
        check(close(v.euclid_norm_sq().raw(), (c[0] * c[0] + c[1] * c[1] + c[2] * c[2] + c[3] * c[3]).raw()), "euclidean norm");
    }
    // only time-like momenta have a rapidity
    let a0 = grid_n("energy", 112, 1000, 8);
    let p: FourVector = [a0, a[1], a[2], a[3]].into();
    let j: PseudoJet = p.into();
    check(j.e() == a0 && j.px() == a[1] && j.py() == a[2] && j.pz() == a[3], "jet momentum");
    let back: FourVector = j.into();
    check(eqv(&back, &p), "back from jet");
    let s = g("s");
    let mut bl = EventBuilder::new();
    bl.add_outgoing(pid(21), a.into());
    bl.rescale_energies(s);
    let e = bl.build();
    let r: FourVector = [a[0] * s, a[1] * s, a[2] * s, a[3] * s].into();
    check(eqv(&e.outgoing()[0].1[0], &r), "rescaled");
}
/// many particles of many types, one of them anywhere
#[no_mangle]
pub extern "C" fn h_event_big(n: u64, types: u64, _: u64, _: u64) {
    let (n, types) = (n as usize, types as i32);
    let x = n64(byte("p", b"\x00\x10\x21\x32\x43\x54\x65\x76\x87\x98\xa9\xff") as f64);
    let free = pick("which", 0, 2) * (n - 1) / 2;
    let ps: Vec<(i32, N64)> = (0..n).map(|i| ((i as i32 * 7) % types - 2, if i == free { x } else { n64(((i * 37) % 101) as f64 * 2.) })).collect();
    let ws: Vec<N64> = (0..40).map(|i| n64(i as f64 - 3.)).collect();
    let build = |step: usize| -> Event {
        let mut b = EventBuilder::new();
        for w in &ws {
            b.add_weight(*w);
        }
        for i in 0..n {
            let (id, p) = ps[i * step % n];
            b.add_outgoing(pid(id), px(p));
        }
        b.build()
    };
    let a = build(1);
    let step = [3, 7, n - 1].into_iter().find(|s| n % s != 0).unwrap();
    check(a == build(step), "order of particles matters");
    check(weights(&a) == ws, "weights");
    check(a.outgoing().len() == (types as usize).min(n), "number of types");
    for id in -2..types - 2 {
        let out = a.outgoing_with_pid(pid(id));
        let mut want: Vec<N64> = ps.iter().filter(|p| p.0 == id).map(|p| p.1).collect();
        want.sort();
        want.reverse();
        check(out.len() == want.len(), "multiplicity");
        for (p, q) in out.iter().zip(&want) {
            check(eqv(p, &px(*q)), "momentum");
        }
        check(out == a.outgoing().iter().find(|o| o.0 == pid(id)).map(|o| &o.1[..]).unwrap_or(&[]), "selection by type");
    }
    check(a.outgoing().windows(2).all(|o| o[0].0 > o[1].0), "types not in order");
}
