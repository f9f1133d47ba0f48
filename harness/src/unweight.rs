//! unweighting
use crate::util::*;
use crate::vx::*;
use cres::traits::Unweight;
use cres::unweight::{Unweighter, NO_UNWEIGHTING};
use noisy_float::prelude::*;
use rand::RngCore;

/// always the same fraction
struct Fixed(u64);
impl RngCore for Fixed {
    fn next_u32(&mut self) -> u32 {
        (self.0 >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        self.0
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        for x in b {
            *x = (self.0 >> 56) as u8
        }
    }
}
/// fractions r = k/8 drawn by the random number generator
#[no_mangle]
pub extern "C" fn h_unweight(n: u64, w: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<Vec<N64>> = (0..n).map(|_| (0..w).map(|_| grid_n("w", -64, 64, 8)).collect()).collect();
    let evs: Vec<_> = (0..n).map(|i| ev1(i + 1, &ws[i], n64(i as f64 + 1.))).collect();
    let k = pick("random", 0, 7) as u64;
    let min = [0., 0.5, 1., 3., 16.][pick("min", 0, 4)];
    let out = if min == 0. && flag("off") { { NO_UNWEIGHTING }.unweight(evs).unwrap() } else { Unweighter::new(min, Fixed(k << 61)).unweight(evs).unwrap() };
    if min == 0. {
        check(out.len() == n, "events kept");
        for (i, e) in out.iter().enumerate() {
            check(e.id() == i + 1 && e.weight() == ws[i][0], "unchanged");
        }
        return;
    }
    let thr = min * (k as f64 / 8.);
    let mut it = out.iter().peekable();
    let mut kept = vec![];
    for i in 0..n {
        let a = ws[i][0].abs();
        let keep = cases(or(a >= min, a > thr));
        let there = it.peek().is_some_and(|e| e.id() == i + 1);
        check(keep == there, "keep rule");
        if there {
            let e = it.next().unwrap();
            kept.push((i, e));
            let o = e.outgoing();
            check(o.len() == 1 && o[0].1.len() == 1 && eqv(&o[0].1[0], &px(n64(i as f64 + 1.))), "kinematics");
        }
    }
    check(it.next().is_none(), "order");
    // all weights relative to their unrescaled values share one factor, which restores the total
    let mut raw = vec![];
    let (mut t0, mut t1, mut tr) = (n64(0.), n64(0.), n64(0.));
    for i in 0..n {
        t0 += ws[i][0];
    }
    for (i, e) in &kept {
        let a = ws[*i][0].abs();
        let f = if cases(a < min) { n64(min) / a } else { n64(1.) };
        let r = ws[*i][0] * f;
        tr += r;
        raw.push((r, f));
        t1 += e.weight();
    }
    // the total weight can only be restored if the kept events have one
    if cases(tr == 0.) {
        cover("kept weights cancel");
        for (x, (i, e)) in raw.iter().zip(&kept) {
            let got = weights(e);
            for j in 0..got.len() {
                check(close(got[j].raw(), (ws[*i][j] * x.1).raw()), "weights that cannot be rescaled");
            }
        }
        return;
    }
    check(close(t1.raw(), t0.raw()), "total weight");
    for (x, (i, e)) in raw.iter().zip(&kept) {
        let got = weights(e);
        check(got.len() == ws[*i].len(), "number of weights");
        for j in 0..got.len() {
            // got * tr == w * f * t0
            check(close((got[j] * tr).raw(), (ws[*i][j] * x.1 * t0).raw()), "common factor");
        }
    }
    if kept.len() < n && !kept.is_empty() {
        cover("some discarded");
    }
}

use std::cell::Cell;
use std::rc::Rc;
/// given fractions, one after the other
struct Sequence(Vec<u64>, Rc<Cell<usize>>);
impl RngCore for Sequence {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let i = self.1.get();
        self.1.set(i + 1);
        self.0[i % self.0.len()]
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        let x = self.next_u64();
        for b in b {
            *b = (x >> 56) as u8
        }
    }
}
/// each event with a small weight has its own random number
#[no_mangle]
pub extern "C" fn h_unweight_seq(n: u64, _: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -16, 16, 8)).collect();
    let evs: Vec<_> = (0..n).map(|i| ev1(i + 1, &[ws[i]], n64(i as f64 + 1.))).collect();
    let ks: Vec<u64> = (0..n).map(|_| 4 * pick("random", 0, 1) as u64 + 1).collect();
    let count = Rc::new(Cell::new(0));
    let rng = Sequence(ks.iter().map(|k| k << 61).collect(), count.clone());
    let out = Unweighter::new(1., rng).unweight(evs).unwrap();
    // a random number is taken for each small weight, including or excluding the threshold, or for each weight
    let (mut small, mut upto, mut ok) = (0, 0, [true; 3]);
    for i in 0..n {
        let there = out.iter().any(|e| e.id() == i + 1);
        let a = ws[i].abs();
        if cases(a >= 1.) {
            check(there, "large weight");
            if cases(a == 1.) {
                upto += 1;
            }
            continue;
        }
        let keep = |k: u64| cases(a > n64(k as f64 / 8.));
        for (ok, i) in ok.iter_mut().zip([small, upto, i]) {
            *ok &= keep(ks[i]) == there;
        }
        small += 1;
        upto += 1;
    }
    check(ok.contains(&true), "random numbers");
    if out.len() > 1 && out.len() < n {
        cover("some discarded");
    }
}
