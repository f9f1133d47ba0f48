use crate::vx::*;
use cres::cell::Cell;
use cres::event::EventBuilder;
use cres::traits::NeighbourSearch;
use noisy_float::prelude::*;

struct Ns(Vec<(usize, N64)>);
impl NeighbourSearch for Ns {
    type Iter = std::vec::IntoIter<(usize, N64)>;
    fn nearest(self, _: &usize) -> Self::Iter {
        self.0.into_iter()
    }
}

/// n events, w weights each
#[no_mangle]
pub extern "C" fn h_cell(n: u64, w: u64, _: u64, _: u64) {
    let (n, w) = (n as usize, w as usize);
    let mut evs = vec![];
    let mut orig = vec![];
    for i in 0..n {
        let mut b = EventBuilder::new();
        let mut ws = vec![];
        for _ in 0..w {
            let x = grid_n("w", -1000, 1000, 8);
            ws.push(x);
            b.add_weight(x);
        }
        b.add_outgoing(noisy_pid(i), [n64(5.), n64(0.), n64(0.), n64(5.)].into());
        evs.push(b.build());
        orig.push(ws);
    }
    let seed = pick("seed", 0, n as u64 - 1);
    assume(orig[seed][0] < 0.);
    let mut nb = vec![];
    let mut d = n64(0.);
    for i in 0..n {
        if i != seed {
            d += grid_n("d", 0, 100, 8);
            nb.push((i, d));
        }
    }
    let nb2 = nb.clone();
    let mut c = Cell::new(&evs, seed, Ns(nb));
    let rad = c.radius();
    c.resample();
    let k = c.nmembers();
    // expected members
    let mut sum = orig[seed][0];
    let mut mem = vec![seed];
    let mut er = n64(0.);
    for (i, d) in nb2 {
        if cases(sum >= 0.) {
            break;
        }
        sum += orig[i][0];
        mem.push(i);
        er = d;
    }
    check(k == mem.len(), "members");
    check(close(rad.raw(), er.raw()), "radius");
    for j in 0..w {
        let t: N64 = mem.iter().map(|i| orig[*i][j]).sum();
        let mean = t / k as f64;
        for i in 0..n {
            let x = evs[i].weights.read().iter().nth(j).copied().unwrap();
            if mem.contains(&i) {
                check(close(x.raw(), mean.raw()), "mean");
            } else {
                check(x == orig[i][j], "untouched");
            }
        }
    }
    if k > 2 {
        cover("big cell");
    }
}
fn noisy_pid(i: usize) -> particle_id::ParticleID {
    let _ = i;
    particle_id::ParticleID::new(21)
}
