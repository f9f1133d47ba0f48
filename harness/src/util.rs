#![allow(dead_code)]
use crate::vx::*;
use cres::event::{Event, EventBuilder};
use cres::four_vector::FourVector;
use noisy_float::prelude::*;
use particle_id::ParticleID;

pub fn pid(i: i32) -> ParticleID {
    ParticleID::new(i)
}
/// massless momentum along the x axis
pub fn px(x: N64) -> FourVector {
    [x.abs(), x, n64(0.), n64(0.)].into()
}
pub fn p4(e: N64, x: N64, y: N64, z: N64) -> FourVector {
    [e, x, y, z].into()
}
/// event with the given weights and one particle along x
pub fn ev1(id: usize, ws: &[N64], x: N64) -> Event {
    let mut b = EventBuilder::new();
    for w in ws {
        b.add_weight(*w);
    }
    b.add_outgoing(pid(21), px(x));
    let mut e = b.build();
    e.id = id;
    e
}
pub fn weights(e: &Event) -> Vec<N64> {
    e.weights.read().iter().copied().collect()
}
/// sum of weight number j
pub fn total(es: &[Event], j: usize) -> f64 {
    let mut s = n64(0.);
    for e in es {
        s += e.weights.read().iter().nth(j).copied().unwrap();
    }
    s.raw()
}
pub fn eqv(a: &FourVector, b: &FourVector) -> bool {
    let mut r = a.pt() == b.pt();
    for i in 0..4 {
        r = and(r, a[i] == b[i]);
    }
    r
}
/// a symbolic metric on n points
pub struct Table {
    pub d: Vec<Vec<N64>>,
}
impl Table {
    pub fn metric(n: usize) -> Table {
        let z = n64(0.);
        let mut d = vec![vec![z; n]; n];
        for i in 0..n {
            for j in 0..i {
                let x = grid_n("dist", 0, 64, 8);
                d[i][j] = x;
                d[j][i] = x;
            }
        }
        for i in 0..n {
            for j in 0..i {
                for k in 0..n {
                    if k != i && k != j {
                        assume(d[i][j] <= d[i][k] + d[k][j]);
                    }
                }
            }
        }
        Table { d }
    }
    pub fn line(n: usize) -> Table {
        let x: Vec<N64> = (0..n).map(|_| grid_n("pos", 0, 64, 8)).collect();
        Table { d: (0..n).map(|i| (0..n).map(|j| (x[i] - x[j]).abs()).collect()).collect() }
    }
}
pub fn strategy(k: usize) -> cres::seeds::Strategy {
    use cres::seeds::Strategy;
    match k {
        0 => Strategy::MostNegative,
        1 => Strategy::LeastNegative,
        _ => Strategy::Next,
    }
}
use cres::traits::Distance;
impl Distance<usize> for Table {
    fn distance(&self, a: &usize, b: &usize) -> N64 {
        self.d[*a][*b]
    }
}

/// text of a number with symbolic digits in one of seven notations, and its value
pub fn num(t: &str, k: usize) -> (String, N64) {
    let mut s = vec![];
    let mut d = |s: &mut Vec<u8>| {
        let b = byte(t, b"0123456789");
        s.push(b);
        n64((b - b'0') as f64)
    };
    let ten = n64(10.);
    let v = match k % 7 {
        0 => {
            let a = d(&mut s);
            s.push(b'.');
            let b = d(&mut s);
            (a * ten + b) / ten
        }
        1 => {
            s.push(b'-');
            let a = d(&mut s);
            s.push(b'.');
            let b = d(&mut s);
            -(a * ten + b) / ten
        }
        2 => {
            s.push(b'+');
            d(&mut s)
        }
        3 => {
            let a = d(&mut s);
            s.extend(b"E-3");
            a / n64(1000.)
        }
        4 => {
            s.extend(b"-.");
            -d(&mut s) / ten
        }
        5 => {
            let a = d(&mut s);
            let b = d(&mut s);
            s.push(b'.');
            a * ten + b
        }
        _ => {
            s.push(b'-');
            let a = d(&mut s);
            s.extend(b".5e+02");
            -(a * n64(100.) + n64(50.))
        }
    };
    (unsafe { String::from_utf8_unchecked(s) }, v)
}
/// symbolic momentum; only along x if its transverse momentum is going to be compared
pub fn momentum(k: usize, axis: bool) -> ((String, N64), (String, N64), (String, N64), (String, N64)) {
    let z = || (String::from("0"), n64(0.));
    (num("px", k), if axis { z() } else { num("py", k + 1) }, if axis { z() } else { num("pz", k + 2) }, num("e", k + 3))
}
/// the outgoing particles are those expected (energy and momentum of each), no matter in which order
pub fn check_particles(ev: &Event, want: &[(i32, [N64; 4])]) {
    let mut b = EventBuilder::new();
    for (id, p) in want {
        b.add_outgoing(pid(*id), p4(p[0], p[1], p[2], p[3]));
    }
    let w = b.build();
    check(w.outgoing().len() == ev.outgoing().len(), "particle types");
    for (a, b) in w.outgoing().iter().zip(ev.outgoing()) {
        check(a.0 == b.0 && a.1.len() == b.1.len(), "particles of one type");
        for (p, q) in a.1.iter().zip(b.1.iter()) {
            for i in 0..4 {
                check(alike(p[i].raw(), q[i].raw()), "momentum");
            }
        }
    }
}

/// a piece of an expected file: a text, or a number
pub enum Part {
    Text(Vec<u8>),
    Num(N64),
}
/// the file consists of the given parts, whatever the notation of numbers
pub fn compare(got: &[u8], want: &[Part]) {
    let mut p = got;
    for w in want {
        match w {
            Part::Text(t) => {
                check(p.len() >= t.len(), "output length");
                check(&p[..t.len()] == &t[..], "output");
                p = &p[t.len()..];
            }
            Part::Num(x) => {
                let Some(n) = p.iter().position(|b| b"\" \n".contains(b)) else {
                    check(false, "output");
                    return;
                };
                let y = std::str::from_utf8(&p[..n]).unwrap().parse::<f64>();
                check(y.is_ok(), "weight is a number");
                check(alike(y.unwrap(), x.raw()), "weight of the output");
                p = &p[n..];
            }
        }
    }
    check(p.is_empty(), "output length");
}
/// new weight: none, one of some special numbers, or any from a range
pub fn new_weight() -> Option<N64> {
    Some(match pick("weight", 0, 4) {
        3 => return None,
        4 => grid_n("new", -64, 64, 8),
        k => n64([0.5, -1.2345678901234567e-20, 3.25e7][k]),
    })
}
