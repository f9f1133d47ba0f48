//! the whole run: which weights end up in which record
use crate::util::*;
use crate::vx::*;
use cres::cres::CresBuilder;
use cres::event::{Event, EventBuilder, Weights};
use cres::io::EventRecord;
use cres::traits::*;
use noisy_float::prelude::*;
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Debug)]
pub struct Bad(u32);
impl std::fmt::Display for Bad {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("bad")
    }
}
impl std::error::Error for Bad {}

/// n records; record `fail` cannot be read
struct Io {
    n: usize,
    pos: usize,
    fail: Option<usize>,
    hint: bool,
    bad_write: bool,
    got: Rc<RefCell<Option<Vec<Weights>>>>,
}
// the harness runs in a single thread
unsafe impl Send for Io {}
impl Iterator for Io {
    type Item = Result<EventRecord, Bad>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.pos == self.n {
            return None;
        }
        self.pos += 1;
        if self.fail == Some(self.pos - 1) {
            return Some(Err(Bad(1)));
        }
        Some(Ok(EventRecord::HepMC((self.pos - 1).to_string())))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        if self.hint {
            (self.n, Some(self.n))
        } else {
            (0, None)
        }
    }
}
impl UpdateWeights for Io {
    type Error = Bad;
    fn update_all_weights(&mut self, w: &[Weights]) -> Result<usize, Bad> {
        if self.bad_write {
            return Err(Bad(2));
        }
        *self.got.borrow_mut() = Some(w.to_vec());
        Ok(w.len())
    }
    fn update_next_weights(&mut self, _: &Weights) -> Result<bool, Bad> {
        unreachable!()
    }
}
struct Conv {
    ws: Vec<Vec<N64>>,
    empty: Vec<bool>,
    fail: Option<usize>,
    id: Option<(usize, usize)>,
}
impl TryConvert<EventRecord, Event> for Conv {
    type Error = Bad;
    fn try_convert(&self, r: EventRecord) -> Result<Event, Bad> {
        let s: String = r.try_into().unwrap();
        let i = s.parse::<usize>().unwrap();
        if self.fail == Some(i) {
            return Err(Bad(3));
        }
        let mut b = EventBuilder::new();
        for w in &self.ws[i] {
            b.add_weight(*w);
        }
        if !self.empty[i] {
            b.add_outgoing(pid(21), px(n64(i as f64)));
        }
        let mut e = b.build();
        if let Some((k, v)) = self.id {
            if k == i {
                e.id = v;
            }
        }
        Ok(e)
    }
}
struct Cl(Option<usize>);
impl Clustering for Cl {
    type Error = Bad;
    fn cluster(&self, ev: Event) -> Result<Event, Bad> {
        if let Some(f) = self.0 {
            if !ev.outgoing().is_empty() && ev.outgoing()[0].1[0][0] == f as f64 {
                return Err(Bad(4));
            }
        }
        Ok(ev)
    }
}
/// doubles all weights and reverses the order of events
struct Res {
    seen: Rc<RefCell<Vec<usize>>>,
    fail: bool,
}
unsafe impl Send for Res {}
impl Resample for Res {
    type Error = Bad;
    fn resample(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, Bad> {
        if self.fail {
            return Err(Bad(5));
        }
        *self.seen.borrow_mut() = e.iter().map(|e| e.id()).collect();
        for e in e.iter_mut() {
            e.rescale_weights(n64(2.));
        }
        e.reverse();
        Ok(e)
    }
}
struct Unw {
    drop: Vec<bool>,
    fail: bool,
}
impl Unweight for Unw {
    type Error = Bad;
    fn unweight(&mut self, mut e: Vec<Event>) -> Result<Vec<Event>, Bad> {
        if self.fail {
            return Err(Bad(6));
        }
        e.retain(|e| !self.drop[e.id()]);
        Ok(e)
    }
}
/// n records with w weights
#[no_mangle]
pub extern "C" fn h_run(n: u64, w: u64, _: u64, _: u64) {
    init_log();
    let n = n as usize;
    let ws: Vec<Vec<N64>> = (0..n).map(|_| (0..w).map(|_| grid_n("w", -64, 64, 8)).collect()).collect();
    let empty: Vec<bool> = (0..n).map(|_| flag("empty")).collect();
    let drop: Vec<bool> = (0..n).map(|i| !empty[i] && flag("drop")).collect();
    whole_run(n, ws, empty, drop);
}
/// many records, one of them with any weight
#[no_mangle]
pub extern "C" fn h_run_big(n: u64, _: u64, _: u64, _: u64) {
    init_log();
    let n = n as usize;
    let free = pick("which", 0, 2) * (n - 1) / 2;
    let ws: Vec<Vec<N64>> = (0..n).map(|i| vec![if i == free { grid_n("w", -64, 64, 8) } else { n64(i as f64 - 7.) }]).collect();
    let many = flag("most events without particles");
    let empty: Vec<bool> = (0..n).map(|i| i != free && (i % 3 == 1) ^ many).collect();
    let drop: Vec<bool> = (0..n).map(|i| !empty[i] && i != free && i % 4 == 2).collect();
    whole_run(n, ws, empty, drop);
}
fn whole_run(n: usize, ws: Vec<Vec<N64>>, empty: Vec<bool>, drop: Vec<bool>) {
    let w = if n == 0 { 0 } else { ws[0].len() };
    let got = Rc::new(RefCell::new(None));
    let seen = Rc::new(RefCell::new(vec![]));
    let r = CresBuilder {
        event_io: Io { n, pos: 0, fail: None, hint: flag("hint"), bad_write: false, got: got.clone() },
        converter: Conv { ws: ws.clone(), empty: empty.clone(), fail: None, id: None },
        clustering: Cl(None),
        resampler: Res { seen: seen.clone(), fail: false },
        unweighter: Unw { drop: drop.clone(), fail: false },
    }
    .build()
    .run();
    check(r.is_ok(), "run");
    let got = got.borrow().clone();
    check(got.is_some(), "weights written");
    let got = got.unwrap();
    check(got.len() == n, "one entry per record");
    // events reach the resampler in the order of the records, those without particles do not
    let want: Vec<usize> = (0..n).filter(|i| !empty[*i]).collect();
    check(*seen.borrow() == want, "events to be resampled");
    for i in 0..n {
        let g: Vec<N64> = got[i].iter().copied().collect();
        if empty[i] {
            // left alone: no new weights, or the old ones
            let mut same = g.is_empty();
            if g.len() == ws[i].len() {
                same = g.iter().zip(&ws[i]).fold(true, |a, (x, y)| and(a, x == y));
            }
            check(same, "ignored event changed");
            cover("ignored event");
        } else if drop[i] {
            check(g.len() == w, "discarded event keeps its weight");
            for x in &g {
                check(*x == 0., "discarded event keeps its weight");
            }
            cover("discarded event");
        } else {
            check(g.len() == w, "number of weights");
            for (x, y) in g.iter().zip(&ws[i]) {
                check(*x == *y * 2., "weight of another record");
            }
        }
    }
}
/// an error anywhere ends the run with that error, and nothing is written
#[no_mangle]
pub extern "C" fn h_run_err(n: u64, _: u64, _: u64, _: u64) {
    init_log();
    let n = n as usize;
    let kind = pick("kind", 0, 7);
    let at = pick("at", 0, n as u64 - 1);
    let ws: Vec<Vec<N64>> = (0..n).map(|i| vec![n64(i as f64 - 1.)]).collect();
    let got = Rc::new(RefCell::new(None));
    let on = |k: usize| if kind == k { Some(at) } else { None };
    let r = CresBuilder {
        event_io: Io { n, pos: 0, fail: on(1), hint: true, bad_write: kind == 2, got: got.clone() },
        converter: Conv { ws, empty: vec![false; n], fail: on(3), id: on(7).map(|x| (x, 5)) },
        clustering: Cl(on(4)),
        resampler: Res { seen: Default::default(), fail: kind == 5 },
        unweighter: Unw { drop: vec![false; n], fail: kind == 6 },
    }
    .build()
    .run();
    use cres::cres::CresError::*;
    let ok = match (kind, &r) {
        (0, Ok(())) => true,
        (1, Err(IOErr(Bad(1)))) | (2, Err(IOErr(Bad(2)))) | (3, Err(ConversionErr(Bad(3)))) | (4, Err(ClusterErr(Bad(4)))) | (5, Err(ResamplingErr(Bad(5)))) | (6, Err(UnweightErr(Bad(6)))) | (7, Err(IdErr(5))) => true,
        _ => false,
    };
    check(ok, "outcome of the run");
    check(got.borrow().is_some() == (kind == 0), "weights written despite an error");
}
