//! the C interface
use crate::fio::{events, read_weights, read_weights_from, HEPMC_HEAD};
use crate::util::*;
use crate::vx::*;
use cres::c_api::cres::{cres_run, JetAlgorithm as CAlg, JetDefinition as CJet, Opt, Search};
use cres::c_api::distance::DistanceFn;
use cres::c_api::error::cres_get_last_err;
use cres::c_api::event::{EventView, TypeSet};
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition};
use cres::cres::CresBuilder;
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::{Event, EventBuilder};
use cres::io::*;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::resampler::ResamplerBuilder;
use cres::unweight::NO_UNWEIGHTING;
use noisy_float::prelude::*;
use std::ffi::{c_char, c_void, CString};

/// what a distance function sees
#[derive(Clone)]
struct Copy {
    id: usize,
    ws: Vec<f64>,
    sets: Vec<(i32, Vec<[f64; 4]>)>,
}
struct Seen {
    calls: Vec<[Copy; 2]>,
    res: f64,
}
fn copy(e: &EventView) -> Copy {
    unsafe {
        Copy {
            id: e.id,
            ws: (0..e.n_weights).map(|i| *e.weights.add(i)).collect(),
            sets: (0..e.n_type_sets)
                .map(|i| {
                    let t = &*e.type_sets.add(i);
                    (t.pid, (0..t.n_momenta).map(|k| *t.momenta.add(k)).collect())
                })
                .collect(),
        }
    }
}
unsafe fn watch(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    let s = &mut *(data as *mut Seen);
    s.calls.push([copy(a), copy(b)]);
    s.res
}
type Want = (Vec<N64>, Vec<(i32, [N64; 4])>);
fn event(id: usize, w: usize, n: usize) -> (Event, Want) {
    let mut b = EventBuilder::new();
    let ws: Vec<N64> = (0..w).map(|_| grid_n("w", -64, 64, 8)).collect();
    for w in &ws {
        b.add_weight(*w);
    }
    let mut ps = vec![];
    for _ in 0..n {
        let t = [1, 21, -11][pick("type", 0, 2)];
        let p = [grid_n("p", -64, 64, 8), grid_n("p", -64, 64, 8), n64(0.), n64(0.)];
        b.add_outgoing(pid(t), p4(p[0], p[1], p[2], p[3]));
        ps.push((t, p));
    }
    let mut e = b.build();
    e.id = id;
    (e, (ws, ps))
}
fn same(c: &Copy, e: &Event, id: usize, want: &Want) {
    check(c.id == id, "id");
    check(c.ws.len() == want.0.len(), "number of weights");
    for (a, b) in c.ws.iter().zip(&want.0) {
        check(*a == b.raw(), "weight");
    }
    let o = e.outgoing();
    check(c.sets.len() == o.len(), "number of particle types");
    let mut n = 0;
    for (a, b) in c.sets.iter().zip(o) {
        check(pid(a.0) == b.0 && a.1.len() == b.1.len(), "particle types");
        n += a.1.len();
        check(want.1.iter().filter(|x| x.0 == a.0).count() == a.1.len(), "particles of a type");
        for (p, q) in a.1.iter().zip(&b.1) {
            for k in 0..4 {
                check(p[k] == q[k].raw(), "momentum");
            }
        }
    }
    check(n == want.1.len(), "number of particles");
}
/// w weights, n particles: a distance function sees the events as they are
#[no_mangle]
pub extern "C" fn h_capi_view(w: u64, n: u64, _: u64, _: u64) {
    init_log();
    let (a, wa) = event(3, w as usize, n as usize);
    let (b, wb) = event(5, (w as usize + 1) % 4, n as usize);
    let mut s = Seen { calls: vec![], res: grid("distance", 0, 64, 8) };
    let d = DistanceFn { fun: watch, data: &mut s as *mut Seen as *mut c_void };
    let r = d.distance(&a, &b);
    check(r.raw() == s.res, "distance");
    check(s.calls.len() == 1, "number of calls");
    same(&s.calls[0][0], &a, 3, &wa);
    same(&s.calls[0][1], &b, 5, &wb);
    // and back to an event
    let c = &s.calls[0][0];
    let sets: Vec<TypeSet> = c.sets.iter().map(|(t, p)| TypeSet { pid: *t, momenta: p.clone() }).collect();
    let views: Vec<_> = sets.iter().map(|s| s.view()).collect();
    let e = Event::from(EventView { id: c.id, weights: c.ws.as_ptr(), type_sets: views.as_ptr(), n_weights: c.ws.len(), n_type_sets: views.len() });
    check(e.id() == 3 && e.n_weights() == w as usize, "event from a view");
    let ws = weights(&e);
    for (x, y) in ws.iter().zip(&wa.0) {
        check(x == y, "weight of an event from a view");
    }
    check(e.outgoing().len() == a.outgoing().len(), "types of an event from a view");
    for (x, y) in e.outgoing().iter().zip(a.outgoing()) {
        check(x.0 == y.0 && x.1.len() == y.1.len(), "types of an event from a view");
        for (p, q) in x.1.iter().zip(&y.1) {
            check(eqv(p, q), "momenta of an event from a view");
        }
    }
    if w > 0 && cases(wa.0[0] < 0.) {
        cover("negative weight");
    }
}

/// the options as a C program sees them (cres.h)
#[repr(C)]
struct COpt {
    infiles: *mut *mut c_char,
    n_infiles: usize,
    outdir: *mut c_char,
    distance: *mut DistanceFn,
    ptweight: f64,
    jet_def: CJet,
    neighbour_search: Search,
    max_cell_size: f64,
}
fn run(infiles: &[&str], outdir: &str, distance: *mut DistanceFn, ptweight: f64, jet_def: CJet, neighbour_search: Search, max_cell_size: f64) -> i32 {
    let names: Vec<CString> = infiles.iter().map(|s| CString::new(*s).unwrap()).collect();
    let mut ptrs: Vec<*mut c_char> = names.iter().map(|s| s.as_ptr() as *mut c_char).collect();
    let outdir = CString::new(outdir).unwrap();
    let o = COpt { infiles: ptrs.as_mut_ptr(), n_infiles: ptrs.len(), outdir: outdir.as_ptr() as *mut c_char, distance, ptweight, jet_def, neighbour_search, max_cell_size };
    assert!(std::mem::size_of::<COpt>() == std::mem::size_of::<Opt>());
    cres_run(unsafe { &*(&o as *const COpt as *const Opt) })
}
/// distance between the momenta and the weights of the first particles
unsafe fn custom(data: *mut c_void, a: &EventView, b: &EventView) -> f64 {
    let f = *(data as *const f64);
    let first = |e: &EventView| (*(*e.type_sets).momenta)[1];
    let (x, y) = (first(a), first(b));
    f * (if x < y { y - x } else { x - y })
}
struct Custom(f64);
impl Distance for Custom {
    fn distance(&self, a: &Event, b: &Event) -> N64 {
        let (x, y) = (a.outgoing()[0].1[0][1], b.outgoing()[0].1[0][1]);
        (if x < y { y - x } else { x - y }) * self.0
    }
}
fn lib<D: Distance + Send + Sync>(files: Vec<(&str, &str)>, d: D, tree: bool, jet: JetDefinition, max: Option<f64>) -> bool {
    let event_io = IOBuilder::default().build_from_files_iter(files).unwrap();
    let r = ResamplerBuilder::default().distance(d).max_cell_size(max);
    let (converter, clustering, unweighter) = (Converter::new(), DefaultClustering::new(jet), NO_UNWEIGHTING);
    if tree {
        CresBuilder { event_io, converter, clustering, unweighter, resampler: r.neighbour_search::<TreeSearch>().build() }.build().run().is_ok()
    } else {
        CresBuilder { event_io, converter, clustering, unweighter, resampler: r.neighbour_search::<NaiveNeighbourSearch>().build() }.build().run().is_ok()
    }
}
/// which option is not at its default, number of events
#[no_mangle]
pub extern "C" fn h_capi_run(variant: u64, n: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|i| if i == 0 { grid_n("w0", -64, -1, 8) } else { grid_n("w", -64, 64, 8) }).collect();
    let lits: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
    let ev = events(&lits);
    // two input files in one of the cases
    let k = if variant == 6 { 2 } else { n };
    put_file("in.hepmc", [HEPMC_HEAD.to_string(), ev[..k].concat()].concat().as_bytes());
    let (mut ins, mut libs) = (vec!["in.hepmc"], vec![("in.hepmc", "lib")]);
    if variant == 6 {
        put_file("more.hepmc", [HEPMC_HEAD.to_string(), ev[k..].concat()].concat().as_bytes());
        ins.push("more.hepmc");
        libs.push(("more.hepmc", "lib2"));
    }
    let mut jet = JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 20. };
    let mut cjet = CJet { algorithm: CAlg::AntiKt, radius: 0.4, min_pt: 20. };
    let (mut tau, mut max, mut search, mut data) = (0., f64::INFINITY, Search::Tree, 2.5);
    let mut dist = None;
    match variant {
        1 => tau = [0.5, 4., 30.][pick("tau", 0, 2)],
        2 => search = Search::Naive,
        3 => max = grid("size", 0, 1600, 8),
        4 => {
            let k = pick("jets", 0, 4);
            jet.algorithm = [JetAlgorithm::AntiKt, JetAlgorithm::CambridgeAachen, JetAlgorithm::Kt][k.min(2)];
            cjet.algorithm = [CAlg::AntiKt, CAlg::CambridgeAachen, CAlg::Kt][k.min(2)];
            jet.radius = [0.4, 0.4, 0.4, 1., 0.4][k];
            cjet.radius = jet.radius;
            jet.min_pt = [20., 20., 20., 20., 60.][k];
            cjet.min_pt = jet.min_pt;
        }
        5 => {
            if flag("naive") {
                search = Search::Naive;
            }
            dist = Some(DistanceFn { fun: custom, data: &mut data as *mut f64 as *mut c_void });
        }
        _ => {}
    }
    let tree = matches!(search, Search::Tree);
    let d = dist.as_mut().map(|d| d as *mut _).unwrap_or(std::ptr::null_mut());
    let r = run(&ins, "dir/sub", d, tau, cjet, search, max);
    check(r == 0, "run through the C interface");
    let mut got = read_weights("dir/sub/in.hepmc", k);
    let lmax = if max.is_finite() { Some(max) } else { None };
    let ok = if dist.is_some() { lib(libs, Custom(2.5), tree, jet, lmax) } else { lib(libs, EuclWithScaledPt::new(n64(tau)), tree, jet, lmax) };
    check(ok, "run of the library");
    let mut want = read_weights("lib", k);
    if variant == 6 {
        got.extend(read_weights_from("dir/sub/more.hepmc", k, n));
        want.extend(read_weights_from("lib2", k, n));
    }
    check(got.len() == want.len(), "number of events");
    for (a, b) in got.iter().zip(&want) {
        check(and(close(a[0].raw(), b[0].raw()), close(a[1].raw(), b[1].raw())), "the C interface does what the library does");
    }
    let mut same = true;
    for i in 0..n {
        same &= cases(got[i][0] == ws[i]);
    }
    if !same {
        cover("weights change");
    }
}
/// errors are reported, and the message is copied as far as the buffer goes
#[no_mangle]
pub extern "C" fn h_capi_err(kind: u64, _: u64, _: u64, _: u64) {
    init();
    let jet = CJet { algorithm: CAlg::AntiKt, radius: 0.4, min_pt: 20. };
    let call = |k| match k {
        // no such file
        0 => run(&["none"], "dir", std::ptr::null_mut(), 0., jet, Search::Tree, 1.),
        // a broken event
        1 => {
            put_file("in", [HEPMC_HEAD.to_string(), events(&["nope".to_string()]).concat()].concat().as_bytes());
            run(&["in"], "dir", std::ptr::null_mut(), 0., jet, Search::Tree, 1.)
        }
        // the output directory is a file
        _ => {
            put_file("in", [HEPMC_HEAD.to_string(), events(&["1".to_string()]).concat()].concat().as_bytes());
            put_file("dir", b"");
            run(&["in"], "dir", std::ptr::null_mut(), 0., jet, Search::Tree, 1.)
        }
    };
    check(call(kind) != 0, "error is reported");
    const M: usize = 400;
    let mut all = [0x7fu8; M];
    let n = cres_get_last_err(all.as_mut_ptr() as *mut c_char, M);
    check(n == 0, "message copied");
    let len = all.iter().position(|b| *b == 0);
    check(len.is_some(), "message ends");
    let len = len.unwrap();
    check(len > 0, "message is empty");
    let size = pick(&format!("size for {len}"), 0, len as u64 + 2);
    let mut buf = [0x7fu8; M];
    let r = cres_get_last_err(buf.as_mut_ptr() as *mut c_char, size);
    check(if size > len { r == 0 } else { r as usize == len + 1 }, "size of the message");
    let k = len.min(size.max(1) - 1);
    check(buf[..k] == all[..k], "message");
    check(size == 0 || buf[k] == 0, "message ends");
    check(buf[(k + 1).min(size)..].iter().all(|b| *b == 0x7f), "written beyond the message");
    cover(if size > len { "complete" } else { "truncated" });
}
