//! the program that divides phase space into regions
use crate::argfile::run;
use crate::fio::*;
use crate::util::*;
use crate::vx::*;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::distance::{Distance, EuclWithScaledPt};
use cres::event::{Event, EventBuilder};
use cres::partition::VPTreePartition;
use cres::traits::*;
use noisy_float::prelude::*;

type Part = (DefaultClustering, VPTreePartition<Event, EuclWithScaledPt>);
const XS: [f64; 7] = [30., 48., 100., 56., 160., 35., 220.];

fn jet(x: f64) -> Event {
    let mut b = EventBuilder::new();
    b.add_outgoing(pid(81), px(n64(x)));
    b.build()
}
fn input(name: &str, fmt: usize, first: usize, ws: &[N64]) {
    let texts: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
    let (h, mut e, f) = file(fmt, &texts, 7);
    for (i, e) in e.iter_mut().enumerate() {
        let x = XS[first + i];
        *e = match fmt {
            0 | 1 | 3 => e.replace("1 2 3 4", &format!("{x} 0 0 {x}")).replace("25 1 1 2", "21 1 1 2"),
            _ => e.replace("4,1,2,3", &format!("{x},{x},0,0")),
        };
    }
    put_file(name, [h, e.concat(), f].concat().as_bytes());
}
/// n events with symbolic weights, the first `neg` of them negative. Negative weights end up in
/// the output as text, so only their sign and a few values vary
#[no_mangle]
pub extern "C" fn h_parti(fmt: u64, n: u64, neg: u64, logr: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|i| if i < neg as usize || flag("negative") { n64([-1.5, -1e-300, -3e5][i % 3]) } else { grid_n("w", 0, 64, 8) }).collect();
    let cut = if n > 2 { n - 2 } else { n };
    input("in", fmt as usize, 0, &ws[..cut]);
    input("in2", fmt as usize, cut, &ws[cut..]);
    let regions = 1usize << logr;
    let res = run(["part", "-o", "out", "-a", "kt", "-R", "0.5", "-p", "20", "--regions", &regions.to_string(), "in", "in2"]);
    let negs: Vec<f64> = (0..n).filter(|i| cases(ws[*i] < 0.)).map(|i| XS[i]).collect();
    let enough = if regions > 1 { 3 * regions / 2 - 1 } else { 1 };
    check(res.is_ok() == (negs.len() >= enough), "success if there are enough events");
    if res.is_err() {
        cover("too few events");
        return;
    }
    let text = get_file("out");
    check(text.is_some(), "output exists");
    let r: Result<Part, _> = serde_yaml::from_slice(&text.unwrap());
    check(r.is_ok(), "output can be read");
    let (_, part) = r.unwrap();
    check(part.len() == regions, "number of regions");
    for x in &negs {
        check(part.region(&jet(*x)) < regions, "no such region");
    }
    let tree = part.into_tree();
    let d = EuclWithScaledPt::new(n64(0.));
    let mut pts: Vec<f64> = vec![];
    for b in &tree {
        // vantage points are events with negative weight
        let x = negs.iter().find(|x| d.distance(&b.pt, &jet(**x)) == 0.);
        check(x.is_some(), "vantage point is not an event with negative weight");
        check(!pts.contains(x.unwrap()), "vantage point is used twice");
        pts.push(*x.unwrap());
    }
    if let Some(b) = tree.first() {
        let (mut below, mut upto) = (0, 0);
        for x in &negs {
            if *x != pts[0] {
                below += (d.distance(&b.pt, &jet(*x)) < b.r) as usize;
                upto += (d.distance(&b.pt, &jet(*x)) <= b.r) as usize;
            }
        }
        check(below <= (negs.len() - 1) / 2 && upto > (negs.len() - 1) / 2, "unbalanced bisection");
    }
    cover("partition");
}
/// the options end up in the partition file, incomplete ones are rejected
#[no_mangle]
pub extern "C" fn h_parti_opts(_: u64, _: u64, _: u64, _: u64) {
    init();
    input("in", 0, 0, &[n64(-1.5), n64(-2.), n64(3.)]);
    let k = pick("algorithm", 0, 2);
    let names = ["anti-kt", "kt", "Cambridge-Aachen"];
    let algs = [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen];
    let mut a: Vec<&str> = vec!["part", "-o", "out", "-a", names[k], "-R", "0.5", "-p", "20", "--regions"];
    let reg = ["2", "3", "0", "1"][pick("regions", 0, 3)];
    a.push(reg);
    let all = [["--leptonalgorithm", names[(k + 1) % 3]], ["--leptonradius", "0.25"], ["--leptonpt", "15"], ["--photonefrac", "0.125"], ["--photonradius", "0.75"], ["--photonpt", "25"]];
    let mut n = [0, 0];
    for (i, o) in all.iter().enumerate() {
        if flag("given") {
            n[i / 3] += 1;
            a.extend(o);
        }
    }
    let neut = flag("neutrinos");
    if neut {
        a.push("--include-neutrinos");
    }
    let tau = ["0", "2.5"][pick("tau", 0, 1)];
    a.extend(["--ptweight", tau, "in"]);
    let ok = n.iter().all(|n| n % 3 == 0);
    let pow = reg == "1" || reg == "2";
    // clap ends the program
    ok_exit(!pow);
    let res = run(a);
    check(pow, "number of regions has to be a power of two");
    check(res.is_ok() == ok, "incomplete groups of options are rejected");
    if !ok {
        cover("rejected");
        return;
    }
    let mut want = DefaultClustering::new(JetDefinition { algorithm: algs[k], radius: 0.5, min_pt: 20. }).include_neutrinos(neut);
    if n[0] == 3 {
        want = want.with_lepton_def(JetDefinition { algorithm: algs[(k + 1) % 3], radius: 0.25, min_pt: 15. });
    }
    if n[1] == 3 {
        want = want.with_photon_def(PhotonDefinition { min_e_fraction: 0.125, radius: 0.75, min_pt: 25. });
    }
    let r: Result<Part, _> = serde_yaml::from_slice(&get_file("out").unwrap());
    check(r.is_ok(), "output can be read");
    let (clus, part) = r.unwrap();
    check(format!("{clus:?}") == format!("{want:?}"), "object definitions");
    let r: Result<Part, _> = serde_yaml::from_slice(&get_file("out").unwrap());
    let p = unsafe { VPTreePartition::from_vp(r.unwrap().1.into_tree(), EuclWithScaledPt::new(n64(tau.parse().unwrap()))) };
    check(p == part, "distance");
    cover("accepted");
}
