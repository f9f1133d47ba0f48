//! a whole run on real files with the default objects
use crate::fio::*;
use crate::util::*;
use crate::vx::*;
use cres::cluster::NO_CLUSTERING;
use cres::cres::CresBuilder;
use cres::io::*;
use cres::prelude::*;
use cres::unweight::NO_UNWEIGHTING;
use noisy_float::prelude::*;

/// events with one particle on a line; symbolic weights
#[no_mangle]
pub extern "C" fn h_e2e(fmt: u64, n: u64, _: u64, _: u64) {
    init_log();
    let n = n as usize;
    let fmt = fmt as usize;
    let ws: Vec<N64> = (0..n).map(|_| grid_n("w", -64, 64, 8)).collect();
    let none = [pick("event without particles", 0, n as u64), pick("event without particles", 0, n as u64)];
    assume(none[0] <= none[1]);
    let none = |i: usize| none.contains(&i);
    let mk = |ws: &[String]| {
        let (h, mut e, f) = file(fmt, ws, 7);
        for (i, e) in e.iter_mut().enumerate() {
            let x = [0, 10, 11, 13][i];
            *e = match fmt {
                0 | 3 => e.replace("1 2 3 4", &format!("{x} 0 0 {x}")),
                1 => e.replace("1 2 3 4", &format!("{x} 0 0 {x}")),
                _ => e.replace("4,1,2,3", &format!("{x},{x},0,0")),
            };
            if none(i) {
                *e = match fmt {
                    0 | 3 => e.replace("0 1 0 0 -1", "0 2 0 0 -1"),
                    1 => e.replace("25 1", "25 2"),
                    _ => e.replace("0,21", "3,21"),
                };
            }
        }
        (h, e, f)
    };
    let texts: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
    let (h, e, f) = mk(&texts);
    put_file("in", [h, e.concat(), f].concat().as_bytes());
    let mut list = vec![("in", "out")];
    if fmt == 2 {
        write_norm("born", "6");
        list.push(("norm", "nout"));
    }
    let r = CresBuilder {
        event_io: IOBuilder::default().build_from_files_iter(list).unwrap(),
        converter: Converter::new(),
        clustering: NO_CLUSTERING,
        resampler: ResamplerBuilder::default().build(),
        unweighter: NO_UNWEIGHTING,
    }
    .build()
    .run();
    check(r.is_ok(), "run");
    let got = get_file("out");
    check(got.is_some(), "output exists");
    let got = got.unwrap();
    let mut p = &got[..];
    let (h, e, f) = mk(&vec!["@".into(); n]);
    eat(&mut p, &h);
    let mut new = vec![];
    for e in &e {
        let (a, b) = e.split_once('@').unwrap();
        eat(&mut p, a);
        let Some(m) = p.iter().position(|b| b"\" \n".contains(b)) else {
            check(false, "weight of the output");
            return;
        };
        let x = std::str::from_utf8(&p[..m]).unwrap().parse::<f64>();
        check(x.is_ok(), "weight is a number");
        new.push(n64(x.unwrap()));
        p = &p[m..];
        eat(&mut p, b);
    }
    eat(&mut p, &f);
    check(p.is_empty(), "length of the output");
    let (mut a, mut b) = (n64(0.), n64(0.));
    let z = n64(0.);
    let (mut na, mut nb) = (z, z);
    for i in 0..n {
        if none(i) {
            check(alike(ws[i].raw(), new[i].raw()), "event without particles");
            continue;
        }
        a += ws[i];
        b += new[i];
        na += if cases(ws[i] < 0.) { ws[i] } else { z };
        nb += if cases(new[i] < 0.) { new[i] } else { z };
    }
    check(close(a.raw(), b.raw()), "total weight");
    check(nb >= na, "negative weights grow");
    if cases(a >= 0.) {
        check(nb == 0., "negative weights remain");
        cover("total non-negative");
    }
}
