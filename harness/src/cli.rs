//! the command line of the main program
use crate::argfile::run;
use crate::fio::{events, read_weights};
use crate::opt_cres::Opt;
use crate::util::*;
use crate::vx::*;
use clap::Parser;
use cres::cluster::{DefaultClustering, JetAlgorithm, JetDefinition, PhotonDefinition};
use cres::compression::Compression;
use cres::cres::CresBuilder;
use cres::io::*;
use cres::neighbour_search::{NaiveNeighbourSearch, TreeSearch};
use cres::prelude::*;
use cres::resampler::DefaultResamplerBuilder;
use cres::seeds::Strategy;
use noisy_float::prelude::*;
use rand::SeedableRng;
use rand_xoshiro::Xoshiro256Plus;

/// what a run of the program does is what the library does with the same settings
#[no_mangle]
pub extern "C" fn h_cli(variant: u64, n: u64, _: u64, _: u64) {
    init();
    let n = n as usize;
    let ws: Vec<N64> = (0..n).map(|i| if i == 0 { grid_n("w0", -64, -1, 8) } else { grid_n("w", -64, 64, 8) }).collect();
    let mut opts: Vec<String> = vec![];
    let mut set = |o: &str, v: String| {
        opts.push(o.to_string());
        opts.push(v);
    };
    let mut jet = JetDefinition { algorithm: JetAlgorithm::AntiKt, radius: 0.4, min_pt: 20. };
    let mut names: Vec<String> = vec![];
    let mut r = DefaultResamplerBuilder::default().max_cell_size(None).ptweight(0.).strategy(Strategy::MostNegative);
    let (mut minwt, mut seed) = (n64(0.), 0);
    let mut naive = false;
    let (mut lepton, mut photon) = (None, None);
    let mut neutrinos = false;
    match variant {
        0 => {}
        1 => {
            let t = [0., 0.5, 4., 30.][pick("tau", 0, 3)];
            set("--ptweight", t.to_string());
            r = r.ptweight(t);
        }
        2 => {
            set("--search", "naive".into());
            naive = true;
        }
        3 => {
            let k = pick("strategy", 0, 5);
            set("--strategy", ["any", "Any", "most_negative", "MostNegative", "least_negative", "LeastNegative"][k].into());
            r = r.strategy([Strategy::Next, Strategy::MostNegative, Strategy::LeastNegative][k / 2]);
        }
        4 => {
            let m = grid("size", 0, 1600, 8);
            set("--max-cell-size", m.to_string());
            r = r.max_cell_size(Some(m));
        }
        5 => {
            let m = n64([0.5, 3.][pick("minimum weight", 0, 1)]);
            let k = pick("seed", 0, 2);
            seed = [0, 1000, (1 << 33) + 5][k];
            set("-w", m.to_string());
            if k > 0 {
                set("--seed", seed.to_string());
            }
            minwt = m;
        }
        6 => {
            neutrinos = true;
        }
        7 => {
            set("--weights", "a".into());
            names.push("a".into());
        }
        8 => {
            let k = pick("algorithm", 0, 2);
            jet.algorithm = [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen][k];
            jet.radius = [0.4, 1.][pick("radius", 0, 1)];
            jet.min_pt = [20., 60., 120.][pick("pt", 0, 2)];
        }
        9 => {
            let k = pick("algorithm", 0, 2);
            let l = JetDefinition { algorithm: [JetAlgorithm::AntiKt, JetAlgorithm::Kt, JetAlgorithm::CambridgeAachen][k], radius: [0.1, 1.][pick("radius", 0, 1)], min_pt: [20., 65.][pick("pt", 0, 1)] };
            set("--leptonalgorithm", ["anti-kt", "kt", "Cambridge-Aachen"][k].into());
            set("--leptonradius", l.radius.to_string());
            set("--leptonpt", l.min_pt.to_string());
            lepton = Some(l);
        }
        _ => {
            let p = PhotonDefinition { min_e_fraction: [0.1, 0.75][pick("fraction", 0, 1)], radius: [0.25, 1.][pick("radius", 0, 1)], min_pt: [20., 36.][pick("pt", 0, 1)] };
            set("--photonefrac", p.min_e_fraction.to_string());
            set("--photonradius", p.radius.to_string());
            set("--photonpt", p.min_pt.to_string());
            photon = Some(p);
        }
    }
    let alg = match jet.algorithm {
        JetAlgorithm::AntiKt => "anti-kt",
        JetAlgorithm::Kt => "kt",
        JetAlgorithm::CambridgeAachen => "Cambridge-Aachen",
    };
    set("-a", alg.into());
    set("-R", jet.radius.to_string());
    set("-p", jet.min_pt.to_string());
    set("-o", "dir".into());
    if neutrinos {
        opts.push("--include-neutrinos".into());
    }
    let texts: Vec<String> = ws.iter().map(|w| w.to_string()).collect();
    put_file("in.hepmc", [crate::fio::HEPMC_HEAD.to_string(), events(&texts).concat()].concat().as_bytes());
    let args = ["cres".to_string()].into_iter().chain(opts).chain(["in.hepmc".to_string()]);
    let res = run(args);
    check(res.is_ok(), "run of the program");
    let got = read_weights("dir/in.hepmc", n);

    let mut io = IOBuilder::default();
    io.weight_names(names.clone());
    let event_io = io.build_from_files_iter(vec![("in.hepmc", "lib")]).unwrap();
    let mut clustering = DefaultClustering::new(jet).include_neutrinos(neutrinos);
    if let Some(l) = lepton {
        clustering = clustering.with_lepton_def(l);
    }
    if let Some(p) = photon {
        clustering = clustering.with_photon_def(p);
    }
    let converter = Converter::with_weights(names);
    let unweighter = Unweighter::new(minwt.raw(), Xoshiro256Plus::seed_from_u64(seed));
    let res = if naive {
        CresBuilder { event_io, converter, clustering, resampler: r.neighbour_search::<NaiveNeighbourSearch>().build(), unweighter }.build().run().is_ok()
    } else {
        CresBuilder { event_io, converter, clustering, resampler: r.neighbour_search::<TreeSearch>().build(), unweighter }.build().run().is_ok()
    };
    check(res, "run of the library");
    let want = read_weights("lib", n);
    check(got.len() == want.len(), "number of events");
    for (a, b) in got.iter().zip(&want) {
        check(and(close(a[0].raw(), b[0].raw()), close(a[1].raw(), b[1].raw())), "the program does what the library does");
    }
    let mut same = true;
    for i in 0..n {
        same &= cases(got[i][0] == ws[i]);
    }
    if !same {
        cover("weights change");
    }
}

/// lepton and photon options come in groups: all of them or none
#[no_mangle]
pub extern "C" fn h_cli_groups(_: u64, _: u64, _: u64, _: u64) {
    init();
    let mut a: Vec<&str> = vec!["cres", "-o", "dir", "-a", "anti-kt", "-R", "0.4", "-p", "30"];
    let all = [["--leptonalgorithm", "anti-kt"], ["--leptonradius", "0.1"], ["--leptonpt", "20"], ["--photonefrac", "0.1"], ["--photonradius", "0.2"], ["--photonpt", "20"]];
    let mut n = [0, 0];
    for (i, o) in all.iter().enumerate() {
        if flag("given") {
            n[i / 3] += 1;
            a.extend(o);
        }
    }
    a.push("in.hepmc");
    let ws = ["-1.5".to_string(), "2".to_string()];
    put_file("in.hepmc", [crate::fio::HEPMC_HEAD.to_string(), events(&ws).concat()].concat().as_bytes());
    let ok = n.iter().all(|n| n % 3 == 0);
    let res = run(a);
    check(res.is_ok() == ok, "incomplete groups of options are rejected");
    check(get_file("dir/in.hepmc").is_some() == ok, "output exists");
    cover(if ok { "accepted" } else { "rejected" });
}

fn base(o: &str, v: &str) -> Result<Opt, clap::Error> {
    Opt::try_parse_from(["cres", "-o", "dir", "-a", "anti-kt", "-R", "0.4", "-p", "30", o, v, "in.hepmc"])
}

/// the compression option: an algorithm, possibly with a level within its limits
#[no_mangle]
pub extern "C" fn h_cli_compr(_: u64, digits: u64, _: u64, _: u64) {
    init();
    let names: [(&str, usize, u8, u8); 7] = [("bzip2", 0, 0, 0), ("bz2", 0, 0, 0), ("gzip", 1, 9, 6), ("gz", 1, 9, 6), ("lz4", 2, 16, 0), ("zstd", 3, 19, 0), ("zstandard", 3, 19, 0)];
    let (name, alg, max, _) = names[pick("algorithm", 0, 6)];
    let mut t: Vec<u8> = name.into();
    if flag("upper case") {
        t[0] = t[0].to_ascii_uppercase();
    }
    let mut lvl = None;
    if digits > 0 {
        t.push(b'_');
        let mut l = 0u32;
        for _ in 0..digits {
            let b = byte("digit", b"0123456789");
            t.push(b);
            l = 10 * l + (b - b'0') as u32;
        }
        lvl = Some(l);
    }
    let r = base("--compression", std::str::from_utf8(&t).unwrap());
    match r {
        Ok(o) => {
            cover("accepted");
            let (a, l) = match o.compression {
                Some(Compression::Bzip2) => (0, None),
                Some(Compression::Gzip(l)) => (1, Some(l)),
                Some(Compression::Lz4(l)) => (2, Some(l)),
                Some(Compression::Zstd(l)) => (3, Some(l)),
                None => (4, None),
            };
            check(a == alg, "compression algorithm");
            if let Some(lvl) = lvl {
                check(alg != 0, "bzip2 has no levels");
                check(lvl <= max as u32, "unsupported compression level");
                if let Some(l) = l {
                    check(l as u32 == lvl, "compression level");
                }
            } else if let Some(l) = l {
                check(l <= max, "default compression level");
            }
        }
        Err(_) => {
            cover("rejected");
            check(lvl.is_some(), "compression without level rejected");
            check(alg == 0 || lvl.unwrap() > max as u32, "supported compression level rejected");
        }
    }
}

/// values that are not among those documented are rejected
#[no_mangle]
pub extern "C" fn h_cli_values(k: u64, len: u64, _: u64, _: u64) {
    init();
    let (opt, good): (&str, &[&str]) = match k {
        0 => ("--strategy", &["any", "Any", "most_negative", "MostNegative", "least_negative", "LeastNegative"]),
        1 => ("--search", &["tree", "naive"]),
        _ => ("--compression", &[]),
    };
    // a good value with some bytes replaced
    let mut t: Vec<u8> = if k == 2 { "zstd_5".into() } else { good[pick("value", 0, good.len() as u64 - 1)].into() };
    let from = pick(&format!("position of {}", t.len()), 0, t.len() as u64 - 1);
    let m = t.len().min(from + len as usize);
    for i in from..m {
        t[i] = byte("byte", b"anyAz_-5 .e");
    }
    let s = std::str::from_utf8(&t).unwrap();
    let r = base(opt, s);
    match k {
        0 => {
            let w = match s {
                "any" | "Any" => Some(0),
                "most_negative" | "MostNegative" => Some(1),
                "least_negative" | "LeastNegative" => Some(2),
                _ => None,
            };
            check(r.is_ok() == w.is_some(), "strategy is accepted if it is known");
            if let Ok(o) = r {
                let g = match o.strategy {
                    Strategy::Next => 0,
                    Strategy::MostNegative => 1,
                    Strategy::LeastNegative => 2,
                };
                check(Some(g) == w, "strategy");
                cover("accepted");
            } else {
                cover("rejected");
            }
        }
        1 => {
            let ok = s == "tree" || s == "naive";
            check(r.is_ok() == ok, "search is accepted if it is known");
            cover(if ok { "accepted" } else { "rejected" });
        }
        _ => {
            let ok = s.eq_ignore_ascii_case("zstd_5");
            if ok {
                check(r.is_ok(), "compression is accepted");
                cover("accepted");
            }
            if !s.to_ascii_lowercase().starts_with("zst") {
                check(r.is_err(), "unknown compression is rejected");
                cover("rejected");
            }
        }
    }
}

/// numbers given as options are rejected, or harmless
#[no_mangle]
pub extern "C" fn h_cli_numbers(k: u64, len: u64, _: u64, _: u64) {
    init();
    let names = ["--minweight", "--ptweight", "--max-cell-size", "--jetradius", "--jetpt", "--leptonradius", "--leptonpt", "--photonefrac", "--photonradius", "--photonpt"];
    let o = names[k as usize];
    let mut t: Vec<u8> = if len == 0 {
        let all = ["nan", "NaN", "-nan", "inf", "-inf", "infinity", "1e400", "-1e400", "-1", "0", "-0", "1e-400", "1e-320", "1e30", "-1e-9", "1", "x", "1,5", ""];
        all[pick("value", 0, all.len() as u64 - 1)].into()
    } else {
        (0..len).map(|_| byte("byte", b"naif-1.e")).collect()
    };
    conc_bytes(&mut t);
    let s = std::str::from_utf8(&t).unwrap();
    let mut a: Vec<String> = ["cres", "-o", "dir", "-a", "anti-kt"].iter().map(|s| s.to_string()).collect();
    a.push(format!("{o}={s}"));
    if k != 3 {
        a.push("-R0.4".into());
    }
    if k != 4 {
        a.push("-p30".into());
    }
    let mut group = |l: &[&str]| {
        for x in l {
            if !x.starts_with(o) {
                a.push(x.to_string());
            }
        }
    };
    if (5..7).contains(&k) {
        group(&["--leptonalgorithm=kt", "--leptonradius=0.1", "--leptonpt=20"]);
    }
    if k > 6 {
        group(&["--photonefrac=0.1", "--photonradius=0.2", "--photonpt=20"]);
    }
    a.push("in.hepmc".into());
    let parsed = s.parse::<f64>();
    let accepted = match Opt::try_parse_from(&a) {
        Ok(opt) => {
            let got = match k {
                0 => opt.unweight.minweight,
                1 => opt.ptweight,
                2 => opt.max_cell_size.unwrap_or(f64::NAN),
                3 => opt.jet_def.jetradius,
                4 => opt.jet_def.jetpt,
                5 => opt.lepton_def.leptonradius.unwrap_or(f64::NAN),
                6 => opt.lepton_def.leptonpt.unwrap_or(f64::NAN),
                7 => opt.photon_def.photonefrac.unwrap_or(f64::NAN),
                8 => opt.photon_def.photonradius.unwrap_or(f64::NAN),
                _ => opt.photon_def.photonpt.unwrap_or(f64::NAN),
            };
            check(!got.is_nan(), "only numbers are accepted");
            check(parsed == Ok(got), "value of the option");
            if k == 0 {
                check((0. ..=f64::MAX).contains(&got), "minimum weight");
            }
            true
        }
        Err(_) => {
            let fine = matches!(parsed, Ok(x) if (0. ..=1e300).contains(&x));
            check(!fine, "usual numbers are accepted");
            false
        }
    };
    cover(if accepted { "accepted" } else { "rejected" });
    // the squares of other radii overflow or vanish
    let small = [3, 5, 8].contains(&k) && matches!(parsed, Ok(r) if !(1e-3..=10.).contains(&r.abs()));
    if len == 0 && accepted && !small {
        // no value makes the program panic
        put_file("in.hepmc", [crate::fio::HEPMC_HEAD.to_string(), events(&["-1.5".to_string(), "2".to_string()]).concat()].concat().as_bytes());
        let r = run(a);
        check(r.is_ok(), "the program runs if its options are accepted");
    }
}
