//! Event files of any format: format detection, several files, rewinding, broken input, failing output
use crate::util::*;
use crate::vx::*;
use cres::event::{Event, Weights};
use cres::io::*;
use cres::traits::*;
use noisy_float::prelude::*;
use std::path::PathBuf;

pub const HEPMC_HEAD: &str = "\nHepMC::Version 2.06.11\nHepMC::IO_GenEvent-START_EVENT_LISTING\n";
pub const LHEF_HEAD: &str = "<LesHouchesEvents version=\"1.0\">\n<init>\n1 2\n</init>";

/// header, events, footer of a file with n events; the central weights are the literals given
pub fn file(fmt: usize, ws: &[String], tag: usize) -> (String, Vec<String>, String) {
    match fmt {
        0 => (HEPMC_HEAD.into(), ws.iter().enumerate().map(|(i, w)| format!("E {i} {tag} 0 0 0 0 0 1 10 11 0 1 {w}\nU GEV MM\nV -1 0 0 0 0 0 1 1 0\nP 10 21 1 2 3 4 0 1 0 0 -1 0\n")).collect(), "".into()),
        3 => (HEPMC_HEAD.into(), ws.iter().enumerate().map(|(i, w)| format!("E {i} {tag} 0 0 0 0 0 1 10 11 0 2 {w} 3\nN 2 \"0\" \"a\"\nP 10 21 1 2 3 4 0 1 0 0 -1 0\n")).collect(), "".into()),
        1 => (LHEF_HEAD.into(), ws.iter().enumerate().map(|(i, w)| format!("\n<event>\n3 {tag} {w} {i} 1 1\n21 -1 0 0 1 1 0 0 1 1 0 0 9\n21 -1 0 0 1 1 0 0 -1 1 0 0 9\n25 1 1 2 0 0 1 2 3 4 0 0 9\n</event>")).collect(), "\n</LesHouchesEvents>\n".into()),
        _ => (
            format!("<?xml version=\"1.0\"?>\n<Eventrecord nevents=\"{}\" nsubevents=\"{}\" as=\"2\" name=\"born\">\n<!-- x -->\n<e>\n", ws.len(), ws.len()),
            ws.iter().enumerate().map(|(i, w)| format!("<se w=\"{w}\" muR=\"{i}\">\n<p id=\"1,21\"> {tag},0,0,{i} </p>\n<p id=\"0,21\"> 4,1,2,3 </p>\n<rw ch=\"1\"> 2 </rw>\n</se>\n</e>\n")).collect(),
            "".into(),
        ),
    }
}
pub fn write_norm(name: &str, xs: &str) {
    let s = format!("<?xml version=\"1.0\"?>\n<Normalization name=\"total\">\n<XSection><XSPos>1,2</XSPos><MaxWeightPos>1</MaxWeightPos><TotalEventsPos>1</TotalEventsPos><AcceptedEventsPos>1</AcceptedEventsPos><FactorPos>1</FactorPos></XSection>\n<Contribution name=\"{name}\"><xsection> {xs},0.5</xsection><rw><rwentry>x1</rwentry></rw></Contribution><NumberOfRejectedEvents>0</NumberOfRejectedEvents>\n</Normalization>\n");
    put_file("norm", s.as_bytes());
}
fn names(fmt: usize) -> &'static str {
    ["hepmc", "lhef", "xml"][fmt]
}

const BAD: &[u8] = b" \n\"E10-.PU<>/en9\xff\0";

/// a record with some bytes replaced by anything, or cut short, is rejected or accepted, but never causes a panic
#[no_mangle]
pub extern "C" fn h_bad_file(fmt: u64, n: u64, from: u64, to: u64) {
    let fmt = fmt as usize;
    let (h, ev, f) = file(fmt, &["1.5".into()], 7);
    let ev = &ev[0];
    // after the first tag and before the end of the last tag
    let start = h.len() + ev.find('>').unwrap_or(0);
    let tag = ["", "</event>", "</se>", ""][fmt];
    let end = h.len() + ev.find(tag).unwrap() + tag.len();
    let mut text: Vec<u8> = [&h, ev.as_str(), &f].concat().into_bytes();
    let len = text.len() as u64;
    let pos = pick("position", len * from / 8, len * to / 8 - 1);
    if n == 0 {
        text.truncate(pos);
        let accepted = read_bad(fmt, &text);
        // the end of an event is marked in LHEF and STRIPPER XML
        let marked = fmt == 1 || fmt == 2;
        if marked && pos > start && pos < end {
            cover("cut off in an event");
            check(!accepted, "an event that is cut off is not dropped silently");
        }
        return;
    } else {
        for i in pos..text.len().min(pos + n as usize) {
            // the number of events enters floating-point arithmetic and output
            let digit = fmt == 2 && text[i].is_ascii_digit();
            text[i] = byte("byte", BAD);
            if digit {
                text[i] = conc(text[i] as u64) as u8;
            }
        }
    }
    read_bad(fmt, &text);
}

/// many copies of one character inserted anywhere in a record, possibly in place of what follows
#[no_mangle]
pub extern "C" fn h_long(fmt: u64, what: u64, _: u64, _: u64) {
    let fmt = fmt as usize;
    let (h, ev, f) = file(fmt, &["1.5".into()], 7);
    let ev = &ev[0];
    let pos = pick("position", 0, ev.len() as u64 - 1);
    let mut run = ["\u{e9}", "9", " ", "-1 ", "\u{2028}"][what as usize].repeat(130);
    if flag("odd") {
        run.insert(0, 'x');
    }
    let rest = if flag("rest is kept") { &ev[pos..] } else { "\n" };
    let text = [&h, &ev[..pos], &run, rest, &f].concat();
    read_bad(fmt, text.as_bytes());
}

/// a part of an event is missing
#[no_mangle]
pub extern "C" fn h_removed(fmt: u64, all: u64, from: u64, to: u64) {
    let fmt = fmt as usize;
    let (h, ev, f) = file(fmt, &["1.5".into()], 7);
    let ev = ev[0].as_bytes();
    // between words, or anywhere
    let cuts: Vec<usize> = (0..=ev.len())
        .filter(|&i| {
            let word = |i: usize| match ev.get(i) {
                Some(b'\n') => 2,
                Some(c) if c.is_ascii_alphanumeric() => 1,
                _ => 0,
            };
            all == 1 || i == 0 || word(i - 1) != word(i)
        })
        .collect();
    let n = cuts.len() as u64;
    let i = pick("from", n * from / 8, (n * to / 8 - 1).min(n - 2));
    let j = pick("to", 1, n - 1);
    assume(i < j);
    let text = [h.as_bytes(), &ev[..cuts[i]], &ev[cuts[j]..], f.as_bytes()].concat();
    if read_bad(fmt, &text) {
        return;
    }
    // weights can also be replaced without reading the events first
    let mut list = vec![("in", "out")];
    if fmt == 2 {
        list.push(("norm", "out_norm"));
    }
    if let Ok(mut io) = IOBuilder::default().build_from_files_iter(list) {
        if io.update_next_weights(&Weights::new_single(n64(1.))).is_ok() {
            cover("rewritten unread");
        }
    }
}

/// files announcing too many events
#[no_mangle]
pub extern "C" fn h_announced(n: u64, _: u64, _: u64, _: u64) {
    init();
    let mut list = vec![];
    let name = ["a", "b", "c"];
    let out = ["oa", "ob", "oc"];
    for i in 0..n as usize {
        let (h, ev, _) = file(2, &["1.5".into()], 7);
        let num = ["1", "2", "9223372036854775807", "18446744073709551615", "18446744073709551616"];
        let h = h.replace("nsubevents=\"1\"", &format!("nsubevents=\"{}\"", num[pick("announced", 0, 4)]));
        put_file(name[i], [&h, ev[0].as_str()].concat().as_bytes());
        list.push((name[i], out[i]));
    }
    write_norm("born", "3");
    list.push(("norm", "out_norm"));
    let Ok(io) = IOBuilder::default().build_from_files_iter(list) else {
        cover("rejected");
        return;
    };
    let r = cres::cres::CresBuilder {
        event_io: io,
        converter: Converter::new(),
        clustering: cres::cluster::NO_CLUSTERING,
        resampler: cres::resampler::ResamplerBuilder::default().build(),
        unweighter: cres::unweight::NO_UNWEIGHTING,
    }
    .build()
    .run();
    cover(if r.is_ok() { "accepted" } else { "rejected" });
}

/// true if the whole file was accepted
fn read_bad(fmt: usize, text: &[u8]) -> bool {
    put_file("in", text);
    if fmt == 2 {
        write_norm("born", "3");
    }
    let mut files = vec![("in", "out")];
    if fmt == 2 {
        files.push(("norm", "out_norm"));
    }
    let mut b = IOBuilder::default();
    let mut c = Converter::new();
    if fmt == 3 {
        b.weight_names(vec!["a".into()]);
        c = Converter::with_weights(vec!["a".into()]);
    }
    let io = b.build_from_files_iter(files);
    let Ok(mut io) = io else {
        cover("cannot be opened");
        return false;
    };
    let mut ws = vec![];
    while let Some(r) = io.next() {
        match r.map_err(|_| ()).and_then(|r| c.try_convert(r).map_err(|_| ())) {
            Ok(e) => ws.push(e.weights.into_inner()),
            Err(_) => {
                cover("rejected");
                return false;
            }
        }
        check(ws.len() < 100, "reading ends");
    }
    cover("accepted");
    if io.update_all_weights(&ws).is_ok() {
        cover("rewritten");
    }
    true
}

const NAN: [&str; 4] = ["nan", "NaN", "-nan", "NAN"];
/// not a number, in any place: rejected
#[no_mangle]
pub extern "C" fn h_nan(fmt: u64, _: u64, _: u64, _: u64) {
    let fmt = fmt as usize;
    let nan = NAN[pick("notation", 0, 3)];
    let place = pick("place", 0, if fmt == 3 { 5 } else { 4 });
    let w = if place == 0 { nan.into() } else { num("w", pick("shape", 0, 6)).0 };
    let (h, ev, f) = file(fmt, &[w], 7);
    let (h, mut ev, f) = (h, ev[0].clone(), f);
    match place {
        0 => {}
        5 => {
            let i = ev.find(" 3\nN").unwrap() + 1;
            ev.replace_range(i..i + 1, nan)
        }
        k => {
            // a component of the momentum 1 2 3 4
            let k = k as u8;
            let (from, sep) = match fmt {
                0 | 3 => ("1 2 3 4", " "),
                1 => ("1 2 3 4", " "),
                _ => ("4,1,2,3", ","),
            };
            let n = from.split(sep).map(|s| if s.as_bytes()[0] == b'0' + k { nan } else { s }).collect::<Vec<_>>().join(sep);
            let i = ev.rfind(from).unwrap();
            ev.replace_range(i..i + from.len(), &n);
        }
    }
    put_file("in", [h, ev, f].concat().as_bytes());
    let mut files = vec![("in", "out")];
    if fmt == 2 {
        write_norm("born", "3");
        files.push(("norm", "out_norm"));
    }
    let mut b = IOBuilder::default();
    let mut c = Converter::new();
    if fmt == 3 {
        b.weight_names(vec!["a".into()]);
        c = Converter::with_weights(vec!["a".into()]);
    }
    let mut io = b.build_from_files_iter(files).unwrap();
    let r = io.next();
    check(r.is_some(), "event is dropped");
    let r = r.unwrap();
    let ok = match r {
        Ok(r) => c.try_convert(r).is_err(),
        Err(_) => true,
    };
    check(ok, "NaN is accepted");
}

const LEAD: &[u8] = b" \n\r\t\x0c\x0bE<r#\0\xff";
/// the format is that of the first bytes, for each of the ways to read a file
#[no_mangle]
pub extern "C" fn h_detect(nlead: u64, nsym: u64, _: u64, _: u64) {
    const STARTS: [&[u8]; 7] = [b"<?xml", b"root", b"<LesHouchesEvents", b"HepMC::V", b"E 1", b"<?xm", b""];
    let mut t: Vec<u8> = (0..pick("lead", 0, nlead)).map(|_| byte("lead", LEAD)).collect();
    let start = t.len();
    t.extend(STARTS[pick("start", 0, 6)]);
    // some of the bytes can be anything
    let set: Vec<u8> = (0u8..=255).filter(|b| ![0x1f, 0x28, 0x42, 0x04, 0x5d, 0xfd].contains(b)).collect();
    for i in 0..nsym as usize {
        let k = start + i * 2;
        if k < t.len() && flag("replace") {
            t[k] = byte("any", &set);
        }
    }
    t.extend(b" version=\"1.0\"?>\n");
    put_file("in", &t);
    let starts = |t: &[u8], s: &[u8]| t.len() >= s.len() && t.iter().zip(s).fold(true, |a, (x, y)| and(a, x == y));
    let mut k = 0;
    while k < t.len() && b" \n\r\t\x0c".contains(&t[k]) {
        k += 1;
    }
    let want = if starts(&t, b"root") {
        None
    } else if starts(&t[k..], b"<?xml") {
        Some(cres::formats::FileFormat::StripperXml)
    } else if starts(&t, b"<LesHouchesEvents") {
        Some(cres::formats::FileFormat::Lhef)
    } else {
        Some(cres::formats::FileFormat::HepMC2)
    };
    let got = detect_event_file_format(std::path::Path::new("in"));
    check(got.as_ref().ok().copied() == want, "format");
    if want.is_none() {
        check(matches!(got, Err(CreateError::RootUnsupported)), "missing support is reported");
        cover("root");
    }
}

/// the events of a file are read as the format says, by the reader and by the reader and writer
#[no_mangle]
pub extern "C" fn h_open(_: u64, _: u64, _: u64, _: u64) {
    let fmt = pick("format", 0, 2);
    let (w, x) = num("w", 5);
    let (h, ev, f) = file(fmt, &[w], 7);
    put_file("in", [h, ev[0].clone(), f].concat().as_bytes());
    let mut files = vec![("in", "out")];
    if fmt == 2 {
        write_norm("born", "1");
        files.push(("norm", "out_norm"));
    }
    let r = match flag("writer") {
        false => FileReader::try_new("in".into()).unwrap().next().unwrap().unwrap(),
        true => IOBuilder::default().build_from_files_iter(files).unwrap().next().unwrap().unwrap(),
    };
    check(
        match &r {
            EventRecord::HepMC(_) => fmt == 0,
            EventRecord::LHEF(_) => fmt == 1,
            EventRecord::StripperXml(_) => fmt == 2,
            _ => false,
        },
        "kind of record",
    );
    let e = Converter::new().try_convert(r);
    check(e.is_ok(), "conversion");
    check(alike(e.unwrap().weight().raw(), x.raw()), "weight");
    check(detect_event_file_format(std::path::Path::new("none")).is_err(), "missing file");
    check(FileReader::try_new("none".into()).is_err(), "missing file");
}

struct Files {
    list: Vec<(PathBuf, PathBuf)>,
    /// format, new weights to be expected, header, start and end of each event, footer
    info: Vec<(usize, usize, String, Vec<(String, String)>, String)>,
    /// old weights
    ws: Vec<N64>,
    scale: f64,
}
fn name(f: usize) -> PathBuf {
    ((b'a' + f as u8) as char).to_string().into()
}
fn out_name(f: usize) -> PathBuf {
    format!("{}.out", (b'a' + f as u8) as char).into()
}
fn make(nfiles: usize, maxev: u64, nsym: usize) -> Files {
    let fmts: Vec<usize> = (0..nfiles).map(|_| pick("format", 0, 2)).collect();
    let ns: Vec<usize> = (0..nfiles).map(|_| pick("events", 0, maxev)).collect();
    arrange(fmts, ns, &|i| i < nsym)
}
/// files of the given formats and numbers of events, some of them with symbolic weights
fn arrange(fmts: Vec<usize>, ns: Vec<usize>, sym: &dyn Fn(usize) -> bool) -> Files {
    let nfiles = fmts.len();
    let total: usize = fmts.iter().zip(&ns).map(|(f, n)| if *f == 2 { *n } else { 0 }).sum();
    let mut r = Files { list: vec![], info: vec![], ws: vec![], scale: 60. / total as f64 };
    let mut count = 0;
    for f in 0..nfiles {
        let mut texts = vec![];
        for _ in 0..ns[f] {
            let (t, w) = if sym(count) { num("w", count) } else { (format!("{count}.5"), n64(count as f64 + 0.5)) };
            count += 1;
            texts.push(t);
            r.ws.push(if fmts[f] == 2 { w * r.scale } else { w });
        }
        let (h, e, t) = file(fmts[f], &texts, f);
        put_file(name(f).to_str().unwrap(), [h.clone(), e.concat(), t.clone()].concat().as_bytes());
        let e = file(fmts[f], &vec!["@".to_string(); ns[f]], f).1;
        let e = e.iter().map(|e| e.split_once('@').map(|(a, b)| (a.to_string(), b.to_string())).unwrap()).collect();
        r.info.push((fmts[f], ns[f], h, e, t));
        r.list.push((name(f), out_name(f)));
    }
    if fmts.contains(&2) {
        write_norm("born", "60");
        r.list.insert(flag("normalisation last") as usize * nfiles, ("norm".into(), "nout".into()));
    }
    r
}
impl Files {
    /// the remaining events, starting with number k
    fn read_on(&self, io: &mut CombinedFileIO, k: usize, c: &Converter) {
        for i in k..self.ws.len() {
            let left = self.ws.len() - i;
            let (lo, hi) = io.size_hint();
            check(lo <= left && hi.unwrap_or(left) >= left, "expected number of events");
            self.read(io, i, c);
        }
        check(io.next().is_none(), "number of events");
        check(io.next().is_none(), "number of events");
        check(io.size_hint().0 == 0, "expected number of events");
    }
    fn read(&self, io: &mut CombinedFileIO, i: usize, c: &Converter) {
        let r = io.next();
        check(r.is_some(), "event is missing");
        let r = r.unwrap();
        check(r.is_ok(), "event cannot be read");
        let e = c.try_convert(r.unwrap());
        check(e.is_ok(), "event cannot be converted");
        check(alike(e.unwrap().weight().raw(), self.ws[i].raw()), "weight of the event");
    }
    /// the output has the given new weights
    fn check_output(&self, new: &[N64]) {
        check(get_file("nout").is_none(), "normalisation is not an event file");
        let mut k = 0;
        for (f, (fmt, n, h, ev, foot)) in self.info.iter().enumerate() {
            let got = get_file(out_name(f).to_str().unwrap());
            check(got.is_some(), "output exists");
            let got = got.unwrap();
            let mut p = &got[..];
            eat(&mut p, h);
            for i in 0..*n {
                eat(&mut p, &ev[i].0);
                let Some(m) = p.iter().position(|b| b"\" \n".contains(b)) else {
                    check(false, "weight of the output");
                    return;
                };
                let x = std::str::from_utf8(&p[..m]).unwrap().parse::<f64>();
                check(x.is_ok(), "weight is a number");
                let s = if *fmt == 2 { self.scale } else { 1. };
                check(alike(x.unwrap() * s, new[k].raw()), "weight of the output");
                k += 1;
                p = &p[m..];
                eat(&mut p, &ev[i].1);
            }
            eat(&mut p, foot);
            check(p.is_empty(), "length of the output");
        }
    }
}
pub fn eat(p: &mut &[u8], s: &str) {
    check(p.len() >= s.len(), "length of the output");
    check(&p[..s.len()] == s.as_bytes(), "text of the output");
    *p = &p[s.len()..];
}
/// several files are read one after the other, and each event is written to the output of its own file
#[no_mangle]
pub extern "C" fn h_multi(nfiles: u64, maxev: u64, nsym: u64, mode: u64) {
    let fs = make(nfiles as usize, maxev, nsym as usize);
    let n = fs.ws.len();
    let c = Converter::new();
    let io = IOBuilder::default().build_from_files_iter(fs.list.clone());
    check(io.is_ok(), "files can be opened");
    let mut io = io.unwrap();
    if n == 0 {
        cover("no events");
    }
    if mode == 0 {
        fs.read_on(&mut io, 0, &c);
        return;
    }
    let new: Vec<N64> = (0..n).map(|_| grid_n("new", -64, 64, 8)).collect();
    let ws: Vec<Weights> = new.iter().map(|w| Weights::new_single(*w)).collect();
    // some events are read first
    for i in 0..pick(&format!("read of {n}"), 0, n as u64) {
        fs.read(&mut io, i, &c);
    }
    if mode == 1 {
        let r = io.update_all_weights(&ws);
        check(r.is_ok() && r.unwrap() == n, "number of events written");
    } else {
        check(io.rewind().is_ok(), "rewinding");
        for w in &ws {
            check(io.update_next_weights(w).ok() == Some(true), "event is updated");
        }
        for _ in 0..2 {
            check(io.update_next_weights(&Weights::new_single(n64(1.))).ok() == Some(false), "no more events");
        }
    }
    drop(io);
    fs.check_output(&new);
}
/// many files with many events
#[no_mangle]
pub extern "C" fn h_multi_big(nfiles: u64, per: u64, mode: u64, _: u64) {
    let shift = pick("format of the first file", 0, 2);
    let fmts: Vec<usize> = (0..nfiles as usize).map(|f| (f + shift) % 3).collect();
    let ns: Vec<usize> = (0..nfiles as usize).map(|f| if f % 4 == 1 { 0 } else { per as usize + f % 3 }).collect();
    let n: usize = ns.iter().sum();
    let s = [0, n / 2 + 1, n - 1][pick("symbolic event", 0, 2)];
    let fs = arrange(fmts, ns, &|i| i == s);
    let c = Converter::new();
    let mut io = IOBuilder::default().build_from_files_iter(fs.list.clone()).unwrap();
    let k = [0, 1, n / 2, n - 1, n][pick("read first", 0, 4)];
    for i in 0..k {
        fs.read(&mut io, i, &c);
    }
    if mode == 0 {
        if flag("rewind") {
            check(io.rewind().is_ok(), "rewinding");
            fs.read_on(&mut io, 0, &c);
        } else {
            fs.read_on(&mut io, k, &c);
        }
        return;
    }
    let new: Vec<N64> = (0..n).map(|i| if i == s { grid_n("new", -64, 64, 8) } else { n64(i as f64 + 0.25) }).collect();
    let ws: Vec<Weights> = new.iter().map(|w| Weights::new_single(*w)).collect();
    if mode == 1 {
        let r = io.update_all_weights(&ws);
        check(r.is_ok() && r.unwrap() == n, "number of events written");
    } else {
        check(io.rewind().is_ok(), "rewinding");
        for w in &ws {
            check(io.update_next_weights(w).ok() == Some(true), "event is updated");
        }
        check(io.update_next_weights(&ws[0]).ok() == Some(false), "no more events");
    }
    drop(io);
    fs.check_output(&new);
}
/// rewinding starts over, wherever the reader is
#[no_mangle]
pub extern "C" fn h_rewind(nfiles: u64, maxev: u64, nsym: u64, _: u64) {
    let fs = make(nfiles as usize, maxev, nsym as usize);
    let n = fs.ws.len();
    let c = Converter::new();
    let mut io = IOBuilder::default().build_from_files_iter(fs.list.clone()).unwrap();
    for _ in 0..2 {
        let k = pick(&format!("read of {n}"), 0, n as u64 + 1);
        for i in 0..k.min(n) {
            fs.read(&mut io, i, &c);
        }
        if k > n {
            check(io.next().is_none(), "number of events");
        }
        check(io.rewind().is_ok(), "rewinding");
    }
    fs.read_on(&mut io, 0, &c);
    // the same for a single file
    let f = (0..fs.info.len()).find(|f| fs.info[*f].0 != 2).unwrap_or(0);
    let mut all = vec![vec![], vec![]];
    let mut r = FileReader::try_new(name(f)).unwrap();
    for k in 0..2 {
        for i in 0..=fs.info[f].1 {
            if k == 0 && i == 1 && flag("stop early") {
                break;
            }
            let left = fs.info[f].1 - i;
            let (lo, hi) = r.size_hint();
            check(lo <= left && hi.unwrap_or(left) >= left, "expected number of events");
            match r.next() {
                Some(Ok(x)) => all[k].push(String::try_from(x).unwrap()),
                Some(Err(_)) => check(false, "event cannot be read"),
                None => {}
            }
        }
        check(r.header() == fs.info[f].2.as_bytes(), "header");
        check(r.path() == name(f), "path");
        check(r.rewind().is_ok(), "rewinding");
    }
    check(all[1].len() == fs.info[f].1, "number of events");
    check(all[0][..] == all[1][..all[0].len()], "records differ after rewinding");
}
/// if the output cannot be written in full, an error is reported
#[no_mangle]
pub extern "C" fn h_write_fail(fmt: u64, nev: u64, pad: u64, _: u64) {
    let fmt = fmt as usize;
    let n = nev as usize;
    let texts: Vec<String> = (0..n).map(|i| num("w", i).0).collect();
    let (h, mut e, t) = file(fmt, &texts, 7);
    // events exceeding the size of buffers
    let x = "x".repeat(pad as usize);
    for e in e.iter_mut() {
        match fmt {
            0 | 3 => e.push_str(&format!("C {x}\n")),
            1 => *e = e.replace("</event>", &format!("#{x}\n</event>")),
            _ => *e = e.replace("</rw>", &format!("{x}</rw>")),
        }
    }
    let text = [h, e.concat(), t].concat();
    put_file("in", text.as_bytes());
    let mut list = vec![("in", "out")];
    if fmt == 2 {
        write_norm("born", "1");
        list.push(("norm", "nout"));
    }
    let short = pick("new weight", 0, 1) == 1;
    let ws = vec![Weights::new_single(n64(if short { 2. } else { 0.12345678 })); n];
    let go = |f: &dyn Fn(&mut CombinedFileIO) -> bool| -> bool {
        let io = IOBuilder::default().build_from_files_iter(list.clone());
        let Ok(mut io) = io else {
            cover("cannot be opened");
            return false;
        };
        let r = f(&mut io);
        drop(io);
        r
    };
    let all = |io: &mut CombinedFileIO| io.update_all_weights(&ws).is_ok();
    check(go(&all), "writing without limits");
    let want = get_file("out").unwrap();
    file_limit(int("limit", 0, 1 << 20));
    let ok = if flag("one by one") {
        go(&|io| {
            for w in &ws {
                if io.update_next_weights(w).is_err() {
                    return false;
                }
            }
            io.update_next_weights(&ws[0]).is_ok()
        })
    } else {
        go(&all)
    };
    file_limit(u64::MAX);
    if ok {
        cover("complete");
        check(get_file("out").as_ref() == Some(&want), "incomplete output is not reported");
    } else {
        cover("reported");
    }
}

const SAME: [&str; 4] = ["a", "./a", "../w/a", ".//../w/./a"];
/// no output may replace an input or another output: this is refused, and the inputs remain what they were
#[no_mangle]
pub extern "C" fn h_overwrite(fmt: u64, single: u64, _: u64, _: u64) {
    let fmt = fmt as usize;
    let mut texts = vec![];
    for k in 0..2 {
        let (h, e, f) = file(fmt, &[num("w", 1).0], 7 + k);
        texts.push([h, e.concat(), f].concat().into_bytes());
    }
    put_file("a", &texts[0]);
    put_file("b", &texts[1]);
    if fmt == 2 {
        write_norm("born", "3");
    }
    let same = SAME[pick("path", 0, 3)];
    if single == 1 {
        let r = IOBuilder::default().build_from_files(PathBuf::from(same), PathBuf::from("a"));
        check(r.is_err(), "output replaces the input");
    } else {
        let case = pick("case", 0, 4);
        let mut list = match case {
            0 => vec![("a", same), ("b", "y")],
            1 => vec![("b", same), ("a", "y")],
            2 => vec![("a", "y"), ("b", same)],
            3 => vec![("a", "y"), ("b", "./y")],
            _ => vec![("a", "y"), ("b", "z")],
        };
        if fmt == 2 {
            list.push(("norm", "nout"));
        }
        let r = IOBuilder::default().build_from_files_iter(list);
        check(r.is_err() == (case != 4), "outputs that replace other files are refused");
        cover(if case == 4 { "accepted" } else { "refused" });
    }
    for (f, t) in ["a", "b"].iter().zip(&texts) {
        let g = get_file(f);
        check(g.is_some_and(|g| g == *t), "input is unchanged");
    }
}

/// any path of up to `len` symbolic bytes as output of the first of two files
#[no_mangle]
pub extern "C" fn h_overwrite_path(fmt: u64, len: u64, _: u64, _: u64) {
    let fmt = fmt as usize;
    let mut texts = vec![];
    for k in 0..2 {
        let (h, e, f) = file(fmt, &[num("w", 1).0], 7 + k);
        texts.push([h, e.concat(), f].concat().into_bytes());
    }
    put_file("a", &texts[0]);
    put_file("b", &texts[1]);
    if fmt == 2 {
        write_norm("born", "3");
    }
    let len = pick("length", 1, len);
    let mut p: Vec<u8> = (0..len).map(|_| byte("byte", b"abw./")).collect();
    conc_bytes(&mut p);
    let p = String::from_utf8(p).unwrap();
    // what the path means, seen from the working directory /w
    let mut at = vec!["w"];
    if p.starts_with('/') {
        at.clear();
    }
    for part in p.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                at.pop();
            }
            x => at.push(x),
        }
    }
    let first = flag("first");
    let mut list = if first { vec![("a", p.as_str()), ("b", "y")] } else { vec![("a", "y"), ("b", p.as_str())] };
    if fmt == 2 {
        list.push(("norm", "nout"));
    }
    let r = IOBuilder::default().build_from_files_iter(list);
    let input = at.len() == 2 && at[0] == "w" && (at[1] == "a" || at[1] == "b");
    if input {
        check(r.is_err(), "outputs that replace other files are refused");
        cover("refused");
    } else if r.is_ok() {
        cover("accepted");
    }
    if p == "./w" || p == "w" || p == "ab" {
        check(r.is_ok(), "other outputs are accepted");
    }
    for (f, t) in ["a", "b"].iter().zip(&texts) {
        let g = get_file(f);
        check(g.is_some_and(|g| g == *t), "input is unchanged");
    }
}

/// particles of the events: type, px, py, pz, E
pub const EV: [&[(i32, [f64; 4])]; 4] = [
    // two partons at a distance of 0.6, a dressed electron, a photon close to a parton, a neutrino
    &[(21, [100., 0., 0., 100.]), (1, [40., 30., 0., 50.]), (11, [-60., 0., 0., 60.]), (22, [-56., 33., 0., 65.]), (12, [0., 48., 0., 48.])],
    &[(21, [96., 0., 0., 96.]), (1, [44., 33., 0., 55.]), (11, [-64., 0., 0., 64.]), (22, [-60., 32., 0., 68.]), (12, [0., 52., 0., 52.])],
    &[(21, [108., 0., 0., 108.]), (1, [36., 27., 0., 45.]), (11, [-72., 0., 0., 72.]), (22, [-32., 24., 0., 40.]), (12, [0., 20., 0., 20.])],
    &[(21, [0., 104., 0., 104.]), (1, [30., -40., 0., 50.]), (11, [-68., 0., 0., 68.]), (22, [-30., 16., 0., 34.]), (12, [0., 44., 0., 44.])],
];

/// records with literals for the weights
pub fn events(ws: &[String]) -> Vec<String> {
    ws.iter()
        .enumerate()
        .map(|(i, w)| {
            let mut s = format!("E {i} 7 0 0 0 0 0 1 10 11 0 2 {w} {}\nN 2 \"0\" \"a\"\nU GEV MM\nV -1 0 0 0 0 0 1 1 0\n", i + 3);
            for (k, p) in EV[i].iter().enumerate() {
                s += &format!("P {} {} {} {} {} {} 0 1 0 0 -1 0\n", k + 10, p.0, p.1[0], p.1[1], p.1[2], p.1[3]);
            }
            s
        })
        .collect()
}
/// weights of an output file
pub fn read_weights(f: &str, n: usize) -> Vec<[N64; 2]> {
    read_weights_from(f, 0, n)
}
/// weights of an output file with events k..n
pub fn read_weights_from(f: &str, k: usize, n: usize) -> Vec<[N64; 2]> {
    let got = get_file(f);
    check(got.is_some(), "output exists");
    let got = got.unwrap();
    let mut r = vec![];
    let mut p = &got[..];
    let text = |p: &mut &[u8]| -> N64 {
        let m = p.iter().position(|b| b" \n".contains(b)).unwrap();
        let x = n64(std::str::from_utf8(&p[..m]).unwrap().parse::<f64>().unwrap());
        *p = &p[m + 1..];
        x
    };
    for i in k..n {
        let k = format!("E {i} 7 0 0 0 0 0 1 10 11 0 2 ");
        let Some(m) = p.windows(k.len()).position(|w| w == k.as_bytes()) else {
            check(false, "event of the output");
            return r;
        };
        p = &p[m + k.len()..];
        let a = text(&mut p);
        let b = text(&mut p);
        r.push([a, b]);
    }
    r
}

