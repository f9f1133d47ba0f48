use std::process::Command;
fn main() {
    let rustc = std::env::var("RUSTC").unwrap_or("rustc".into());
    let out = Command::new(rustc).args(["--print", "sysroot"]).output().unwrap();
    let sysroot = String::from_utf8(out.stdout).unwrap().trim().to_string();
    let lib = format!("{sysroot}/lib");
    let mut name = None;
    for e in std::fs::read_dir(&lib).unwrap() {
        let f = e.unwrap().file_name().into_string().unwrap();
        if f.starts_with("libLLVM.so") {
            name = Some(f);
        }
    }
    let name = name.expect("libLLVM in sysroot");
    // libstdc++ first: libLLVM exports parts of its own static copy, which must not interpose on Z3's
    println!("cargo:rustc-link-arg=-Wl,--no-as-needed");
    println!("cargo:rustc-link-arg=-l:libstdc++.so.6");
    println!("cargo:rustc-link-arg={lib}/{name}");
    println!("cargo:rustc-link-arg=-Wl,-rpath,{lib}");
    let mut z3 = "/usr/lib/x86_64-linux-gnu/libz3.so".to_string();
    if let Ok(rd) = std::fs::read_dir("/opt/veriftools/pyvenv/lib") {
        for e in rd {
            let p = e.unwrap().path().join("site-packages/z3/lib/libz3.so");
            if p.exists() {
                println!("cargo:rustc-link-arg=-Wl,-rpath,{}", p.parent().unwrap().display());
                z3 = p.display().to_string();
            }
        }
    }
    if let Ok(p) = std::env::var("SYMX_Z3") {
        z3 = p;
    }
    println!("cargo:rustc-link-arg={z3}");
    println!("cargo:rerun-if-env-changed=SYMX_Z3");
}
