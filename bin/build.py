"""Build steps: the symbolic executor, the harness (with its path dependency on /repo) and its bitcode."""
import glob, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(B, "target")
SYMX = os.path.join(B, "symx", "release", "symx")
FLAGS = "-Cembed-bitcode=yes -Cno-vectorize-loops -Cno-vectorize-slp"


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=TARGET, RUSTFLAGS=FLAGS, RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0")
    for k in list(e):
        if k.startswith("CARGO_PROFILE") or k in ("RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
            del e[k]
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError(f"{' '.join(map(str, cmd))}\n{p.stdout[-6000:]}")
    return p.stdout


_sys = None


def sysroot():
    global _sys
    if _sys is None:
        _sys = run(["rustc", "--print", "sysroot"], env=env()).strip()
    return _sys


def tool(n):
    return os.path.join(sysroot(), "lib/rustlib/x86_64-unknown-linux-gnu/bin", n)


def extract(rlib, out):
    """bitcode of an rlib, or nothing if it has none"""
    d = tempfile.mkdtemp(prefix="bc-")
    try:
        run([tool("llvm-ar"), "x", rlib], cwd=d)
        bcs = []
        for o in sorted(glob.glob(d + "/*.o")):
            b = o + ".bc"
            subprocess.run([tool("llvm-objcopy"), "--dump-section", ".llvmbc=" + b, o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if os.path.exists(b) and os.path.getsize(b) > 0:
                bcs.append(b)
        if not bcs:
            return False
        run([tool("llvm-link"), "-o", out] + bcs)
        return True
    finally:
        shutil.rmtree(d, ignore_errors=True)


def clean_env_symx():
    e = env()
    e["CARGO_TARGET_DIR"] = os.path.join(B, "symx")
    e["RUSTFLAGS"] = ""
    return e


def setup():
    t0 = time.time()
    os.makedirs(B, exist_ok=True)
    run(["cargo", "build", "--release", "--offline"], cwd=os.path.join(VERIF, "symx"), env=clean_env_symx())
    print(f"symx built ({time.time()-t0:.0f} s)", flush=True)
    os.utime(os.path.join(HARNESS, "src/bin/runner.rs"))
    p = subprocess.run(["cargo", "rustc", "--release", "--offline", "--locked", "--bin", "runner", "--", "--print", "link-args"], cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise BuildError(p.stderr[-6000:])
    libs = [x.strip('"') for x in p.stdout.split() if x.strip('"').endswith(".rlib")]
    if len(libs) < 20:
        raise BuildError("cannot determine the linked libraries: " + p.stdout[-500:] + p.stderr[-2000:])
    print(f"harness built, {len(libs)} libraries ({time.time()-t0:.0f} s)", flush=True)
    skip = ("libcres", "libharness", "libpanic_abort", "libpanic_unwind")
    libs = [l for l in libs if not os.path.basename(l).rsplit("-", 1)[0].removesuffix(".rlib") in skip]
    dd = os.path.join(B, "deps")
    shutil.rmtree(dd, ignore_errors=True)
    os.makedirs(dd)

    def one(l):
        o = os.path.join(dd, os.path.basename(l)[:-5] + ".bc")
        return o if extract(l, o) else None

    with ThreadPoolExecutor(8) as ex:
        outs = [o for o in ex.map(one, libs) if o]
    run([tool("llvm-link"), "-o", os.path.join(B, "deps_all.bc")] + outs)
    shutil.rmtree(dd, ignore_errors=True)
    print(f"bitcode of {len(outs)} dependencies linked ({time.time()-t0:.0f} s)", flush=True)


def build(feature, entries):
    """build harness + cres for one property; returns (bitcode file, runner)"""
    m0 = time.time()
    run(["cargo", "build", "--release", "--offline", "--locked", "--features", feature], cwd=HARNESS, env=env())
    rel = os.path.join(TARGET, "release")
    w = os.path.join(B, "work", feature)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    runner = os.path.join(w, "runner")
    shutil.copy(os.path.join(rel, "runner"), runner)
    # the newest libcres in deps is the one just built or found up to date: ask cargo's dep file of libharness
    cres = cres_rlib(feature)
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(extract, os.path.join(rel, "libharness.rlib"), w + "/harness.bc")
        b = ex.submit(extract, cres, w + "/cres.bc")
        if not (a.result() and b.result()):
            raise BuildError("no bitcode in harness or cres library")
    run([tool("llvm-link"), "-o", w + "/all.bc", w + "/harness.bc", w + "/cres.bc", "--only-needed", os.path.join(B, "deps_all.bc")])
    run([tool("opt"), "--strip-debug", "-passes=internalize,globaldce", "-internalize-public-api-list=" + ",".join(list(entries) + ["vx_stub_fmt", "vx_stub_parse"]), w + "/all.bc", "-o", w + "/fin.bc"])
    for f in ("harness.bc", "cres.bc", "all.bc"):
        os.unlink(os.path.join(w, f))
    return w + "/fin.bc", runner, time.time() - m0


def cres_rlib(feature):
    out = run(["cargo", "build", "--release", "--offline", "--locked", "--features", feature, "--message-format=json"], cwd=HARNESS, env=env())
    import json

    for l in out.splitlines():
        if l.startswith("{"):
            j = json.loads(l)
            if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "cres" and "lib" in j["target"]["kind"]:
                for f in j["filenames"]:
                    if f.endswith(".rlib"):
                        return f
    raise BuildError("cargo did not report the cres library")


if __name__ == "__main__":
    try:
        setup()
    except BuildError as e:
        print("build failed:", e)
        sys.exit(2)
