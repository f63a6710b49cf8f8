#!/usr/bin/env python3
"""Builds, from /repo's current working tree, the LLVM IR and the native library that the checks analyse."""
import os, re, shutil, subprocess, sys, glob, fcntl, time, hashlib

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CNIIC_REPO", "/repo")
WORK = os.environ.get("SX_WORK", os.path.join(V, "work"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0")
for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_TARGET_DIR"):
    ENV.pop(k, None)

class BuildError(Exception):
    pass

def run(cmd, cwd, timeout=800, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def lock():
    os.makedirs(WORK, exist_ok=True)
    f = open(os.path.join(WORK, "lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def engine():
    with lock():
        run(["cargo", "build", "--release", "--offline"], os.path.join(V, "sx"), env=dict(ENV, CARGO_TARGET_DIR=os.path.join(V, "sx", "target")))
        r = os.path.join(WORK, "runner")
        src = os.path.join(V, "harness", "runner.c")
        if not os.path.exists(r) or os.path.getmtime(r) < os.path.getmtime(src):
            run(["gcc", "-O1", "-rdynamic", "-o", r, src, "-ldl"], V)
    return os.path.join(V, "sx", "target", "release", "sx")

MACROS = """
#[allow(unused_macros)] macro_rules! println { ($($t:tt)*) => { sx_quiet!($($t)*) } }
#[allow(unused_macros)] macro_rules! print { ($($t:tt)*) => { sx_quiet!($($t)*) } }
#[allow(unused_macros)] macro_rules! eprintln { ($($t:tt)*) => { sx_quiet!($($t)*) } }
#[allow(unused_macros)] macro_rules! eprint { ($($t:tt)*) => { sx_quiet!($($t)*) } }
"""
QUIET = "#[allow(unused_macros)] macro_rules! sx_quiet { () => { () }; ($($t:tt)*) => { { let _ = format_args!($($t)*); } } }\n"

def gen(dst, mods, real, children):
    """A scratch copy of the crate: same sources, plus the harness modules."""
    src = os.path.join(dst, "src")
    if os.path.exists(src):
        shutil.rmtree(src)
    shutil.copytree(os.path.join(REPO, "src"), src)
    h = os.path.join(V, "harness")
    main = open(os.path.join(src, "main.rs")).read()
    os.remove(os.path.join(src, "main.rs"))
    # inner attributes and inner doc comments must stay first
    inner, rest, head = [], [], True
    for line in main.split("\n"):
        if head and (line.startswith("#![") or line.startswith("//") or not line.strip()):
            inner.append(line)
        else:
            head = False
            rest.append(line)
    out = "#![allow(dead_code, unused_imports, unused_macros)]\n" + "\n".join(inner) + "\n"
    if not real:
        out += "extern crate shim_std as std;\n"
    out += QUIET + MACROS
    out += "\n".join(rest) + "\nmod sx;\nmod util;\n" + "".join("mod %s;\n" % m for m in mods)
    if not os.path.exists(os.path.join(src, "lib.rs")):
        open(os.path.join(src, "lib.rs"), "w").write(out)
    else:
        raise BuildError("the crate has a lib.rs of its own: not supported")
    for m in ["sx", "util"] + list(mods):
        shutil.copy(os.path.join(h, "src", m + ".rs"), os.path.join(src, m + ".rs"))
    for f, child in children:
        p = os.path.join(src, f)
        if os.path.exists(p):
            with open(p, "a") as o:
                o.write('\n#[path = "%s"] pub mod sx_%s;\n' % (os.path.join(h, "src", child + ".rs"), child))
    # dependencies: those of the crate, with rand and regex shimmed, and image without its file formats
    t = open(os.path.join(REPO, "Cargo.toml")).read()
    m = re.search(r"(?ms)^\[dependencies\]\s*\n(.*?)(?=^\[|\Z)", t)
    deps = {}
    for line in (m.group(1) if m else "").split("\n"):
        k = re.match(r"\s*([A-Za-z0-9_-]+)\s*=\s*(.*)", line)
        if k:
            deps[k.group(1)] = k.group(2)
    iv = re.search(r'"([^"]+)"', deps.get("image", '"0.24.7"')).group(1)
    deps["image"] = '{ version = "%s", default-features = false }' % iv
    if not real:
        deps["rand"] = '{ path = "%s/shim_rand" }' % h
        deps["regex"] = '{ path = "%s/shim_regex" }' % h
        deps["shim_std"] = '{ path = "%s/shim_std" }' % h
    if "h_measure" in mods:
        # files are kept in memory (also in the build without other shims: it must not touch the disk)
        deps["image"] = '{ path = "%s/shim_image" }' % h
        deps["csv"] = '{ path = "%s/shim_csv" }' % h
        if not real:
            deps["rayon"] = '{ path = "%s/shim_rayon" }' % h
        p = os.path.join(src, "bench.rs")
        if os.path.exists(p):
            t = re.sub(r"\.save\(", ".sx_save(", open(p).read())
            open(p, "w").write(t + "\nuse image::SxSave as _;\n")
    toml = '[package]\nname = "cniic_h"\nversion = "0.1.0"\nedition = "2021"\n\n[lib]\ncrate-type = ["cdylib"]\npath = "src/lib.rs"\n\n[dependencies]\n'
    toml += "".join("%s = %s\n" % x for x in deps.items()) + "\n[workspace]\n\n"
    prof = 'panic = "abort"\ncodegen-units = 1\nincremental = false\ndebug = false\n'
    toml += "[profile.release]\nopt-level = %d\nlto = %s\ndebug-assertions = true\noverflow-checks = true\n%s" % ((1, '"fat"' if not real else "false", prof))
    toml += "\n[profile.bare]\ninherits = \"release\"\nopt-level = 3\ndebug-assertions = false\noverflow-checks = false\n"
    def put(name, text):
        p = os.path.join(dst, name)
        if not os.path.exists(p) or open(p).read() != text:
            open(p, "w").write(text)
    put("Cargo.toml", toml)
    lk = open(os.path.join(REPO, "Cargo.lock")).read().replace('name = "cniic"', 'name = "cniic_h"')
    if not os.path.exists(os.path.join(dst, "Cargo.lock")):
        put("Cargo.lock", lk)

def build(mods, children=(), real=False, profile="release"):
    """-> (path of the .ll, path of the .so); with real=True only the library, built without any shim."""
    with lock():
        dst = os.path.join(WORK, "real" if real else "sym")
        os.makedirs(dst, exist_ok=True)
        gen(dst, mods, real, children)
        target = os.path.join(dst, "target")
        for f in glob.glob(os.path.join(target, profile, "deps", "*cniic_h*")):
            os.remove(f)
        cmd = ["cargo", "rustc", "--profile", profile, "--offline", "--lib"]
        if not real:
            cmd += ["--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp", "-A", "warnings"]
        else:
            cmd += ["--", "-A", "warnings"]
        run(cmd, dst, env=dict(ENV, CARGO_TARGET_DIR=target))
        key = "_".join(mods) + ("_" + profile if real else "")
        od = os.path.join(WORK, "out")
        os.makedirs(od, exist_ok=True)
        so = os.path.join(od, key + (".real" if real else "") + ".so")
        cand = glob.glob(os.path.join(target, profile, "*cniic_h.so")) + glob.glob(os.path.join(target, profile, "deps", "*cniic_h*.so"))
        shutil.copy(cand[0], so)
        if real:
            return None, so
        ll = os.path.join(od, key + ".ll")
        shutil.move(glob.glob(os.path.join(target, profile, "deps", "cniic_h*.ll"))[0], ll)
        return ll, so

if __name__ == "__main__":
    t = time.time()
    print(engine(), "%.1fs" % (time.time() - t))
    if len(sys.argv) > 1:
        t = time.time()
        import props
        print(build(["h_" + x for x in sys.argv[1].split(",")], [c for x in sys.argv[1].split(",") for c in props.CHILDREN.get(x, [])], real="--real" in sys.argv), "%.1fs" % (time.time() - t))
