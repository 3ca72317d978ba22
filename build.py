#!/usr/bin/env python3
"""Builds the engine, the whole-program LLVM IR and the native replay binary from /repo's tree."""
import fcntl, glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(V, ".build")
REPO = "/repo"


def env(extra=None):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CED_BIN", "CED_GEN_CHEADER", "RUST_LOG", "CARGO_ENCODED_RUSTFLAGS",
              "CARGO_BUILD_RUSTFLAGS", "CARGO_PROFILE_DEV_DEBUG"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER="", PATH="/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", ""))
    e.update(extra or {})
    return e


def sh(cmd, cwd=V, extra=None, quiet=True):
    r = subprocess.run(cmd, cwd=cwd, env=env(extra), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        sys.stderr.write("build step failed: %s\n%s\n" % (" ".join(cmd), "\n".join(re.findall(r"(?m)^error(?:.*\n)(?:.+\n)*", r.stdout.decode(errors="replace")))[:4000] or r.stdout.decode(errors="replace")[-2000:]))
        raise SystemExit(2)
    return r.stdout.decode(errors="replace")


def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tools():
    root = sh(["rustc", "--print", "sysroot"]).strip()
    return os.path.join(root, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def rlua_src():
    out = sh(["cargo", "metadata", "--format-version", "1", "--offline", "--manifest-path", V + "/harness/Cargo.toml"])
    m = json.loads(out[out.index("{"):])
    for p in m["packages"]:
        if p["name"] == "rlua":
            return os.path.dirname(p["manifest_path"])
    raise SystemExit("rlua not found")


def put(path, text):
    """Writes a file when its content changes."""
    if not os.path.exists(path) or open(path).read() != text:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(text)


def ffi_copy():
    """The crate of the foreign interface is a cdylib whose build script writes into its sources:
    a copy which can be linked, with the functions generated into the output directory."""
    src, dst = REPO + "/remote-ffi", B + "/ffi"
    names = {os.path.relpath(f, src) for f in glob.glob(src + "/src/**/*.rs", recursive=True)} - {"src/ffi.rs"}
    for f in glob.glob(dst + "/src/**/*.rs", recursive=True):
        if os.path.relpath(f, dst) not in names:
            os.remove(f)
    for n in names:
        s = open(os.path.join(src, n)).read()
        if n == "src/lib.rs":
            s = re.sub(r"(?m)^mod ffi;", 'mod ffi { include!(concat!(env!("OUT_DIR"), "/ffi.rs")); }', s)
            s += open(V + "/harness/ffi_tail.rs").read()
        put(os.path.join(dst, n), s)
    put(dst + "/ffigen.toml", open(src + "/ffigen.toml").read())
    put(dst + "/build.rs", """fn main() {
    let dir = std::env::var("CARGO_MANIFEST_DIR").unwrap();
    let source = ffigen::SourceBuilder::generate(&dir).unwrap().source();
    std::fs::write(std::env::var("OUT_DIR").unwrap() + "/ffi.rs", source).unwrap();
}
""")
    s = open(src + "/Cargo.toml").read()
    s = re.sub(r'(?ms)^\[lib\].*?(?=^\[)', '[lib]\nname = "ced_ffi"\n\n', s)
    s = re.sub(r'(?m)^name = "remote-ffi"', 'name = "ced-ffi"', s)
    s = re.sub(r'(?m)^cbindgen.*\n', '', s)
    s = s.replace('"../', '"%s/' % REPO)
    put(dst + "/Cargo.toml", s + "\n")
    return dst


def engine():
    sh(["cargo", "build", "--release", "--offline"], cwd=V + "/engine", extra={"CARGO_TARGET_DIR": B + "/engine"})
    return B + "/engine/release/cedsym"


def native():
    sh(["cargo", "build", "--offline", "--features", "native"], cwd=V + "/harness",
       extra={"CARGO_TARGET_DIR": B + "/native", "RUSTFLAGS": "--cfg ced_verif"})
    return B + "/native/debug/cedharness"


def ir():
    lb = tools()
    tgt = B + "/sym"
    # the name of the module changes with its contents
    sh(["cargo", "build", "--release", "--offline"], cwd=V + "/harness", extra={
        "CARGO_TARGET_DIR": tgt,
        "RUSTFLAGS": "--cfg miri --cfg ced_verif -C no-vectorize-loops -C no-vectorize-slp -C save-temps "
                     "-C link-arg=-Wl,--unresolved-symbols=ignore-all"})
    bcs = sorted(glob.glob(tgt + "/release/deps/cedharness-*cgu.0.rcgu.bc"), key=os.path.getmtime)
    if not bcs:
        raise SystemExit("no bitcode produced")
    bc = bcs[-1]
    src = rlua_src()
    lua = B + "/lua"
    os.makedirs(lua, exist_ok=True)
    names = re.findall(r'"lua/(l\w+)\.c"', open(src + "/build.rs").read()) or \
        [os.path.basename(x)[:-2] for x in glob.glob(src + "/lua/l*.c") if os.path.basename(x) not in ("lua.c", "luac.c")]
    outs, procs = [], []
    for n in sorted(set(names)):
        o = "%s/%s.bc" % (lua, n)
        outs.append(o)
        if not os.path.exists(o):
            procs.append(subprocess.Popen(["clang", "-O1", "-fno-vectorize", "-fno-slp-vectorize", "-DLUA_USE_LINUX", "-emit-llvm",
                                           "-w", "-c", "%s/lua/%s.c" % (src, n), "-o", o], env=env()))
    for p in procs:
        if p.wait() != 0:
            raise SystemExit("clang failed on the Lua sources")
    key = digest([bc] + outs)
    ll = B + "/all.ll"
    stamp = ll + ".key"
    if not (os.path.exists(ll) and os.path.exists(stamp) and open(stamp).read() == key):
        sh([lb + "/llvm-link", bc] + outs + ["-o", B + "/all.bc"])
        sh([lb + "/opt", "--strip-debug",
            "-passes=module(function(lower-invoke,simplifycfg,lower-atomic,instsimplify,dce),globaldce)", "-S", B + "/all.bc", "-o", ll])
        os.remove(B + "/all.bc")
        open(stamp, "w").write(key)
    for o in bcs[:-1]:
        os.remove(o)
    return ll


def build_all():
    os.makedirs(B, exist_ok=True)
    lock = open(B + "/lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    ffi_copy()
    import threading
    res, errs = {}, []

    def go(k, f):
        try:
            res[k] = f()
        except BaseException as e:
            errs.append(e)
    ths = [threading.Thread(target=go, args=a) for a in (("engine", engine), ("native", native), ("ir", ir))]
    for x in ths:
        x.start()
    for x in ths:
        x.join()
    if errs:
        raise SystemExit(2)
    res["build_s"] = time.time() - t
    lock.close()
    return res


if __name__ == "__main__":
    print(json.dumps(build_all()))
