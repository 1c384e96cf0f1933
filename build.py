"""Build steps shared by all checks: engine, tokio-real, IR of the harness + /repo, native replay binary."""
import glob, json, os, re, shutil, subprocess, sys, hashlib, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
B = os.path.join(VERIF, "build")
TC = "stable-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
STD_CRATES = ("core alloc std hashbrown libc cfg_if rustc_demangle addr2line gimli object miniz_oxide adler2 "
              "memchr panic_abort std_detect unwind").split()


class BuildError(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e.update(RUSTUP_TOOLCHAIN=TC, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    return e


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stdout[-6000:]))
    return r.stdout


def cargo_home():
    return os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")


def tokio_real():
    """A copy of the registry's tokio under another package name, with select!'s random start under harness control."""
    dst = os.path.join(B, "tokio-real")
    lock = open(os.path.join(VERIF, "harness", "tokio.version")).read().strip()
    src = None
    for d in glob.glob(os.path.join(cargo_home(), "registry/src/*/tokio-" + lock)):
        src = d
    if src is None:
        raise BuildError("tokio %s not in the cargo registry" % lock)
    if os.path.exists(os.path.join(dst, ".ok")):
        return
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(B, exist_ok=True)
    shutil.copytree(src, dst, ignore=shutil.ignore_patterns("tests", "docs", ".*"))
    t = open(os.path.join(dst, "Cargo.toml")).read()
    # drop [[test]] tables and dev-dependencies, rename
    parts = re.split(r"(?m)^(?=\[)", t)
    keep = [p for p in parts if not (p.startswith("[[test]]") or "dev-dependencies" in p.split("]")[0])]
    t = "".join(keep).replace('name = "tokio"', 'name = "tokio-real"', 1)
    t = re.sub(r'(?m)^(\[lib\]\n)name = "tokio(-real)?"', r'\1name = "tokio_real"', t)
    open(os.path.join(dst, "Cargo.toml"), "w").write(t)
    p = os.path.join(dst, "src/macros/support.rs")
    s = open(p).read()
    a = "crate::runtime::context::thread_rng_n(n)"
    if a not in s:
        raise BuildError("tokio's select support has changed")
    s = s.replace(a, 'extern "C-unwind" { fn verif_select(n: u32) -> u32; }\n        unsafe { verif_select(n) }')
    open(p, "w").write(s)
    open(os.path.join(dst, ".ok"), "w").write("")


def engine():
    t = os.path.join(B, "engine")
    run(["cargo", "build", "--release", "--offline", "-q"], cwd=os.path.join(VERIF, "engine"), env=env(CARGO_TARGET_DIR=t))
    return os.path.join(t, "release", "symir")


def std_bc():
    d = os.path.join(B, "std")
    root = run(["rustc", "--print", "sysroot"], env=env()).strip()
    L = os.path.join(root, "lib/rustlib", TARGET)
    bins = os.path.join(L, "bin")
    if not os.path.exists(os.path.join(d, ".ok")):
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)

        def one(c):
            for rlib in glob.glob(os.path.join(L, "lib", "lib%s-*.rlib" % c)):
                x = os.path.join(d, "x_" + c)
                os.makedirs(x, exist_ok=True)
                run([os.path.join(bins, "llvm-ar"), "x", rlib], cwd=x)
                i = 0
                for o in sorted(glob.glob(os.path.join(x, "*.o"))):
                    out = os.path.join(d, "std_%s_%d.bc" % (c, i))
                    r = subprocess.run([os.path.join(bins, "llvm-objcopy"), "--dump-section=.llvmbc=" + out, o],
                                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                    if r.returncode == 0:
                        i += 1
                shutil.rmtree(x)
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, STD_CRATES))
        open(os.path.join(d, ".ok"), "w").write("")
    return bins, sorted(glob.glob(os.path.join(d, "*.bc")))


def entries():
    names = []
    for f in sorted(glob.glob(os.path.join(VERIF, "harness/src/*.rs"))):
        names += re.findall(r"(?m)^\s*(?:pub )?fn (h_\w+)\(\)", open(f).read())
    return sorted(set(names))


def hook_parts():
    """Parts of /repo's `mod verif` that can be left out: name -> first and last line."""
    ls = open("/repo/src/lib.rs").read().splitlines()
    at = [(i + 1, m.group(1)) for i, l in enumerate(ls) for m in [re.search(r"cfg\(.*not\(ruq_verif_no_(\w+)\)", l)] if m]
    out = []
    for i, name in at:
        ind = len(ls[i - 1]) - len(ls[i - 1].lstrip())
        j = i
        while j < len(ls) and ls[j] != " " * ind + "}":
            j += 1
        out.append((name, i, j + 1))
    return out


def without():
    """Options that leave out the parts of the hook that do not compile with the current tree (usually none)."""
    skip = []
    while True:
        fl = "--cfg ruq_verif -A warnings" + "".join(" --cfg ruq_verif_no_" + n for n in skip)
        r = subprocess.run(["cargo", "check", "-p", "ruq", "--offline", "-q", "--message-format=json"], cwd=os.path.join(VERIF, "harness"),
                           env=env(CARGO_TARGET_DIR=os.path.join(B, "check"), RUSTFLAGS=fl), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, text=True)
        if r.returncode == 0:
            return skip
        bad = set()
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l).get("message") or {}
            except ValueError:
                continue
            if m.get("level") != "error":
                continue
            for s in m.get("spans", []):
                if s["is_primary"] and s["file_name"].endswith("src/lib.rs"):
                    bad |= {n for n, a, b in hook_parts() if a <= s["line_start"] <= b}
        bad -= set(skip)
        if not bad:
            raise BuildError("/repo does not compile:\n%s" % (r.stderr + r.stdout)[-6000:])
        skip += sorted(bad)


def ir(skip=()):
    """LLVM IR of /repo's current tree, its dependencies, std and the harnesses, in one module."""
    t = os.path.join(B, "ir")
    hd = os.path.join(VERIF, "harness")
    flags = ("--emit=llvm-bc -C embed-bitcode=yes -C codegen-units=1 -C panic=abort -C opt-level=1 -C overflow-checks=on "
             "-C debug-assertions=on -C no-vectorize-loops -C no-vectorize-slp -C debuginfo=0 --cfg ruq_verif -A warnings" + "".join(" --cfg ruq_verif_no_" + n for n in skip))
    deps = os.path.join(t, TARGET, "debug/deps")
    for f in glob.glob(os.path.join(deps, "harness-*")) + glob.glob(os.path.join(deps, "ruq-*")):
        os.remove(f)
    for f in glob.glob(os.path.join(t, TARGET, "debug/.fingerprint/harness-*")) + glob.glob(os.path.join(t, TARGET, "debug/.fingerprint/ruq-*")):
        shutil.rmtree(f)
    cmd = ["cargo", "build", "--lib", "--offline", "-q", "--target", TARGET, "--message-format=json-render-diagnostics"]
    r = subprocess.run(cmd, cwd=hd, env=env(CARGO_TARGET_DIR=t, RUSTFLAGS=flags), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0:
        raise BuildError("%s failed (%d):\n%s" % (" ".join(cmd), r.returncode, r.stderr[-6000:]))
    bins, std = std_bc()
    # what this build is made of; other things may lie there from a build with other options
    mods = set(glob.glob(os.path.join(deps, "harness-*.bc")))
    for l in r.stdout.splitlines():
        m = json.loads(l)
        for f in m.get("filenames", []) if m.get("reason") == "compiler-artifact" else []:
            b = os.path.basename(f)
            if os.path.dirname(f) == deps and b.startswith("lib") and b.endswith(".rlib"):
                mods.add(os.path.join(deps, b[3:-5] + ".bc"))
    mods = sorted(mods)
    allbc = os.path.join(t, "all.bc")
    ll = os.path.join(t, "all.ll")
    run([os.path.join(bins, "llvm-link"), "-o", allbc] + mods + std)
    passes = ("internalize,globaldce,function(lower-invoke,lower-atomic,simplifycfg,sroa,instsimplify,simplifycfg),globaldce")
    run([os.path.join(bins, "opt"), "-strip-debug", "-passes=" + passes,
         "-internalize-public-api-list=" + ",".join(entries()), allbc, "-S", "-o", ll])
    return ll


def native(skip=()):
    t = os.path.join(B, "native")
    hd = os.path.join(VERIF, "harness")
    run(["cargo", "build", "--bin", "replay", "--features", "native", "--offline", "-q"], cwd=hd,
        env=env(CARGO_TARGET_DIR=t, RUSTFLAGS="--cfg ruq_verif -A warnings" + "".join(" --cfg ruq_verif_no_" + n for n in skip)))
    return os.path.join(t, "debug", "replay")


def all():
    tokio_real()

    def both(skip=()):
        i, n = ex.submit(ir, skip), ex.submit(native, skip)
        return i.result(), n.result()
    with cf.ThreadPoolExecutor(3) as ex:
        e = ex.submit(engine)
        try:
            i, n = both()
        except BuildError:
            skip = without()
            if not skip:
                raise
            print("parts of the hook do not fit this tree, left out: %s" % " ".join(skip))
            i, n = both(skip)
        return e.result(), i, n


if __name__ == "__main__":
    print(all())
