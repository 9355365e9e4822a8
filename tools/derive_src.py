"""Copies /repo/shard_ecs_derive as an ordinary library: the macro's function becomes `entry`."""
import os, re, shutil


def generate(repo, work):
    src, dst = os.path.join(repo, "shard_ecs_derive", "src"), os.path.join(work, "derive-src")
    shutil.rmtree(dst, ignore_errors=True)
    shutil.copytree(src, os.path.join(dst, "src"))
    lib = os.path.join(dst, "src", "lib.rs")
    t = open(lib).read()
    attr = re.compile(r"#\s*\[\s*(?:::)?(?:proc_macro\s*::\s*)?proc_macro_derive\s*\(\s*Component\b(?:[^()\]]|\([^()]*\))*\)\s*\]", re.S)
    m = attr.search(t)
    f = m and re.compile(r"\bfn\s+(\w+)").search(t, m.end())
    if not f:
        raise RuntimeError("no derive macro for Component in %s" % lib)
    other = re.compile(r"#\s*\[\s*proc_macro(?:_derive\s*\((?:[^()\]]|\([^()]*\))*\)|_attribute)?\s*\]", re.S)
    blank = lambda x: re.sub(r"[^\n]", " ", x.group(0))
    t = other.sub(blank, attr.sub(blank, t))
    t = re.sub(r"\bproc_macro\b", "pm_shim", t)
    for d, _, fs in os.walk(os.path.join(dst, "src")):
        for x in fs:
            q = os.path.join(d, x)
            if x.endswith(".rs") and q != lib:
                u = open(q).read()
                open(q, "w").write(re.sub(r"\bproc_macro\b", "pm_shim", u))
    open(lib, "w").write(t + "\npub use self::%s as entry;\n" % f.group(1))
    shim = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "derive", "shim")
    toml = open(os.path.join(repo, "shard_ecs_derive", "Cargo.toml")).read()
    full = re.search(r"^syn\s*=.*\b(full)\b", toml, re.M)
    feats = re.search(r"^syn\s*=.*features\s*=\s*\[([^\]]*)\]", toml, re.M)
    open(os.path.join(dst, "Cargo.toml"), "w").write("""[package]
name = "derive_src"
version = "0.1.0"
edition = "2021"

[dependencies]
pm_shim = { path = "%s/proc_macro" }
syn = { path = "%s/syn", features = [%s] }
quote = { version = "1.0", default-features = false }
proc-macro2 = { version = "1.0", default-features = false }
""" % (shim, shim, feats.group(1) if feats else ""))
