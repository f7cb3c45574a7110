#!/usr/bin/env python3
"""Builds the executor, and from /repo's working tree the IR modules and libraries that the
checks work on.  Everything lands in build/ (not committed); what is there and belongs to
the same sources is reused."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
B = os.path.join(HERE, "build")
OUT = os.path.join(B, "out")
PROFILES = ("symd", "symr")
# with the program itself, which needs more libraries
CLI = ("clid", "clir")
# other crates: directory here, sources in /repo, where their copy gets a module from here
OTHERS = dict(wrapper=("python_lib/rust/src", {"lib.rs": '#[path = "../../wrapper/src/verif.rs"]\nmod verif;\n'}),
              bench=("results/src", {"lib.rs": '#[path = "../../bench/src/verif.rs"]\nmod verif;\n',
                                     "plots.rs": '#[path = "../../bench/src/inner.rs"]\npub mod inner;\n'}))
MODULES = dict(symd=("harness", "symd"), symr=("harness", "symr"), clid=("harness", "symd", "--features", "cli"),
               clir=("harness", "symr", "--features", "cli"), pyd=("wrapper", "symd"), pyr=("wrapper", "symr"),
               resd=("bench", "symd"), resr=("bench", "symr"))
# the crates whose harness can do without the private parts of the program, for these jobs
LESS = dict(bench=lambda params: params[0] == 3)
SYMX = os.path.join(OUT, "symx")
SYMRT = os.path.join(OUT, "symrt")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith(("CARGO_", "RUST")) and k not in ("CARGO_HOME", "RUSTUP_HOME"):
            del e[k]
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never",
             CARGO_INCREMENTAL="0")
    return e


def files(d, skip=("target", ".git", "__pycache__")):
    for root, ds, fs in os.walk(d):
        ds[:] = sorted(x for x in ds if x not in skip)
        for f in sorted(fs):
            yield os.path.join(root, f)


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if r.returncode != 0:
        raise BuildError(f"{' '.join(cmd)}\n{r.stdout[-6000:]}")
    return r.stdout


def fresh(name, stamp):
    p = os.path.join(OUT, name + ".stamp")
    try:
        with open(p) as f:
            return f.read() == stamp
    except OSError:
        return False


def done(name, stamp):
    with open(os.path.join(OUT, name + ".stamp"), "w") as f:
        f.write(stamp)


def symx():
    s = digest(list(files(HERE + "/symx", ("target",))))
    if fresh("symx", s) and os.path.exists(SYMX):
        return
    run(["cargo", "build", "--release", "--offline", "--target-dir", B + "/symx"], cwd=HERE + "/symx", env=env())
    shutil.copy2(B + "/symx/release/symx", SYMX + ".new")
    os.replace(SYMX + ".new", SYMX)
    done("symx", s)


def symrt():
    src = HERE + "/native/symrt.c"
    s = digest([src])
    if fresh("symrt", s) and os.path.exists(SYMRT):
        return
    run(["gcc", "-O1", "-g", "-rdynamic", "-fno-builtin", "-o", SYMRT, src, "-ldl", "-lpthread"])
    done("symrt", s)


def sources(crate):
    r = [p for p in files(REPO + "/mbqc_scheduling")] + [p for p in files(HERE + "/shim")]
    r += [p for p in files(HERE + "/harness")]
    if crate in OTHERS:
        r += [p for p in files(f"{HERE}/{crate}")] + [p for p in files(f"{REPO}/{OTHERS[crate][0]}")]
    return r


def copied(crate):
    """a copy of the sources, with the harness as a further module of them"""
    src, extra = OTHERS[crate]
    with Lock("src_" + crate):
        s = digest(sources(crate))
        d = f"{B}/src_{crate}"
        if fresh("src_" + crate, s) and os.path.isdir(d):
            return
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(f"{REPO}/{src}", d)
        for f, text in extra.items():
            with open(f"{d}/{f}", "a") as o:
                o.write("\n" + text)
        done("src_" + crate, s)


def profile(name):
    """The module `name`"""
    crate, prof, *feat = MODULES[name]
    s = digest(sources(crate)) + name
    if fresh(name, s) and os.path.exists(f"{OUT}/{name}.ll") and os.path.exists(f"{OUT}/{name}.so"):
        return
    if crate in OTHERS:
        copied(crate)
    e = env()
    e["RUSTC_BOOTSTRAP"] = "1"
    e["RUSTFLAGS"] = "--emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -Zshare-generics=n --cfg mbqc_verif"
    td = f"{B}/ht_{name}"
    e["CARGO_TARGET_DIR"] = td
    cwd = f"{HERE}/{crate}"
    # file times mean nothing in a copy: build what can have changed again
    for c in ("mbqc_scheduling", crate, "scoped_threadpool", "rand_pcg", "facade", "pyo3", "pyo3_macros", "pauli_tracker_pyo3"):
        subprocess.run(["cargo", "clean", "--offline", "--profile", prof, "-p", c], cwd=cwd, env=e,
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    ll = f"{td}/{prof}/deps/{crate}.ll"
    for p in (ll, f"{td}/{prof}/lib{crate}.so"):
        if os.path.exists(p):
            os.remove(p)
    cmd = ["cargo", "build", "--offline", "--profile", prof] + feat
    less = f"{OUT}/{name}.less"
    try:
        run(cmd, cwd=cwd, env=e)
        if os.path.exists(less):
            os.remove(less)
    except BuildError as err:
        if crate not in LESS:
            raise
        # functions inside of it that the harness uses are called otherwise, or have other parameters
        try:
            run(cmd + ["--no-default-features"], cwd=cwd, env=e)
        except BuildError:
            raise err
        open(less, "w").close()
    shutil.copyfile(ll, f"{OUT}/{name}.ll")
    shutil.copyfile(f"{td}/{prof}/lib{crate}.so", f"{OUT}/{name}.so")
    done(name, s)


def instrumented(prof):
    """the library whose threads the native replay schedules"""
    with Lock("inst_" + prof):
        so = f"{OUT}/{prof}_points.so"
        s = digest([f"{OUT}/{prof}.ll", HERE + "/native/instrument.py"])
        if fresh(prof + "_points", s) and os.path.exists(so):
            return so
        ll, o = f"{OUT}/{prof}_points.ll", f"{OUT}/{prof}_points.o"
        run([sys.executable, HERE + "/native/instrument.py", f"{OUT}/{prof}.ll", ll])
        root = run(["rustc", "--print", "sysroot"], env=env()).strip()
        run([root + "/lib/rustlib/x86_64-unknown-linux-gnu/bin/llc", "-O1", "-filetype=obj", "-relocation-model=pic", ll,
             "-o", o])
        run(["gcc", "-shared", "-o", so, o, "-lm", "-lpthread"])
        os.remove(ll)
        os.remove(o)
        done(prof + "_points", s)
        return so


def possible(name, params):
    """Can the module do this job?"""
    crate = MODULES[name][0]
    return crate not in LESS or not os.path.exists(f"{OUT}/{name}.less") or LESS[crate](params)


class Lock:
    def __init__(self, name):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(f"{B}/{name}.lock", "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def build(profiles=PROFILES):
    import concurrent.futures as cf
    with Lock("build"):
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(symx), ex.submit(symrt)] + [ex.submit(profile, p) for p in profiles]
            for f in fs:
                f.result()


if __name__ == "__main__":
    t = time.time()
    try:
        build(PROFILES)
    except BuildError as e:
        print(e)
        sys.exit(2)
    # (what cannot be built is reported by the checks that need it)
    def rest(m):
        try:
            if m not in PROFILES:
                profile(m)
            if m in PROFILES + CLI:
                instrumented(m)
        except BuildError as e:
            print(e)

    import concurrent.futures as cf
    with Lock("build"), cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(rest, MODULES))
    print(f"built in {time.time() - t:.1f} s")
