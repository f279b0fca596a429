#!/usr/bin/env python3
"""Build bsdconv from /repo's *current working tree* into a private, git-ignored
directory.  Nothing is written in /repo.

Two flavours:
  plain  gcc -O1 -g              (fast exploration)
  asan   gcc -O1 -g + ASan/UBSan (memory properties)

The module lists come from the repo's own Makefile (make prints them), the rules are
the Makefile's rules (mktable TXT OUT; cc -fPIC -shared X.c).  Results are cached under
a key that hashes every file the build reads, so a changed tree is always rebuilt.
"""
import hashlib, os, subprocess, sys, shutil, fcntl, tempfile

REPO = os.environ.get("BSDCONV_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILDROOT = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))

FLAVOURS = {
    "plain": "-O1 -g1",
    "asan": "-O1 -g1 -fsanitize=address,undefined -fno-sanitize=alignment,shift,signed-integer-overflow,"
            "nonnull-attribute,vla-bound,pointer-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer",
}
LINKSAN = {"plain": "", "asan": "-fsanitize=address,undefined"}


class BuildError(Exception):
    pass


def _tree_files():
    for top in ("Makefile", "src", "modules"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            yield p
            continue
        for d, dn, fn in os.walk(p):
            dn.sort()
            for f in sorted(fn):
                yield os.path.join(d, f)


def tree_hash():
    h = hashlib.sha256()
    for p in _tree_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        try:
            with open(p, "rb") as f:
                h.update(hashlib.sha256(f.read()).digest())
        except OSError:
            h.update(b"?")
    return h.hexdigest()[:16]


def todo_lists():
    mk = "include Makefile\n__pv:\n" + "".join(
        "\t@echo %s=$(%s)\n" % (v, v) for v in
        ("TODO_FILTERS", "TODO_SCORERS", "TODO_CODECS_BASIC", "TODO_CODECS_CHINESE", "TODO_CODECS_EBCDIC"))
    r = subprocess.run(["make", "-s", "-f", "-", "__pv"], input=mk, cwd=REPO, text=True,
                       capture_output=True)
    if r.returncode:
        raise BuildError("make: " + r.stderr)
    out = {}
    for line in r.stdout.splitlines():
        k, _, v = line.partition("=")
        out[k] = v.split()
    return out


def build(flavour="plain"):
    """returns the prefix directory (bin lib include share/bsdconv)"""
    key = flavour + "-" + tree_hash() + "-" + hashlib.sha256(FLAVOURS[flavour].encode()).hexdigest()[:6]
    os.makedirs(BUILDROOT, exist_ok=True)
    out = os.path.join(BUILDROOT, key)
    with open(os.path.join(BUILDROOT, ".lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, ".done")):
            return out
        # drop older builds of the same flavour
        for d in os.listdir(BUILDROOT):
            if d.startswith(flavour + "-") and d != key:
                shutil.rmtree(os.path.join(BUILDROOT, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        _build(flavour, out)
        open(os.path.join(out, ".done"), "w").close()
    return out


def _build(flavour, out):
    t = todo_lists()
    for d in ("bin", "lib", "include", "share/bsdconv/filter", "share/bsdconv/scorer",
              "share/bsdconv/from", "share/bsdconv/inter", "share/bsdconv/to"):
        os.makedirs(os.path.join(out, d), exist_ok=True)
    cf = FLAVOURS[flavour] + " -w -D_BSDCONV_INTERNAL -DPREFIX='\"/usr/local\"' -DBSDCONV_PATH='\"/usr/local\"'"
    n = ["ninja_required_version = 1.3", "repo = " + REPO, "pre = " + out, "cf = " + cf,
         "rule so", " command = cd $repo && gcc $cf $in -L$pre/lib -fPIC -shared -o $out_ $libs",
         "rule exe", " command = cd $repo && gcc $cf $in -L$pre/lib -Wl,-rpath,$pre/lib -o $out_ $libs",
         "rule mkt", " command = cd $repo && gcc -O1 -g1 -w -D_BSDCONV_INTERNAL -DUSE_FMALLOC $in -o $out_",
         "rule tab", " command = cd $repo && $pre/bin/bsdconv-mktable $in $out_ >/dev/null",
         "rule cp", " command = cp $in $out_",
         ]

    def b(dst, rule, src, deps="", libs="-ldl"):
        n.append("build %s: %s %s %s" % (dst, rule, " ".join(src), ("| " + deps) if deps else ""))
        n.append(" out_ = " + dst)
        n.append(" libs = " + libs)

    R = REPO
    lib = out + "/lib/libbsdconv.so"
    n.append("build %s: so %s/src/libbsdconv.c" % (lib, R))
    n.append(" out_ = " + lib)
    n.append(" libs = -ldl")
    # the library itself must not be linked against itself
    mkt = out + "/bin/bsdconv-mktable"
    # the table compiler itself is never sanitized here: it only has to produce the tables
    n.append("build %s: mkt %s/src/libfmalloc.c %s/src/bsdconv-mktable.c" % (mkt, R, R))
    n.append(" out_ = " + mkt)
    if flavour == "asan":
        b(out + "/bin/bsdconv-mktable-san", "exe", [R + "/src/libfmalloc.c", R + "/src/bsdconv-mktable.c"], deps=lib, libs="-ldl -DUSE_FMALLOC")
    for e in ("bsdconv", "bsdconv-man", "bsdconv-completion"):
        if os.path.exists(R + "/src/%s.c" % e):
            b(out + "/bin/" + e, "exe", [R + "/src/%s.c" % e], deps=lib, libs="-lbsdconv -ldl")
    for k, sub in (("TODO_FILTERS", "filter"), ("TODO_SCORERS", "scorer")):
        for i in t[k]:
            b(out + "/share/bsdconv/%s/%s.so" % (sub, i), "so", [R + "/modules/%s/%s.c" % (sub, i)],
              deps=lib, libs="-lbsdconv -ldl")
    seen = set()
    for k in ("TODO_CODECS_BASIC", "TODO_CODECS_CHINESE", "TODO_CODECS_EBCDIC"):
        for i in t[k]:
            if i in seen:
                continue
            seen.add(i)
            b(out + "/share/bsdconv/" + i, "tab", [R + "/modules/%s.txt" % i], deps=mkt)
            if os.path.exists(R + "/modules/%s.c" % i):
                b(out + "/share/bsdconv/%s.so" % i, "so", [R + "/modules/%s.c" % i], deps=lib,
                  libs="-lbsdconv -ldl")
    for i in ("from", "inter", "to", "filter"):
        b(out + "/share/bsdconv/%s/alias" % i, "cp", [R + "/modules/%s/alias" % i])
    b(out + "/include/bsdconv.h", "cp", [R + "/src/bsdconv.h"])
    if os.path.exists(R + "/src/portable_endian.h"):
        b(out + "/include/portable_endian.h", "cp", [R + "/src/portable_endian.h"])
    with open(out + "/build.ninja", "w") as f:
        f.write("\n".join(n) + "\n")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", LC_ALL="C.UTF-8")
    r = subprocess.run(["ninja", "-C", out, "-j", "8"], text=True, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, env=env)
    if r.returncode:
        raise BuildError("build of /repo failed\n" + r.stdout[-3000:])
    os.symlink("libbsdconv.so", out + "/lib/libbsdconv.so.11")


def harness(name, flavour, prefix, extra="", srcs=None, opt="-O2"):
    """compile /verif/mc/<name>.cpp against the freshly built library"""
    srcs = srcs or [os.path.join(VERIF, "mc", name + ".cpp")]
    bindir = os.path.join(prefix, "mc")
    os.makedirs(bindir, exist_ok=True)
    h = hashlib.sha256((extra + opt).encode())
    for d, _, fs in os.walk(os.path.join(VERIF, "mc")):
        for f in sorted(fs):
            if f.endswith((".hpp", ".h")) or os.path.join(d, f) in srcs:
                h.update(open(os.path.join(d, f), "rb").read())
    exe = os.path.join(bindir, name + "-" + h.hexdigest()[:10])
    if os.path.exists(exe):
        return exe
    cmd = "g++ -std=c++20 %s -g1 -w %s -D_BSDCONV_INTERNAL -fpermissive -I%s/include -I%s/mc %s -o %s.tmp%d -L%s/lib -Wl,-rpath,%s/lib -lbsdconv -ldl -pthread %s" % (
        opt, LINKSAN[flavour], prefix, VERIF, " ".join(srcs), exe, os.getpid(), prefix, prefix, extra)
    r = subprocess.run(cmd, shell=True, text=True, capture_output=True)
    if r.returncode:
        raise BuildError("harness %s does not compile\n%s" % (name, r.stderr[-3000:]))
    os.rename("%s.tmp%d" % (exe, os.getpid()), exe)
    return exe


def env_for(prefix):
    e = dict(os.environ)
    e["BSDCONV_PATH"] = prefix
    e["LD_LIBRARY_PATH"] = prefix + "/lib"
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_odr_violation=0"
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=77"
    return e


if __name__ == "__main__":
    import time
    for f in (sys.argv[1:] or ["plain", "asan"]):
        t0 = time.time()
        print(f, build(f), "%.1fs" % (time.time() - t0))
