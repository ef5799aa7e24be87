"""Builds the harnesses from /repo's current sources with ninja."""
import hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

BOX = ["box/Assert.cpp", "box/ConditionVariable.cpp", "box/Coro.cpp", "box/Error.cpp",
       "box/InterruptibleMutex.cpp", "box/IOVec.cpp", "box/Log.cpp",
       "box/MultiConsumerQueueBase.cpp", "box/Mutex.cpp", "box/Signal.cpp",
       "box/StringFunctions.cpp", "box/Thread.cpp", "box/Sysinfo_Linux.cpp",
       "box/Thread_Unix.cpp", "box/Time_Unix.cpp", "stub/BoxStub.cpp"]
SCH = ["sch/Task.cpp", "sch/TaskScheduler.cpp"]

def module_sources(mod, drop=()):
    """Sources of the module for Linux, as in its CMakeLists."""
    d = os.path.join(REPO, "src/mg", mod)
    out = []
    for f in sorted(os.listdir(d)):
        if not f.endswith(".cpp"):
            continue
        if any(f.endswith(s) for s in ("_Win.cpp", "_Apple.cpp", "_kqueue.cpp", "_IOCP.cpp")):
            continue
        if any(x in f for x in drop):
            continue
        out.append(mod + "/" + f)
    return out

def sources(mods):
    out = []
    for m in mods:
        if m == "aio_epoll":
            out += module_sources("aio", drop=("_iouring",))
        elif m == "aio_uring":
            out += module_sources("aio", drop=("_epoll",))
        else:
            out += module_sources(m)
    return out

COMMON = "-std=c++20 -g -pthread -w -fno-omit-frame-pointer -I%s/src -I%s/lib" % (REPO, VERIF)
KINDS = {
    # Deterministic schedules: instrumented as for TSan, but linked with our runtime.
    "sim": dict(cxx="clang++", cflags="-O1 -fno-pie -fsanitize=thread -DPBT_SIM=1",
                lib="-O2 -fno-pie", ldflags="-no-pie -rdynamic -pthread -ldl",
                libs=["pbt.cpp", "realnow.cpp", "main.cpp", "simrt.cpp"]),
    "asan": dict(cxx="clang++", cflags="-O1 -fsanitize=address,undefined -fno-sanitize=vptr,function "
                 "-fno-sanitize-recover=all",
                 lib="-O2", ldflags="-fsanitize=address,undefined -pthread",
                 libs=["pbt.cpp", "realnow.cpp", "main.cpp", "asanopts.cpp"]),
    "real": dict(cxx="clang++", cflags="-O1", lib="-O2", ldflags="-pthread",
                 libs=["pbt.cpp", "realnow.cpp", "main.cpp"]),
}

def drop_stale():
    """Ninja looks at the modification times only. When a file got another content with an old time (restored
    from a copy, for instance), then everything is built from the beginning."""
    path = os.path.join(BUILD, "contents.json")
    try:
        with open(path) as f:
            old = json.load(f)
    except (OSError, ValueError):
        old = {}
    files = {}
    stale = False
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "lib"), os.path.join(VERIF, "harness")):
        for d, _, names in os.walk(root):
            for n in names:
                if not n.endswith((".h", ".cpp", ".inl")):
                    continue
                p = os.path.join(d, n)
                with open(p, "rb") as f:
                    digest = hashlib.sha1(f.read()).hexdigest()
                files[p] = digest
                if p in old.get("files", {}) and old["files"][p] != digest and \
                        os.stat(p).st_mtime <= old.get("time", 0):
                    stale = True
    if set(old.get("files", {})) - set(files):
        stale = True
    if stale:
        for n in os.listdir(BUILD):
            p = os.path.join(BUILD, n)
            if os.path.isdir(p) and n.startswith(("sim", "asan", "real")):
                shutil.rmtree(p, ignore_errors=True)
    with open(path + ".tmp", "w") as f:
        json.dump({"time": time.time(), "files": files}, f)
    os.replace(path + ".tmp", path)

def build(targets, quiet=True):
    """targets: list of (harness name, kind, modules, extra dict). Returns paths by name."""
    os.makedirs(BUILD, exist_ok=True)
    drop_stale()
    lines = ["ninja_required_version = 1.5", "builddir = %s" % BUILD]
    rules = set()
    objs_done = {}
    outs = {}
    def obj(kind, src, flags, tag, cxx):
        rel = src.replace(REPO + "/src/mg/", "repo/").replace(VERIF + "/", "").replace("/", "_")
        o = os.path.join(BUILD, tag, rel + ".o")
        if o not in objs_done:
            objs_done[o] = 1
            lines.append("build %s: cc %s" % (o, src))
            lines.append("  flags = %s" % flags)
            lines.append("  cxx = %s" % cxx)
        return o
    lines.append("rule cc\n  command = $cxx $flags -MMD -MF $out.d -c $in -o $out\n"
                 "  depfile = $out.d\n  deps = gcc\n  description = CC $out")
    lines.append("rule ld\n  command = $cxx @$out.rsp $flags -o $out\n  rspfile = $out.rsp\n"
                 "  rspfile_content = $in\n  description = LD $out")
    for name, kind, mods, extra in targets:
        k = KINDS[kind]
        defs = extra.get("defs", "")
        tag = kind + extra.get("tag", "")
        cflags = " ".join([COMMON, k["cflags"], defs])
        objs = []
        for s in extra.get("sources", []):
            objs.append(obj(kind, os.path.join(REPO, "src/mg", s), cflags, tag, k["cxx"]))
        for s in sources(mods):
            objs.append(obj(kind, os.path.join(REPO, "src/mg", s), cflags, tag, k["cxx"]))
        for s in extra.get("repo_files", []):
            objs.append(obj(kind, os.path.join(REPO, s), cflags + " -I%s/test" % REPO, tag, k["cxx"]))
        for s in k["libs"] + extra.get("libs", []):
            objs.append(obj(kind, os.path.join(VERIF, "lib", s),
                            " ".join([COMMON, k["lib"], "-DPBT_KIND_%s=1" % kind]), tag + "_lib", k["cxx"]))
        for s in extra.get("harness_libs", []):
            objs.append(obj(kind, os.path.join(VERIF, "lib", s), cflags, tag, k["cxx"]))
        objs.append(obj(kind, os.path.join(VERIF, "harness", extra.get("file", name) + ".cpp"), cflags +
                        " -I%s/test" % REPO, tag, k["cxx"]))
        out = os.path.join(BUILD, name + "." + tag)
        lines.append("build %s: ld %s" % (out, " ".join(objs)))
        lines.append("  cxx = %s" % k["cxx"])
        lines.append("  flags = %s %s" % (k["ldflags"], extra.get("ldflags", "")))
        outs[name] = out
    nf = os.path.join(BUILD, "build-%s.ninja" % "-".join(sorted(t[0] for t in targets))[:150])
    with open(nf, "w") as f:
        f.write("\n".join(lines) + "\n")
    r = subprocess.run(["ninja", "-f", nf] + ([] if not quiet else ["--quiet"]) + list(outs.values()),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stdout.write(r.stdout[-8000:])
        return None
    return outs
