#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree.  usage: build.py OUTDIR [--threads]
Sources of the code under test come from CMakeLists.txt's APEX_LIB_SOURCES plus cli/main.c; its references
to the system (files, processes, clock, heap, ...) are renamed to the simulator's with objcopy."""
import os, re, subprocess, sys, concurrent.futures as cf
REPO = os.environ.get("APEX_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
STAND = os.path.join(os.path.dirname(HERE), "standins")
LIB = "/usr/lib/x86_64-linux-gnu"

def seams():
    src = open(os.path.join(HERE, "sim.cc")).read() + open(os.path.join(HERE, "threads.cc")).read()
    names = set(re.findall(r"\bsim_([A-Za-z_]\w*)\s*\(", src))
    names -= {"init", "threads"}
    return sorted(names)

def thread_seams():   # further ones in the --threads build
    return sorted(set(re.findall(r"\bthr_([A-Za-z_]\w*)\s*\(", open(os.path.join(HERE, "threads.cc")).read())))

def sources():
    txt = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(APEX_LIB_SOURCES(.*?)\)", txt, re.S)
    out = []
    for w in re.sub(r"#.*", "", m.group(1)).split():
        w = w.replace("${CMAKE_SOURCE_DIR}/", "").replace("${CMAKE_CURRENT_SOURCE_DIR}/", "").strip('"')
        if w.endswith(".c") and os.path.exists(os.path.join(REPO, w)):
            out.append(w)
    return out + ["cli/main.c"]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd), r.stdout[-4000:]))
        raise SystemExit(3)

def main():
    out = os.path.abspath(sys.argv[1]); cov = "--threads" in sys.argv
    os.makedirs(out, exist_ok=True)
    redef = os.path.join(out, "redef.txt")
    with open(redef, "w") as f:
        for n in seams(): f.write("%s sim_%s\n" % (n, n))
        if cov:
            for n in thread_seams(): f.write("%s thr_%s\n" % (n, n))
        f.write("main sut_main\n")
    ren = ["--rename-section", ".data=sutdata", "--rename-section", ".bss=sutbss", "--rename-section", ".data.rel=sutdata",
           "--rename-section", ".data.rel.local=sutdata", "--rename-section", ".tbss=.tbss"]
    jobs = []
    cflags = ["-std=gnu99", "-O1", "-g1", "-w", "-fno-pie", "-fno-common", "-D_GNU_SOURCE", "-U_FORTIFY_SOURCE", "-DAPEX_HAVE_LIBYAML=1",
              "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + STAND, "-I/usr/include/cmark-gfm"]
    if cov: cflags += ["-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]   # calls on every memory access; sim/threads.cc is the run-time for them
    objs = []
    def one_c(src, o, extra=[]):
        sh(["gcc"] + cflags + extra + ["-c", src, "-o", o])
        sh(["objcopy", "--redefine-syms", redef] + ren + [o])
    def one_a(a, o):
        sh(["objcopy", "--redefine-syms", redef] + ren + [a, o])
    def one_cc(src, o):
        sh(["g++", "-std=gnu++17", "-O1", "-g1", "-fno-pie", "-Wall", "-Wno-unused-function", "-U_FORTIFY_SOURCE", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + STAND, "-I/usr/include/cmark-gfm", '-DCORPUS="%s"' % os.path.join(HERE, "corpus.txt"), "-c", src, "-o", o])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        fs = []
        for cc in sorted(os.listdir(HERE)):
            if cc.endswith(".cc"):
                o = os.path.join(out, "h_" + cc[:-3] + ".o"); objs.append(o)
                fs.append(ex.submit(one_cc, os.path.join(HERE, cc), o))
        srcs = [os.path.join(REPO, s) for s in sources()] + [os.path.join(STAND, "shim.c")]
        srcs.sort(key=lambda s: -os.path.getsize(s))
        for s in srcs:
            o = os.path.join(out, os.path.relpath(s, "/").replace("/", "_")[:-2] + ".o"); objs.append(o)
            fs.append(ex.submit(one_c, s, o))
        libs = []
        for a in ("libcmark-gfm-extensions.a", "libcmark-gfm.a", "libyaml.a"):
            o = os.path.join(out, a); libs.append(o)
            fs.append(ex.submit(one_a, os.path.join(LIB, a), o))
        for f in fs: f.result()
    sh(["g++", "-no-pie", "-o", os.path.join(out, "simcheck.new")] + objs + libs + ["-lpthread", "-lm"])
    os.rename(os.path.join(out, "simcheck.new"), os.path.join(out, "simcheck"))

main()
