#!/usr/bin/env python3
"""Builds the real program (all of /repo/src except tests) plus an engine, from the current tree, into a scratch directory."""
import glob, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VP_REPO", "/repo")
CXX = "/usr/bin/g++-11" if os.path.exists("/usr/bin/g++-11") else "g++"

class BuildError(Exception):
    pass

def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-6000:])
    return p.stdout

def panda_objects(work, flags, tag, rename_main=True, only=None):
    srcs = sorted(glob.glob(REPO + "/src/*.cpp"))
    out = os.path.join(work, "obj-" + tag)
    os.makedirs(out, exist_ok=True)
    jobs = []
    for s in srcs:
        b = os.path.basename(s)
        if only is not None and b not in only:
            continue
        jobs.append((s, os.path.join(out, b[:-4] + ".o"), b == "main.cpp"))
    # biggest translation units first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    def one(j):
        s, o, is_main = j
        if os.path.exists(o):  # built for another engine of the same run (work is new for every run)
            return
        sh([CXX, "--std=c++11", "-DNDEBUG", "-w"] + flags + ["-c", s, "-o", o])
        if is_main and rename_main:
            sh(["objcopy", "--redefine-sym", "main=panda_main", o])
    return jobs, one

def build(work, engine_sources, out, flags=("-O2",), engine_flags=("-O2",), link_flags=(), tag="n", only=None, panda_flags=()):
    """engine_sources: absolute paths; compiled as C++17 with -I/verif/engine and -I/repo/src."""
    jobs, one = panda_objects(work, list(flags) + list(panda_flags), tag, only=only)
    here = os.path.dirname(os.path.abspath(__file__))
    eng = []
    def engine_one(s):
        o = os.path.join(work, "obj-" + tag, "engine_" + os.path.basename(s) + ".o")
        sh([CXX, "--std=c++17", "-w", "-I" + here, "-I" + REPO + "/src"] + list(engine_flags) + ["-c", s, "-o", o])
        return o
    with ThreadPoolExecutor(max_workers=(os.cpu_count() or 4) + 2) as ex:
        es = [ex.submit(engine_one, s) for s in engine_sources]
        ps = [ex.submit(one, j) for j in jobs]
        for f in ps: f.result()
        eng = [f.result() for f in es]
    sh([CXX] + list(flags) + eng + [j[1] for j in jobs] + ["-o", out, "-pthread"] + list(link_flags))
    return out
