"""Builds of the library, the tool and the monitors, from /repo's working tree.

Objects are cached by the content of everything that goes into them, so a
changed source or header is always recompiled and an unchanged one never is.
"""
import glob
import hashlib
import os
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
JOBS = max(2, min(8, os.cpu_count() or 2))

FULL = ["-DFDUMP_DEFINE", "-DRTP_DEFINE", "-DFPRINT_ERRORS"]
SMALL = ["-DSMALL_FOOTPRINT"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-gline-tables-only"]

# name: compiler, common flags, library flags, harness flags, sources, defines
VARIANTS = {
    "plain": dict(cc="clang++", flags=["-O2"], defs=FULL, src="mon"),
    "asan": dict(cc="clang++", flags=["-O1"] + SAN, defs=FULL, src="mon"),
    # a release build: no assertion stands between an argument and the code
    "plain_rel": dict(cc="clang++", flags=["-O2", "-DNDEBUG"], defs=FULL, src="bits"),
    "asan_rel": dict(cc="clang++", flags=["-O2", "-DNDEBUG"] + SAN, defs=FULL, src="mon"),
    "tsan": dict(cc="clang++", flags=["-O1", "-fsanitize=thread", "-gline-tables-only"],
                 defs=FULL, src="threads"),
    # differential builds
    "d_clang_o0": dict(cc="clang++", flags=["-O0"], defs=FULL, src="digest"),
    "d_clang_o3": dict(cc="clang++", flags=["-O3"], defs=FULL, src="digest"),
    "d_gcc_o2": dict(cc="g++", flags=["-O2"], defs=FULL, src="digest"),
    "d_pattern": dict(cc="clang++", flags=["-O1", "-ftrivial-auto-var-init=pattern"], defs=FULL,
                      src="digest"),
    "d_zero": dict(cc="clang++", flags=["-O1", "-ftrivial-auto-var-init=zero"], defs=FULL,
                   src="digest"),
    "d_release": dict(cc="g++", flags=["-O3", "-DNDEBUG"], defs=FULL, src="digest"),
    "d_small": dict(cc="clang++", flags=["-O2"], defs=SMALL, src="digest", small=True),
    # resource accounting
    "count": dict(cc="clang++", flags=["-O1"], lib=["-fsanitize-coverage=trace-pc-guard"],
                  defs=FULL, src="resource"),
    # for valgrind
    "vg": dict(cc="g++", flags=["-O1", "-g"], defs=FULL, src="mon"),
    # the command line tool
    "tool": dict(cc="g++", flags=["-O1", "-g"], defs=FULL, src="tool"),
    "tool_small": dict(cc="g++", flags=["-O2"], defs=SMALL, src="tool", small=True),
    "tool_asan": dict(cc="clang++", flags=["-O1"] + SAN, defs=FULL, src="tool"),
}
HARNESS = {
    "mon": ["main.cc", "mon_syntax.cc", "mon_bytes.cc", "mon_dump.cc", "mon_hostile.cc",
            "mon_export.cc", "mon_tool.cc", "mon_dpb.cc", "mon_entry.cc",
            "mon_media.cc"],
    "bits": ["main.cc", "mon_bytes.cc"],
    "threads": ["main.cc", "mon_threads.cc"],
    "digest": ["main.cc", "mon_digest.cc"],
    "resource": ["main.cc", "mon_resource.cc"],
}


class BuildError(Exception):
    pass


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]


def _read(p):
    with open(p, "rb") as f:
        return f.read()


_hcache = {}


def _headers_digest(dirs, exts=(".h", ".hpp", ".inc", ".hh", ".in", ".def")):
    key = tuple(dirs)
    if key not in _hcache:
        h = []
        for d in dirs:
            for f in sorted(glob.glob(os.path.join(d, "*"))):
                if f.endswith(exts):
                    h += [os.path.relpath(f, d), _read(f)]
        _hcache[key] = _sha(*h)
    return _hcache[key]


def lib_sources(small):
    srcs = sorted(glob.glob(os.path.join(REPO, "src", "*.cc")))
    if small:
        srcs = [s for s in srcs if "_rtp_" not in os.path.basename(s)]
    return srcs


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout.decode(errors="replace")[-6000:])


def _config_dir():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "config.h")
    text = ('#pragma once\n#define PROJECT_NAME "h264nal"\n#define PROJECT_VERSION "0.0"\n'
            '#define PROJECT_VERSION_MAJOR "0"\n#define PROJECT_VERSION_MINOR "0"\n')
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)
    return d


def prepare(names):
    """Build the named variants; returns {name: path of the executable}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    gen = _config_dir()
    inc = ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-I" + gen]
    repo_h = _headers_digest([os.path.join(REPO, "include"), os.path.join(REPO, "src"),
                              os.path.join(REPO, "tools")])
    mon_h = _headers_digest([os.path.join(HERE, "harness")])
    jobs = {}
    links = {}
    for name in names:
        v = VARIANTS[name]
        objs = []

        def add(src, flags, hdig):
            cmd = [v["cc"]] + flags + inc
            key = _sha(_read(src), hdig, *cmd)
            obj = os.path.join(BUILD, "obj", key + ".o")
            objs.append(obj)
            if not os.path.exists(obj):
                jobs[obj] = cmd + ["-c", src, "-o"]
        for s in lib_sources(v.get("small")):
            add(s, ["-std=c++14"] + v["flags"] + v.get("lib", []) + v["defs"], repo_h)
        if v["src"] == "tool":
            add(os.path.join(REPO, "tools", "h264nal.cc"),
                ["-std=c++20" if v["cc"] == "clang++" else "-std=c++20"] + v["flags"] + v["defs"] +
                ["-w"], repo_h)
        else:
            for s in HARNESS[v["src"]]:
                p = os.path.join(HERE, "harness", s)
                if os.path.exists(p):
                    add(p, ["-std=c++17"] + v["flags"] + v["defs"] + v.get("harness", []),
                        _sha(repo_h, mon_h))
        key = _sha(name, *objs)
        exe = os.path.join(BUILD, "bin", "%s-%s" % (name, key[:16]))
        san = [f for f in v["flags"] if f.startswith("-fsanitize")]
        links[name] = (exe, [v["cc"]] + san + objs + ["-lpthread", "-o"])

    def compile_one(item):
        obj, cmd = item
        tmp = "%s.%d.tmp" % (obj, os.getpid())
        _run(cmd + [tmp])
        os.replace(tmp, obj)

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(compile_one, jobs.items()))

    def link_one(item):
        exe, cmd = item
        if not os.path.exists(exe):
            tmp = "%s.%d.tmp" % (exe, os.getpid())
            _run(cmd + [tmp])
            os.replace(tmp, exe)

    with ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link_one, links.values()))
    # old objects and binaries: keep the cache small
    _trim(os.path.join(BUILD, "obj"), 1500)
    _trim(os.path.join(BUILD, "bin"), 40)
    return {n: links[n][0] for n in names}


def prepare_if_it_builds(name):
    """A configuration the repository's own build leaves out: that it compiles
    is not what the properties are about, so without it there is just less to
    run."""
    try:
        return prepare([name])[name]
    except BuildError as e:
        sys.stderr.write("note: %s does not build, left out\n%s\n" % (name, str(e)[-1500:]))
        return None


def _trim(d, keep):
    try:
        fs = [os.path.join(d, f) for f in os.listdir(d)]
        if len(fs) <= keep:
            return
        fs.sort(key=os.path.getmtime)
        for f in fs[:len(fs) - keep]:
            os.unlink(f)
    except OSError:
        pass
