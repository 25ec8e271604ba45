"""Builds the fact extractor and runs it over the translation units of /repo's working tree."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VSA_REPO", "/repo")
SRC = os.path.join(REPO, "src")
LLVM = "/usr/lib/llvm-18"

COMMON = ["-std=c++14", "-I" + SRC,
          "-I" + REPO + "/3rd/include/oscpkt", "-I" + REPO + "/3rd/ffts/include", "-I" + REPO + "/3rd/kissfft",
          "-isystem", REPO + "/3rd/pybind11/include", "-isystem", "/usr/include/python3.12",
          "-DVISR_MAJOR_VERSION=0", "-DVISR_MINOR_VERSION=13", "-DVISR_PATCH_VERSION=0",
          "-DVISR_PLATFORM_NAME_linux_x86_64", "-DVISR_SYSTEM_NAME_Linux", "-DVISR_SYSTEM_PROCESSOR_x86_64",
          "-DVISR_AUDIOINTERFACES_JACK_SUPPORT", "-DVISR_AUDIOINTERFACES_PORTAUDIO_SUPPORT",
          "-DVISR_PML_USE_SNDFILE_LIBRARY=1", "-DBUILD_FFTS", "-DVISR_PYTHON_SUPPORT=1",
          "-DPYBIND11_DIR=" + REPO + "/3rd/pybind11", "-DVISR_PYBIND11_VERSION=2.13.6", "-DVISR_PYTHON_VERSION=3.12",
          "-DCMAKE_CURRENT_SOURCE_DIR=\"" + REPO + "/src\"",
          "-fPIC", "-w", "-ferror-limit=3"]

# Files of the libraries that are not part of this platform's build (other platforms, missing third-party packages).
NOT_BUILT = {
    "libefl/armv7l_neon_32bit", "libefl/arm_aarch64", "libefl/ipp",
}


def lib_sources(libs):
    """All non-test C++ sources of the given libraries (paths relative to src/)."""
    out = []
    for lib in libs:
        p = os.path.join(SRC, lib)
        if os.path.isfile(p):
            out.append(p)
            continue
        for d, dirs, files in os.walk(p):
            dirs[:] = [x for x in dirs if x not in ("test", "tests")]
            rel = os.path.relpath(d, SRC)
            if any(rel == n or rel.startswith(n + "/") for n in NOT_BUILT):
                continue
            for f in sorted(files):
                if f.endswith(".cpp"):
                    out.append(os.path.join(d, f))
    skip = ("ipp_fft_wrapper.cpp", "runtime_profiler.cpp")
    return [f for f in sorted(set(out)) if os.path.basename(f) not in skip and _listed(f)]


_cm = {}


def _listed(f):
    """True if the build system mentions the file (a stray source that is not built is not part of the program)."""
    d = os.path.dirname(f)
    base = os.path.basename(f)
    while len(d) >= len(SRC):
        if d not in _cm:
            try:
                _cm[d] = open(os.path.join(d, "CMakeLists.txt"), errors="replace").read()
            except OSError:
                _cm[d] = ""
        import re
        if re.search(r"(^|[\s/\"(])" + re.escape(base) + r"($|[\s\")])", _cm[d], re.M):
            return True
        d = os.path.dirname(d)
    return False


def simd_variants(f):
    rel = os.path.relpath(f, SRC)
    if rel in ("libefl/intel_x86_64/vector_multiply.cpp", "libefl/intel_x86_64/vector_multiply_add.cpp",
               "libefl/intel_x86_64/vector_ramp_scaling.cpp"):
        return [["-DVISR_SIMD_FEATURE=FMA", "-mfma", "-mavx2", "-mavx", "-msse4.2"],
                ["-DVISR_SIMD_FEATURE=AVX", "-mavx"], ["-DVISR_SIMD_FEATURE=SSE", "-msse4.2"]]
    return [[]]


def tool_path():
    src = os.path.join(VERIF, "tool", "vsa.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    bindir = os.path.join(VERIF, ".build")
    exe = os.path.join(bindir, "vsa-" + h)
    if os.path.exists(exe):
        return exe
    os.makedirs(bindir, exist_ok=True)
    fd, tmp = tempfile.mkstemp(dir=bindir)
    os.close(fd)
    cxx = "/usr/bin/clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++"
    cmd = [cxx, "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS",
           "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I" + LLVM + "/include", src, "-o", tmp,
           "-L" + LLVM + "/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout)
        raise SystemExit(2)
    os.chmod(tmp, 0o755)
    os.replace(tmp, exe)
    return exe


def resource_dir():
    return LLVM + "/lib/clang/18"


def run_group(args):
    exe, fs, extra, out = args
    cmd = [exe, SRC + "/", out] + fs + ["--"] + COMMON + ["-resource-dir", resource_dir()] + extra
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    return fs, extra, r.returncode, r.stderr


class ExtractError(Exception):
    pass


def extract(files, jobs=None, extra=None):
    """Returns a list of parsed TU fact dictionaries."""
    exe = tool_path()
    tmp = tempfile.mkdtemp(prefix="vsa.")
    n = jobs or os.cpu_count() or 4
    plain = []
    tasks = []
    for f in files:
        for var in simd_variants(f):
            if var:
                tasks.append((exe, [f], var + (extra or []), None))
            else:
                plain.append(f)
    ngroups = max(1, min(len(plain), n * 2))
    groups = [[] for _ in range(ngroups)]
    # files of one directory share headers: deal them out in consecutive runs
    for i, f in enumerate(plain):
        groups[i * ngroups // max(1, len(plain))].append(f)
    tasks += [(exe, g, list(extra or []), None) for g in groups if g]
    tasks = [(e, fs, x, os.path.join(tmp, "%d.json" % i)) for i, (e, fs, x, _o) in enumerate(tasks)]
    res = []
    errs = []
    try:
        with cf.ThreadPoolExecutor(max_workers=n) as ex:
            for (fs, var, rc, err), t in zip(ex.map(run_group, tasks), tasks):
                if rc != 0:
                    errs.append((" ".join(fs), err[-3000:]))
                    continue
                with open(t[3]) as fh:
                    for d in json.load(fh):
                        d["variant"] = var
                        res.append(d)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if errs:
        for f, e in errs:
            sys.stderr.write("vsa: cannot analyse %s:\n%s\n" % (f, e))
        raise ExtractError("%d group(s) do not compile: %s" % (len(errs), ", ".join(e[0] for e in errs)))
    return res


ALL_LIBS = ["libvisr", "libefl", "librbbl", "libpml", "libobjectmodel", "librrl", "librcl", "libpanning", "libpanningdsp",
            "libreverbobject", "libsignalflows", "libsignalflowspython", "libaudiointerfaces", "libapputilities",
            "libpythonsupport", "libpythoncomponents"]

if __name__ == "__main__":
    import time
    t = time.time()
    fs = lib_sources(sys.argv[1:] or ALL_LIBS)
    r = extract(fs)
    print(len(fs), "files", sum(len(x["funcs"]) for x in r), "functions", "%.1fs" % (time.time() - t))
