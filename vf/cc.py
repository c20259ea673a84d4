"""Builds a C++ harness from /repo's current sources and runs its jobs."""
import concurrent.futures, json, os, pathlib, re, shlex, shutil, subprocess, sys, tempfile
from .core import VERIF, REPO

INC = ["third_party", "third_party/stb/include", "third_party/half/include", "third_party/dlpack/include",
       "third_party/xxHash/include", "third_party/xxHash/src", "third_party/utfcpp/include", "third_party/json",
       "third_party/json/include", "third_party/fmt/include"]
DEFS = ["-DFMT_HEADER_ONLY", "-DXXH_DISPATCH_ENABLE=1"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,alignment", "-fno-sanitize-recover=all"]
XXH = ["third_party/xxHash/src/xxhash.c", "third_party/xxHash/src/xxh_x86dispatch.c"]

# what a harness that uses tensors needs
CORE = ["mllm/core/Tensor.cpp", "mllm/core/TensorStorage.cpp", "mllm/core/TensorViewImpl.cpp", "mllm/core/DataTypes.cpp", "mllm/core/BaseOp.cpp",
        "mllm/core/DeviceTypes.cpp", "mllm/core/SlicePrimitives.cpp", "mllm/core/ParameterFile.cpp"]


class BuildError(Exception):
    pass


def _compile(src, obj, cmd):
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f"{src}: {p.stderr[-3000:]}")
    return obj


def build(prop, main, repo_srcs, flags=(), san=ASAN, opt="-O1", libs=(), extra=(), shim=True, wrap=("abort",), threads=False):
    """main: file below /verif/cpp; repo_srcs: files below /repo; returns the program."""
    d = VERIF / "build" / (prop if str(REPO) == "/repo" else prop + str(REPO).replace("/", "_"))
    shutil.rmtree(d, ignore_errors=True)
    d.mkdir(parents=True)
    inc = [f"-I{VERIF}/cpp"] + ([f"-I{VERIF}/cpp/shim"] if shim else []) + [f"-I{REPO}"] + [f"-I{REPO}/{i}" for i in INC]
    if threads:      # instrumented for the schedule explorer (vsched.cpp), which stands in for the sanitizer's runtime
        san = ["-fsanitize=thread"]
        extra = [*extra, f"{VERIF}/cpp/vsched.cpp"]
    base = ["-g1", opt, "-w", *DEFS, *flags, *inc, "-pthread", "-fno-omit-frame-pointer"]
    jobs = []
    for i, s in enumerate([f"{VERIF}/cpp/{m}" for m in ([main] if isinstance(main, str) else main)] + [f"{REPO}/{s}" for s in repo_srcs] + list(extra)):
        obj = str(d / f"{i}_{pathlib.Path(s).stem}.o")
        cc = ["gcc"] if s.endswith(".c") else ["g++", "-std=c++20"]
        jobs.append((s, obj, [*cc, *base, *([] if s.endswith(".c") or s.endswith("/vsched.cpp") else san), "-c", s, "-o", obj]))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _compile(*j), jobs))
    prog = str(d / "prog")
    p = subprocess.run(["g++", *(["-rdynamic"] if threads else san), "-no-pie", *objs, "-o", prog, "-pthread", *[f"-Wl,--wrap={w}" for w in wrap], "-Wl,--gc-sections",
                        "-Wl,--unresolved-symbols=ignore-in-object-files", *libs, "-ldl"], capture_output=True, text=True)
    if p.returncode:
        raise BuildError(f"link: {p.stderr[-3000:]}")
    return prog


def _crash_sig(rc, err):
    """Kind and innermost repository function of a sanitizer report or signal."""
    if "VF-HANG" in err or rc == 97:
        return "hang", "an operation did not terminate"
    fn = "?"
    for m in re.finditer(r"#\d+ \S+ in (.+?) (/\S+?):\d+", err):
        if str(REPO) + "/mllm" in m.group(2):
            fn = re.sub(r"\(.*", "", m.group(1)).strip()
            break
    m = re.search(r"AddressSanitizer: ([\w-]+)", err) or re.search(r"ThreadSanitizer: ([\w -]+)", err)
    if m:
        return f"asan:{m.group(1)}@{fn}", err[-6000:]
    m = re.search(r"(/\S+):(\d+):\d+: runtime error: (.*)", err)
    if m:
        return f"ubsan:{pathlib.Path(m.group(1)).name}:{re.sub(r'[0-9]+', '#', m.group(3))[:60]}", err[-4000:]
    return f"died:rc{rc}", err[-4000:]


def _free_as():   # the sanitizers reserve address space
    import resource
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def run_job(prog, job, timeout=800, env=None, **opt):
    """Entry for Check.run: runs one job of a harness in its own process; returns (stats, violations)."""
    with tempfile.TemporaryDirectory(prefix="vf") as t:
        e = dict(os.environ, VF_OUT=f"{t}/out", VF_JOURNAL=f"{t}/j", VF_TMP=t,
                 ASAN_OPTIONS="detect_leaks=0:handle_abort=1:detect_odr_violation=0:allocator_may_return_null=1:max_allocation_size_mb=4096",
                 UBSAN_OPTIONS="print_stacktrace=1", OMP_NUM_THREADS="1", **(env or {}))
        cmd = [prog, job] + [f"{k}={int(v)}" for k, v in opt.items()]
        try:
            p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=e, timeout=timeout, cwd=t,
                               preexec_fn=_free_as)
            rc, err = p.returncode, p.stderr + p.stdout[-2000:]
        except subprocess.TimeoutExpired as x:
            raise RuntimeError(f"{job}: no end after {timeout} s") from x
        if rc == 0 and os.path.exists(f"{t}/out"):
            st = json.load(open(f"{t}/out"))
            vs = [dict(sig=v["sig"], msg=v["msg"], cfg=dict(job=job, **opt), hist=[v["hist"]]) for v in st.pop("violations")]
            st["samples"] = [[s] for s in st["samples"]]
            return st, vs
        j = open(f"{t}/j", "rb").read().split(b"\0")[0].decode("utf8", "replace") if os.path.exists(f"{t}/j") else ""
        sig, msg = _crash_sig(rc, err)
        if rc == -9:
            raise RuntimeError(f"{job}: killed")
        return (dict(states=1, transitions=1, validated=0, exhaustive=False, samples=[]),
                [dict(sig=sig, msg=msg, cfg=dict(job=job, **opt), hist=[j])])
