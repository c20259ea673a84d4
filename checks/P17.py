"""P17: model files, exporter (pymllm/mobile/convertor) and runtime (mllm/core/ParameterFile)."""
import os, subprocess, sys, tempfile
from vf.core import Check, VERIF
from vf import cc
from vf.cc import CORE

F = VERIF / "build"


def exported(prog, shim, job, part, parts, thorough):
    """Lets the exporter write (and die) in a process of its own, then has the runtime read what it left."""
    with tempfile.TemporaryDirectory(prefix="vf") as t:
        e = dict(os.environ, LD_PRELOAD=shim, VF_DIR=t)
        p = subprocess.run([sys.executable, "-m", "vf.p17_export", job, str(part), str(parts), str(int(thorough))], env=e, cwd=t, capture_output=True, text=True)
        if p.returncode:
            raise RuntimeError(f"exporter harness {job}: {p.stderr[-3000:]}")
        st, vs = cc.run_job(prog, f"{job}-{part}", env=dict(VF_CORPUS=f"{t}/corpus"), kind=0)
        import json
        for v in json.load(open(f"{t}/bad.json")):
            vs.append(dict(sig=v["sig"], msg=v["msg"], cfg=dict(job=job), hist=[v["what"]]))
        return st, vs


def main():
    c = Check("P17", "every small set of tensors (types, shapes, layouts, names, counts up to and beyond the declared capacity) x writer (static, streamed, "
              "converter pipelines, runtime v1 and v2) x every point at which the writer dies or the disk is full x every truncation, read back by both readers",
              ["bytes inside one page reach the disk together"])
    prog = cc.build("P17", "P17.cpp", [*CORE, "mllm/core/MappedFile.cpp", "mllm/core/aops/ContiguousOp.cpp", "mllm/backends/cpu/ops/ContiguousOp.cpp", *cc.XXH],
                    flags=["-mavx2", "-mfma", "-mf16c", f"-I{cc.VERIF}/cpp/shim_kern"], wrap=("abort", "exit", "mmap"), extra=[f"{VERIF}/cpp/crashio.c"])
    shim = f"{F}/P17/crashio.so"
    subprocess.run(["gcc", "-w", "-shared", "-fPIC", "-O1", "-o", shim, f"{VERIF}/cpp/crashio.c", "-ldl"], check=True)
    J = []
    for job, parts in (("types", 3), ("names", 1), ("counts", 4), ("sets", 6), ("solver", 1), ("convert", 2)):
        for k in range(parts):
            J.append((f"export-{job}-{k}", exported, dict(prog=prog, shim=shim, job=job, part=k, parts=parts, thorough=c.thorough)))
    J.append(("runtime-one", cc.run_job, dict(prog=prog, job="runtime-one", kind=1)))
    for v in (1, 2):
        for k in range(4):
            o = dict(kind=2, v=v, part=k, parts=4, **(dict(len=3, alphabet=6, faults=1) if c.thorough else dict(len=2, alphabet=6)))
            J.append((f"runtime-v{v}-{k}", cc.run_job, dict(prog=prog, job=f"runtime-v{v}-{k}", **o)))
    c.run(J)
    c.finish()

main()
