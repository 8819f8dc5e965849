"""Command prefixes of the Python workloads: interpreter, module path and, for the sanitized module, the sanitizer runtime."""
import os, subprocess

def command(B, script, variant="gasan", tools=()):
    d = B.build_python(variant)
    extra_env = []
    for t in tools:
        exe = B.build("dump.cpp", "plain") if t == "dump" else B.build_tool(t, "asan")
        extra_env.append("VERIF_%s=%s" % (t.upper(), exe))
    env = ["PYTHONPATH=%s:%s:%s" % (d, B.REPO + "/src/tools", os.path.join(B.VERIF, "py")), "PYTHONDONTWRITEBYTECODE=1", "PYTHONHASHSEED=0", "PYTHONUTF8=1"] + list(extra_env)
    if variant == "gasan":
        lib = subprocess.check_output(["g++", "-print-file-name=libasan.so"], text=True).strip()
        std = subprocess.check_output(["g++", "-print-file-name=libstdc++.so.6"], text=True).strip()
        env += ["LD_PRELOAD=%s %s" % (os.path.realpath(lib), os.path.realpath(std)), "PYTHONMALLOC=malloc"]
    return ["/usr/bin/env"] + env + [B.PY, os.path.join(B.VERIF, "py", script)]
