"""setup_cmd: checks that the toolchain the checks need is there (each check builds what it runs)."""
import shutil, subprocess, sys
bad = [t for t in ("clang++", "g++", "swig", "python3", "git") if not shutil.which(t)]
if bad:
    print("missing tools:", bad)
    sys.exit(1)
p = subprocess.run(["clang++", "-x", "c++", "-fsanitize=address,undefined", "-", "-o", "/dev/null", "-lz"], input="#include <zlib.h>\nint main(){return 0;}\n", text=True)
sys.exit(p.returncode)
