"""Nothing to build: verify that the tools the checks need are present."""
import shutil, sys
miss = [t for t in ("clang++-18", "g++") if not shutil.which(t)]
if not shutil.which("clang++-18") and shutil.which("clang++"):
    miss = [m for m in miss if m != "clang++-18"]
import z3
print("z3", z3.get_version_string(), "missing:", miss)
sys.exit(1 if miss else 0)
