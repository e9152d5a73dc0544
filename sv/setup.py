"""Checks that the tools the analyses need are present. Nothing is built ahead of a check."""
import os, shutil, subprocess, sys
need = ["/usr/lib/llvm-18/bin/clang++", "/usr/lib/llvm-18/bin/opt", "/usr/lib/llvm-18/bin/llvm-cxxfilt"]
missing = [p for p in need if not os.path.exists(p)] + [p for p in ("g++",) if not shutil.which(p)]
if missing:
    sys.exit("missing: " + " ".join(missing))
print("tools present")
