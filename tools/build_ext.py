"""Builds the C++ extensions of the tree under test with the address and undefined-behaviour sanitizers, into the directory given."""
import glob, os, subprocess, sys, sysconfig
import pybind11
work = sys.argv[1]
repo = os.environ.get("STREAMTASKS_REPO", "/repo")
out = os.path.join(work, "ext")
os.makedirs(out, exist_ok=True)
inc = [pybind11.get_include(), sysconfig.get_paths()["include"]]
srcs = sorted(glob.glob(os.path.join(repo, "streamtasks", "**", "*_all.cpp"), recursive=True))
if not srcs: sys.exit("no C++ extension in the tree")
for src in srcs:
  rel = os.path.relpath(src, repo)[:-8].replace("/", ".")
  cmd = ["g++", "-std=c++17", "-shared", "-fPIC", "-g", "-O1", "-fno-omit-frame-pointer", "-fvisibility=hidden", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", *("-I" + i for i in inc), "-I", os.path.dirname(src), src, "-o", os.path.join(out, rel + ".so")]
  subprocess.run(cmd, check=True, cwd=repo)
asan = subprocess.run(["g++", "-print-file-name=libasan.so"], capture_output=True, text=True, check=True).stdout.strip()
ubsan = subprocess.run(["g++", "-print-file-name=libubsan.so"], capture_output=True, text=True, check=True).stdout.strip()
stdcpp = subprocess.run(["g++", "-print-file-name=libstdc++.so.6"], capture_output=True, text=True, check=True).stdout.strip()
open(os.path.join(work, "asan_path"), "w").write(":".join((asan, ubsan, stdcpp)))
