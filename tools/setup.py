#!/usr/bin/env python3
"""setup_cmd: nothing to prebuild (each check compiles its monitor from /repo's working tree); verify the tools are there."""
import subprocess, sys, tempfile, os
d = tempfile.mkdtemp()
s = os.path.join(d, "a.cpp"); open(s, "w").write("int main(){return 0;}")
r = subprocess.run(["/usr/bin/clang++", "-std=c++20", "-fsanitize=address,undefined", s, "-o", os.path.join(d, "a")])
ok = r.returncode == 0 and subprocess.run([os.path.join(d, "a")]).returncode == 0
for f in ("a", "a.cpp"):
    try: os.remove(os.path.join(d, f))
    except OSError: pass
os.rmdir(d)
sys.exit(0 if ok else 1)
