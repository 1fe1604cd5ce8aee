"""setup_cmd: nothing is installed or prebuilt (every check builds from /repo's current tree); this only verifies the toolchain."""
import shutil, subprocess, sys
if not shutil.which("g++"):
    print("g++ is missing"); sys.exit(1)
r = subprocess.run(["g++", "-std=c++20", "-fsanitize=address", "-x", "c++", "-", "-o", "/dev/null"], input="int main(){}", text=True)
sys.exit(r.returncode)
