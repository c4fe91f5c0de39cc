"""setup_cmd: nothing is kept between runs; only confirms that the toolchain is there."""
import shutil
import subprocess
import sys

for t in ("g++", "java"):
    if not shutil.which(t):
        sys.exit("missing " + t)
subprocess.run(["java", "-version"], check=True, stderr=subprocess.DEVNULL)
print("ready")
