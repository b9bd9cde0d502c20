"""Nothing has to be prepared: every check builds what it needs from /repo's working tree.
This only verifies that the specifications parse and the tools are there."""
import glob
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CP = ("/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar")
bad = 0
for f in sorted(glob.glob(os.path.join(HERE, "spec", "*.tla"))):
    p = subprocess.run(["java", "-DTLA-Library=" + os.path.join(HERE, "spec"), "-cp", CP,
                        "tla2sany.SANY", f], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        print(f, p.stdout.decode()[-800:])
        bad = 1
print("specifications parse" if not bad else "a specification does not parse")
sys.exit(bad)
