"""Setup: nothing to build; checks that the specification parses and the code imports."""
import glob, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
for m in sorted(glob.glob(os.path.join(ROOT, "spec", "*.tla"))):
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", os.path.basename(m)], cwd=os.path.join(ROOT, "spec"), stdin=subprocess.DEVNULL, capture_output=True, text=True)
    if p.returncode or "*** Errors" in p.stdout or "Parse Error" in p.stdout:
        bad = 1
        print(p.stdout[-2000:])
sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo") + "/src")
import pynmeagps  # noqa: F401,E402
os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
sys.exit(bad)
