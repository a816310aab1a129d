"""Nothing to compile: parse every specification once so that a broken one is noticed early."""
import glob, os, subprocess, sys, tempfile, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
with tempfile.TemporaryDirectory() as d:
    for f in glob.glob(os.path.join(ROOT, "specs", "*.tla")):
        shutil.copy(f, d)
    fs = sorted(os.path.basename(f) for f in glob.glob(os.path.join(d, "*.tla")))
    p = subprocess.run(["java", "-cp", JARS, "tla2sany.SANY", *fs], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        print(p.stdout[-3000:]); bad = 1
sys.exit(bad)
