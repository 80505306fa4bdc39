"""setup: parse every TLA+ module and import the code under test"""
import os, subprocess, sys, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
SPEC = os.path.join(os.path.dirname(HERE), "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
bad = 0
d = tempfile.mkdtemp()
try:
    mods = sorted(f for f in os.listdir(SPEC) if f.endswith(".tla"))
    for f in mods:
        shutil.copy(os.path.join(SPEC, f), d)
    for f in mods:
        p = subprocess.run(["java", f"-Djava.io.tmpdir={d}", "-cp", JARS, "tla2sany.SANY", f], cwd=d, capture_output=True, text=True)
        if p.returncode or "error" in (p.stdout + p.stderr).lower().replace("semantic errors:\n\n***", "error"):
            if p.returncode or "*** Errors" in p.stdout or "Fatal" in p.stdout:
                print(f, p.stdout[-2000:], p.stderr[-2000:])
                bad = 1
finally:
    shutil.rmtree(d)
import bd
bd.load()
shutil.rmtree(bd.SCRATCH(), ignore_errors=True) if os.environ.get("VERIF_SCRATCH") else None
print("setup ok" if not bad else "setup failed")
sys.exit(bad)
