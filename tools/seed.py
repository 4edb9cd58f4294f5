"""seed.py DEF.py: makes /verif/seeded/<id>/ from a definition file with
ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; `load`
from load.py available when LOAD=True), confirms it in a scratch copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

d = {}
exec(open(sys.argv[1]).read(), d)
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = os.path.join(here, "seeded", d["ID"])
os.makedirs(out, exist_ok=True)
tmp = tempfile.mkdtemp(dir="/tmp")
try:
    repo = tmp + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "checkout", "-q", "--", "."], check=True)
    for f, old, new, *n in d["EDITS"]:
        p = os.path.join(repo, f)
        s = open(p).read()
        assert s.count(old) == (n[0] if n else 1), (f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", repo, "diff"], capture_output=True,
                          text=True, check=True).stdout
    open(out + "/patch.diff", "w").write(diff)
    json.dump({"property": d["PROP"], "needs": d["NEEDS"],
               "what_it_breaks": d["BREAKS"]},
              open(out + "/meta.json", "w"), indent=1)
    open(out + "/demo.py", "w").write(d["DEMO"])
    if d.get("LOAD", True):
        for f in ("load.py", "bases.json"):
            shutil.copy(os.path.join(here, "vlib", f), out + "/" + f)
    open(out + "/demo.sh", "w").write(
        "#!/bin/bash\n"
        "export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=2\n"
        "d=\"$(cd \"$(dirname \"$0\")\" && pwd)\"\n"
        + ("export WILSON_REPO=\"$PWD\"\n" if d.get("LOAD", True) else
           "export PYTHONPATH=/opt/vp/harness:\"$PWD\"\n")
        + "exec /opt/venv/bin/python \"$d/demo.py\"\n")
    os.chmod(out + "/demo.sh", 0o755)
    a = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo",
                       capture_output=True, text=True)
    b = subprocess.run(["bash", out + "/demo.sh"], cwd=repo,
                       capture_output=True, text=True)
    print("unchanged", a.returncode, a.stdout[-200:], a.stderr[-800:])
    print("patched", b.returncode, b.stdout[-300:], b.stderr[-300:])
    shutil.copytree("/opt/vp/harness", tmp + "/h")
    h = open(tmp + "/h/wilson_partial.py").read().replace("/repo", repo)
    open(tmp + "/h/wilson_partial.py", "w").write(h)
    t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + repo)
    t = t.replace("/opt/vp/harness", tmp + "/h")
    open(tmp + "/t.sh", "w").write(t)
    t = subprocess.run(["bash", tmp + "/t.sh", tmp + "/o.json"],
                       capture_output=True, text=True)
    r = json.load(open(tmp + "/o.json"))
    print("tests", len(r["passed"]), len(r["failed"]))
    ok = a.returncode == 0 and b.returncode != 0 and len(r["passed"]) == 18
    print("KEEP" if ok else "REJECT", d["ID"])
finally:
    shutil.rmtree(tmp)
