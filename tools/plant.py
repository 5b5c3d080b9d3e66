"""plant.py ID PROP FILE  (old/new/needs/breaks/demo read from a spec file /tmp/plants/ID.py): makes seeded/ID and confirms it in a scratch copy."""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main(spec):
    S = {}
    exec(open(spec).read(), S)
    d = os.path.join(V, "seeded", S["ID"])
    os.makedirs(d, exist_ok=True)
    wt = "/tmp/wt_plant"
    subprocess.run(["rm", "-rf", wt])
    subprocess.run(["cp", "-a", "/repo", wt], check=True)
    env = dict(os.environ, PYTHONPATH=wt + "/src", PYTHONDONTWRITEBYTECODE="1", JAX_PLATFORMS="cpu")
    open(d + "/demo.py", "w").write(S["DEMO"])
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds on the probed input\nexport JAX_PLATFORMS=cpu\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True)
    for f, old, new in S["EDITS"]:
        p = os.path.join(wt, "src/microjax", f)
        s = open(p).read()
        assert s.count(old) >= 1, ("not found", f, old)
        open(p, "w").write(s.replace(old, new, 1))
    diff = subprocess.run(["git", "-C", wt, "diff", "--", "src"], capture_output=True, text=True).stdout
    open(d + "/patch.diff", "w").write(diff)
    json.dump({"property": S["PROP"], "needs": S["NEEDS"], "what_it_breaks": S["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    r1 = subprocess.run(["bash", d + "/demo.sh"], cwd=wt, env=env, capture_output=True, text=True)
    t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "xdist", "-n", "8", "--dist", "loadfile", "--randomly-seed=12345",
                        "--randomly-dont-reorganize", "--timeout=300", "tests/unittests"], cwd=wt, env=env, capture_output=True, text=True)
    print(S["ID"], "clean", r0.returncode, "patched", r1.returncode, "|", t.stdout.strip().splitlines()[-1], "|", r1.stdout.strip()[-200:], r1.stderr.strip()[-150:])
    if r0.returncode:
        print(r0.stdout[-500:], r0.stderr[-1500:])
    ok = r0.returncode == 0 and r1.returncode != 0 and " failed" not in t.stdout.splitlines()[-1]
    subprocess.run(["rm", "-rf", wt])
    return ok


if __name__ == "__main__":
    for s in sys.argv[1:]:
        print("OK" if main(s) else "BAD")
