#!/usr/bin/env python3
"""mkseed.py ID PROPERTY NEEDS WHAT: makes seeded/ID from /tmp/v/seed/{patch.diff,demo_test.go}; takes the diff of /repo's working tree when patch.diff is absent, and undoes it."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def kit(d):
    k = os.path.join(d, "kit"); shutil.rmtree(k, ignore_errors=True); os.makedirs(k + "/pki")
    for f in ("memnet.go", "msgtypes.go", "wire.go", "status.go", "env.go"):
        shutil.copy(os.path.join(V, "harness", f), k)
    shutil.copy(V + "/tools/seedkit/subkit.go", k)
    for f in os.listdir(os.path.join(V, "harness/testdata/pki")):
        shutil.copy(os.path.join(V, "harness/testdata/pki", f), k + "/pki")
    shutil.copy(os.path.join(V, "tools/seedkit/demo.sh"), d); os.chmod(d + "/demo.sh", 0o755)
if __name__ == "__main__":
    if sys.argv[1] == "--refresh":
        for i in sorted(os.listdir(V + "/seeded")): kit(os.path.join(V, "seeded", i))
        sys.exit()
    i, prop, needs, what = sys.argv[1:5]
    d = os.path.join(V, "seeded", i); os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
    assert diff, "no change in /repo"
    open(d + "/patch.diff", "w").write(diff)
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    shutil.copy("/tmp/v/seed/demo_test.go", d)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=what), open(d + "/meta.json", "w"), indent=1)
    kit(d)
