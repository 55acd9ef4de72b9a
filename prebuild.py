"""Extract and compile every harness once (setup)."""
import os, check
os.makedirs("build/work", exist_ok=True)
for n in check.harnesses():
    w = check.harness_crate(n)
    d = check.native_crate(w)
    rc, o, e = check.sh([check.VX, "native", "native/%s.rs" % n, os.path.join(d, "src/bin", n + ".rs"), "build/work/%s.json" % n, check.REPO], 60)
    print(n, rc, e[-300:])
for w in sorted({check.harness_crate(n) for n in check.harnesses()}):
    d = check.native_crate(w)
    rc, o, e = check.sh(["cargo", "build", "--offline", "--keep-going"], 900, cwd=d, env=dict(check.ENV, CARGO_TARGET_DIR=os.path.join(check.BUILD, "target" if w == "native" else "target_" + w), REPO_DIR=check.REPO))
    print("build", w, rc, e[-300:] if rc else "")
