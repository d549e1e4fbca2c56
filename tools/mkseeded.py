#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds/<id>.rs: a head of //! lines (property, needs, breaks, feat, sfeat),
edits between `/*EDIT file`, `===`, `*/` and the demo's main.rs."""
import json, os, re, shutil, subprocess, sys, glob
V = "/verif"
def main(names):
    for f in sorted(glob.glob(f"{V}/tools/seeds/*.rs")):
        i = os.path.basename(f)[:-3]
        if names and i not in names: continue
        src = open(f).read()
        head = dict(re.findall(r"^//! (\w+): (.*)$", src, re.M))
        edits = re.findall(r"/\*EDIT (\S+)\n(.*?)\n?===\n(.*?)\n?\*/", src, re.S)
        body = re.sub(r"/\*EDIT .*?\n\*/\n", "", src, flags=re.S)
        body = re.sub(r"^//! .*\n", "", body, flags=re.M)
        files = set()
        try:
            for fn, old, new in edits:
                p = "/repo/" + fn
                t = open(p).read()
                assert t.count(old) == 1, (i, fn, t.count(old), old)
                open(p, "w").write(t.replace(old, new))
                files.add(fn)
            diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
        d = f"{V}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        open(f"{d}/main.rs", "w").write(body.lstrip())
        k = f"{V}/tools/demokit"
        ct = open(f"{k}/Cargo.toml.in").read()
        feat = "".join(f', "{x}"' for x in head.get("feat", "").split())
        sf = head.get("sfeat", "").split()
        ct = ct.replace("@FEAT@", feat).replace("@SFEAT@", ", features = [" + ", ".join(f'"{x}"' for x in sf) + "]" if sf else "")
        ct = ct.replace("@DEPS@", head.get("deps", "").replace("|", "\n"))
        open(f"{d}/Cargo.toml.in", "w").write(ct)
        for x in ("kit.rs", "demo.sh"): shutil.copy(f"{k}/{x}", f"{d}/{x}")
        os.chmod(f"{d}/demo.sh", 0o755)
        shutil.copy(f"{V}/harness/Cargo.lock", f"{d}/Cargo.lock")
        json.dump({"property": head["property"], "needs": head["needs"], "what_it_breaks": head["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        print(i, head["property"], len(diff.splitlines()))
main(sys.argv[1:])
