"""mk(id, property, edits, needs, breaks, main): write /verif/seeded/<id> (the patch is computed from textual edits)."""
import os, subprocess, json, shutil
def mk(id, prop, edits, needs, breaks, main):
    d = f"/verif/seeded/{id}"
    subprocess.check_call(["/verif/tools/seed/new.sh", id])
    w = "/tmp/seedw"
    subprocess.call(["git", "-C", "/repo", "worktree", "prune"])
    if os.path.exists(w): shutil.rmtree(w)
    subprocess.check_call(["git", "clone", "-q", "--no-hardlinks", "/repo", w])
    for f, old, new in edits:
        p = f"{w}/{f}"; s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output(["git", "-C", w, "diff"]).decode()
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/meta.json", "w").write(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    open(f"{d}/main.rs", "w").write(main)
    shutil.rmtree(w)
