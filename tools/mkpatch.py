"""mkpatch.py ID file <<< 'OLD\n=====\nNEW' ... makes seeded/ID/patch.diff from text replacements.

stdin: blocks 'FILE: path' / old / '=====' / new / '#####'."""
import os, subprocess, sys
pid = sys.argv[1]
W = "/tmp/x/mk"
subprocess.check_call(["git", "-C", W, "fetch", "-q", "/repo", "HEAD"])
subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "FETCH_HEAD"])
src = sys.stdin.read()
for blk in src.split("\n#####\n"):
    if not blk.strip():
        continue
    head, _, body = blk.strip("\n").partition("\n")
    f = os.path.join(W, "python/xoscar", head.split("FILE:")[1].strip())
    old, _, new = body.partition("\n=====\n")
    if body.endswith("\n====="):
        old, new = body[: -len("\n=====")], ""
    t = open(f).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(f, "w").write(t.replace(old, new))
d = subprocess.check_output(["git", "-C", W, "diff"], text=True)
os.makedirs(f"/verif/seeded/{pid}", exist_ok=True)
open(f"/verif/seeded/{pid}/patch.diff", "w").write(d)
subprocess.check_call(["git", "-C", W, "checkout", "-q", "-f", "."])
print(d.count("\n+") - 1, "lines added")
