"""tools/mkbug.py: writes seeded/<id>/ from a Python description read on stdin:
   BUG = dict(id=..., property=..., file=..., edits=[(old, new), ...], needs=..., breaks=..., demo=...)"""
import json, subprocess, sys, pathlib
import os
R = os.environ.get("REPO", "/repo")
ns = {}
exec(sys.stdin.read(), ns)
for b in ns["BUGS"]:
    d = pathlib.Path("/verif/seeded") / b["id"]; d.mkdir(parents=True, exist_ok=True)
    files = b["file"] if isinstance(b["file"], list) else [b["file"]]
    texts = {f: pathlib.Path(R, f).read_text() for f in files}
    new = dict(texts)
    for e in b["edits"]:
        f, old, rep = (e if len(e) == 3 else (files[0], *e))
        if new[f].count(old) != 1:
            raise SystemExit(f"{b['id']}: {new[f].count(old)} matches of {old!r}")
        new[f] = new[f].replace(old, rep)
    try:
        for f in files: pathlib.Path(R, f).write_text(new[f])
        diff = subprocess.run(["git", "-C", R, "diff"], capture_output=True, text=True).stdout
    finally:
        for f in files: pathlib.Path(R, f).write_text(texts[f])
    (d / "patch.diff").write_text(diff)
    (d / "meta.json").write_text(json.dumps({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, indent=1) + "\n")
    (d / "demo.py").write_text(b["demo"].lstrip("\n"))
    (d / "demo.sh").write_text('#!/bin/bash\nexec /opt/venv/bin/python -P "$(dirname "$0")/demo.py"\n')
    print(b["id"], len(diff.splitlines()))
