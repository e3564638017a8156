"""Write a planted bug directory from a list of textual edits."""
import difflib
import json
import os
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
BASE = os.path.dirname(os.path.dirname(HERE))


def mk(id, prop, edits, needs, breaks, demo, script="demo.sh"):
    files = {}
    for path, old, new in edits:
        cur = files.get(path) or (open("/repo/" + path).read(),) * 2
        assert cur[1].count(old) == 1, (id, path, cur[1].count(old), old)
        files[path] = (cur[0], cur[1].replace(old, new))
    diff = ""
    for path, (a, b) in files.items():
        diff += "diff --git a/%s b/%s\n" % (path, path)
        diff += "".join(difflib.unified_diff(
            a.splitlines(True), b.splitlines(True), "a/" + path, "b/" + path))
    d = os.path.join(BASE, "seeded", id)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(demo.lstrip("\n"))
    shutil.copy(HERE + "/" + script, d + "/demo.sh")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
              open(d + "/meta.json", "w"), indent=1)
    open(d + "/meta.json", "a").write("\n")
