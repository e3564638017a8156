#!/usr/bin/env python3
"""Model checker for the query of the package manifests.

`query.py <property> [--replay FILE]` explores a bounded space of workspaces,
each written to a scratch directory, on which the real script is run.
"""
import contextlib
import io
import itertools
import json
import os
import runpy
import shutil
import sys
import tempfile
import time

SCRIPT = "/repo/lib/util/cargo-query.py"
PACKAGES = ["osi", "sys", "tmp"]

# How a lint is configured: as text of the manifest, and whether it is allowed.
FORMS = [
    (None, False),
    ('"allow"', True),
    ('"warn"', False),
    ('"deny"', False),
    ('"forbid"', False),
    ('{ level = "allow" }', True),
    ('{ level = "warn", priority = 1 }', False),
    ('{ priority = -1, level = "allow" }', True),
    ('{ level = "deny", check-cfg = ["cfg(allow)"] }', False),
]
NAMES = ["a", "unused-imports", "unused_imports", "Z", "_x", "a1_2", '"quoted"', "x" * 200, "clippy", "level", "rust"]
VERSIONS = ["1.0.0", "0.1.0", "10.20.30", "2.0.0-rc.1+allow"]


def manifest(lints, spread):
    """The manifest of a workspace with the given lints of each group."""
    out = ['[workspace]\nmembers = ["lib/osi", "lib/sys", "lib/tmp"]\n']
    for group in ["clippy", "rust"]:
        out.append("[workspace.lints.%s]\n" % group)
        for name, form in lints[group]:
            text = FORMS[form][0]
            if text is not None and not (spread and text.startswith("{")):
                out.append("%s = %s\n" % (name, text))
        for name, form in lints[group]:
            text = FORMS[form][0]
            if text is not None and spread and text.startswith("{"):
                # The same as a separate table.
                out.append("[workspace.lints.%s.%s]\n" % (group, name))
                depth, start = 0, 1
                for i, ch in enumerate(text):
                    depth += (ch in "[{") - (ch in "]}")
                    if (ch == "," and depth == 1) or depth == 0:
                        out.append(text[start:i].strip() + "\n")
                        start = i + 1
    return "".join(out)


def package(name, version):
    return '[package]\nname = "%s"\nversion = "%s"\n\n[lints]\nworkspace = true\n' % (name, version)


def expected(lints, versions):
    allowed = ["clippy::" + n.strip('"') for n, f in lints["clippy"] if FORMS[f][1]]
    allowed += [n.strip('"') for n, f in lints["rust"] if FORMS[f][1]]
    return list(versions), sorted(map(known, allowed))


def known(name):
    """The name of a lint as the compiler knows it."""
    return name.replace("-", "_")


def cases(thorough):
    """Everything that is explored, as (section, case)."""
    forms = range(len(FORMS))
    plain = ["1.0.0", "1.0.1", "1.0.2"]
    # All configurations of two lints of each group, in both spellings.
    n = 0
    for spread in [False, True]:
        for a, b, c, d in itertools.product(forms, repeat=4):
            if spread and not thorough and (b, d) not in [(0, 0), (5, 5), (7, 7), (1, 1), (2, 5)]:
                continue
            lints = {"clippy": [("a_b", a), ("allow", b)], "rust": [("a_b", c), ("z", d)]}
            yield "lints", n, lints, plain, spread, True
            n += 1
    # All kinds of names, at any place in the list of lints.
    n = 0
    for order in itertools.permutations(NAMES, 3):
        for form in [1, 5]:
            for group in ["clippy", "rust"]:
                lints = {"clippy": [], "rust": [], group: [(name, form) for name in order]}
                yield "names", n, lints, plain, form == 5, True
                n += 1
    # All combinations of versions, with the directory given or not.
    n = 0
    for v in itertools.product(VERSIONS, repeat=3):
        for given in [True, False]:
            yield "versions", n, {"clippy": [("a", 1)], "rust": []}, list(v), False, given
            n += 1
    # Many lints.
    n = 0
    for size in list(range(40)) + [100, 255, 256, 257, 1000]:
        for form in [1, 5]:
            for split in [0, size // 2, size]:
                lints = {
                    "clippy": [("c%d" % i, form if i % 3 else 2) for i in range(split)],
                    "rust": [("r%d" % i, form if i % 3 else 2) for i in range(size - split)],
                }
                yield "many", n, lints, plain, False, True
                n += 1


class Space:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="mc-query-")
        self.files = {}
        self.writes = 0

    def write(self, path, text):
        if self.files.get(path) == text:
            return
        full = os.path.join(self.dir, path)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, "w") as f:
            f.write(text)
        self.files[path] = text
        self.writes += 1

    def run(self, given):
        out = io.StringIO()
        os.environ.pop("PATH_WS", None)
        if given:
            os.environ["PATH_WS"] = self.dir
            os.chdir("/")
        else:
            os.chdir(self.dir)
        with contextlib.redirect_stdout(out):
            runpy.run_path(SCRIPT, run_name="__main__")
        return out.getvalue()

    def remove(self):
        os.chdir("/")
        shutil.rmtree(self.dir)


def decide(space, lints, versions, spread, given):
    """Run one case, and tell what is wrong."""
    space.write("Cargo.toml", manifest(lints, spread))
    for name, version in zip(PACKAGES, versions):
        space.write("lib/%s/Cargo.toml" % name, package(name, version))
    try:
        text = space.run(given)
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return "the query failed with %r" % e
    want, allowed = expected(lints, versions)
    if not text.endswith("\n"):
        return "the last line is not terminated: %r" % text
    lines = text[:-1].split("\n")
    if len(lines) != 4:
        return "%d lines instead of 4: %r" % (len(lines), text)
    if lines[:3] != want:
        return "versions: observed %r, expected %r" % (lines[:3], want)
    got = sorted(map(known, lines[3].split(","))) if lines[3] else []
    if got != allowed:
        return "lints: observed %r, expected %r" % (got, allowed)
    return None


def describe(section, n, lints, versions, spread, given):
    def show(group):
        return ["%s = %s" % (k, FORMS[f][0]) for k, f in lints[group][:10] if FORMS[f][0]]
    return "%s #%d: clippy %s, rust %s, versions %s, separate tables %s, directory given %s" % (
        section, n, show("clippy"), show("rust"), versions, spread, given)


def main():
    base = os.environ.get("VERIF_BASE", "/verif")
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = sys.argv[1]
    only = None
    if sys.argv[2:3] == ["--replay"]:
        fields = dict(l.rstrip("\n").split("=", 1) for l in open(sys.argv[3]) if "=" in l)
        only = (fields["section"], int(fields["index"]))
        tier = fields["tier"]
    if not os.path.isfile(SCRIPT):
        print("query.py: no script to check", file=sys.stderr)
        return 2
    start = time.time()
    states, traces, samples, sections = set(), 0, [], {}
    found = None
    space = Space()
    try:
        for case in cases(tier == "thorough"):
            if only and case[:2] != only:
                continue
            what = decide(space, *case[2:])
            traces += 1
            states.add(json.dumps(case[2:]))
            sections[case[0]] = sections.get(case[0], 0) + 1
            if case[1] % 997 == 5 and len(samples) < 12:
                samples.append(describe(*case))
            if what:
                found = (case, what)
                break
    finally:
        writes = space.writes
        space.remove()
    if only is None:
        os.makedirs(os.path.join(base, "evidence"), exist_ok=True)
        with open(os.path.join(base, "evidence", prop + ".json"), "w") as f:
            json.dump({
                "property": prop,
                "tier": tier,
                "seed": seed,
                "level": "model_checking",
                "coverage": {
                    "states": len(states),
                    "transitions": writes,
                    "traces_validated_against_impl": traces,
                    "exhaustive": found is None,
                    "sections": sections,
                    "samples": samples,
                },
                "wall_s": round(time.time() - start, 3),
            }, f, indent=1)
            f.write("\n")
    if found:
        case, what = found
        path = os.path.join(base, "replays", "%s-%s-%d.txt" % (prop, case[0], case[1]))
        if only is None:
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write("property=%s\ntier=%s\nsection=%s\nindex=%d\ncase=%s\nmessage=%s\n" % (
                    prop, tier, case[0], case[1], describe(*case), what))
        print("case: " + describe(*case))
        print("what: " + what)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if only:
        print("replay: no violation")
    else:
        print("property %s held: %d states, %d transitions, %d traces" % (prop, len(states), writes, traces))
    return 0


sys.exit(main())
