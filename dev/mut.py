#!/usr/bin/env python3
"""Development aid: run checks against textual mutants (and equivalent rewrites)
of a scratch copy of /repo.   mut.py FILE.mut...   each file holds blocks
  ## <check ids, comma separated> <bug|eq> <path> [#occurrence]
  <old text>
  ==>
  <new text>
A mutant marked bug must exit 1, one marked eq must exit 0."""
import os, shutil, subprocess, sys, tempfile, concurrent.futures
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blocks(f):
    cur = None
    for line in open(f):
        if line.startswith("## "):
            if cur:
                yield cur
            cur = [line[3:].split(), ""]
        elif cur is not None:
            cur[1] += line
    if cur:
        yield cur


def parse(f, only):
    r = []
    for i, (h, body) in enumerate(blocks(f)):
        old, new = body.split("\n==>\n") if "\n==>\n" in body else (body.split("==>\n")[0], body.split("==>\n")[1])
        ids = h[0].split(",")
        occ = 1
        for x in h[3:]:
            if x.startswith("#"):
                occ = int(x[1:])
        r.append((os.path.basename(f) + ":%d" % (i + 1), ids, h[1], h[2], old.rstrip("\n"), new.rstrip("\n"), occ))
    return [x for x in r if not only or x[0].split(":")[1] in only]


def one(m):
    name, ids, kind, path, old, new, occ = m
    d = tempfile.mkdtemp(prefix="mut.")
    out = []
    try:
        repo = os.path.join(d, "repo")
        subprocess.run("mkdir %s; cd /repo && git archive HEAD | tar x -C %s" % (repo, repo), shell=True, check=True)
        p = os.path.join(repo, path)
        s = open(p).read()
        if s.count(old) < occ:
            return [(name, "?", "OLD TEXT NOT FOUND in " + path)]
        i = -1
        for _ in range(occ):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
        env = dict(os.environ, POLY_REPO=repo, POLY_CACHE=os.path.join(d, "cache"), POLY_EVID=os.path.join(d, "ev"), POLY_TUCACHE="/tmp/tucache")
        os.makedirs(os.path.join(d, "cache"))
        for x in os.listdir(os.path.join(HERE, ".cache")):
            if x.startswith("polyx-"):
                shutil.copy(os.path.join(HERE, ".cache", x), os.path.join(d, "cache", x))
        for c in ids:
            r = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), c], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, cwd=d)
            want = 1 if kind == "bug" else 0
            lines = [l for l in r.stdout.splitlines() if l.startswith("  ") or "NO ANSWER" in l or "Error" in l][:4]
            out.append((name, c, ("ok  " if r.returncode == want else "FAIL rc=%d want=%d" % (r.returncode, want)) + " " + (" || ".join(x[:230] for x in lines))))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out


if __name__ == "__main__":
    ms = []
    only = set()
    for a in sys.argv[1:]:
        if a.isdigit():
            only.add(a)
    for a in sys.argv[1:]:
        if not a.isdigit():
            ms += parse(a, only)
    bad = 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get('J', '4'))) as ex:
        for rs in ex.map(one, ms):
            for r in rs:
                if not r[2].startswith("ok"):
                    bad += 1
                print("%-14s %s %s" % r, flush=True)
    print("%d mutants, %d unexpected" % (len(ms), bad))
