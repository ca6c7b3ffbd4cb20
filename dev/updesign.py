"""rewrites the seed table in DESIGN.md"""
import re, subprocess
p = "/verif/DESIGN.md"
s = open(p).read()
t = subprocess.run(["python3", "/verif/dev/seedtable.py"], capture_output=True, text=True).stdout
a = s.index("| seed | property"); b = s.index("\n\n", a)
s = s[:a] + t.rstrip() + s[b:]
open(p, "w").write(s)
