"""prints the table of planted changes for DESIGN.md (what, from meta.json)"""
import json, os
os.chdir("/verif/seeded")
print("| seed | property | what it breaks |\n|------|----------|----------------|")
for i in sorted(os.listdir(".")):
    m = json.load(open(i + "/meta.json"))
    print("| %s | %s | %s |" % (i, m["property"], m["what_it_breaks"]))
