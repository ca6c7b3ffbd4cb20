#!/usr/bin/env python3
"""Builds the extractor and extracts both program models (asserts off / on)."""
import sys
sys.setrecursionlimit(20000)
from polycheck import extract
for a in (False, True):
    recs, meta = extract.extract(a)
    print("asserts=%s: %d records from %d translation units" % (a, len(recs), len(meta["tus"])))
