#!/usr/bin/env python3
"""Which lines of the code under test do the monitors never execute?

    reach.py DIR [-v]     DIR holds the PROPERTY.json files written by checks run with RT_LINES=DIR
"""
import glob
import json
import os
import sys

REPO = os.environ.get("RT_REPO", "/repo")


def body_lines(code, out):
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            out.update(n for _, _, n in c.co_lines() if n and n != c.co_firstlineno)
            body_lines(c, out)


def main():
    got = {}
    for p in glob.glob(os.path.join(sys.argv[1], "*.json")):
        for f, v in json.load(open(p)).items():
            got.setdefault(f, set()).update(v)
    total = hit = 0
    for d, _, names in sorted(os.walk(os.path.join(REPO, "rosemary"))):
        for n in sorted(names):
            p = os.path.join(d, n)
            if not n.endswith(".py") or "test" in n or n == "prime_list.py":
                continue
            src = open(p).read()
            want = set()
            body_lines(compile(src, p, "exec"), want)
            f = os.path.relpath(p, REPO)
            miss = sorted(want - got.get(f, set()))
            total += len(want)
            hit += len(want) - len(miss)
            if miss:
                print("%-70s %4d/%4d missed" % (f, len(miss), len(want)))
                if "-v" in sys.argv:
                    text = src.splitlines()
                    for k in miss:
                        print("      %5d %s" % (k, text[k - 1].rstrip()[:110]))
    print("body lines reached: %d of %d" % (hit, total))


main()
