#!/usr/bin/env python3
"""Generated golden/sets.tar.xz once (filters.txt, scorers.txt: NAME lo hi [weight]) from the pinned tree after repair; the
ranges of every filter were compared with the Unicode blocks they name (Perl's copy of Blocks.txt).  Not run by the checks."""
import glob, os, re, sys
R, out = sys.argv[1:3]
bl = {}
for l in open("/usr/share/perl/5.38.2/unicore/Blocks.txt"):
    m = re.match(r"(\w+)\.\.(\w+); (.*)", l)
    if m: bl[m[3]] = (m[1].lstrip("0") or "0", m[2].lstrip("0"))
later = {"Egyptian Hieroglyph Format Controls": ("13430", "1343F")}  # extended after Unicode 13
o = []
for f in sorted(glob.glob(R + "/modules/filter/*.c")):
    n = os.path.basename(f)[:-2]
    for a, b, c in re.findall(r"\{ 0x(\w+), 0x(\w+) \},?(?:\s*//\s*(.*))?", open(f).read()):
        x = a.lstrip("0") or "0", b.lstrip("0")
        assert n in ("LATIN1", "PRINT", "ROMAN") or later.get(c, bl.get(c)) == x, (n, a, b, c)
        o.append("%s %s %s" % ((n,) + x))
open(out + "/filters.txt", "w").write("\n".join(o) + "\n")
o = []
for n in ("CJK", "LATIN1"):
    for a, b, w in re.findall(r"\{ 0x(\w+), 0x(\w+), (\d+) ?\}", open(R + "/modules/scorer/%s.c" % n).read()): o.append("%s %s %s %s" % (n, a, b, w))
open(out + "/scorers.txt", "w").write("\n".join(o) + "\n")
