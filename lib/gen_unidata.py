#!/usr/bin/env python3
"""Generated golden/unidata.tar.xz once: Unicode character data from Python's unicodedata (15.0), restricted to the
characters which Perl's \\p{Present_In: 13.0} lists.  Not run by the checks.
lines: A lo hi | C cp ccc | D cp nfd | K cp nfkd | P a b composite | U/L/F cp mapping | W cp east-asian-width (not N)"""
import subprocess, sys, unicodedata as u
asg = [int(x) for x in subprocess.check_output(["perl", "-e", 'for my $c (0..0x10FFFF){ print "$c\\n" if chr($c)=~/\\p{Present_In=13.0}/ && chr($c)!~/\\p{Cn}/ }'], stderr=subprocess.DEVNULL, text=True).split()]
h = lambda s: ",".join("%X" % ord(c) for c in s)
simple = {}  # simple case mappings (UnicodeData.txt), which the tree prefers to the full ones
cand = [c for c in asg if not 0xD800 <= c < 0xE000 and (chr(c).upper() != chr(c) or chr(c).lower() != chr(c))]
for l in subprocess.check_output(["perl", "-MUnicode::UCD=charinfo", "-e", 'while(<STDIN>){ chomp; my $i=charinfo($_); print "$_ U $i->{upper}\n" if $i->{upper}; print "$_ L $i->{lower}\n" if $i->{lower} }'], input="\n".join(map(str, cand)), text=True).splitlines():
    c, t, m = l.split(); simple[int(c), t] = chr(int(m, 16))
o = []
lo = None
for c in asg + [None]:
    if lo is not None and c != hi + 1:
        o.append("A %X %X" % (lo, hi)); lo = None
    if c is None: break
    if lo is None: lo = c
    hi = c
S = set(asg)
for c in asg:
    if 0xD800 <= c < 0xE000: continue
    x = chr(c)
    if u.combining(x): o.append("C %X %d" % (c, u.combining(x)))
    if not 0xAC00 <= c < 0xD7A4:
        d, k = u.normalize("NFD", x), u.normalize("NFKD", x)
        if d != x: o.append("D %X %s" % (c, h(d)))
        if k != x: o.append("K %X %s" % (c, h(k)))
        e = u.decomposition(x)
        if e and e[0] != "<" and len(e.split()) == 2 and u.normalize("NFC", x) == x:
            o.append("P %s %X" % (e.replace(" ", " "), c))
    for t, f in ("U", str.upper), ("L", str.lower), ("F", str.casefold):
        m = simple.get((c, t)) or f(x)
        if m != x and all(ord(y) in S for y in m): o.append("%s %X %s" % (t, c, h(m)))
    if u.east_asian_width(x) != "N": o.append("W %X %s" % (c, u.east_asian_width(x)))
open(sys.argv[1], "w").write("\n".join(o) + "\n")
