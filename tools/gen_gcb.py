#!/usr/bin/env python3
"""Writes harness/gcb.h (grapheme cluster break classes) from perl's Unicode 15 tables."""
import subprocess, os
PERL = r'''no warnings; for my $c (0..0x10FFFF){ if ($c>=0xD800&&$c<=0xDFFF){ print "0 old\n"; next;} my $x=chr($c); my $s;
if ($x=~/\p{GCB=CR}/){$s=1}elsif($x=~/\p{GCB=LF}/){$s=2}elsif($x=~/\p{GCB=Control}/){$s=3}elsif($x=~/\p{GCB=Extend}/){$s=4}elsif($x=~/\p{GCB=ZWJ}/){$s=5}elsif($x=~/\p{GCB=SpacingMark}/){$s=6}elsif($x=~/\p{GCB=Prepend}/){$s=7}elsif($x=~/\p{GCB=L}/){$s=8}elsif($x=~/\p{GCB=V}/){$s=9}elsif($x=~/\p{GCB=T}/){$s=10}elsif($x=~/\p{GCB=LV}/||$x=~/\p{GCB=LVT}/){$s=11}elsif($x=~/\p{Regional_Indicator}/){$s=13}elsif($x=~/\p{ExtPict}/){$s=14}else{$s=0}
my $a=$x=~/\p{Present_In=13.0}/?"old":$x=~/\p{Present_In=15.0}/?"new":"old"; print "$s $a\n"; }'''
L = [l.split() for l in subprocess.run(["perl", "-e", PERL], capture_output=True, text=True, check=True).stdout.splitlines()]
R = []
for i, (s, a) in enumerate(L):
    c = 0 if a == "new" else int(s)
    if i == 0x1734: c = 4    # became a spacing mark in Unicode 14
    if not R or R[-1][1] != c: R.append((i, c))
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "gcb.h")
head = open(out).read().split("static const R ranges[] = {\n")[0] + "static const R ranges[] = {\n"
open(out, "w").write(head + "".join("".join("{0x%X,%d}," % r for r in R[k:k + 12]) + "\n" for k in range(0, len(R), 12)) + "};\nenum { N = sizeof(ranges) / sizeof(ranges[0]) };\n}\n")
