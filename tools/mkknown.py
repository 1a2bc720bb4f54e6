"""One-off generator of known_findings.txt (committed): genuine defects recorded instead of repaired, and the repaired ones.

C18: where the shipped data differs from Unicode 17 for code points that IDNA 17 makes valid (Bidi class, combining marks,
joining types) and for all code points (combining class, decomposition)."""
import os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H + "/vc")
from spec_data import COLUMNS, value
def diffs(col):
    out = []
    for c in range(0x110000):
        a, b = value(col, c, "shipped"), value(col, c, "unicode17")
        if a != b:
            if out and out[-1][1] == c - 1 and out[-1][2] == a: out[-1][1] = c
            else: out.append([c, c, a])
    return out
WHAT = dict(bidi="Bidi class of characters added after Unicode 12 is missing (taken as NONE)", ccc="combining class of marks added after Unicode 15 is 0", nfd="canonical decompositions added in Unicode 16 are missing",
            combining="combining marks added after Unicode 13 are not in the combining-mark ranges", joining="the L, D and R joining sets hold only part of the Arabic script")
L = ["# Genuine defects of ada-url/idna that are recorded and not repaired (known:) and those repaired by commits in /repo (fixed:).",
     "# C18: shipped value of a column where it is not the Unicode 17 value, as lo-hi:value.  C09: labels (code points) accepted against RFC 5892 A.1."]
for col in COLUMNS:
    d = diffs(col)
    if d: L.append("known: property=C18 column=%s n=%d what=%s ranges=%s" % (col, sum(b - a + 1 for a, b, v in d), WHAT[col].replace(" ", "_"), ",".join("%x-%x:%s" % (a, b, v.replace(" ", "+")) for a, b, v in d)))
for u in ("628 62f 200c 628", "628 621 200c 628", "628 200c 621 628"):
    L.append("known: property=C09 input=%s what=ZWNJ_accepted_although_a_non-joining_character_stands_between_it_and_the_joining_one" % u.replace(" ", "+"))
g = lambda p: subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "--grep=" + p, "-F"], capture_output=True, text=True).stdout.split()[0]
for p, m, w in (("C05", "is_already_nfc disagreed", "is_already_nfc disagreed with normalize"),
                ("C07", "leading delimiter", "verify_punycode and punycode_to_utf32 accepted a leading delimiter with an empty basic part differently"),
                ("C08", "leading delimiter", "decoding was not injective on strings with a leading delimiter"), ("C12", "leading delimiter", "to_unicode decoded labels with a leading delimiter"),
                ("C15", "bound code length repeats", "code length repeats could write past the length array"),
                ("C09", "check every joiner", "joiners after a good one were not checked"), ("C10", "check every joiner", "the Bidi rule was skipped after a good joiner"),
                ("C18", "viramas of Unicode", "viramas added in Unicode 15 to 17 were missing from the joiner check"), ("C09", "viramas of Unicode", "a joiner after a virama added in Unicode 15 to 17 was rejected")):
    L.append("fixed: property=%s %s %s" % (p, g(m), w))
open(H + "/known_findings.txt", "w").write("\n".join(L) + "\n")
