#!/usr/bin/env python3
"""Rewrite the generated parts of DESIGN.md: one entry per property, planted bugs."""
import glob
import json
import os
import re
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
from harnesses import PROPERTIES  # noqa: E402

# what the answer of the library is compared with
ORACLE = {
    "C01": "the bit positions of ISO 13818-1 2.4.3.2 written out with plain masks on a second copy of the packet; every other byte compared with the copy after a setter",
    "C02": "4, plus one and the adaptation length when there is one; 0 without payload or room",
    "C03": "base = 33 bits, extension = 9 bits at bytes 6..11 by multiplication and addition; the packet compared byte by byte outside the field",
    "C04": "distance and extrapolation in 128-bit arithmetic on the cyclic clock; jitter as the smaller signed distance",
    "C05": "absence of panics and out-of-range accesses on every path, and an upper bound on the collected bytes after every packet",
    "C06": "the section that was cut, byte by byte, and the completion flag after every packet",
    "C07": "an independent packetizer in the harness (counter, start flag, pointer, stuffing)",
    "C08": "the section that was cut; packets are built by the harness itself with its own adaptation fields",
    "C09": "the list of sections that went in, in order",
    "C10": "the sections untouched by the loss; anything reported has to be one of them",
    "C11": "a bit-serial division, one bit at a time, not table driven",
    "C12": "the bit-serial checksum, the 12-bit length computed from the body",
    "C13": "reflexivity, symmetry, transitivity; equality of the last four bytes for complete sections",
    "C14": "a copy of the table taken before parsing (compared in printed fields and written bytes), and no panic",
    "C15": "a PAT writer/reader in the harness from ISO 13818-1 table 2-30",
    "C16": "a PMT writer/reader in the harness from ISO 13818-1 table 2-33",
    "C17": "an SDT writer/reader in the harness from EN 300 468 table 5",
    "C18": "an NIT writer/reader in the harness from EN 300 468 table 3, both loop lengths",
    "C19": "an EIT writer/reader in the harness from EN 300 468 table 7",
    "C20": "the event list that went in, and the order of (table, section) pairs",
    "C21": "day number and decimal digits computed from the symbolic calendar fields the time was made of",
    "C22": "as C21, plus descriptor loop and bit-serial checksum",
    "C23": "the item list that went in; size, numbering and checksum of every section from its bytes",
    "C24": "a two-line walk over tag/length pairs",
    "C25": "the same walk over what was written, and the bytes read at first",
    "C26": "descriptor bytes assembled in the harness from decimal digits and bit fields",
    "C27": "descriptor bytes assembled in the harness",
    "C28": "descriptor bytes assembled in the harness",
    "C29": "descriptor bytes assembled in the harness",
    "C30": "descriptor bytes assembled in the harness from the digits of clock and date",
    "C31": "the original: bytes, tags, size, printed form; and the original again after the copy was changed",
    "C32": "selector bytes of EN 300 468 table A.3/A.4",
    "C33": "character tables generated from Python's ISO 8859 codecs and the ISO 6937 chart (`tools/gen_tables.py`), independent of the library's data",
    "C34": "the inverse of those tables, ASCII replacements as documented",
    "C35": "concatenation and size of the pieces, character boundaries from the lead bytes",
    "C36": "a list of ISO 639 codes in the harness",
    "C37": "the digits the number was made of",
    "C38": "day number and digits the time was made of",
    "C39": "the stream identifiers and bit positions of ISO 13818-1 table 2-21",
    "C40": "33 bits gathered one by one; distance modulo 2^33",
    "C41": "the documented list of stream types and descriptor tags",
    "C42": "the stream itself: the next sync byte and the 188 bytes from there",
    "C43": "the concatenation of the packets",
    "C44": "sums of bytes times powers of 256",
    "C45": "the packet's fields, formatted by the harness",
    "C46": "the items of the accepted sections in a row, the header of the last one",
    "C47": "the numbers of EN 300 468 tables 34..49 and annex A and of ISO 13818-1 table 2-3, at their place in the bytes",
    "C48": "a list of byte strings kept next to the loop and changed in step",
    "C49": "the sum of the fields times their place value",
    "C51": "the neighbours and a walk over the length bytes",
    "C52": "the text that was given",
    "C50": "the two tables that were sent, and how often each was reported",
}


def cost(i):
    try:
        with open(os.path.join(VERIF, "tools", "costs.json")) as fh:
            c = json.load(fh).get(i)
    except OSError:
        return ""
    if not c:
        return ""
    return "%d s quick" % c["quick"] + (", %d s thorough" % c["thorough"] if "thorough" in c else "")


def properties():
    out = []
    for line in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(line)
        q = PROPERTIES[p["id"]]
        out.append("### %s %s\n" % (p["id"], p["title"]))
        for h in q["harnesses"]:
            how = " [Z3 only]" if h["raw"] else ""
            out.append("* `%s`: %s%s" % (h["entry"], h["bound"], how))
        out.append("* Compared with: %s." % ORACLE[p["id"]])
        out.append("* Outside: %s." % q["outside"])
        out.append("* Beyond tests: %s" % p["why_tests_cant"])
        c = cost(p["id"])
        if c:
            out.append("* Cost: %s." % c)
        out.append("")
    return "\n".join(out)


def planted():
    out = ["| planted bug | property | needs | caught by |", "|---|---|---|---|"]
    try:
        with open(os.path.join(VERIF, "tools", "caught.json")) as fh:
            caught = json.load(fh)
    except OSError:
        caught = {}
    for f in sorted(glob.glob(os.path.join(VERIF, "seeded", "*", "meta.json"))):
        i = os.path.basename(os.path.dirname(f))
        with open(f) as fh:
            m = json.load(fh)
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"].replace("|", "/"), ", ".join(caught.get(i, [])) or "(none)"))
    return "\n".join(out)


path = os.path.join(VERIF, "DESIGN.md")
text = open(path).read()
for name, body in (("properties", properties()), ("planted", planted())):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    text = re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + body + "\n" + b, text, flags=re.S)
open(path, "w").write(text)
