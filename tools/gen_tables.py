#!/usr/bin/env python3
"""Writes harness/src/chars.rs: the published single-byte tables (upper half),
ISO 8859 from the interpreter's own codecs, ISO 6937 as in EN 300 468 figure A.1."""
import os

ISO6937 = [
    0xa0, 0xa1, 0xa2, 0xa3, 0x20ac, 0xa5, 0, 0xa7, 0xa4, 0x2018, 0x201c, 0xab, 0x2190, 0x2191, 0x2192, 0x2193,
    0xb0, 0xb1, 0xb2, 0xb3, 0xd7, 0xb5, 0xb6, 0xb7, 0xf7, 0x2019, 0x201d, 0xbb, 0xbc, 0xbd, 0xbe, 0xbf,
    0, 0x300, 0x301, 0x302, 0x303, 0x304, 0x306, 0x307, 0x308, 0, 0x30a, 0x327, 0, 0x30b, 0x328, 0x30c,
    0x2015, 0xb9, 0xae, 0xa9, 0x2122, 0x266a, 0xac, 0xa6, 0, 0, 0, 0, 0x215b, 0x215c, 0x215d, 0x215e,
    0x2126, 0xc6, 0x110, 0xaa, 0x126, 0, 0x132, 0x13f, 0x141, 0xd8, 0x152, 0xba, 0xde, 0x166, 0x14a, 0x149,
    0x138, 0xe6, 0x111, 0xf0, 0x127, 0x131, 0x133, 0x140, 0x142, 0xf8, 0x153, 0xdf, 0xfe, 0x167, 0x14b, 0xad,
]
TABLES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15]


def table(n):
    if n == 0:
        return ISO6937
    out = []
    for b in range(0xa0, 0x100):
        try:
            out.append(ord(bytes([b]).decode("iso8859_%d" % n)))
        except UnicodeDecodeError:
            out.append(0)
    return out


def main():
    path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "src", "chars.rs")
    s = "//! Published single-byte character tables, bytes 0xA0 and up; 0: not assigned.\n"
    s += "//! Written by tools/gen_tables.py.\n\n"
    s += "pub const TABLES: [(u8, [u16; 96]); %d] = [\n" % len(TABLES)
    for n in TABLES:
        t = table(n)
        s += "    (%d, [\n" % n
        for i in range(0, 96, 16):
            s += "        " + ", ".join("0x%04x" % x for x in t[i:i + 16]) + ",\n"
        s += "    ]),\n"
    s += "];\n"
    open(path, "w").write(s)


if __name__ == "__main__":
    main()
