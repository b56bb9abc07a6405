from spec import *
j = jobs("comments", [(n, m, 0) for n in range(5) for m in range(3)] + [(6, 1, 1), (5, 2, 1)]) + jobs("line", [(n, m) for n in range(6) for m in range(4)])
j += jobs("affix", [(n, m) for n in range(6) for m in range(5)]) + jobs("parsed", [(n, 0) for n in range(3)] + [(4, 1)]) + jobs("parsed_line", [(n,) for n in range(3)]) + jobs("parsed", [(3, 0), (5, 1)], t=600) + jobs("parsed_line", [(3,)], t=600) + jobs("comments", [(5, 1, 0), (5, 2, 0)], t=600)
UNITS = [Unit("strip", "text.cc", j, shim=True, repo_srcs=["mbo/strings/strip.cc", "mbo/strings/parse.cc"], defs=["-DDO_STRIP"])]
BOUNDS = "StripComments: every text of up to 4 bytes with every comment start of up to 2 bytes, and 6 (5) characters over a small alphabet with starts of 1 (2); StripLineComments: texts up to 5, starts up to 3 bytes; affixes: texts up to 5, affixes up to 4 bytes; parsed forms: every text of up to 2 bytes (thorough 3), 4 (thorough 5) characters over quotes, backslash, comment and blanks; both values of the trimming and quote removal options"
OUTSIDE = "longer texts; parse options other than a stop or split character and quote removal (S04 covers ParseString itself)"
COVERS = ["comment", "parsed", "malformed"]
