from spec import *
SRC = ["mbo/diff/diff.cc", "mbo/diff/base_diff.cc", "mbo/diff/chunked_diff.cc", "mbo/diff/impl/diff_myers.cc", "mbo/diff/impl/diff_naive.cc", "mbo/diff/impl/diff_direct.cc", "mbo/diff/internal/chunk.cc", "mbo/diff/internal/output.cc", "mbo/diff/internal/data.cc", "mbo/strings/strip.cc", "mbo/strings/parse.cc"]
j = []
for a in range(3):
  for f in range(3):
    for c in (0, 1, 2):
      if f == 2 and c: continue
      j += jobs("apply", [(a, f, c, 3, 3, 0, 0), (a, f, c, 3, 2, 1, 3), (a, f, c, 2, 3, 0, 1), (a, f, c, 3, 2, 0, 2)]) + jobs("apply", [(a, f, c, 3, 3, 2, 0)])
      j += jobs("edits", [(a, f, c, 5, 3, 0), (a, f, c, 3, 4, 1)])
  j += jobs("side", [(a, 3, 3, 0, b, 5) for b in range(4)] + [(a, 3, 3, 1, 3, w) for w in (3, 9)])
j += jobs("apply", [(0, f, 1, 4, 3, 0, 0) for f in range(3)]) + jobs("edits", [(0, 0, 1, 6, 3, 0)]) + jobs("capped", [(f, 40, 40) for f in (0, 1)])
j += jobs("apply", [(0, f, 1, 4, 4, 0, 0) for f in range(3)], t=600, tier="thorough") + jobs("edits", [(0, 0, 1, 6, 4, 0), (0, 1, 1, 6, 3, 0)], t=600, tier="thorough")
for a in range(3):
  for f in range(3):
    j += jobs("spread", [(a, f, c, 11, 3) for c in ((1, 3) if a == 0 else (2,)) if f < 2 or c == 3 or a]) + jobs("shown", [(a, f, 1, 3, 2, 0, 0), (a, f, 0, 2, 3, 0, 1), (a, f, 1, 3, 2, 2, 0)])
j += jobs("header", [(f, 3, 1) for f in range(4)] + [(0, 0, 2), (1, 1, 0)])
UNITS = [Unit("diff", "diff.cc", j, shim=True, repo_srcs=SRC, defs=["-DDO_APPLY"])]
BOUNDS = 'unified, context and normal format with context 0, 1 and 2, side by side with width 5 and 9; Myers, naive and direct algorithm; all texts of 3 and 3 (2 and 3, 3 and 2; Myers also 4 and 3, thorough 4 and 4) lines of one arbitrary byte, with and without final line feed, with empty lines, and all texts of 3 arbitrary bytes; all edits (keep, insert, delete, replace) of 5 distinct lines, Myers 6; 11 lines with two edits anywhere, context 1 and 3 (2 for naive and direct); header lines for names of up to 3 letters of a 3 letter alphabet, all uses, prefixes (any 2 letters, two expressions), with and without time; 3 and 2 lines or bytes without chunk headers and without left deletions; 40 against 40 different lines with a movable equal block (the cost limit of the Myers search)'
OUTSIDE = 'longer lines and texts; time formats other than seconds; side by side cells that contain white space; the line numbers when left deletions are not shown; ignoring options (F02)'
COVERS = ["patched", "two columns", "header", "skipped"]
