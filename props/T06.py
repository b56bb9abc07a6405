from spec import *
ALL = range(40)
STR = (0, 2, 4, 17, 31)              # kinds with the most text
G = [(m, k, 0) for m in range(6) for k in ALL] + [(m, k, 64) for m in (0, 2, 5) for k in (0, 13, 19, 22)]
M = [(7, k, g) for k in ALL for g in (2 | 4, 8, 16)] + [(6, k, g) for k in ALL for g in (1, 32)] + [(7, 19, 64), (6, 22, 64)]
T = [(6, k, g) for k in ALL for g in (2 | 4, 8, 16)] + [(7, k, g) for k in ALL for g in (1, 32, 1 | 4 | 16)]
j = jobs("text", G + M) + jobs("text", T, tier="thorough")
P = jobs("options", [(c, k, m) for c in range(6) for k in range(6) for m in (0, 2, 7)]) + jobs("options", [(c, k, m) for c in range(6) for k in range(6) for m in (1, 3, 4, 5, 6)], tier="thorough")
P += jobs("printed", [(m,) for m in range(6)]) + jobs("document", [(0,), (1,)]) + jobs("document", [(2,)], tier="thorough")
UNITS = [Unit("text", "stringify.cc", j + P, shim=True, repo_srcs=["mbo/types/stringify.cc", "mbo/types/stringify_ostream.cc"])]
BOUNDS = "structs with two numbers around one field of each of 40 kinds (bool, characters, strings, optionals, smart and raw pointers, null, lists, maps, arrays, pairs, variants, nested, extended and empty structs, disabled and nameless structs, references); strings of up to 2 bytes of any value, 5 numbers, up to 2 elements; all six output modes, and options with a distinct marker for every decoration with one group of controls free at a time (escaping and string length, redaction and key modes, suppression, container length and string keys, character and direct mode); root options; structs that give a field options by value, by reference, for value and elements, ready made or by names, over 6 kinds of fields; Extend printing, streaming and AbslStringify; Json documents of depth up to 1 (thorough 2) with up to 2 entries per level"
OUTSIDE = "floating point numbers; longer strings and containers; strings that are not UTF-8 are copied into JSON as they are; names from functions; const char* fields (printed as a pointer to one character); fields of std::tuple; field names found by GCC (it has none)"
COVERS = ["printed", "json", "custom", "extender", "document"]
