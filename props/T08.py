from spec import *
UNITS = [Unit("search", "types_search.cc", jobs("pattern", [(s, e) for s in range(6) for e in range(6)]) + jobs("threshold", [()]))]
BOUNDS = "every predicate over every range within [0, 5] (empty and reversed ranges included), with the default and an explicit not-found value, and every monotone predicate over ranges that end at 40; the tables of results are evaluated by the compiler from the real templates"
OUTSIDE = "arbitrary predicates over longer ranges; ranges near the largest index"
