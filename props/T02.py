from spec import *
UNITS = [Unit("cmp", "types_cmp.cc", jobs("cmp_float", [(0,), (1,)]) + jobs("cmp_float_trans", [(0,), (1,)]) + jobs("cmp_long", [()]) + jobs("weak", [()]) + jobs("less_int", [()]) + jobs("less_text", [(n, m) for n in range(4) for m in range(4)]))]
BOUNDS = "all values of float, double and (canonically encoded) long double; CompareLess over all int, long, unsigned and double values and over strings and views of 0 to 3 bytes"
OUTSIDE = "non-canonical 80 bit encodings; strings over 3 bytes"
