from spec import *
j = jobs("scan_any", [(k, n) for k in (0, 2, 3, 4) for n in range(4)]) + jobs("scan_const", [(k, n) for k in (0, 2, 3, 4) for n in range(4)]) + jobs("scan_conv", [(k, n) for k in (0, 2, 3) for n in range(4)])
j += jobs("scan_ordered", [(n,) for n in range(4)]) + jobs("scan_init", [()]) + jobs("scan_end", [(n,) for n in range(3)])
c = jobs("scan_text", [(n, l) for n in range(4) for l in (0, 1, 3, 20)]) + jobs("convert", [(n,) for n in range(4)]) + jobs("convert_text", [(n, l) for n in range(4) for l in (0, 2, 20)])
UNITS = [Unit("scan", "scan.cc", j + c, shim=True)]
BOUNDS = "sources of up to 3 elements (std::vector, std::deque, std::array, initializer_list, LimitedVector, LimitedSet, LimitedMap; 32 bit integers, heap-owning elements and strings of 0 to 20 bytes, all values), views by lvalue, const lvalue and owned temporary, through copies, moves and repeated iteration; conversions into std::vector, std::deque, LimitedVector and LimitedSet with and without a function"
OUTSIDE = "sources over 3 elements; the node-based standard containers (their rebalancing code is in the C++ runtime library); views that outlive an lvalue source"
