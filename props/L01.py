from spec import *
a = jobs("streams", [(k, w, i, m, q) for k in range(10) for w, i, m in ((0, 0, 0), (1, 0, 2), (2, 0, 0), (1, 1, 1)) for q in (0, 1)]) + jobs("streams", [(k, 3, 0, 0, q) for k in (0, 3) for q in (0, 1)] + [(0, 2, 2, 1, 0)])
a += jobs("out", [(k,) for k in range(3)]) + jobs("checks", [(k,) for k in range(2)])
b = jobs("timing", [(o, m) for o in (0, 1) for m in range(4)])
a += jobs("streams", [(k, 3, 0, 1, q) for k in range(4) for q in (0, 1)] + [(k, 2, 2, 1, 0) for k in range(4)], t=800, tier="thorough")
b += jobs("names", [(0, 2, 1), (1, 1, 1), (2, 1, 0)]) + jobs("odd", [(k,) for k in range(5)]) + jobs("bytes", [(k,) for k in range(5)])
b += jobs("names", [(2, 2, 1), (3, 1, 0)], t=800, tier="thorough") + jobs("odd", [(5,)], t=800, tier="thorough") + jobs("bytes", [(6,)], t=800, tier="thorough")
UNITS = [Unit("scoped", "log.cc", a, shim=True, defs=["-DDO_SCOPED"], native_flags=["-Wl,--wrap=quick_exit"]), Unit("timing", "log.cc", b, shim=True, repo_srcs=["mbo/log/log_timing.cc"], defs=["-DDO_TIMING"])]
BOUNDS = 'ScopedStream with 10 of the 24 combinations of its type parameters (text, output and message present, or absent), continuing and exiting, with up to 3 writes of arbitrary texts of 2 bytes, numbers and characters, optionally around a nested stream with up to 2 writes, messages of up to 2 arbitrary bytes; the three helper functions; passing and failing checks with counted evaluations; timings with every clock value below 1 ms, every severity, every flag, moved up to three times; the function names of timings: every combination of 4 result types, 4 scopes, a name of up to 2 letters or digits, call and index operators, 3 template argument lists, 3 parameter lists and 3 endings, around up to 2 (thorough 3) nested lambdas, and every text of up to 4 (thorough 5) of 9 parts or up to 4 (thorough 6) arbitrary bytes'
OUTSIDE = 'streams that were put into a failed state; stream formatting flags of the target stream; concurrent use; names of functions of other shapes (for those only that shortening them neither fails nor makes them longer)'
ASSUME = ['the abseil stand-ins in shim/ behave as abseil documents', "std::ostream and std::stringstream are libstdc++'s templates, run symbolically; the parts of libstdc++ in its binary (locale, number formatting, the standard stream objects) are stand-ins in lib/rt_ios.cc and lib/rt_num.cc", 'quick_exit is a stand-in that checks the output and ends the run']
COVERS = ["delivered", "ended", "standard streams", "passed", "logged", "not logged", "named", "odd"]
