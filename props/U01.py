from spec import *
j = jobs("build", [(n, p, k, m) for n in (0, 2) for p in (0, 1) for k in (0, 1, 2) for m in range(3)] + [(1, 0, 3, 2)]) + jobs("macros", [(n, p, k) for n in (0, 2) for p in (0, 2) for k in range(13)])
j += jobs("build", [(1, 1, 3, m) for m in range(3)] + [(0, 0, 4, 2)], t=800, tier="thorough")
UNITS = [Unit("status", "status.cc", j, shim=True, repo_srcs=["mbo/status/status_builder.cc"])]
BOUNDS = 'all 17 codes, messages of 0 and 2 arbitrary bytes, up to two payloads with arbitrary URL and content of one byte; every sequence of up to 2 builder steps (3 after SetPrepend) of text, numbers, characters, payloads, Append and SetPrepend, after starting in the default, append or prepend mode; the macros with every status, every int and every string of two bytes, with counted evaluations; thorough 3 and 4 steps'
OUTSIDE = 'switching a builder to append or prepend mode after text was streamed in the default mode, which is not documented; streaming anything that fails the stream'
ASSUME = ['the abseil stand-ins in shim/ behave as abseil documents', "std::ostream and std::stringstream are libstdc++'s templates, run symbolically; the parts of libstdc++ in its binary (locale, number formatting, the standard stream objects) are stand-ins in lib/rt_ios.cc and lib/rt_num.cc"]
COVERS = ["built", "error returned", "went on"]
