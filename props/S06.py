from spec import *
j = jobs("pair", [(h, n) for h in range(6) for n in range(4)]) + jobs("concat", [()]) + jobs("substr", [()])
j += jobs("runtime", [(k, w, n) for k in range(5) for w in range(4) for n in ((0, 1, 2, 3, 5) if w >= 2 else (0,))])
UNITS = [Unit("tstring", "tstring.cc", j, shim=True)]
BOUNDS = "compile-time arguments: every pair of strings of up to 5 and 3 characters over two characters (one above 127); run-time arguments: five strings of 0 to 5 characters (with zero and high characters) against every character, position, count and every text of 0 to 5 bytes; compile-time results are tables the compiler evaluates from the real templates"
OUTSIDE = "longer strings, larger alphabets for compile-time arguments; hashing (H03) and stream output"
