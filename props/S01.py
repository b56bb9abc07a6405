from spec import *
UNITS = [Unit("numbers", "numbers.cc", jobs("number", [(k,) for k in range(12)]), shim=True)]
BOUNDS = "none on the values: every value of bool, char and of every standard signed and unsigned integer type"
OUTSIDE = "128-bit and wide character types (std::to_string does not take them); std::to_string itself is the reference for the plain decimal digits"
COVERS = ["negative", "group of one", "group of two", "group of three"]
