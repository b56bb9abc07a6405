from spec import *
from hashlens import EDGE, REST
js = []
for a in ("fnv1a", "xxh64", "xxh3", "xxh3_128", "rapid", "murmur3", "sip24", "sip13", "mumbo", "jumbo", "dumbo"):
    m = 2 if a == "murmur3" else 1
    js += jobs("h_" + a, [(n, m) for n in EDGE if n < 600]) + jobs("h_" + a, [(n, m) for n in range(2100) if n not in EDGE or n > 600], tier="thorough", t=200)
tem = ("fambo", "tembo34", "tembo44", "tembo54", "tembo88", "tembo168")
two = jobs("ct_hash", [(i, n) for i in range(9) for n in [x for x in EDGE if x < 600]])
st = jobs("st_mumbo", [(2, 3, 1, 127), (2, 3, 130, 16), (3, 7, 100, 29, 3)]) + jobs("st_xxh64", [(2, 3, 1, 31), (2, 3, 31, 34)]) + jobs("st_sip", [(2, 3, 1, 7), (2, 3, 9, 6)])
js += st + jobs("complete", [0, 5, 9]) + jobs("folds", [()])
UNITS = [Unit("hash_ct", "hash.cc", js, defs=[CONSTEVAL]), Unit("hash_two", "hash_two.cc", two, repo_srcs=[])]
BOUNDS = "every content and seed at each listed length (0..513 bytes around every class boundary; thorough: every length 0..2099): the published and in-house hashes with every constant-evaluation branch taken on its compile-time side against the references of H01/H07; fambo, six tembo variants, mumbo, jumbo and dumbo with the two kinds of branch against each other"
OUTSIDE = "other lengths; the portable 64x64 multiply used where the compiler has no 128 bit integer (it cannot be selected with this compiler)"
ASSUME = ["std::is_constant_evaluated() is forced to select the compile-time branches; the abstract machine is otherwise the same"]
