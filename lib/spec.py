"""What a property's check is made of: units (a harness translation unit and how to build it) and jobs (one entry, one parameter set)."""


class Unit:
    def __init__(self, name, src, jobs, flags=(), repo_srcs=(), shim=False, defs=(), native=True, native_flags=(), opt=None, shim_srcs=(), notrap=False, gen=None):
        self.name, self.src, self.jobs = name, src, list(jobs)
        self.flags, self.repo_srcs, self.shim, self.defs = list(flags), list(repo_srcs), shim, list(defs)
        self.native, self.native_flags, self.opt, self.shim_srcs, self.notrap = native, list(native_flags), opt, list(shim_srcs), notrap
        self.gen = gen  # called with a directory: writes generated headers (found with #include "...") before the unit is built


class Job:
    def __init__(self, entry, params=(), t=60, qms=20000, samples=1, tier="quick", maxpaths=0):
        self.entry, self.params, self.t, self.qms, self.samples, self.tier, self.maxpaths = entry, list(params), t, qms, samples, tier, maxpaths


def jobs(entry, plist, **kw):
    return [Job(entry, p if isinstance(p, (list, tuple)) else [p], **kw) for p in plist]


# Makes every std::is_constant_evaluated() branch take its compile-time side.
CONSTEVAL = "-D__builtin_is_constant_evaluated()=true"


# Stand-ins for <filesystem> and <fstream> on a file tree in memory.
import os as _os
FS = ["-isystem", _os.path.join(_os.path.dirname(_os.path.dirname(_os.path.abspath(__file__))), "shim_fs")]
