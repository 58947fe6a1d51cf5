#!/usr/bin/env python3
# writes MANIFEST.json
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "stateless explicit-state model checking of the real code under a virtual MPI: "
N = {
"C01": ("exhaustive enumeration of all box tilings of small grids on few ranks, larger layout families", "all remap programs within the bounds ran correctly"),
"C02": ("exhaustive enumeration of layouts x options x programs, compared with a naive DFT", "all 3d FFT programs within the bounds give the DFT in the requested layout"),
"C03": ("exhaustive enumeration of layouts x options x programs, compared with a naive DFT", "all 2d FFT programs within the bounds give the DFT in the requested layout"),
"C04": ("exhaustive enumeration of forward/backward/scaling histories", "all histories within the bounds scale by exactly 1 or N"),
"C05": ("enumeration of message completion orders, send modes, delivery times, collective synchronisation and rank orders", "all enumerated schedules of the programs end, match and give the same result"),
"C06": ("enumeration of programs with exactly sized buffers under AddressSanitizer and buffer poisoning", "no out-of-bounds access in any enumerated program"),
"C07": ("enumeration of lengths, row counts, directions, back ends", "every length within the bounds is transformed correctly or refused"),
"C08": ("enumeration of per-rank clock readings, time limits and options of tune()", "tuning agrees and follows the documented trial lists for all enumerated clocks"),
"C09": ("enumeration of all interleavings of object life cycles, with leak and handle monitors", "all life-cycle histories within the bounds are independent and leak-free"),
"C10": ("enumeration of one invalid argument or call order at a time on each rank", "all enumerated invalid uses are refused by every rank, valid ones accepted"),
"C11": ("enumeration of programs through the C, Fortran-C and Fortran 90 interfaces", "the interfaces agree with the C++ reference on all enumerated programs"),
"C12": ("enumeration of partial-operation histories", "partial operations are the steps of the FFT on all enumerated programs"),
"C13": ("enumeration of process counts 1-64 and grids, querying every statistic", "process grids, sizes and statistics are right for all enumerated configurations"),
"C14": ("enumeration of every single allocation failure on every rank", "every single failed allocation in the enumerated programs ends the job with an error"),
}
checks = [dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p, evidence_file="evidence/%s.json" % p,
  technique=T + a, level="model_checking", level_note=b + "; trusts the virtual MPI (replayed against the real MPI, see evidence), the reference model in mc/prog.cpp, gcc and AddressSanitizer; bounds in the evidence.") for p, (a, b) in N.items()]
json.dump(dict(version=1, setup_cmd="python3 tools/build.py native", checks=checks, not_applicable=[], notes="No hooks in /repo are needed: the sources are compiled unmodified against /verif/mc/include/mpi.h. See DESIGN.md."), open(HERE + "/MANIFEST.json", "w"), indent=1)
