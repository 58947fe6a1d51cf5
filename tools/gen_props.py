#!/usr/bin/env python3
# writes properties.jsonl (kept as a script only so that the text is readable)
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(name,where): return dict(name=name,where=where)
def s(name,meaning,where): return dict(name=name,meaning=meaning,where=where)

p("C01","A remap puts every grid value exactly where the output tiling says",
 "For any two valid tilings of a 2d or 3d grid over the processes of a communicator (tiles of any box shape, processes may own nothing), any number of values per grid point, any allowed storage permutation, any packing style and either communication style, a remap leaves in every process's output buffer exactly the values of its output tile, in the permuted storage order. This holds in single and double precision, in place or with separate buffers, with library-owned or caller-owned message buffers, and however often the remap is repeated; separate input data is left unchanged.",
 ["configurations","inputs","schedules"],
 "all process counts, grid shapes, pairs of tilings, permutations, values per point, packing and communication styles, message orders",
 "The tests reach remaps only through FFTs: two values per point, regular bricks and pencils, in place, internal buffers, a handful of process counts; the n-value routines, irregular or empty tiles, caller buffers and separate buffers are never run.",
 ["src/remap3d.cpp","src/remap2d.cpp","src/pack3d.h","src/pack2d.h"],
 [m("Remap3d::setup/remap, collide: overlap lists, offsets, strides","src/remap3d.cpp"),m("Remap2d","src/remap2d.cpp"),m("pack/unpack kernels (array, pointer, memcpy; permute 0/1/2; nqty 1/2/n)","src/pack3d.h, src/pack2d.h")],
 [s("send/recv plan","which sub-box goes to/comes from which process","Remap3d/Remap2d members")],
 ["output buffer after remap"])

p("C02","A 3d FFT is the DFT of the data in the requested output layout",
 "For every grid whose sizes have only the factors 2, 3 and 5, every process count, every valid input and output tiling, permutation, communication style, exchange style, packing style and buffer ownership, a forward 3d FFT leaves in every process's output tile exactly the forward DFT of the global grid (exp(-2*pi*i*...)), ordered by the permutation. A backward FFT takes data in the output layout and leaves the backward DFT (exp(+2*pi*i*...), divided by the number of grid points when scaling is on) in the input layout, in the original order; both directions hold in place and with separate buffers, whose alignment is only that of their scalar type.",
 ["configurations","inputs"],
 "all grids, process counts, tilings, permutations, options, directions, precisions, 1d FFT back ends",
 "The drivers check forward+backward back to the start (errors that cancel go unseen) or the forward FFT of a few brick-to-brick layouts, always in place; layouts with empty or irregular tiles, pencils as input/output with permutation, and out-of-place calls are not run.",
 ["src/fft3d.cpp","src/remap3d.cpp","src/pack3d.h","src/kissfft.h"],
 [m("setup: fast/mid/slow/brick layouts and which remaps are skipped","src/fft3d.cpp FFT3d::setup"),m("remap_forward_create / remap_inverse_create","src/fft3d.cpp"),m("compute","src/fft3d.cpp FFT3d::compute")],
 [s("pencil layouts","who owns which rows in each stage","FFT3d members")],["output buffer after compute"])

p("C03","A 2d FFT is the DFT of the data in the requested output layout",
 "For every 2d grid whose sizes have only the factors 2, 3 and 5, every process count, every valid input and output tiling, permutation, communication style, exchange style, packing style and buffer ownership, a forward 2d FFT leaves in every process's output tile exactly the forward DFT of the global grid, ordered by the permutation. A backward FFT takes data in the output layout and leaves the backward DFT (divided by the number of grid points when scaling is on) in the input layout; both directions hold in place and with separate buffers, whose alignment is only that of their scalar type.",
 ["configurations","inputs"],
 "all grids, process counts, tilings, permutations, options, directions, precisions, 1d FFT back ends",
 "The 2d drivers use regular layouts, in place; permuted and inverse layouts with several processes are left out of the suite because they crash there, so the inverse remaps of the 2d code are hardly run at all.",
 ["src/fft2d.cpp","src/remap2d.cpp","src/pack2d.h","src/kissfft.h"],
 [m("setup: fast/slow/brick layouts","src/fft2d.cpp FFT2d::setup"),m("remap_forward_create / remap_inverse_create","src/fft2d.cpp"),m("compute","src/fft2d.cpp FFT2d::compute")],
 [],["output buffer after compute"])

p("C04","Forward then backward restores the data; scaling is exactly 1 or N",
 "With scaling on, a forward FFT followed by a backward FFT restores every process's input tile to rounding error; with scaling off it yields the data times the number of grid points, and the forward result never depends on the scaling setting. This holds in 2d and 3d for every layout (including processes whose input and output tiles differ in size), in place or with separate buffers, for repeated pairs and when the scaling setting is changed between calls; a separate input buffer is never modified.",
 ["configurations","histories"],
 "all layouts, options, orders of forward/backward calls and scaling changes",
 "The tests do a few in-place round trips on regular layouts with scaling on, where every process owns about the same number of points before and after.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [m("scale_ffts, norm, normnum","src/fft3d.cpp, src/fft2d.cpp"),m("compute, both branches","src/fft3d.cpp, src/fft2d.cpp")],
 [s("scaled","public flag, may change between calls","FFT3d/FFT2d")],["buffers after each compute"])

p("C05","Message timing never changes the outcome: no deadlock, same result",
 "For every order in which messages arrive and processes advance, and whether the MPI library buffers blocking sends or makes them wait for the receiver, every remap, FFT, setup and destruction completes on all processes, with matching collective calls and no message left behind. The results are the same in every such execution, and no data is read from or written to a message buffer while MPI still owns it.",
 ["schedules"],
 "all interleavings of the processes, all completion orders of pending receives, eager and rendezvous sends, early and late delivery, synchronising and non-synchronising collectives",
 "A test run sees the one schedule that mpirun on one node happens to produce, with small messages that are always buffered.",
 ["src/remap3d.cpp","src/remap2d.cpp","src/fft3d.cpp","src/fft2d.cpp"],
 [m("receives posted before sends; send buffer reused only after the send returned; Waitany loop","src/remap3d.cpp Remap3d::remap, src/remap2d.cpp Remap2d::remap"),m("group closure and communicator creation","Remap3d::setup, Remap2d::setup")],
 [s("request[]","pending receives","Remap3d/Remap2d")],["completion and buffers of every process"])

p("C06","No memory access outside the sizes that setup reports",
 "A caller that allocates exactly the reported grid size for the output array (and only its own input tile for a separate input array), and exactly the reported send and receive buffer lengths when it provides those, never sees the library read or write outside them, in any operation (FFT in both directions, partial operations, remaps), layout, option and precision. Values in the output array beyond the process's output tile are the only caller data besides the result that may change, the reported grid size is the most points that the process owns at any stage, and internal buffers are never overrun either.",
 ["configurations","inputs"],
 "all layouts, options, precisions, operations, with every caller array allocated to its exact size",
 "The drivers allocate the arrays once, in place, with internal message buffers, and run without any memory checker, so an overrun of a few values goes unnoticed.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/pack3d.h","src/pack2d.h","src/memory.cpp"],
 [m("fftsize/sendsize/recvsize as maxima over all stages","FFT3d::setup, remap_forward_create, remap_inverse_create; FFT2d likewise"),m("sendsize/recvsize of a remap","Remap3d::setup, Remap2d::setup")],
 [],["every load and store (address sanitizer), buffer contents"])

p("C07","1d transforms are right for every allowed length; others are refused",
 "For every length with only the prime factors 2, 3 and 5 (from 2 up), in each dimension, direction and precision, and with each 1d FFT back end, the transform along that dimension is the DFT of that length to rounding error for any number of rows per process, including none. A grid with any dimension below 2 or with any other prime factor is refused at setup.",
 ["inputs","configurations"],
 "all lengths, row counts, directions, precisions and back ends",
 "The tests use about a dozen lengths; the radix-5 and generic butterflies and the mixed-radix factor orders are only reached by few of them.",
 ["src/kissfft.h","src/fft3d.cpp","src/fft2d.cpp"],
 [m("kf_factor, kf_work, kf_bfly2/3/4/5/generic","src/kissfft.h"),m("setup_ffts, perform_ffts, plan sharing between equal dimensions","src/fft3d.cpp, src/fft2d.cpp"),m("prime_factorable","src/fft3d.cpp, src/fft2d.cpp")],
 [],["output of compute, setup accepted or refused"])

p("C08","Tuning agrees on all processes whatever their timers read",
 "Whatever elapsed times the individual processes measure, tuning completes on all of them, follows the documented sequence of trials (all nine, or the documented shorter sequences when the time limit demands), and leaves the same communication, exchange and packing settings on every process: those of the fastest trial, or the documented defaults where no trial decides. Afterwards the tuning statistics describe the trials that were run (count, settings and times per trial, FFTs per trial), the buffer sizes returned are those of the chosen settings, the caller's choice of who provides message buffers is kept, and FFTs give the right result.",
 ["schedules","histories","configurations"],
 "all timer readings of all processes, all time limits, iteration counts, directions and initial settings",
 "The tests tune with one process only, with real timers, and cannot make two processes see different fastest trials.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [m("tune, tune_trial","src/fft3d.cpp, src/fft2d.cpp")],
 [s("cbest,ebest,pbest,besttime","best settings so far","FFT3d/FFT2d")],["settings and statistics after tune on each process"])

p("C09","Plans are independent and reusable, and destroying them releases all",
 "Any number of 2d and 3d FFT and remap objects, with different layouts and options, on the world or on sub-communicators (also overlapping ones), can be created, set up, used in any order and any number of times, and destroyed in any order, and each use gives the same result as if it were the only object and the only call. Destroying an object at any stage of its life (also before setup) is safe and gives back all memory, communicators, groups and requests that it took, while caller-provided message buffers stay the caller's and the caller's communicator stays usable. Communication, exchange, packing and memory settings changed after setup have no effect on the object.",
 ["histories"],
 "all sequences of create, set, setup, compute, remap, tune, destroy calls over several objects and communicators",
 "Each test makes one object, sets it up once, computes, and exits.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/memory.cpp"],
 [m("constructors, destructors, deallocate_setup, deallocate_setup_memory, deallocate_remap","src/fft3d.cpp, src/fft2d.cpp"),m("Remap3d::~Remap3d, Remap2d::~Remap2d: newcomm, pgroup, plans","src/remap3d.cpp, src/remap2d.cpp")],
 [s("setupflag, setup_memory_flag, memoryflag","life-cycle state","FFT3d, FFT2d, Remap3d, Remap2d")],["results, allocations and MPI objects outstanding after destruction"])

p("C10","Invalid use is refused by all processes together, valid use never is",
 "A wrong precision, a grid size that is not allowed, input or output tile bounds that are invalid on any process, tilings whose sizes do not add up to the grid, a second setup, computing, remapping or giving memory before setup, computing before the memory was given, giving memory that was not asked for, a permutation that is not allowed, and bad tuning arguments all end the job on every process, with an error message and a failure exit status, before any data is touched. No process hangs, crashes or carries on, even if only one process has the bad tile bounds, and no valid request is refused, including very large grids, empty tiles and more processes than grid rows.",
 ["inputs","histories","configurations"],
 "all invalid argument values on any subset of the processes, all orders of calls, all valid boundary values",
 "No test exercises an error path, nor boundary values that are close to one.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/error.cpp"],
 [m("argument checks with a reduction over all processes","FFT3d::setup, FFT2d::setup, tune, compute, setup_memory"),m("Error::all","src/error.cpp")],
 [],["exit status of every process, standard output"])

p("C11","The C and Fortran interfaces do exactly what the C++ classes do",
 "Every operation, option keyword and query of the C interface, and of the Fortran interface with its 1-based bounds, has exactly the effect and result of the C++ method or variable of that name, for FFTs and remaps in 2d and 3d: same results, sizes, settings, statistics and errors. Unknown query keywords return the documented null values and disturb nothing.",
 ["inputs","configurations","histories"],
 "all operations, keywords, argument values and layouts through each interface",
 "The drivers use only some of the functions and keywords, with layouts in which swapped or shifted bounds can go unnoticed; remaps, caller buffers and most queries are never called through C or Fortran.",
 ["src/fft3d_wrap.cpp","src/fft2d_wrap.cpp","src/remap3d_wrap.cpp","src/remap2d_wrap.cpp","src/fft3d_wrap.f90","src/fft2d_wrap.f90","src/remap3d_wrap.f90","src/remap2d_wrap.f90"],
 [m("wrapper functions, one per method","src/*_wrap.cpp"),m("iso_c_binding interfaces","src/*_wrap.f90")],
 [],["return values and buffers through each interface"])

p("C12","Partial operations are exactly the steps of the full FFT",
 "The remap-only mode and the all-remaps operation move every value from its input-layout place to its output-layout place (backward: the reverse) and change no value; doing the single remaps one after the other in the order of the FFT has the same effect, in place or from one buffer to another. Applied around the 1d transforms they give the full FFT, and the 1d-only operation communicates nothing and stays within the reported grid size.",
 ["configurations","histories","inputs"],
 "all layouts, options, directions, single steps, in place or separate buffers",
 "The tests call these operations only for timing, with zero data, and the drivers' remap-only runs are in-place round trips on regular layouts.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [m("only_remaps, only_one_remap, only_1d_ffts, remaponly","src/fft3d.cpp, src/fft2d.cpp"),m("two-stage remap with exchange=brick","FFT3d::remap, FFT2d::remap")],
 [],["output buffers of the partial operations"])

p("C13","Processor grids and statistics are right for every process count and size",
 "For every number of processes and every grid, the reported process grids of each stage multiply to the number of processes (with one process along the dimension being transformed, and zero for the brick grid when unused), are the same on all processes, and their stages tile the grid. The returned sizes are the same as for library-owned buffers, cover the caller's tiles, and add up to at least the grid over all processes; the reported memory usage, library name, precision and settings describe the object truthfully, and setup works for grids with more than 2^31 points.",
 ["configurations","inputs"],
 "all process counts (primes, powers, more processes than rows), grid shapes and options",
 "The tests use 1, 3, 4, 6, 8 and 12 processes and do not look at these values.",
 ["src/fft3d.cpp","src/fft2d.cpp"],
 [m("factor, procfactors, surfarea","src/fft3d.cpp, src/fft2d.cpp"),m("memusage, remap_memory","src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp")],
 [],["public variables after setup"])

p("C14","A failed allocation ends the job with an error, never a wrong result",
 "If any memory allocation that the library makes while setting up, tuning or computing an FFT or remap fails on any process, the job is ended with an error and a message there. No process crashes on a null pointer, hangs, or carries on to deliver wrong results.",
 ["fault_sequences"],
 "every single allocation of every operation failing, on every process, in every option combination",
 "Allocations never fail in the tests.",
 ["src/fft3d.cpp","src/fft2d.cpp","src/remap3d.cpp","src/remap2d.cpp","src/memory.cpp","src/error.cpp","src/kissfft.h"],
 [m("checks after smalloc/srealloc, Error::one","src/fft3d.cpp, src/fft2d.cpp, src/remap3d.cpp, src/remap2d.cpp, src/error.cpp")],
 [],["exit status of every process"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
