"""What each check builds and runs."""

SYMMETRIES = ["No", "Z2", "U1", "Fermi", "FermiZ2", "FermiU1"]

SUITES = {
    "mpi": {
        "images": 12,
        "flags": ["-DTAT_USE_MPI"],
        "objects": [("main", "mpi_main.cpp", []), ("plain", "mpi_values.cpp", ["-DPLAIN"])] + [("v" + s, "mpi_values.cpp", ["-DSYM=" + s]) for s in SYMMETRIES],
    },
    "io": {
        "images": 12,
        "flags": ["-DTAT_USE_MPI", "-fstack-protector-all"],
        "objects": [("main", "io_main.cpp", []), ("plain", "io_values.cpp", ["-DPLAIN"])] + [("v" + s, "io_values.cpp", ["-DSYM=" + s]) for s in SYMMETRIES],
    },
}

SUITES["mem"] = {
    "images": 1,
    "flags": [],
    "objects": [("main", "mem_main.cpp", [])] + [("v" + s, "mem_values.cpp", ["-DSYM=" + s]) for s in SYMMETRIES],
}

SUITES["lazy"] = {"images": 1, "flags": [], "objects": [("main", "lazy_main.cpp", [])]}

SUITES["square"] = {"images": 14, "flags": ["-DTAT_USE_MPI"], "objects": [("main", "square_main.cpp", [])]}
SUITES["sampling"] = {"images": 12, "flags": ["-DTAT_USE_MPI"], "objects": [("main", "sampling_main.cpp", [])]}

MPI_STUB = ["MPI library (simulated transport: per-pair FIFO channels, arbitrary delay, buffered or synchronous sends)", "process scheduler, clock, operator new/delete, entropy"]
MPI_ASSUME = ["the transport is a conforming MPI: reliable, ordered per pair of processes; it may buffer or not",
              "processes register edge names in the same order, as compact names travel as table indices"]


def mpi_job(scenario, runs, ranks=(1, 7)):
    return {"suite": "mpi", "scenario": scenario, "runs": runs, "ranks": ranks}


IO_STUB = ["files and pipes (simulated devices behind std::streambuf with buffers, short transfers, full disk, errors, truncation)", "process lifetime (crash and restart), operator new/delete", "MPI library (simulated)"]
IO_REAL = ["TAT/io.hpp", "TAT/name.hpp", "TAT/tensor.hpp, TAT/core.hpp, TAT/edge.hpp, TAT/symmetry.hpp"]


def io_job(scenario, runs, ranks=(1, 1)):
    return {"suite": "io", "scenario": scenario, "runs": runs, "ranks": ranks}


MEM_STUB = ["operator new/delete (simulated heap with guards, poisoned and reused memory, failing allocations)"]
MEM_REAL = ["TAT/tensor.hpp and every tensor operation", "TAT/pmr_resource.hpp", "TAT/name.hpp", "BLAS and LAPACK"]


def mem_job(scenario, runs):
    return {"suite": "mem", "scenario": scenario, "runs": runs, "ranks": (1, 1)}


LAZY_STUB = ["operator new/delete (simulated heap with guards, poisoned and reused memory, failing allocations)"]


def lazy_job(scenario, runs):
    return {"suite": "lazy", "scenario": scenario, "runs": runs, "ranks": (1, 1)}


SUITES["python"] = {"script": "pysim/run.py"}
PY_REAL = ["square/*.py"]
PY_STUB = ["the compiled module TAT (its tensors on numpy, every operation a place where memory may run out)", "object addresses and their reuse, garbage collector, random numbers", "standard output (captured)"]


SUITES["bind"] = {"script": "pysim/run.py", "module": True}


def python_job(scenario, runs):
    return {"suite": "python", "scenario": scenario, "runs": runs, "ranks": (1, 1)}


SQ_REAL = ["square/*.hpp", "lazy.hpp", "TAT/mpi.hpp, TAT/io.hpp, TAT/tensor.hpp and everything below them", "BLAS and LAPACK"]
SQ_STUB = ["MPI library (simulated transport)", "process scheduler, process lifetime (crash and restart), clock, entropy", "operator new/delete", "checkpoint files (simulated devices)", "standard output (captured)"]


def square_job(suite, scenario, runs, ranks=(1, 1)):
    return {"suite": suite, "scenario": scenario, "runs": runs, "ranks": ranks}


CHECKS = {
    "B01": {
        "jobs": [{"suite": "bind", "scenario": "b01", "runs": (6000, 300000), "ranks": (1, 1), "cpu": 5}],
        "rule": "A history of up to 22 actions over up to six Python tensors of six types that share data: changes in place, results, copies, pickles, texts, views of blocks, kept edges and names, the caller's own functions that raise half way, wrong and incomplete requests, other content for the same object, cycles and collection, under chosen contents and reuse of memory; everything alive is compared with plain arrays.",
        "real": ["PyTAT/PyTAT.cpp (double and complex double elements; no, Z2 and Fermi symmetry)", "include/TAT", "pybind11, numpy, the Python interpreter", "BLAS and LAPACK"],
        "stub": ["operator new/delete of the module (simulated heap with guards, chosen contents and reuse)", "garbage collector runs when the simulator says so", "random seeds"],
    },
    "P01": {
        "jobs": [python_job("p01", (6000, 200000))],
        "rule": "A history of setting, forgetting and asking on up to four Python environment systems or spin configurations: copies, copied lattices, joined parts, replaced tensors, questions that cannot be answered yet, and memory running out; every answer is compared with the full contraction or, where bonds are cut, with a system built anew.",
        "real": PY_REAL, "stub": PY_STUB,
    },
    "P02": {
        "jobs": [python_job("p02", (5000, 200000)), python_job("p02s", (32, 4000))],
        "rule": "A history of enumerations, Markov steps, new terms and new tensors on a Python sampling lattice with operators that come and go while their addresses are used again and memory runs out; every number is compared with the state vector contracted independently.",
        "real": PY_REAL, "stub": PY_STUB,
    },
    "P03": {
        "jobs": [python_job("p03", (5000, 200000))],
        "rule": "A history of simple updates, conversions, copies, state vectors and their updates on Python lattices while memory runs out at random; copies are compared before and after, updates that cut nothing with the exact evolution, observables with the state vector contracted independently.",
        "real": PY_REAL, "stub": PY_STUB,
    },
    "Q01": {
        "jobs": [square_job("square", "q01", (4000, 80000))],
        "rule": "A random lattice with random two- and one-site terms is updated by one process and again by a job of 1-6 processes under random delays, stalls and send buffering; every tensor and environment on every process is compared bit for bit.",
        "real": SQ_REAL, "stub": SQ_STUB, "assumptions": MPI_ASSUME,
    },
    "Q02": {
        "jobs": [square_job("square", "q02", (12000, 400000), (1, 6))],
        "rule": "Histories of seed, draw, split_seed and merge_seed on jobs of 1-6 processes with entropy decided by the simulator.",
        "real": ["square/basic.hpp random engine, TAT/mpi.hpp"], "stub": SQ_STUB, "assumptions": MPI_ASSUME,
    },
    "Q03": {
        "jobs": [square_job("sampling", "q03", (16000, 400000))],
        "rule": "A history of spin changes, tensor changes, cut changes, copies, moves, assignments, storing and loading on sampling lattices, with failing allocations; random questions about amplitudes, replacements and holes are compared bit for bit with a lattice built anew and, without truncation, with the full contraction.",
        "real": SQ_REAL, "stub": SQ_STUB,
    },
    "Q04": {
        "jobs": [square_job("square", "q04", (12000, 400000))],
        "rule": "A lattice (simple update, exact or sampling) is computed with, stored on a simulated device that may be cut, full or failing, the job dies and restarts with another number of processes, and the continued computation is compared bit for bit with an undisturbed one.",
        "real": SQ_REAL, "stub": SQ_STUB, "assumptions": MPI_ASSUME,
    },
    "Q05": {
        "jobs": [square_job("sampling", "q05", (4000, 120000), (1, 3)), square_job("sampling", "q05s", (60, 3000))],
        "rule": "Ergodic and Markov sampling of random lattices on 1-3 processes; reported averages, variances and gradients are compared with the averages over the configurations actually visited; the visited distribution is compared with the squared amplitudes.",
        "real": SQ_REAL, "stub": SQ_STUB, "assumptions": MPI_ASSUME + ["distribution test: deviation bound exceeded with probability below 1e-9 per comparison for a correct chain; seeds are fixed"],
    },
    "Q06": {
        "jobs": [square_job("sampling", "q06", (8000, 300000))],
        "rule": "Operators are created, measured and destroyed in random order under address reuse; each measurement is compared with one by a fresh lattice.",
        "real": SQ_REAL, "stub": SQ_STUB,
    },
    "L01": {
        "jobs": [lazy_job("l01", (60000, 2000000))],
        "rule": "A history of up to 32 actions over a random graph of up to 14 roots, nodes and paths: reading, setting (also from the graph's own values), unsetting, creating and dropping, with node functions that throw and failing allocations; every read is compared with recomputation.",
        "real": ["lazy.hpp"], "stub": LAZY_STUB,
    },
    "L02": {
        "jobs": [lazy_job("l02", (60000, 2000000))],
        "rule": "As L01 with two graphs, snapshots taken at random points and restored later, possibly repeatedly and after values were created or dropped.",
        "real": ["lazy.hpp"], "stub": LAZY_STUB,
    },
    "A01": {
        "jobs": [mem_job("a01", (30000, 1000000)), mem_job("a01n", (4000, 100000))],
        "rule": "One of 36 tensor operations on operands of 12 tensor types runs while a chosen allocation (and possibly all later ones) fails, up to three times, and is then repeated with memory available; also name registration.",
        "real": MEM_REAL, "stub": MEM_STUB,
    },
    "A02": {
        "jobs": [mem_job("a02", (24000, 800000))],
        "rule": "Histories of up to 22 actions over 2-5 tensor handles that share data: copies, assignments, in-place and out-of-place operations, failing allocations and interrupted updates, against independent values.",
        "real": MEM_REAL, "stub": MEM_STUB,
    },
    "A03": {
        "jobs": [mem_job("a03", (24000, 800000)), mem_job("a03r", (8000, 200000))],
        "rule": "One of 30 operations is repeated three times with different content of fresh memory, address reuse, stack content and surrounding scratch scopes; the scratch allocator serves random requests under a failing upstream.",
        "real": MEM_REAL, "stub": MEM_STUB,
    },
    "S01": {
        "jobs": [io_job("s01", (40000, 1000000))],
        "rule": "Up to six objects of 86 kinds are written to one simulated file through a random buffer, the process may restart, and they are read back in random pieces into fresh or reused objects.",
        "real": IO_REAL, "stub": IO_STUB,
    },
    "S02": {
        "jobs": [io_job("s02", (40000, 1000000))],
        "rule": "As S01, with the device failing or filling up after a random byte, or the input ending or failing at a random byte.",
        "real": IO_REAL, "stub": IO_STUB,
    },
    "S03": {
        "jobs": [io_job("s03", (40000, 1000000))],
        "rule": "Up to four tensors or singular values of 66 kinds are printed as text to one simulated file and parsed back in random pieces, possibly by a restarted process.",
        "real": IO_REAL, "stub": IO_STUB, "assumptions": ["finite values printed with enough digits; no negative zero; names made of the characters the text form allows"],
    },
    "S04": {
        "jobs": [io_job("s04", (40000, 1000000))],
        "rule": "The text form of one value is cut at a random byte, edited at random places or given an absurdly long token, and parsed in random pieces.",
        "real": IO_REAL, "stub": IO_STUB,
    },
    "S05": {
        "jobs": [io_job("s05", (30000, 800000)), io_job("s05m", (8000, 200000), (1, 6))],
        "rule": "A process registers names in random order, stores tensors and its name table and dies; a new process with names of its own loads a possibly cut table, then the real one, and reads the tensors; also live exchange between processes.",
        "real": IO_REAL + ["TAT/mpi.hpp"], "stub": IO_STUB,
    },
    "M01": {
        "jobs": [mpi_job("m01", (24000, 600000))],
        "rule": "A job of 1-7 simulated processes executes a random script of sends, receives and send_receive calls over 68 message kinds; delivery order, delays, stalls and send buffering are decided by the seed.",
        "real": ["TAT/mpi.hpp", "TAT/io.hpp", "TAT/tensor.hpp and everything below it"], "stub": MPI_STUB, "assumptions": MPI_ASSUME,
    },
    "M02": {
        "jobs": [mpi_job("m02", (24000, 600000), (1, 10))],
        "rule": "A job of 1-10 simulated processes executes broadcasts from arbitrary (also invalid) roots mixed with point-to-point traffic.",
        "real": ["TAT/mpi.hpp", "TAT/io.hpp", "TAT/tensor.hpp and everything below it"], "stub": MPI_STUB, "assumptions": MPI_ASSUME,
    },
    "M03": {
        "jobs": [mpi_job("m03", (24000, 600000), (1, 10))],
        "rule": "A job of 1-10 simulated processes executes reductions to arbitrary (also invalid) roots mixed with other traffic; contributions are uniquely tagged or exactly summable.",
        "real": ["TAT/mpi.hpp", "TAT/io.hpp", "TAT/scalar.hpp", "TAT/tensor.hpp and everything below it"], "stub": MPI_STUB, "assumptions": MPI_ASSUME,
    },
    "M04": {
        "jobs": [mpi_job("m04", (24000, 600000), (1, 8))],
        "rule": "A job of 1-8 simulated processes executes a random script over all communication calls including barriers, under buffered and synchronous sends, stalled processes and links.",
        "real": ["TAT/mpi.hpp", "TAT/io.hpp", "TAT/tensor.hpp and everything below it"], "stub": MPI_STUB, "assumptions": MPI_ASSUME,
    },
    "M05": {
        "jobs": [mpi_job("m05", (24000, 600000), (1, 6))],
        "rule": "A job of 1-6 simulated processes creates, copies and destroys communication handles at arbitrary points of a communication script and then exits normally.",
        "real": ["TAT/mpi.hpp", "TAT/io.hpp", "static construction and destruction of the program image"], "stub": MPI_STUB, "assumptions": MPI_ASSUME,
    },
    "M06": {
        "jobs": [mpi_job("m06", (24000, 600000), (1, 7))],
        "rule": "A job of 1-7 simulated processes prints through the rank-selected and rank-prefixed streams; every write may be preempted and streams may be buffered or unbuffered.",
        "real": ["TAT/mpi.hpp"], "stub": MPI_STUB + ["terminal (captured output)"], "assumptions": MPI_ASSUME,
    },
}
