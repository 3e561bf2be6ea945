#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand; the results are committed)."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from suites import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mechanism, note=None, na=None, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if observe:
        a["observe_at"] = observe
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a, "_note": note, "_na": na})


MPI = "include/TAT/mpi.hpp"
IO = "include/TAT/io.hpp"

prop("M01", "Point-to-point transfer delivers every object intact, in order, exactly once",
     "Whatever the relative speed of the processes and the delays of the network, an object sent from one process to another with send, receive or the combined send-receive call arrives with exactly the structure and the bit pattern it was sent with. Objects between a pair of processes arrive in the order they were sent, each exactly once, and only the addressed process obtains one; every other process gets an empty default object from the combined call. The sender's own copy is not changed by sending.",
     ["schedules", "inputs", "configurations"], "All job sizes, pairs of processes, message kinds (numbers, complex numbers, lists, strings, tensors and singular values of every symmetry, scalar and name type), message sizes including empty ones, and delivery schedules.",
     "The MPI test runs one fixed program on 1 and 4 processes under whatever schedule the machine happens to produce, with small double tensors.",
     [MPI, IO], [("typed and serialised send/receive, probe before receive", MPI + ": mpi_t::send, mpi_t::receive, mpi_t::send_receive")],
     observe=["the received object's full content", "messages left in the transport"])
prop("M02", "Broadcast gives every process the root's object, for any size and root",
     "After a broadcast every process of the job holds an object bit-identical to the one the root passed in, for every number of processes and every valid root, however the processes are delayed against each other and whatever traffic surrounds the call. In a job of several processes a root outside the job is refused by an error on every process rather than blocking or returning data.",
     ["schedules", "configurations", "inputs"], "All job sizes from one process up, all roots, all message kinds, all delivery schedules, mixed with point-to-point traffic.",
     "Tests broadcast from one root on a fixed number of processes.",
     [MPI], [("binary tree broadcast relative to the root", MPI + ": mpi_t::broadcast")])
prop("M03", "Reduction uses every contribution exactly once, independent of timing",
     "A reduction delivers to the root the combination of the contributions of all processes, each used exactly once, combined in an order that depends only on the job size and the root and never on timing. The same inputs therefore give the root a bit-identical result in every execution; in a job of several processes a root outside the job is refused by an error on every process.",
     ["schedules", "configurations", "inputs"], "All job sizes, roots, contributions, associative operations and delivery schedules.",
     "Tests reduce commutative sums on one or four processes; a lost, doubled or timing-dependent contribution at another size or schedule is not seen.",
     [MPI], [("binary tree reduction relative to the root", MPI + ": mpi_t::reduce")])
prop("M04", "Communication never deadlocks, leaks or crosses between calls; barriers hold",
     "A job whose processes issue matching communication calls in the same order finishes within bounded communication steps whether or not the transport buffers sends, and leaves no undelivered message behind. No call receives data that belongs to another call. No process leaves a barrier before every process has entered it.",
     ["schedules", "configurations", "programs", "fault_sequences"], "All scripts of sends, receives, combined transfers, broadcasts, reductions and barriers, under buffered and fully synchronous sends, stalled processes and stalled links.",
     "Small test messages are always buffered eagerly by the installed MPI, so a call that relies on buffering or on a lucky order still passes.",
     [MPI], [("collectives built from tagged point-to-point messages; barrier", MPI + ": mpi_t::broadcast, mpi_t::reduce, mpi_t::barrier, mpi_t::send_receive")])
prop("M05", "MPI is started once and shut down once, after the last use",
     "However many communication handles a process creates, copies, moves and destroys, and in whatever order, the message layer is initialised exactly once, stays usable until the program ends, and is shut down exactly once at normal exit.",
     ["histories", "schedules", "configurations"], "All orders of creating, copying and destroying handles relative to communication and to program exit, on every process of the job.",
     "The tests use the single global handle only.",
     [MPI], [("initialisation and finalisation in the handle", MPI + ": mpi_t constructor and destructor")])
prop("M06", "Rank-selected output appears once, whole, on the selected process",
     "Text printed through the single-process stream appears exactly once for the whole job, printed by the selected process; text printed through the rank-prefixed stream appears exactly once per process, carrying that process' prefix. Each printed statement reaches its device as one contiguous piece and no later than the end of the statement, whatever the interleaving of the processes.",
     ["schedules", "configurations"], "All job sizes, selected ranks, interleavings of the processes' writes and buffering modes of the devices.",
     "No test captures or compares the output of several processes.",
     [MPI], [("output objects collecting a statement and writing it on destruction", MPI + ": mpi_one_output_stream, mpi_rank_output_stream, mpi_t::out_one, out_rank, log_one, log_rank")])
prop("S01", "Binary storage returns exactly what was written, however the bytes are cut up",
     "Any sequence of objects written to a binary stream and read back in the same order, in the same process or in a later one, gives objects with identical structure and bit-identical content, whatever sizes the pieces of data arrive in and whatever the objects being read into held before. Reading consumes exactly the bytes that writing produced, so the next object or foreign data after it stays readable. Reading into an object does not disturb other objects that shared its former content.",
     ["inputs", "histories", "configurations"], "All sequences of objects of every supported kind, values including special floating point numbers, arbitrary names, buffer sizes, short transfers and process restarts.",
     "Tests round-trip single hand-written tensors through an in-memory string.",
     [IO], [("binary operators and dump/load", IO + ": operator<, operator>, meta_put/data_put, meta_get/data_get, dump, load")])
prop("S02", "A cut, failing or full binary store is reported, never taken for data",
     "If the stored bytes of an object end early or the device fails while it is read, reading reports an error (a failed stream or an exception) within effort bounded by the data present, and loading from an incomplete string raises an error. Objects completely stored before the damage are still read back exactly. If the device fills up or fails while an object is written, the stream reports the failure.",
     ["crash_points", "fault_sequences", "inputs"], "All byte positions at which a file can be cut, a read can fail or a device can become full, for every kind of object and piece size.",
     "No test reads incomplete data or writes to a failing device.",
     [IO], [("stream state checks in the binary readers; load", IO + ": operator> for strings, lists, maps, edges, tensors; load")])
prop("S03", "Printed tensors and singular values can be read back exactly",
     "Any tensor or singular value printed in text form with enough digits, including the coloured form, can be parsed back into an object with the same names, edges, blocks and values, whatever pieces the text arrives in, also when several objects follow one another in the same text and when another process does the reading.",
     ["inputs", "histories"], "All shapes, symmetries, scalar and name types, finite values over a wide range of magnitudes, sequences of objects and piece sizes.",
     "Tests print and parse a few fixed tensors each from its own string.",
     [IO], [("text operators", IO + ": operator<<, operator>>, show, ignore_until, ignore_color")])
prop("S04", "Parsing broken text ends with an error and without damage",
     "Parsing the text form of a tensor or singular value from input that is cut short, fails half way, is malformed or contains an absurdly long word always comes to an end with effort bounded by the length of the input and without touching memory outside its objects. Input that ends before the object is complete is reported through the stream state or an exception.",
     ["fault_sequences", "inputs", "crash_points"], "All cut positions, read errors and local edits of the text of any tensor or singular value.",
     "No test parses malformed or incomplete text.",
     [IO], [("character-wise scanning of lists, names and numbers", IO + ": operator>>, scan_list, scan_string_for_name")])
prop("S05", "Compact edge names keep their meaning across processes and restarts",
     "A process that loads the stored name table of another process, before or after having used names of its own, reads data stored by that process with exactly the edge names it was written with. Loading an incomplete table reports an error and leaves the current table as it was. Handing out names never gives two different names the same identity nor one name two identities.",
     ["histories", "crash_points", "configurations"], "All orders of registering names in the writing and reading process, all cut positions of the stored table, restarts, and live exchange between processes.",
     "Tests run in one process with one fixed registration order.",
     ["include/TAT/name.hpp", IO], [("global name table, dump and load of the table", "include/TAT/name.hpp: FastName, FastName dataset; " + IO + ": load_fast_name_dataset, dump_fast_name_dataset")])

exec(open(os.path.join(HERE, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(HERE, "tools", "props_more.py")) else None

CPPNA = "The result is a pure function of its arguments: no schedule, clock, I/O, fault or second party can influence it, so a simulator has nothing to decide; it would be ordinary input testing."
for id, title, statement, text, files, mech in [
    ("N01", "Contraction equals the sum over the joined edges", "Contracting two tensors over any set of edge pairs gives, for every symmetry and element type, the tensor whose elements are the sums over the joined edges, independent of edge order and of the internal path taken.", "All pairs of tensors and edge pairings.", ["include/TAT/contract.hpp"], [("merge, matrix product, split", "include/TAT/contract.hpp: Tensor::contract")]),
    ("N02", "Singular value and QR decompositions recombine to the input", "The factors of a decomposition multiply back to the input, are isometric where promised, and a cut keeps the largest singular values.", "All tensors, edge selections and cuts.", ["include/TAT/svd.hpp", "include/TAT/qr.hpp"], [("LAPACK on merged blocks", "include/TAT/svd.hpp: Tensor::svd; include/TAT/qr.hpp: Tensor::qr")]),
    ("N03", "Edge renaming, splitting, merging, reversing and transposing preserve the state", "Structural edge operations change only the arrangement of the elements and the signs the fermionic rules prescribe, and their inverses restore the input.", "All tensors and combinations of structural operations.", ["include/TAT/edge_operator.hpp", "include/TAT/transpose.hpp"], [("edge operator planning and transpose", "include/TAT/edge_operator.hpp: Tensor::edge_operator_implement")]),
    ("N04", "Matrix exponential and trace agree with their definitions", "The exponential of a square tensor equals its power series to rounding and the trace equals the sum over the diagonal with the fermionic sign rules.", "All square tensors and pairings.", ["include/TAT/exponential.hpp", "include/TAT/trace.hpp"], [("scaling and squaring; loop over diagonal", "include/TAT/exponential.hpp, include/TAT/trace.hpp")]),
    ("N05", "The Python module offers the same results as the C++ library", "Each Python call returns the same value as the corresponding C++ call and converts arrays without loss.", "All Python programs over the binding.", ["PyTAT"], [("pybind11 wrappers", "PyTAT")]),
]:
    why = "The tests compare a handful of fixed tensors."
    na = CPPNA if id != "N05" else "Which C++ call a Python call stands for is a fixed translation without schedules, I/O or faults of its own, so a simulator has nothing to decide; histories of Python calls, the lifetime of what they return and failing requests are B01."
    prop(id, title, statement, ["inputs"] if id != "N05" else ["programs"], text, why, files, mech, na=na)

SINGLE = "Seeded exploration: evidence for the schedules, faults and histories actually simulated (counts in the evidence file), not a proof. Trusts the simulator in /verif/sim, the compiler and the C++ runtime; library code runs unmodified."


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    checks, na = [], []
    for p in P:
        i = p["id"]
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, (i, p["statement"])
        if i in CHECKS:
            checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                           "technique": "deterministic simulation with fault injection (seeded schedule and fault search, history oracle, minimised replay)",
                           "level": "exploration", "level_note": SINGLE + (" " + p["_note"] if p["_note"] else "")})
        else:
            na.append({"property": i, "reason": p["_na"] or "Not built yet."})
    m = {"version": 1, "setup_cmd": "python3 check.py --build", "hooks": {"guard": "none", "enable": "No hooks were needed: the scenarios compile /repo/include unmodified against simulated mpi.h, streams, clock, entropy and allocator.", "source_commits": []},
         "checks": checks, "not_applicable": na,
         "notes": "One executable (build/simrun) simulates whole jobs inside one process; process images are shared objects built from /repo/include and /verif/scenarios. python3 check.py --replay FILE re-executes a violation; python3 check.py --determinism compares repeated executions."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
