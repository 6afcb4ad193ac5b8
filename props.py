"""What each check builds, how its counts are to be read, and what its entry in MANIFEST.json says."""
import os
BASE = ["the reference model in harness/oracle.hpp states the intended semantics (textbook definitions, evaluated over a finite set of breakpoints)",
        "sample times and predicate constants are dyadic; comparisons tolerate a relative error of 1e-6"]
OFF = "states: samples fed; transitions: evaluations of the formula; traces_validated_against_impl: complete (formula, trace) pairs whose answers were compared with the reference model; distinct_nontrivial: pairs whose robustness varies over the trace"
ON = "states: trace prefixes (nodes of the trees); transitions: samples appended (edges); traces_validated_against_impl: subtrees explored, every node queried; distinct_nontrivial: "
T_OFF = "bounded exhaustive enumeration of (formula, trace, window) on the real code against an explicit reference model"
T_ON = "explicit-state exploration of the complete tree of sample histories on the real code"
NOTE = "Every case within the bounds written in the evidence file is executed on the library built from the current tree; nothing is sampled. Beyond the bounds nothing is claimed. Trusts the reference model and the tolerance 1e-6. "
SEQ = "states: distinct sequences (nodes of the tree of operations); transitions: operations executed; traces_validated_against_impl: complete sequences, each compared after every observation; distinct_nontrivial: "
T_SEQ = "stateless exploration of every operation sequence up to a depth on the real code, compared with a reference execution or abstract state machine"
NSEQ = "Every operation sequence within the bounds written in the evidence file is executed on the library built from the current tree; nothing is sampled. Beyond the depth and alphabet nothing is claimed. "
SAN = ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"]
DBG = SAN[:3] + ["-fsanitize=float-cast-overflow", "-D_GLIBCXX_DEBUG"]
PYFLAGS = ["-fvisibility=hidden", "-isystem", "/usr/include/python3.12", "-isystem", os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pybind11", "include")]
PROPS = {
    "C01": dict(src="offline.cpp", defs=["-DPROP=1"], counts=OFF, assumptions=BASE, technique=T_OFF, note=NOTE),
    "C02": dict(src="offline.cpp", defs=["-DPROP=2"], counts=OFF, assumptions=BASE, technique=T_OFF, note=NOTE),
    "C03": dict(src="offline.cpp", defs=["-DPROP=3"], counts=OFF, assumptions=BASE, technique=T_OFF, note=NOTE),
    "C04": dict(src="online.cpp", defs=["-DPROP=4"], counts=ON + "(prefix, continuation) pairs with a finite bound", assumptions=BASE, technique=T_ON, note=NOTE),
    "C05": dict(src="online.cpp", defs=["-DPROP=5"], counts=ON + "samples that tightened a bound", assumptions=BASE, technique=T_ON, note=NOTE),
    "C06": dict(src="online.cpp", defs=["-DPROP=6"], counts=ON + "prefixes that cover the horizon", assumptions=BASE, technique=T_ON, note=NOTE),
    "C07": dict(src="history.cpp", counts=SEQ + "answers compared with those of a fresh object", assumptions=BASE[1:], technique=T_SEQ, note=NSEQ),
    "C08": dict(src="copies.cpp", flags=SAN, counts=SEQ + "sequences with a copy, assignment or taken monitor that is used afterwards", assumptions=["a monitor or driver is observed through its public fields and its answers"], technique=T_SEQ, note=NSEQ + "Built with AddressSanitizer and UndefinedBehaviorSanitizer. "),
    "C09": dict(src="samples.cpp", counts=SEQ + "samples accepted", assumptions=["the abstract state machine of the sample store in harness/samples.cpp states the intended behaviour"], technique=T_SEQ, note=NSEQ),
    "C10": dict(src="params.cpp", counts=SEQ + "answers compared with those of the formula with literals", assumptions=BASE[1:], technique=T_SEQ, note=NSEQ),
    "C11": dict(src="notation.cpp", counts="states: texts; transitions: inputs parsed; traces_validated_against_impl: texts whose answers were compared with those of the canonical text; distinct_nontrivial: texts accepted", assumptions=["the answers of the canonical text are right (C01 to C06)"], technique="stateless exploration of every notation choice within a deviation bound on the real code, compared with the canonical text", note=NSEQ.replace("operation sequence", "text")),
    "C12": dict(src="parse.cpp", counts="states: tokens pushed on the reference recogniser; transitions: inputs parsed; traces_validated_against_impl: inputs whose verdict and effects were compared with the recogniser's; distinct_nontrivial: inputs accepted", assumptions=["harness/language.hpp states the language (the rules of the grammar, as an Earley recogniser)", "whether a name defined by the immediately preceding statement counts as defined, and a comment that is not ended by a line break, are left open"], technique="exhaustive enumeration of viable prefixes with every continuation, of edits and of short strings on the real parser against an independent recogniser", note=NSEQ.replace("operation sequence", "input")),
    "C13": dict(src="signals.cpp", defs=["-DPROP=13"], counts="states: operand signals built; transitions: operators applied; traces_validated_against_impl: (operands) cases compared with the reference model at every breakpoint and inside every piece; distinct_nontrivial: operand pairs with a common domain", assumptions=BASE, technique="bounded exhaustive enumeration of operand signals on the real code against an explicit reference model", note=NOTE),
    "C14": dict(src="timerob.cpp", counts="states: samples fed / signals built; transitions: evaluations; traces_validated_against_impl: cases compared with the reference model; distinct_nontrivial: instants with a non-zero time robustness", assumptions=BASE, technique="bounded exhaustive enumeration of signals and (formula, trace, window) on the real code against an explicit reference model", note=NOTE),
    "C15": dict(src="offline.cpp", defs=["-DPROP=15"], counts=OFF, assumptions=BASE, technique=T_OFF, note=NOTE),
    "C16": dict(src="expr.cpp", counts=OFF, assumptions=BASE, technique=T_OFF, note=NOTE),
    "C17": dict(src="api.cpp", flags=DBG, counts=SEQ, assumptions=["arguments that are out of contract are left out: signals whose sample times are not increasing, null pointers, formulas built by hand", "AddressSanitizer, UndefinedBehaviorSanitizer and the debug mode of libstdc++ recognise the errors; use of uninitialised memory is recognised by its influence on results, by running every sequence with two different fill patterns of heap and stack"], technique="stateless exploration of every operation sequence up to a depth on the real code under sanitizers", note=NSEQ),
    "C18": dict(src="files.cpp", counts="states: files written or composed; transitions: lines; traces_validated_against_impl: files read back and compared; distinct_nontrivial: files with at least one sample", assumptions=["values are compared at the precision dump_trace_file prints"], technique="bounded exhaustive enumeration of traces and of file texts on the real code", note="Every file within the bounds is written, read and compared; nothing is sampled. "),
    "C19": dict(src="binding.cpp", extra=["src/pybind11/main.cpp"], extra_flags=PYFLAGS, libs=["-lpython3.12"], counts=SEQ, assumptions=["the module is compiled from src/pybind11/main.cpp and loaded into an embedded Python 3.12 interpreter", "the texts of TypeError messages, which pybind11 writes, are not compared"], technique="stateless exploration of every operation sequence up to a depth, executed on the Python module and on the C++ classes", note=NSEQ),
    "C20": dict(src="margin.cpp", counts="states: samples fed; transitions: evaluations; traces_validated_against_impl: traces compared with their Boolean verdict or with their neighbours; distinct_nontrivial: evaluations with a robustness other than zero", assumptions=["the Boolean semantics is evaluated in exact integer arithmetic, predicates being strict", "sample times, values and coefficients are dyadic"], technique="bounded exhaustive enumeration of (formula, trace) and of pairs of neighbouring traces on the real code against an explicit Boolean model", note=NOTE.replace("the reference model and the tolerance 1e-6", "the Boolean model in harness/margin.cpp")),
    "C21": dict(src="legacy.cpp", flags=SAN, counts=SEQ + "runs of a trace test", assumptions=BASE[1:] + ["the abstract model of queue, report, log and counters in harness/legacy.cpp states the intended behaviour", "running tests without data, and test blocks that are rejected, are left out"], technique=T_SEQ, note=NSEQ + "Built with AddressSanitizer and UndefinedBehaviorSanitizer. "),
    "C22": dict(src="leaks.cpp", counts=SEQ.replace("complete sequences, each compared after every observation", "complete sequences and texts, executed with counted allocations") + "sequences of operations, texts accepted", assumptions=["memory is what global operator new hands out; what is allocated only the first time is a cache, not a leak"], technique="stateless exploration of every operation sequence up to a depth and of every input text within bounds on the real code, with counted allocations", note=NSEQ),
    "C23": dict(src="print.cpp", counts="states: displayed texts parsed back; transitions: evaluations of a parsed-back formula; traces_validated_against_impl: displayed formulas, each compared on every trace; distinct_nontrivial: formulas whose robustness varies", assumptions=["the answers of the displayed formula itself are right (C01 to C06)"], technique="bounded exhaustive enumeration of formulas and traces on the real code: what is displayed is parsed back and compared with what was displayed", note=NSEQ.replace("operation sequence", "formula")),
    "C24": dict(src="agree.cpp", counts="states: samples fed; transitions: pairs of ways compared; traces_validated_against_impl: (formula, mode, parameter, trace) cases, each with every window and way; distinct_nontrivial: those with an interval of bounds that is not a point", assumptions=["what the answer should be is decided by C01 to C06, C14 and C15"], technique="bounded exhaustive enumeration of (formula, trace, mode, window, way of asking) on the real code, every way compared with eval_rob", note=NSEQ.replace("operation sequence", "case")),
    "C25": dict(src="work.cpp", libflags=["-fsanitize-coverage=trace-pc"], counts="states: samples fed; transitions: evaluations whose steps were counted; traces_validated_against_impl: (formula or chain, mode, trace) cases, each at both sizes; distinct_nontrivial: distinct step counts", assumptions=["steps are the basic blocks of the library's own code (and of what is inlined into it); the work inside calls to the standard library is not counted", "linear is judged on two sizes: a ratio of work per sample (per operator) below 1.7 between N and 8N samples (K and 4K operators)"], technique="bounded exhaustive enumeration of (formula or chain of operators, shape of trace, mode) on the real code at two sizes, steps counted by instrumentation", note=NSEQ.replace("operation sequence", "case")),
    "C26": dict(src="edit.cpp", counts="states: signals reached; transitions: operations executed, each result compared with the table of the function; traces_validated_against_impl: first two operations with every continuation; distinct_nontrivial: results of more than two samples", assumptions=["the table of the function at every multiple of 1/4, from both sides, in harness/edit.cpp states the intended effect", "left open: resizing to begin after the end, appending to a signal whose last sample is not its end (LINEAR), the value at the instant where the fill value takes over"], technique=T_SEQ, note=NSEQ),
}
NOT_APPLICABLE = {}
