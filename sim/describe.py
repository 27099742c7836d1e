"""What the evidence files say about each check."""
COMMON = [
    "the reference model (sim/flp.py, sim/catalog.py) states the format and the meaning of the properties correctly; it was written from the documentation and the code and shares no code with the library",
    "generated projects (sim/gen.py) are well formed: versions 3.3 to 21.2, all known event kinds, unknown ones, truncated and extended structures; projects beyond the generator's shape are not covered",
    "a crash keeps what completed write calls stored (no loss of acknowledged data after close)",
    "executed with PyPy 3.9, JIT off",
]
REAL = "all of pyflp from /repo's working tree, construct, sortedcontainers, the interpreter's io stack, the kernel's file system below a scratch directory"
STUB = "libc's file calls below the scratch directory pass through sim/shim.c, which injects the faults; crash = every later call fails and all objects are dropped"
SAVED = "distinct file contents written by completed saves"


def t(measure, real=REAL, stub=STUB, assumptions=()):
    return {"measure": measure, "real": real, "stub": stub, "assumptions": list(assumptions)}


TEXT = {
    "C01": t(SAVED),
    "C02": t(SAVED),
    "C03": t(SAVED + " (= distinct projects carried through a history)"),
    "C04": t("distinct combinations of (faults that fired, sequence of system calls, outcome)"),
    "C05": t(SAVED),
    "C06": t("distinct lengths of torn files judged"),
    "C07": t("distinct file contents saved after an interrupted or failed operation", stub=STUB + "; exceptions are raised by a line tracer at the chosen line of the library"),
    "C08": t("distinct (faults fired, outcome, number of system calls, interruption point)", stub=STUB + "; exceptions are raised by a line tracer at the chosen line of the library"),
    "C09": t("distinct sequences of system calls with their results, per operation and interruption point", stub=STUB + "; opens for writing elsewhere are recorded, not blocked"),
    "C10": t(SAVED),
    "C11": t(SAVED),
    "C12": t(SAVED + " (= distinct event sequences)"),
    "C13": t("distinct interleavings: hash of the sequence of (thread, function, line) at every context switch, or of the order of operations", stub=STUB + "; real threads run one at a time under sim/sched.py, switched at line events; threading locks are simulated"),
    "C14": t("distinct damaged files"),
    "C15": t("distinct vectors of positions of all open iterations"),
    "C16": t("distinct interleavings: hash of the sequence of (thread, function, line) at every context switch", stub=STUB + "; real threads run one at a time under sim/sched.py, switched at line events; threading locks are simulated", assumptions=["threads are switched between lines of pyflp, not inside a line or inside construct's own lines"]),
    "C17": t("distinct (operation, lines executed the first time, outcome), and distinct damaged files", stub=STUB + "; executed lines of pyflp are counted by a line tracer, which ends an operation past its budget", assumptions=["cost = executed lines of pyflp; time inside the interpreter and construct, and memory, are not measured"]),
    "C18": t("distinct sets of repeated operations with their arguments", stub=STUB + "; exceptions are raised by a line tracer at the chosen line of the library", assumptions=["memory = number of living objects per type, and total length of bytes, text and containers, after two full collections; growth which stops (a cache which fills up within 300 rounds) is no violation"]),
}
