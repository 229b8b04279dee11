import importlib
TABLE = {"C01": ("queue", "check"), "C02": ("queue", "check")}
for _p in ("C03", "C04", "C05", "C06", "C07"):
    TABLE[_p] = ("pipe", "check")

for _p, _f in (("C08", "text"), ("C09", "text"), ("C10", "binary"), ("C11", "arrays"), ("C12", "convert"), ("C13", "tools"), ("C26", "points")):
    TABLE[_p] = ("formats", _f)

for _p, _f in (("C15", "rules"), ("C16", "rules"), ("C17", "rules"), ("C18", "rules"), ("C14", "feeding"), ("C22", "feeding"), ("C20", "saving"), ("C19", "using"), ("C21", "damaged"), ("C23", "parameters"), ("C24", "options"), ("C25", "losscheck")):
    TABLE[_p] = ("models", _f)

TABLE["C27"] = ("cli", "check")
QN = ("TLC exhausts the lock-level queue model (refinement of the abstract queue, progress under strong fairness) for the listed "
      "thread scripts; the real queue runs under a deterministic scheduler over all schedules within a preemption/spurious-wake-up "
      "budget plus random ones, and every distinct history is validated by TLC against the abstract queue. "
      "Assumes sequential consistency between synchronisation calls.")
INFO = {
    "C01": ("TLA+ queue specification; histories of the real queue under controlled schedules validated by TLC", QN),
    "C02": ("TLA+ queue specification with fairness; blocked ends of the real queue under controlled schedules judged by TLC", QN),
}
PN = ("TLC exhausts the detailed iterator model (all consumer behaviours and interleavings for the listed sources, batch sizes and "
      "buffer counts, safety and liveness); the real iterator runs with scripted sources under a deterministic scheduler over all "
      "schedules within a preemption/spurious-wake-up budget plus random ones, and every distinct run is validated by TLC against the "
      "abstract iterator specification. Assumes sequential consistency between synchronisation calls.")
for _p, _t in (("C03", "delivery"), ("C04", "ownership and read-ahead"), ("C05", "end of data and source registration"),
               ("C06", "error containment"), ("C07", "destruction")):
    INFO[_p] = ("TLA+ iterator specification (%s clauses); runs of the real iterator under controlled schedules validated by TLC" % _t, PN)
FN = ("The specification gives the meaning of every input as a TLA+ automaton or relation; the real readers, writers and tools are run "
      "(address sanitizer on) on an exhaustive small-scope set plus randomised large inputs, and TLC validates every run against the "
      "specification. Bounded by the inputs explored; numbers are evaluated by a Java operator override.")
for _p, _t in (("C08", "libsvm line automaton"), ("C09", "CSV line automaton"), ("C10", "binary record sequence and truncation"),
               ("C11", "array row semantics"), ("C12", "conversion relation"), ("C13", "data-set relations"), ("C26", "data point values")):
    INFO[_p] = ("TLA+ specification of the %s; runs of the real code validated by TLC" % _t, FN)
LN = ("The specification Learner.tla gives state and transitions of all 24 learners (weights, gradient sums, confidences, truncation "
      "times, selection), evaluated in double precision by a Java operator override; runs of the real learners (address sanitizer on; "
      "all algorithms, losses, class counts, randomised parameters and record sequences) are validated by TLC record by record. "
      "Bounded by the runs explored and by a rounding tolerance; ties within the tolerance are resolved either way.")
for _p, _t in (("C15", "first-order update rules"), ("C16", "second-order and adaptive update rules"), ("C17", "L1 regularisation"),
               ("C18", "feature selection"), ("C20", "saving and loading"), ("C24", "update options")):
    INFO[_p] = ("TLA+ specification of the learners (%s); recorded training runs validated by TLC" % _t, LN)
MN = ("The specification states the behaviour over complete runs (TLA+ trace specification with its own state); runs of the real "
      "library (address sanitizer on) over all algorithms and randomised settings are validated by TLC. Bounded by the runs explored.")
for _p, _t in (("C14", "TLA+ specification of training as a function of the record sequence; recorded runs in different batches, passes, sources and calls validated by TLC"),
               ("C22", "TLA+ specification of counters, error rate and progress calls; recorded training runs validated by TLC"),
               ("C19", "TLA+ specification of preprocessing, scoring, testing and sparsity; recorded runs validated by TLC"),
               ("C21", "TLA+ specification of model files as whole or nothing; every cut and failing write of saved models validated by TLC"),
               ("C23", "TLA+ table of parameters, ranges and reports; recorded settings validated by TLC"),
               ("C25", "TLA+ definition of the losses; recorded evaluations validated by TLC")):
    INFO[_p] = (_t, MN)
INFO["C27"] = ("TLA+ specification of command-line sessions over the meaning of files; sessions with the real programs and the library validated by TLC",
               "The specification keeps, for every file of a working directory, the data set or the training history it stands for, and decides for "
               "every request whether it must succeed and what it must yield; the real programs (address sanitizer on) and the library called directly "
               "make the same steps in randomised sessions, validated by TLC. Bounded by the sessions explored.")
TABLE["C28"] = ("mathops", "check")
INFO["C28"] = ("TLA+ specification of vectors and matrices as shared objects; programs of operations run with the real code and validated by TLC",
               "The specification gives the element-wise meaning of every operator and expression form over dense, sparse and matrix operands, sharing between "
               "handles and refusals; every operator and right-hand side on fixed operands and random programs (address sanitizer on) are validated by TLC. "
               "Bounded by the programs explored and by single-precision rounding.")
TABLE["C29"] = ("models", "independent")
INFO["C29"] = ("TLA+ specification of objects with work areas of their own (as if alone); interleaved and concurrent sessions with the real library validated by TLC, session by session",
               "TLC exhausts Alone.tla (objects with own work areas end as if alone under every interleaving; shared areas are the negative control); several models and "
               "iterators are used in turn in one thread, or in one thread each (thread sanitizer on), and every object's recording is validated by TLC against the "
               "specification of a single object. Bounded by the sessions explored; schedules of threads are those the machine takes.")
NA = {}


def find(prop):
    m, f = TABLE[prop]
    return getattr(importlib.import_module("vlib." + m), f)
