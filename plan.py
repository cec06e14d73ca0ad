"""What each check runs: (binary, scenario, cases quick, cases thorough, options), or a callable (probes.py).
Option optional=1: the harness uses internals by name; when it does not compile the step is left out (and the evidence says so)."""
import probes, typegen

PLAN = {
    "C01": [
        ("conc_queue", "queue_lin", 2500000, 60000000, {}),
        ("conc_queue", "queue_lin", 1500000, 40000000, {"sc": 1}),
        ("conc_queue", "queue_aba", 200000, 4000000, {}),
        ("conc_queue_weak", "queue_lin", 800000, 20000000, {"spurious": 1, "optional": 1}),
        ("conc_queue_dcas", "queue_lin", 300000, 10000000, {}),
        ("conc_queue", "queue_bulk", 400000, 10000000, {}),
        ("conc_queue", "queue_harass", 80000, 3000000, {}),
        ("native", "native_queue", 20000, 2000000, {}),
    ],
    "C02": [
        ("conc_stack", "stack_lin", 2500000, 60000000, {}),
        ("conc_stack", "stack_lin", 1500000, 40000000, {"sc": 1}),
        ("conc_stack", "stack_aba", 200000, 4000000, {}),
        ("conc_stack_weak", "stack_lin", 800000, 20000000, {"spurious": 1, "optional": 1}),
        ("conc_stack_dcas", "stack_lin", 300000, 10000000, {}),
        ("conc_stack", "stack_bulk", 400000, 10000000, {}),
        ("conc_stack", "stack_harass", 200000, 6000000, {}),
        ("native_gcc", "native_stack", 20000, 2000000, {}),
    ],
    "C03": [
        ("conc_spsc", "spsc_fifo", 2500000, 60000000, {}),
        ("conc_spsc", "spsc_fifo", 1500000, 40000000, {"sc": 1}),
        ("conc_spsc", "spsc_bulk", 800000, 20000000, {}),
        ("crowd", "spsc_crowd", 4000, 200000, {}),
        ("native", "native_spsc", 15000, 1500000, {}),
    ],
    "C04": [
        ("conc_queue", "queue_lin", 1500000, 40000000, {"weak": 1}),
        ("conc_stack", "stack_lin", 1500000, 40000000, {"weak": 1}),
        ("conc_spsc", "spsc_fifo", 1500000, 40000000, {"weak": 1}),
        ("conc_queue", "queue_bulk", 200000, 5000000, {"weak": 1}),
        ("conc_stack", "stack_bulk", 200000, 5000000, {"weak": 1}),
        ("conc_spsc", "spsc_bulk", 200000, 5000000, {"weak": 1}),
    ],
    "C05": [
        ("conc_queue", "queue_aba", 300000, 8000000, {"bigevery": 20}),
        ("conc_stack", "stack_aba", 300000, 8000000, {"bigevery": 20}),
        ("conc_queue", "queue_nested", 800000, 20000000, {}),
        ("conc_stack", "stack_nested", 2000000, 40000000, {}),
        ("conc_queue_dcas", "queue_aba", 100000, 2000000, {}),
        ("conc_stack_dcas", "stack_aba", 100000, 2000000, {}),
    ],
    "C06": [
        ("conc_queue", "queue_progress", 1500000, 40000000, {}),
        ("conc_stack", "stack_progress", 1500000, 40000000, {}),
        ("conc_spsc", "spsc_stall", 1500000, 40000000, {}),
    ],
    "C07": [
        ("seq_queue", "queue_model", 500000, 12000000, {}),
        ("seq_queue", "queue_soak", 400, 20000, {}),
        ("convert", "queue_convert", 200000, 10000000, {}),
        ("reentrant", "queue_reentrant", 600000, 20000000, {}),
        ("crowd", "queue_crowd", 1500, 90000, {}),
    ],
    "C08": [
        ("seq_stack", "stack_model", 500000, 12000000, {}),
        ("seq_stack", "stack_soak", 400, 20000, {}),
        ("convert", "stack_convert", 200000, 10000000, {}),
        ("reentrant", "stack_reentrant", 600000, 20000000, {}),
        ("crowd", "stack_crowd", 2500, 150000, {}),
        ("crowd", "stack_huge", 1500, 90000, {}),
    ],
    "C09": [
        ("seq_spsc", "spsc_model", 500000, 12000000, {}),
        ("seq_spsc", "spsc_soak", 400, 20000, {}),
        ("convert", "spsc_convert", 200000, 10000000, {}),
        ("reentrant", "spsc_reentrant", 600000, 20000000, {}),
        ("crowd", "spsc_crowd", 4000, 240000, {}),
        ("crowd", "spsc_huge", 20000, 1000000, {}),
        ("crowd", "spsc_vast", 8, 800, {}),
        ("native", "native_marathon", 32, 4000, {}),
    ],
    "C10": [
        ("seq_queue", "queue_capacity", 250000, 6000000, {}),
        ("seq_stack", "stack_capacity", 250000, 6000000, {}),
        ("seq_spsc", "spsc_model", 150000, 4000000, {}),
        ("conc_queue", "queue_lin", 400000, 10000000, {"sc": 1}),
        ("conc_stack", "stack_lin", 400000, 10000000, {"sc": 1}),
        ("conc_spsc", "spsc_fifo", 400000, 10000000, {"sc": 1}),
        ("conc_queue", "queue_bulk", 100000, 3000000, {"sc": 1}),
        ("conc_stack", "stack_bulk", 100000, 3000000, {"sc": 1}),
        ("conc_spsc", "spsc_bulk", 100000, 3000000, {"sc": 1}),
        ("native_gcc", "native_queue", 10000, 1000000, {}),
        ("native", "native_stack", 10000, 1000000, {}),
    ],
    "C11": [
        ("seq_stack", "stack_model", 150000, 4000000, {"tracked": 1}),
        ("seq_spsc", "spsc_model", 150000, 4000000, {"tracked": 1}),
        ("conc_stack", "stack_lin", 400000, 10000000, {"sc": 1}),
        ("conc_spsc", "spsc_fifo", 400000, 10000000, {"sc": 1}),
        ("conc_stack", "stack_bulk", 100000, 3000000, {"sc": 1}),
        ("conc_spsc", "spsc_bulk", 100000, 3000000, {"sc": 1}),
        ("native", "native_stack", 10000, 1000000, {}),
        ("native_gcc", "native_spsc", 8000, 800000, {}),
    ],
    "C12": [
        ("seq_queue", "queue_capacity", 150000, 4000000, {"audited": 1}),
        ("seq_stack", "stack_capacity", 150000, 4000000, {"audited": 1}),
        ("seq_spsc", "spsc_model", 100000, 3000000, {"audited": 1}),
        ("conc_queue", "queue_lin", 300000, 8000000, {"sc": 1}),
        ("conc_stack", "stack_lin", 300000, 8000000, {"sc": 1}),
        ("conc_queue", "queue_bulk", 100000, 3000000, {"sc": 1}),
        ("conc_stack", "stack_bulk", 100000, 3000000, {"sc": 1}),
        ("native_gcc", "native_queue", 8000, 800000, {}),
        ("native", "native_stack", 8000, 800000, {}),
    ],
    "C13": [
        ("seq_queue", "queue_faults", 250000, 6000000, {}),
        ("seq_stack", "stack_faults", 200000, 5000000, {}),
        ("seq_spsc", "spsc_faults", 200000, 5000000, {}),
    ],
    "C14": [
        ("seq_queue", "queue_model", 150000, 4000000, {"wide": 1}),
        ("seq_stack", "stack_model", 150000, 4000000, {"wide": 1}),
        ("seq_spsc", "spsc_model", 150000, 4000000, {"wide": 1}),
        typegen.element_types(2, 24, 100000),
    ],
    "C15": [
        ("tags_ptr", "tagged_ptr_ops", 1000000, 40000000, {"optional": 1}),
        ("tags_ptr_dcas", "tagged_ptr_ops", 300000, 10000000, {"optional": 1}),
        ("tags_ptr_ba", "tagged_ptr_ops", 300000, 10000000, {"optional": 1}),
        ("tags_index", "tagged_index_ops", 1000000, 40000000, {"optional": 1}),
        ("addr", "address_space", 1000000, 40000000, {}),
        ("addr_dcas", "address_space", 300000, 10000000, {}),
        ("conc_queue", "queue_aba", 60000, 2000000, {}),
        ("conc_stack", "stack_aba", 60000, 2000000, {}),
    ],
    "C16": [
        ("shm", "shm_compile_time", 600000, 20000000, {}),
        ("shm", "shm_relative", 400000, 12000000, {}),
        ("native", "native_processes", 20000, 2000000, {}),
    ],
    "C17": [
        ("sizes", "sizes", 9000, 400000, {}),
        ("native", "native_huge", 20000, 1000000, {}),
        probes.rejected_programs(40, 1500),
    ],
    "C18": [
        probes.generated_programs(72, 2500),
        probes.rejected_programs(48, 1500),
        typegen.element_types(1, 12, 60000, mean=True),
        ("conc_queue_20", "queue_lin", 60000, 6000000, {"sc": 1}),
        ("conc_queue_ba", "queue_lin", 60000, 6000000, {"sc": 1}),
        ("conc_stack_20", "stack_lin", 60000, 6000000, {"sc": 1}),
        ("conc_stack_ba", "stack_lin", 60000, 6000000, {"sc": 1}),
    ],
    "C19": [
        ("conc_spsc", "spsc_fifo", 3000000, 60000000, {"avail": 1}),
        ("conc_spsc", "spsc_stall", 500000, 10000000, {}),
        ("conc_spsc", "spsc_bulk", 400000, 8000000, {}),
        ("native_gcc", "native_spsc", 12000, 1200000, {}),
    ],
    "C20": [
        ("conc_queue", "queue_lin", 1500000, 40000000, {"sc": 1}),
        ("conc_stack", "stack_lin", 1500000, 40000000, {}),
        ("conc_spsc", "spsc_fifo", 1500000, 40000000, {"sc": 1}),
        ("seq_queue", "queue_model", 100000, 3000000, {}),
        ("seq_stack", "stack_model", 100000, 3000000, {}),
        ("seq_spsc", "spsc_model", 100000, 3000000, {}),
        ("conc_queue", "queue_bulk", 200000, 5000000, {"sc": 1}),
        ("conc_stack", "stack_bulk", 200000, 5000000, {}),
        ("native_gcc", "native_stack", 10000, 1000000, {}),
    ],
}

# Signatures that are a matter of other properties: a case ending that way neither counts for nor against the property.
# Everything not listed (crashes, hangs, wrong results, ...) counts.
_LIFE = ["element-leak", "element-lost", "constructed-twice", "destroyed-twice", "double-construct", "double-destroy", "dead-element"]
_MEM = ["leak", "bad-deallocate", "dealloc-size", "freed-early", "node-count", "wrong-allocator", "alloc", "allocated"]
_PROG = ["no-progress", "not-wait-free"]
_AVAIL = ["avail-high", "avail-low", "avail-idle", "avail-range", "broken-promise", "front"]
_RACE = ["race-read", "race-write", "race-reuse", "torn-element"]
_CONTENT = ["order", "lost-element", "invented-element", "duplicated-element", "not-linearizable", "spurious-empty", "spurious-full", "count", "functor-count",
            "functor-twice", "range-return", "overfull"]
_SEQ = ["wrong-result", "wrong-elements", "iterator", "functor-copied", "changed-on-failure", "overrun", "exception", "swallowed"]
FOREIGN = {
    "C01": _LIFE + _MEM + _PROG + ["empty-lies"],
    "C02": _LIFE + _MEM + _PROG,
    "C03": _LIFE + _MEM + _PROG + ["avail-high", "avail-low", "avail-idle", "avail-range", "empty-lies"],
    "C04": _LIFE + _MEM + _PROG + ["empty-lies", "capacity", "range-return", "functor-count", "functor-twice"],
    "C06": _LIFE + _MEM + _RACE + _CONTENT + _AVAIL + ["empty-lies", "capacity"],
    "C07": _LIFE + _MEM,
    "C08": _LIFE + _MEM,
    "C09": _LIFE + _MEM,
    "C10": _LIFE + _RACE + _PROG + _CONTENT + _AVAIL + ["empty-lies", "wrong-elements", "iterator", "functor-copied", "changed-on-failure", "altered-element", "misaligned",
                                                        "overrun", "wrong-allocator", "leak", "bad-deallocate", "dealloc-size", "freed-early"],
    "C11": _MEM + _RACE + _PROG + _CONTENT + _AVAIL + _SEQ + ["empty-lies", "capacity"],
    "C12": _LIFE + _RACE + _PROG + _CONTENT + _AVAIL + _SEQ + ["empty-lies", "capacity", "altered-element"],
    "C14": _LIFE + _MEM + ["wrong-result", "iterator", "functor-copied", "capacity", "exception"],
    "C19": _LIFE + _MEM + _PROG + ["lost-element", "count", "functor-count", "empty-lies", "capacity"],
    "C20": _LIFE + _MEM + _PROG + _RACE + _CONTENT + _AVAIL + _SEQ + ["capacity"],
}

_CONC = "property-based testing over generated programs, schedules and stale loads (scheduler and memory model owned by the harness)"
TECH = {
    "C01": _CONC + ", linearizability oracle (FIFO)",
    "C02": _CONC + ", linearizability oracle (LIFO)",
    "C03": _CONC + ", exact FIFO history oracle",
    "C04": _CONC + ", happens-before race and stale-value oracle",
    "C05": _CONC + ", generated suspension points and recycling histories up to 2^16",
    "C06": _CONC + ", threads stopped forever at generated points, step bounds",
    "C19": _CONC + ", promise oracle for availability answers",
    "C20": _CONC + ", linearizability of empty()",
}
_SEQT = "stateful property-based testing: generated call sequences on generated configurations"
TECH.update({
    "C07": _SEQT + ", FIFO reference model",
    "C08": _SEQT + ", LIFO reference model",
    "C09": _SEQT + ", FIFO reference model of exact capacity",
    "C10": _SEQT + " and concurrent schedules, exact node accounting and refill oracle",
    "C11": _SEQT + " and concurrent schedules, registry of live element objects",
    "C12": _SEQT + " and concurrent schedules, auditing allocator",
    "C13": _SEQT + " with injected allocation failures and throwing copies, model plus leak accounting",
    "C14": _SEQT + " over element sizes, alignments and bit patterns, byte-exact comparison under AddressSanitizer and UBSan",
})
_CN = ("Random search over small programs (2-4 threads, up to a few operations each) and schedules at the granularity of single atomic and element accesses of "
       "the compiled containers; nothing is proved beyond the explored cases. Trusted: clang's ThreadSanitizer pass as instrumentation, the harness' memory model "
       "(release/acquire with stale loads, per-location coherence, seq_cst reads latest, plain non-element writes treated as release stores).")
NOTES = {p: _CN for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C19", "C20")}
TECH.update({
    "C15": "property-based testing: generated operation sequences on versioned references against a (pointer, version) model, exhaustive successor cycles; node addresses generated over the whole user address space",
    "C16": "stateful property-based testing: every call through a generated mapping of the same memory while the other mappings are inaccessible, FIFO/LIFO model; generated programs of real processes, history oracle",
    "C17": "property-based testing over generated sizes around every limit against a model; generated over-limit programs that the compiler has to reject while their twin compiles",
    "C18": "generated programs (options in random order, element types, members, language level, compiler, atomics) with results predicted by a model, compiled and run; generated invalid programs that have to be rejected",
})
_SN = ("Random search over call sequences of up to 200 calls on two containers at a time, element types and configurations from a fixed list; the code under test is compiled with "
       "AddressSanitizer and UBSan (clang, -O1, C++17). Nothing is proved beyond the explored cases.")
NOTES.update({p: _SN for p in ("C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14")})
NOTES["C15"] = ("The reference classes are internal: if a refactoring renames them these steps are left out and the public-interface steps (addresses, recycling schedules) remain. "
                "Successor cycles are exhaustive for 16-bit versions and 70000 steps plus injectivity samples for 64-bit ones.")
NOTES["C16"] = "Four mappings in one process with capacities up to 40, and 2-4 real processes with a mapping each (compile-time sized containers); element types free of addresses."
NOTES["C17"] = "Element types of 1, 4 and 24 bytes; compile-time capacities from a fixed list of eleven per container plus generated ones that have to be rejected; memory limited to 32 MB by the allocator of the harness."
NOTES["C18"] = "Compilers: the installed g++ and clang++, C++11 to C++23, x86-64 only; members as documented; results predicted for up to some 25 sequential calls per configuration."
