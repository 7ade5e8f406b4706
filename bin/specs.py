"""What each check runs: suites x build configurations x case counts."""
import mxv


def run(config, n, **kw):
    return dict(config=config, n=n, **kw)


def exh(config, suites, **kw):
    return dict(config=config, n=0, mode="exh", suites=suites, **kw)


SPECS = {}

SPECS["C01"] = dict(
    bin="c01",
    level="exploration",
    technique="stateful model-based testing: random operation histories against a row-of-rows model with an element ledger",
    note="Random histories (no completeness); element identity, drops and addresses are checked after every step; Miri and "
    "AddressSanitizer runs cover memory errors the ledger cannot see.",
    rule="A case is an operation history over three matrix slots (35 operation families, drawn arguments), run against "
    "the row-of-rows model; shape, order, contents, addresses and the element ledger are compared after every step. "
    "Non-trivial: at least 3 steps changed the shape or order of some matrix. An evaluation is one step.",
    runs=dict(
        quick=[run("debug", 16000), run("release", 16000), run("asan", 4000), run("miri", 24, chunk=12)],
        thorough=[run("debug", 200000, scale=1), run("release", 400000, scale=1), run("asan", 100000), run("miri", 160, chunk=20)],
    ),
)

SPECS["C02"] = dict(
    bin="c02",
    level="fault_enumeration",
    technique="fault injection: a panic at every call into caller code of generated operations, then coherence, ledger and follow-up "
    "operations compared with fresh matrices",
    note="Operations, shapes and arguments are random; within one generated operation every fault point is tried (up to 48).",
    rule="A case is one generated operation on generated matrices; it is run once to count the calls into caller-supplied code and then "
    "once per call with a panic there. An evaluation is one such run; non-trivial: the panic fired inside the operation.",
    runs=dict(
        quick=[run("debug", 8000), run("release", 4000), run("asan", 2000), run("miri", 16, chunk=8)],
        thorough=[run("debug", 200000, scale=1), run("release", 100000), run("asan", 60000), run("miri", 200, chunk=25)],
    ),
)

SPECS["C03"] = dict(
    bin="c03",
    level="exploration",
    technique="stateful property-based testing of iterator call scripts against a deque model with address identity; Miri for formed pointers",
    note="Scripts are random; small shapes with every end sequence are covered densely. Pointers formed but not dereferenced are judged by "
    "Miri's in-bounds rule on the scripts run there.",
    rule="A case is a script of next/next_back/len/size_hint/nth/skip calls on iter_rows_mut or iter_cols_mut and on simultaneously live "
    "inner iterators. Non-trivial: at least two inner iterators were alive at once, or both ends were used.",
    runs=dict(
        quick=[run("debug", 20000), run("release", 20000), run("asan", 4000), run("miri", 40, chunk=10)],
        thorough=[run("debug", 300000, scale=1), run("release", 600000, scale=1), run("asan", 100000), run("miri", 400, chunk=40)],
    ),
)

SPECS["C04"] = dict(
    bin="c04",
    level="exploration",
    technique="property-based testing with exhaustive small spaces: every index form against address arithmetic in u128",
    note="All index pairs in and around every shape up to 7x7 in both orders are enumerated; larger values are drawn from boundary and "
    "wrap-around generators.",
    rule="A case is one matrix with a set of index pairs; an evaluation is one pair tried with eight checked forms (and the [] forms). "
    "Non-trivial: the pair is out of range, wraps into range, or the index type answers inconsistently.",
    runs=dict(
        quick=[
            exh("debug", ["near-u8", "near-tracked4", "near-3xu64", "near-unit"], scale=0),
            run("debug", 3000),
            run("release", 6000, exclude=("near-u8", "near-tracked4", "near-3xu64", "near-unit", "near-wide")),
            run("miri", 12, chunk=6, exclude=("near-unit", "near-tracked4")),
        ],
        thorough=[
            exh("debug", ["near-u8", "near-tracked4", "near-3xu64", "near-unit"], scale=2),
            exh("release", ["near-u8", "near-tracked4", "near-3xu64", "near-unit"], scale=2),
            run("debug", 60000, scale=1, exclude=("near-u8", "near-tracked4", "near-3xu64", "near-unit")),
            run("release", 200000, scale=1, exclude=("near-u8", "near-tracked4", "near-3xu64", "near-unit")),
            run("miri", 60, chunk=10),
        ],
    ),
)

LAWS = ["laws-u8", "laws-tracked4", "laws-3xu64", "laws-string", "laws-tracked-zst"]
LARGE = ("large-u64", "large-u16")
SPECS["C05"] = dict(
    bin="c05",
    level="exploration",
    technique="metamorphic and model-based property testing of re-layout: exhaustive small shapes, drawn compositions, large shapes around "
    "internal size thresholds, huge zero-sized shapes",
    note="Every small shape and every documented law is enumerated; large shapes are drawn, dense around powers of two.",
    rule="A case applies transposition or an order change (or a drawn composition of them) to one matrix and compares positions, identities "
    "and the ledger with the model. Non-trivial: the matrix has at least 2 rows and 2 columns.",
    runs=dict(
        quick=[
            exh("debug", LAWS, scale=0),
            run("debug", 60000, exclude=LARGE),
            run("release", 200000, exclude=LARGE),
            run("release", 6000, suites=LARGE),
            run("asan", 10000, exclude=LARGE),
            run("miri", 30, chunk=10, exclude=LARGE),
        ],
        thorough=[
            exh("debug", LAWS, scale=2),
            exh("release", LAWS, scale=2),
            run("debug", 1000000, exclude=LARGE, scale=1),
            run("release", 3000000, exclude=LARGE, scale=1),
            run("release", 150000, suites=LARGE),
            run("asan", 200000, exclude=LARGE),
            run("asan", 2000, suites=LARGE),
            run("miri", 300, chunk=30, exclude=LARGE),
        ],
    ),
)

GRIDS = ["grid-u8", "grid-3xu64"]
SPECS["C06"] = dict(
    bin="c06",
    level="exploration",
    technique="property-based testing of iterator scripts against a position model; all views of all small shapes enumerated; zero-sized "
    "matrices with up to usize::MAX rows or columns",
    note="Scripts over both ends are random; element identity is checked by address (count and arithmetic for zero-sized types).",
    rule="A case is one view of one matrix driven from both ends (script-*, huge-*, hollow-*) or every view of one matrix (grid-*). "
    "Non-trivial: the matrix has elements, or has rows or columns without elements.",
    runs=dict(
        quick=[
            exh("debug", GRIDS, scale=0),
            run("debug", 100000, exclude=GRIDS),
            run("release", 200000, exclude=GRIDS),
            run("debug", 10000, suites=GRIDS),
            run("asan", 10000, exclude=GRIDS),
            run("miri", 40, chunk=10, exclude=GRIDS),
        ],
        thorough=[
            exh("debug", GRIDS, scale=2),
            exh("release", GRIDS, scale=2),
            run("debug", 2000000, exclude=GRIDS, scale=1),
            run("release", 4000000, exclude=GRIDS, scale=1),
            run("debug", 200000, suites=GRIDS, scale=1),
            run("asan", 300000, exclude=GRIDS),
            run("miri", 400, chunk=40, exclude=GRIDS),
        ],
    ),
)

PAIRED = ("paired-u64", "paired-tracked8", "paired-unit")
GIANT07 = ("giant",)
SPECS["C07"] = dict(
    bin="c07",
    level="exploration",
    technique="differential and metamorphic property testing: equality against a cell-by-cell oracle; the same operation on two equal "
    "matrices built along different paths",
    note="Pairs are random, biased towards equality and single differences; operation families are those of the shared operation model.",
    rule="A case is a pair of matrices compared in all directions (equality-*), or two matrices equal by construction given the same operation "
    "(paired-*). Non-trivial: the matrices differ in order, construction path, one element, or shape.",
    runs=dict(
        quick=[
            run("debug", 60000, exclude=PAIRED + GIANT07),
            run("release", 200000, exclude=PAIRED + GIANT07),
            run("debug", 12000, suites=PAIRED),
            run("release", 12000, suites=PAIRED),
            run("release", 60, suites=GIANT07, chunk=8),
            run("miri", 30, chunk=10, exclude=("equality-huge", "hollow") + PAIRED + GIANT07),
        ],
        thorough=[
            run("debug", 1500000, exclude=PAIRED + GIANT07, scale=1),
            run("release", 4000000, exclude=PAIRED + GIANT07, scale=1),
            run("debug", 200000, suites=PAIRED, scale=1),
            run("release", 400000, suites=PAIRED, scale=1),
            run("release", 5000, suites=GIANT07),
            run("asan", 50000, exclude=GIANT07),
            run("miri", 300, chunk=30, exclude=("equality-huge", "hollow") + PAIRED + GIANT07),
        ],
    ),
)

SPECS["C08"] = dict(
    bin="c08",
    level="exploration",
    technique="boundary-value property testing in a forked child with an intercepting allocator; exact u128 arithmetic as the oracle",
    note="Requested shapes are drawn around every overflow boundary for each element size; an allocation above the sandbox limit is "
    "refused by the intercepting allocator and judged by its size.",
    rule="A case is one request for a shape (constructor, resize, reshape, product, mapping, rows) in a forked child; an evaluation is one "
    "request. Non-trivial: the size or the byte count is at or over a boundary, or an operand is empty.",
    runs=dict(
        quick=[run("debug", 20000), run("release", 20000)],
        thorough=[run("debug", 300000), run("release", 600000)],
    ),
)

SPECS["C09"] = dict(
    bin="c09",
    level="exploration",
    technique="model-based property testing of reshape/resize on the memory-order sequence with an element ledger; invalid calls of every "
    "fallible in-place operation after random histories, compared with a full snapshot",
    note="Shapes, targets and histories are random, dense around equal sizes and overflow boundaries; the snapshot compares contents, "
    "identities, addresses, capacity and the ledger.",
    rule="A case is one reshape or resize of one matrix (reshape-*, resize-*, huge-*) or one invalid call after a random history "
    "(failing-*). Non-trivial: the size changes, the target fails, or the matrix is neither square nor empty.",
    runs=dict(
        quick=[run("debug", 40000), run("release", 60000), run("asan", 6000), run("miri", 24, chunk=8, exclude=("huge-unit-align8",))],
        thorough=[run("debug", 1000000, scale=1), run("release", 2000000, scale=1), run("asan", 100000), run("miri", 300, chunk=30)],
    ),
)

ALL10 = ["all-u8", "all-tracked4", "all-3xu64"]
SPECS["C10"] = dict(
    bin="c10",
    level="exploration",
    technique="property-based testing with exhaustive small spaces: every swap with every index pair in and around every small shape, and "
    "random swap sequences, against a model with element identities",
    note="All shapes up to the stated bound with every index pair are enumerated in builds with the standard library's debug precondition "
    "checks; longer sequences, larger elements and huge extents are random.",
    rule="A case is one matrix with all its swaps (all-*), or a drawn sequence of swaps of elements, rows and columns. Non-trivial: the "
    "matrix has at least two elements and a swap of equal, out-of-range or wrapping indices was tried.",
    runs=dict(
        quick=[
            exh("debug", ALL10, scale=0),
            run("debug", 60000, exclude=ALL10),
            run("release", 120000, exclude=ALL10),
            run("release", 10000, suites=ALL10),
            run("asan", 10000, exclude=ALL10),
            run("miri", 30, chunk=10, exclude=ALL10),
        ],
        thorough=[
            exh("debug", ALL10, scale=2),
            exh("release", ALL10, scale=2),
            run("debug", 1500000, exclude=ALL10, scale=1),
            run("release", 3000000, exclude=ALL10, scale=1),
            run("asan", 200000),
            run("miri", 300, chunk=30),
        ],
    ),
)

EXH11 = ["symbolic", "zero-sized-left"]
LARGE11 = ("large-u64", "large-u16", "large-3xu64")
SPECS["C11"] = dict(
    bin="c11",
    level="exploration",
    technique="property-based testing over a symbolic free algebra: products of matrices of variables compared with the textbook multiset of "
    "terms; recorded closure arguments; integer oracle for large shapes",
    note="All small shape triples with all orders and operator forms are enumerated; the symbolic terms show factor order, duplicates and "
    "omissions; large shapes use a wrapping-integer oracle.",
    rule="A case is a pair of operands multiplied in the four operator forms and through the two methods. Non-trivial: conformable with "
    "elements in the result, or an inner dimension of zero, or non-conformable.",
    runs=dict(
        quick=[
            exh("debug", EXH11, scale=0),
            run("debug", 60000, suites=EXH11),
            run("release", 100000, suites=EXH11),
            run("release", 6000, suites=LARGE11),
            run("asan", 6000, suites=EXH11),
            run("miri", 30, chunk=10, suites=EXH11),
        ],
        thorough=[
            exh("debug", EXH11, scale=2),
            exh("release", EXH11, scale=2),
            run("debug", 1000000, suites=EXH11, scale=1),
            run("release", 2000000, suites=EXH11, scale=1),
            run("release", 150000, suites=LARGE11, scale=1),
            run("asan", 100000, suites=EXH11),
            run("miri", 300, chunk=30, suites=EXH11),
        ],
    ),
)

FORMS = ["forms-tracked", "forms-u64-string", "forms-zst"]
LARGE12 = ("large-u64", "large-u16")
SPECS["C12"] = dict(
    bin="c12",
    level="exploration",
    technique="property-based testing of every elementwise form on the same generated pair: recorded closure arguments, operators and methods "
    "compared with the per-position oracle",
    note="All small shape pairs in all orders and forms are enumerated with identity-carrying elements; large shapes are drawn.",
    rule="A case is a pair of matrices put through all three ownership variants, the named methods and the operators. Non-trivial: the "
    "operands differ in order or shape, or have at least two rows and two columns.",
    runs=dict(
        quick=[
            exh("debug", FORMS, scale=0),
            run("debug", 10000, exclude=LARGE12),
            run("release", 30000, exclude=LARGE12),
            run("release", 10000, suites=LARGE12),
            run("asan", 3000, exclude=LARGE12),
            run("miri", 24, chunk=8, exclude=LARGE12),
        ],
        thorough=[
            exh("debug", FORMS, scale=2),
            exh("release", FORMS, scale=2),
            run("debug", 300000, exclude=LARGE12, scale=1),
            run("release", 1000000, exclude=LARGE12, scale=1),
            run("release", 200000, suites=LARGE12, scale=1),
            run("asan", 100000, exclude=LARGE12),
            run("miri", 200, chunk=20, exclude=LARGE12),
        ],
    ),
)

WINDOW = ["window-u16", "window-tracked8"]
SPECS["C13"] = dict(
    bin="c13",
    level="exploration",
    technique="property-based testing with exhaustive windows: wrapping index pairs in a window around zero and all combinations of extreme "
    "values against the Euclidean remainder in i128",
    note="All pairs in a window of several periods for every small shape and order are enumerated; larger extents and index values are drawn.",
    rule="A case is one matrix with a set of wrapping index pairs; an evaluation is one pair tried with every indexing form. Non-trivial: "
    "a coordinate is negative or at or beyond the extent, or the matrix is empty.",
    runs=dict(
        quick=[
            exh("debug", WINDOW, scale=0),
            run("debug", 40000, exclude=WINDOW),
            run("release", 100000, exclude=WINDOW),
            run("release", 6000, suites=WINDOW),
            run("miri", 24, chunk=8, exclude=WINDOW),
        ],
        thorough=[
            exh("debug", WINDOW, scale=2),
            exh("release", WINDOW, scale=2),
            run("debug", 1000000, exclude=WINDOW, scale=1),
            run("release", 3000000, exclude=WINDOW, scale=1),
            run("asan", 100000, exclude=WINDOW),
            run("miri", 300, chunk=30, exclude=WINDOW),
        ],
    ),
)

PAIRS = ["pairs-tracked8", "pairs-u8", "pairs-3xu64", "pairs-clone-from", "pairs-tracked-zst"]
LARGE14 = ("large-u64", "large-u16", "large-serial", "large-tracked8")
SPECS["C14"] = dict(
    bin="c14",
    level="exploration",
    technique="property-based testing over all pairs of small shapes and orders, with element identities and an element ledger; chains of "
    "overwrites after random histories; large and degenerate pairs",
    note="All pairs of small shapes and orders are enumerated; larger pairs and histories are random.",
    rule="A case is one destination overwritten with one source (or a chain of them). Non-trivial: the overlap is not empty and the "
    "matrices differ in shape or order.",
    runs=dict(
        quick=[
            exh("debug", PAIRS, scale=0),
            run("debug", 30000, exclude=LARGE14),
            run("release", 100000, exclude=LARGE14),
            run("release", 6000, suites=LARGE14),
            run("asan", 6000, exclude=LARGE14),
            run("miri", 40, chunk=10, exclude=LARGE14),
        ],
        thorough=[
            exh("debug", PAIRS, scale=2),
            exh("release", PAIRS, scale=2),
            run("debug", 1000000, exclude=LARGE14, scale=1),
            run("release", 3000000, exclude=LARGE14, scale=1),
            run("release", 150000, suites=LARGE14, scale=1),
            run("asan", 200000, exclude=LARGE14),
            run("miri", 400, chunk=40, exclude=LARGE14),
        ],
    ),
)

ALL15 = ["all-tracked8", "all-u8", "all-3xu64"]
LARGE15 = ("large-u64", "large-u16")
SPECS["C15"] = dict(
    bin="c15",
    level="exploration",
    technique="model-based property testing of iterator scripts from both ends after random histories; reported indices compared with the "
    "element get returns there; element ledger for the consuming variants",
    note="All twelve variants on all small shapes are enumerated; histories, scripts and larger shapes are random.",
    rule="A case is one of the twelve element-iteration variants on one matrix. Non-trivial: at least two rows and two columns.",
    runs=dict(
        quick=[
            exh("debug", ALL15, scale=0),
            run("debug", 40000, exclude=LARGE15),
            run("release", 100000, exclude=LARGE15),
            run("release", 8000, suites=LARGE15),
            run("asan", 6000, exclude=LARGE15),
            run("miri", 24, chunk=6, exclude=LARGE15),
        ],
        thorough=[
            exh("debug", ALL15, scale=2),
            exh("release", ALL15, scale=2),
            run("debug", 1000000, exclude=LARGE15, scale=1),
            run("release", 2500000, exclude=LARGE15, scale=1),
            run("release", 200000, suites=LARGE15, scale=1),
            run("asan", 150000, exclude=LARGE15),
            run("miri", 200, chunk=20, exclude=LARGE15),
        ],
    ),
)

FAIL16 = ("failures-0B", "failures-1B", "failures-8B", "failures-24B", "failures-4096B")
LARGE16 = ("large-u64", "large-string", "large-tracked8")
SPECS["C16"] = dict(
    bin="c16",
    level="exploration",
    technique="differential property testing of every parallel helper against its sequential counterpart under drawn schedules (pool size, "
    "calling context, per-element delays) with invocation counters; Miri's race detector on small runs; forked boundary-value calls",
    note="Schedules are perturbed, not enumerated; pools of 1 to 64 threads; Miri's scheduler is seeded.",
    rule="A case is one helper on one matrix under one drawn schedule, or one pair of calls at a capacity boundary. Non-trivial: the "
    "closure ran on at least two worker threads, or the element count is near or over the boundary.",
    nondeterministic=True,
    runs=dict(
        quick=[
            run("debug", 6000, exclude=FAIL16 + LARGE16),
            run("release", 12000, exclude=FAIL16 + LARGE16),
            run("release", 1500, suites=LARGE16),
            run("debug", 2000, suites=FAIL16),
            run("asan", 1000, exclude=FAIL16 + LARGE16),
            run("miri", 12, chunk=4, exclude=FAIL16 + LARGE16),
        ],
        thorough=[
            run("debug", 200000, exclude=FAIL16 + LARGE16),
            run("release", 400000, exclude=FAIL16 + LARGE16),
            run("release", 40000, suites=LARGE16),
            run("release", 5000, suites=LARGE16, scale=1),
            run("debug", 50000, suites=FAIL16),
            run("release", 50000, suites=FAIL16),
            run("asan", 30000, exclude=FAIL16 + LARGE16),
            run("miri", 160, chunk=20, exclude=FAIL16 + LARGE16),
        ],
    ),
)

PROG = ["programs"]
CONF = ["conflicts"]
RACY = ["threads-u64", "threads-u8", "threads-3xu64", "threads-string"]
SPECS["C17"] = dict(
    bin="c17",
    level="exploration",
    technique="generated client programs judged by the type checker (metamorphic: accepted only if the element type itself is Send/Sync); "
    "random assignments of rows/columns to threads with an ownership map and a sequential twin, under ThreadSanitizer and Miri",
    note="Element types and programs are random compositions of 26 leaf types, 24 constructors, 19 ways of moving or sharing and 8 iterators; "
    "interleavings are those the OS, ThreadSanitizer and Miri's scheduler produce.",
    rule="programs: an evaluation is one client program, non-trivial if its element type lacks the trait. conflicts: a program with two owners "
    "and its legal twin. threads-*/bridged-*: a case is one plan of handing vectors to threads, non-trivial if several threads mutate.",
    nondeterministic=True,
    runs=dict(
        quick=[
            run("debug", 120, suites=PROG),
            run("debug", 48, suites=CONF),
            run("debug", 4000, exclude=PROG + CONF),
            run("release", 8000, exclude=PROG + CONF),
            run("tsan", 800, suites=RACY),
            run("miri", 24, chunk=6, exclude=PROG + CONF),
        ],
        thorough=[
            run("debug", 6000, suites=PROG),
            run("debug", 1000, suites=CONF),
            run("debug", 100000, exclude=PROG + CONF),
            run("release", 200000, exclude=PROG + CONF, scale=1),
            run("tsan", 40000, suites=RACY),
            run("asan", 10000, exclude=PROG + CONF),
            run("miri", 240, chunk=20, exclude=PROG + CONF),
        ],
    ),
)

GEN18 = ("generic-tracked8", "generic-tracked24", "generic-string-u8", "generic-u16-zst", "generic-zst")
SPECS["C18"] = dict(
    bin="c18",
    level="exploration",
    technique="property-based differential testing: every operand form of every operator and type against the primitive operator applied "
    "element by element; recorded closure calls for the generic family",
    note="All 14 types x 5 operators x 18 operand forms and 4 forms of negation are run in every case; element and scalar values, shapes "
    "and orders are random with boundary values.",
    rule="A case is one matrix and one scalar of one type; an evaluation is one operand form of one operator, judged against the primitive "
    "operator per element (a panic there must be a panic here). Non-trivial: for at least one operator element op scalar differs from "
    "scalar op element (generic suites: at least two elements).",
    runs=dict(
        quick=[run("debug", 42000), run("release", 80000), run("asan", 3000, suites=GEN18), run("miri", 10, suites=GEN18, chunk=5)],
        thorough=[
            run("debug", 1500000),
            run("release", 4000000),
            run("asan", 200000),
            run("miri", 200, suites=GEN18, chunk=20),
        ],
    ),
)

LOP = ["lopsided"]
ALL19 = tuple(f"conversions-{t}" for t in ("tracked8", "tracked24", "string", "u64", "zst")) + tuple(
    f"{k}-{t}" for k, ts in (("vectors", ("tracked", "u16", "zst")), ("filled", ("tracked", "u16", "string", "zst")),
    ("macros", ("tracked", "string", "zst"))) for t in ts
)
SPECS["C19"] = dict(
    bin="c19",
    level="exploration",
    technique="property-based testing with exhaustive small spaces: row collections with lengths differing at any position against a list-of-"
    "lists model, element ledger and identities; forked boundary-value conversions",
    note="All length vectors of up to four rows of up to three elements are enumerated through every conversion; larger ones are random.",
    rule="A case is one collection of rows sent through every conversion that accepts it, or one constructor or macro call. Non-trivial: "
    "the rows are ragged, or there are at least two rows and two columns (elements, for vectors).",
    runs=dict(
        quick=[
            exh("debug", ALL19, scale=0),
            run("debug", 40000, exclude=LOP),
            run("release", 80000, exclude=LOP),
            run("debug", 800, suites=LOP),
            run("release", 800, suites=LOP),
            run("asan", 6000, exclude=LOP),
            run("miri", 40, chunk=10, exclude=LOP),
        ],
        thorough=[
            exh("debug", ALL19, scale=2),
            exh("release", ALL19, scale=2),
            run("debug", 1000000, exclude=LOP),
            run("release", 2500000, exclude=LOP),
            run("debug", 20000, suites=LOP),
            run("release", 20000, suites=LOP),
            run("asan", 200000, exclude=LOP),
            run("miri", 600, chunk=40, exclude=LOP),
        ],
    ),
)

LONG = ["long"]
SPECS["C20"] = dict(
    bin="c20",
    level="exploration",
    technique="property-based testing: printed text taken apart line by line against the logical rows; metamorphic comparison across storage "
    "orders; differential comparison of the texts across feature configurations, with and without a terminal",
    note="Renderings, shapes and orders are random. Whether an n x 0 matrix prints bare brackets or n empty rows is left open.",
    rule="A case is one matrix of elements with drawn renderings (words of letters of any width, odd characters, several lines, over 65535 "
    "characters, everyday types), printed in both orders with Display and Debug, with flags, nested and to failing sinks. Non-trivial: at "
    "least two rows and two columns (lines: two elements). Cases are repeated per configuration; their texts must be identical.",
    extras=[mxv.compare_dumps],
    runs=dict(
        quick=[
            run("debug", 12000, dump=True, exclude=LONG),
            run("pretty", 12000, dump=True, exclude=LONG),
            run("bare", 12000, dump=True, exclude=LONG),
            run("pretty+tty-nocolor", 2000, dump=True, exclude=LONG, shards=6),
            run("pretty+tty-dumb", 2000, dump=True, exclude=LONG, shards=6),
            run("pretty+stderr-tty", 2000, dump=True, exclude=LONG, shards=6),
            run("pretty+forced", 4000, exclude=LONG),
            run("release", 24000, exclude=LONG),
            run("release", 160, suites=LONG, chunk=20),
            run("pretty", 24, suites=LONG, chunk=6),
            run("miri", 8, chunk=4, exclude=LONG),
        ],
        thorough=[
            run("debug", 400000, dump=True, exclude=LONG, shards=8),
            run("pretty", 400000, dump=True, exclude=LONG, shards=8),
            run("bare", 400000, dump=True, exclude=LONG, shards=8),
            run("pretty+tty-nocolor", 40000, dump=True, exclude=LONG, shards=8),
            run("pretty+tty-dumb", 40000, dump=True, exclude=LONG, shards=8),
            run("pretty+stderr-tty", 40000, dump=True, exclude=LONG, shards=8),
            run("pretty+forced", 100000, exclude=LONG),
            run("release", 1500000, exclude=LONG),
            run("asan", 40000, exclude=LONG),
            run("release", 4000, suites=LONG, chunk=100),
            run("pretty", 800, suites=LONG, chunk=50),
            run("miri", 160, chunk=20, exclude=LONG),
        ],
    ),
)

# Coverage-guided generation: cases that reach new edges (or new orders of magnitude of an edge's count) of the instrumented build are
# kept and mutated. Not for suites whose work happens in other processes.
for prop, spec in SPECS.items():
    skip = dict(C08=None, C16=FAIL16, C17=tuple(PROG + CONF), C19=tuple(LOP), C20=tuple(LONG), C07=GIANT07).get(prop, ())
    if skip is None:
        continue
    spec["runs"]["quick"].append(run("cov", 12000, mode="guided", secs=12, exclude=skip))
    spec["runs"]["thorough"].append(run("cov", 2000000, mode="guided", secs=150, shards=4, exclude=skip))

# Elements of several hundred bytes are about sizes, not about memory errors that need Miri.
WIDE = dict(
    C01=["tracked-wide"], C02=["tracked-wide"], C03=["script-wide"], C04=["near-wide"], C05=["laws-wide"], C06=["script-wide"],
    C09=["resize-tracked-wide"], C10=["sequence-tracked-wide"], C13=["drawn-wide"], C14=["pairs-tracked-wide", "chain-wide"],
    C15=["history-wide"], C16=["small-wide"], C19=["conversions-wide", "filled-wide"],
)
for prop, names in WIDE.items():
    for runs in SPECS[prop]["runs"].values():
        for r in runs:
            if r["config"].startswith("miri"):
                if r.get("suites"):
                    r["suites"] = [s for s in r["suites"] if s not in names]
                else:
                    r["exclude"] = tuple(r.get("exclude", ())) + tuple(names)
