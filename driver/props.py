"""What each check runs."""

REAL = "all of matreex from /repo's working tree, unmodified; the Rust standard library"
HEAP = "global allocator (simulated heap: red zones, poison, quarantine, request limit)"
CALLER = "caller code (element types, closures, index types, row sources): instrumented stand-ins"
POOL = "rayon-core thread pool (simulated workers, deques, stealing); the rayon crate itself is real"
SAMPLED = "seeded search over runs: a clean sweep is evidence, not proof"
DEBUG = "built twice: with debug assertions and overflow checks (so std's unsafe-precondition checks are active), and as shipped, without"


def hist(quick, thorough, **kw):
    return dict(name="histories", crate="matsim", bin="hist", quick=quick, thorough=thorough, **kw)


def views(quick, thorough, **kw):
    return dict(name="cursors", crate="matsim", bin="views", quick=quick, thorough=thorough, **kw)


def miri(name, bin, probe, secs=(22, 400), **kw):
    return dict(name=name, crate="matsim", bin=bin, probe=probe, miri=True, quick=10**7, thorough=10**8,
                secs={"quick": secs[0], "thorough": secs[1]}, **kw)


def shipped(part, share=0.35):
    """The same simulation of the code as a user ships it."""
    return {**part, "name": part["name"] + ", shipped build", "build": ["--profile", "ship"], "dir": "ship",
            "quick": int(part["quick"] * share), "thorough": int(part["thorough"] * share)}


PROPS = {
    "C01": dict(
        level="exploration",
        technique="deterministic simulation of operation histories against a rows-of-rows reference model and an element ledger, under Miri as well",
        note="Seeded histories; every step is checked. Samples the space of histories, does not exhaust it.",
        parts=[hist(2_000_000, 30_000_000), miri("miri-histories", "hist", "C01", (15, 300))],
        rule="One run = one seeded history of up to 24 (quick) / 60 (thorough) public operations by interleaved clients on a pool of up to 4 matrices, checked after every step. Non-trivial: at least two state-changing operations on a pool that holds a non-empty matrix. Distinct: by event-trace hash.",
        real=[REAL, "rayon (over the simulated pool)"],
        stubs=[CALLER, HEAP, POOL],
        assumptions=[SAMPLED, DEBUG, "operations on matrices beyond ~70000 elements are left to C08"],
    ),
    "C02": dict(
        level="fault_enumeration",
        technique="deterministic simulation with crash-point enumeration over caller callbacks, under Miri as well",
        note="For each seeded scenario every callback of the target operation is crashed once (up to 48 points quick / 192 thorough per scenario, spread evenly beyond that).",
        parts=[hist(300_000, 4_000_000, faults=True), miri("miri-faults", "hist", "C02", (18, 300), faults=True)],
        rule="One seed = a history, a target operation and follow-ups; the target is rehearsed to count its callbacks N and re-executed with the k-th panicking for each k. Non-trivial: the fault fired inside the library call. Distinct: by event-trace hash.",
        real=[REAL, "rayon (over the simulated pool)"],
        stubs=[CALLER, HEAP, POOL],
        assumptions=[SAMPLED, DEBUG, "one panic per run, as the property says"],
    ),
    "C05": dict(
        level="exploration",
        technique="deterministic simulation of order/transposition histories with element identity",
        note="Seeded histories over all cycle-structure classes of shapes up to 70 x 70 and 1100 in one dimension; identity of every element is followed.",
        parts=[hist(1_000_000, 15_000_000)],
        rule="One run = a shape, an element type and a history of up to 10 (quick) / 24 (thorough) of the five order operations, followed by the involutions; non-trivial: more than one element.",
        real=[REAL],
        stubs=[CALLER, HEAP],
        assumptions=[SAMPLED, DEBUG],
    ),
    "C09": dict(
        level="exploration",
        technique="deterministic simulation of histories with failing operations; snapshots and memory-order model",
        note="Seeded histories biased to failing in-place operations; whole-state snapshots around each.",
        parts=[hist(1_500_000, 20_000_000)],
        rule="One run = a history of up to 16 (quick) / 40 (thorough) operations, two thirds of them reshape, resize, swaps and assigning arithmetic with valid and invalid arguments. Non-trivial: at least one failing in-place operation or successful reshape/resize.",
        real=[REAL],
        stubs=[CALLER, HEAP, POOL],
        assumptions=[SAMPLED, DEBUG],
    ),
    "C03": dict(
        level="exploration",
        technique="deterministic simulation of interleaved cursors (outer and inner mutable iterators live at once), under Miri as well",
        note="Seeded interleavings; addresses, exactly-once and len() checked at every step; pointer formation checked by Miri on a smaller sample.",
        parts=[views(1_000_000, 20_000_000), miri("miri-cursors", "views", "C03")],
        rule="One run = an element type (12 sizes/alignments), a shape (small, degenerate, or up to usize::MAX zero-sized elements), an order history and a seeded interleaving of outer and inner iterator calls with every reference kept alive and written. Non-trivial: more than one element, or vast.",
        real=[REAL],
        stubs=[HEAP, "nothing else: the client is the test"],
        assumptions=[SAMPLED, DEBUG, "the address of a logical position is what get() returned before the iteration"],
    ),
    "C06": dict(
        level="exploration",
        technique="deterministic simulation of interleaved readers and writers over all row/column views after operation histories",
        note="Seeded interleavings over all view families, both orders, degenerate and vast shapes.",
        parts=[views(1_500_000, 25_000_000)],
        rule="One run = a history of up to 5 order/shape/swap operations, then up to 3 (quick) / 5 (thorough) rounds of interleaved view cursors with order/shape operations between. Non-trivial: a matrix of more than one element, or vast.",
        real=[REAL],
        stubs=[CALLER, HEAP],
        assumptions=[SAMPLED, DEBUG, "the logical matrix is what get() says it is (C04)"],
    ),
    "C15": dict(
        level="exploration",
        technique="deterministic simulation of interleaved and cancelled element cursors, sequential and on a simulated thread pool, with a drop ledger",
        note="Seeded interleavings and cancellation points; parallel variants under seeded splitting, stealing and thread switches.",
        parts=[views(1_500_000, 25_000_000)],
        rule="One run = a history of up to 6 order/shape/swap operations, then up to 3 (quick) / 5 (thorough) element iterations of random kind, cancelled at random points. Non-trivial: a matrix of more than one element, or vast.",
        real=[REAL, "rayon (over the simulated pool)"],
        stubs=[CALLER, HEAP, POOL],
        assumptions=[SAMPLED, DEBUG, "the logical matrix is what get() says it is (C04)"],
    ),
    "C04": dict(
        level="exploration",
        technique="deterministic simulation with misbehaving index parties (accessors whose answers change between calls), under Miri as well",
        note="Seeded scripts of accessor answers; an outcome must be explained by answers actually given. Boundary, extreme and wrap-around values in both orders.",
        parts=[dict(name="index-parties", crate="matsim", bin="index", quick=600_000, thorough=20_000_000),
               miri("miri-index-parties", "index", "C04", (15, 300))],
        rule="One run = a matrix (small, degenerate, extreme or vast zero-sized; both orders) and up to 30 (quick) / 60 (thorough) accesses by honest and lying index parties through every access path. Every run is non-trivial; distinct by event-trace hash.",
        real=[REAL],
        stubs=[HEAP, "index types (scripted accessors)"],
        assumptions=[SAMPLED, DEBUG, "the address of a logical position follows from iter_elements() and the documented storage order"],
    ),
}


PROPS["C07"] = dict(
    level="exploration",
    technique="deterministic twin simulation: one program in a row-major world and in a world whose storage orders a nemesis keeps changing",
    note="Seeded programs; after every step results, errors, panics, texts and contents of the two worlds are compared, and == against an elementwise oracle.",
    parts=[dict(name="twins", crate="matsim", bin="twin", quick=400_000, thorough=12_000_000)],
    rule="One run = a program of up to 16 (quick) / 40 (thorough) order-agnostic operations on a pool of up to 4 matrix pairs, with re-layouts of world B inserted at random. Non-trivial: a column-major matrix of more than one element in world B. Distinct: by event-trace hash.",
    real=[REAL],
    stubs=[HEAP, "element types with a chosen, possibly non-reflexive, =="],
    assumptions=[SAMPLED, DEBUG, "caller functions are pure; what is common to both worlds is not judged here"],
)

PROPS["C08"] = dict(
    level="exploration",
    technique="deterministic simulation on an allocator with a budget (refusals injected), caller code that cancels, outcomes against 128-bit arithmetic",
    note="Seeded shapes at and around every size and capacity boundary, element sizes 0 to 1000; acceptance is observed as the refused allocation or the first caller callback, so no memory is needed.",
    parts=[dict(name="budget", crate="matsim", bin="cap", quick=1_500_000, thorough=60_000_000)],
    rule="One run = up to 4 (quick) / 12 (thorough) shape-taking, size-changing or mapping calls with boundary shapes. Every run that makes such a call is non-trivial; distinct by event-trace hash.",
    real=[REAL, "rayon (over the simulated pool)"],
    stubs=[HEAP + " with a budget of 1 MiB", "out-of-memory hook (unwinds out of a refused allocation)", CALLER, POOL],
    assumptions=[SAMPLED, DEBUG, "infallible From/FromIterator conversions of more than usize::MAX zero-sized elements (which panic or never end) are out of reach"],
)

PROPS["C16"] = dict(
    level="exploration",
    technique="deterministic simulation of the thread pool: every par_* method on a simulated rayon pool with seeded workers, splits, steals and join order, against its sequential counterpart on a clone",
    note="Seeded shapes, element types, closures, pool sizes and schedules; outcome, shape, order and contents compared, every closure call metered.",
    parts=[dict(name="parallel", crate="matsim", bin="par", quick=150_000, thorough=3_000_000),
           dict(name="preemption under Miri", kind="miri_seeds", crate="racesim", batch=16, quick=4000, thorough=200_000,
                secs={"quick": 25, "thorough": 400})],
    rule="One run = up to a few parallel calls on one matrix under one seeded schedule. Non-trivial: a parallel call over more than one element. Distinct: by event-trace hash, which includes the schedule.",
    real=[REAL, "rayon (plumbing, consumers, collectors) over the simulated pool"],
    stubs=[POOL, "in the preemptive part: a pool that runs every half of a division on a thread of Miri's, preempted anywhere under its seed, with data-race detection", CALLER, HEAP],
    assumptions=[SAMPLED, DEBUG, "in the part without Miri one task runs at a time: its interleavings are those of whole closure calls, splits, steals and joins"],
)

PROPS["C17"] = dict(
    level="exploration",
    technique="deterministic simulation of threads sharing out the mutable iterators, with an ownership map of the references they obtain and a sequential replay of the same pulls",
    note="Seeded hand-outs of vectors to up to 8 threads and seeded schedules; each reference's owner is tracked by address; bounds are probed with element types that lack Send or Sync.",
    parts=[dict(name="threads", crate="matsim", bin="par", quick=400_000, thorough=10_000_000),
           dict(name="preemption under Miri", kind="miri_seeds", crate="racesim", batch=24, quick=4000, thorough=200_000,
                secs={"quick": 22, "thorough": 400})],
    rule="One run = one hand-out mode, thread count and schedule over one matrix. Non-trivial: at least two threads obtained references. Distinct: by event-trace hash, which includes the schedule.",
    real=[REAL],
    stubs=["threads: real OS threads, one running at a time under the seeded scheduler; or Miri's threads, preempted anywhere under its seed, with data-race detection", CALLER, HEAP],
    assumptions=[SAMPLED, DEBUG],
)

PROPS["C19"] = dict(
    level="exploration",
    technique="deterministic simulation of row sources, well-formed, ragged at seeded positions or with lying size hints, against every constructor; element ledger and call log",
    note="Seeded row counts, row lengths and raggedness (including compensated totals), every conversion, constructor and macro, six element types; shape, contents, order, error, calls and the fate of every element judged.",
    parts=[dict(name="rows", crate="matsim", bin="rows", quick=2_000_000, thorough=20_000_000)],
    rule="One run = up to 8 (quick) / 20 (thorough) constructions from one source each. Non-trivial: more than one element. Distinct: by event-trace hash.",
    real=[REAL],
    stubs=[CALLER, HEAP],
    assumptions=[SAMPLED, DEBUG, "row sources that resume after their end are not generated; what an empty list of rows has for a column count is not judged, except for with_* and col_vec!"],
)

PLAIN = {"TERM": "dumb"}
RICH = {"TERM": "xterm-256color", "COLORTERM": "truecolor", "CLICOLOR": "1", "CI": "true", "GITHUB_ACTION": "x"}


def fmt(name, features, quick, thorough, env=PLAIN, **kw):
    return dict(name=name, crate="fmtsim", bin="fmtsim", target="fmtsim-" + features, ordered=True, env=env,
                build=[] if features == "none" else ["--features", features + "-set"], quick=quick, thorough=thorough, **kw)


PROPS["C20"] = dict(
    level="exploration",
    technique="deterministic simulation of elements, sinks and terminals in every feature configuration: the same seeds are run in each, layouts judged line by line and texts compared between configurations",
    note="Seeded shapes, orders, renderings (empty, multi-byte, multi-line, very wide), failing sinks, format flags; three feature sets and six environments that do not support colours.",
    parts=[
        fmt("no-default-features", "none", 100_000, 3_000_000),
        fmt("default", "default", 40_000, 1_500_000),
        fmt("full", "full", 100_000, 3_000_000),
        fmt("full, no variables", "full", 8_000, 150_000, {"TERM": None}),
        fmt("full, rich environment, no terminal", "full", 8_000, 150_000, RICH),
        fmt("full, rich environment, terminal on stderr only", "full", 8_000, 150_000, RICH, tty="stderr"),
        fmt("full, terminal on stdout, NO_COLOR", "full", 8_000, 150_000, {**RICH, "NO_COLOR": "1"}, tty="stdout"),
        fmt("full, dumb terminal on stdout", "full", 8_000, 150_000, {**RICH, "TERM": "dumb"}, tty="stdout"),
        dict(name="configurations", kind="cross", against=[
            "no-default-features", "default", "full", "full, no variables", "full, rich environment, no terminal",
            "full, rich environment, terminal on stderr only", "full, terminal on stdout, NO_COLOR", "full, dumb terminal on stdout"]),
    ],
    rule="One run = up to 3 matrices, each rendered by Display and Debug in both orders, with flags and into failing sinks. Non-trivial: more than one element. Distinct: by event-trace hash. The same seeds are run in every configuration and the printed texts compared.",
    real=[REAL, "owo-colors and supports-color (full), the environment and terminals they look at"],
    stubs=["element types with a chosen rendering", "sinks that fail", HEAP, "terminals: pseudo-terminals nobody reads"],
    assumptions=[SAMPLED, "built with debug assertions and overflow checks", "elements whose rendering contains brackets are only judged for panics and equality; elements whose own formatting fails or panics are left out"],
)

PURE = "no party but the library takes part: a pure function of its arguments, with no schedule, time, fault, callback misbehaviour or history for a simulator to control; "
NOT_APPLICABLE = {
    "C10": PURE + "what remains is input enumeration. (Swaps do occur as steps of the simulated histories of C01, C05, C07 and C09.)",
    "C11": PURE + "what remains is arithmetic on inputs. (Products occur as steps of C01 and C02.)",
    "C12": PURE + "what remains is arithmetic on inputs. (Elementwise operations occur as steps of C01, C02, C07 and C09.)",
    "C13": PURE + "the quantifier is over isize pairs, i.e. input enumeration.",
    "C14": PURE + "what remains is input enumeration. (overwrite occurs as a step of C01, C02 and C07.)",
    "C18": PURE + "it quantifies over primitive types and operators, i.e. an enumeration of inputs and impls.",
}


# every simulation on matsim also runs against a shipped build, without debug assertions
for _p in PROPS.values():
    _p["parts"] = [q for p in _p["parts"]
                   for q in ([p, shipped(p)] if p.get("crate") == "matsim" and not p.get("miri") else [p])]
