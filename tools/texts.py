"""Texts of DESIGN.md that are not generated, and the technique named for each check."""
VN = "value numbering of all paths"
TECH = {
    "P01": f"abstract interpretation ({VN}; polynomial identity per class of positions)",
    "P02": f"abstract interpretation ({VN}; polynomial identity per class of positions)",
    "P03": f"abstract interpretation ({VN}; polynomial identity per class of positions)",
    "P04": f"abstract interpretation ({VN}, interpolation uninterpreted)",
    "P05": "index provenance by value numbering, over abstract sessions of the public API",
    "P06": "linear-use (typestate) analysis of random keys over value-numbered derivations",
    "P07": "taint analysis of nondeterminism sources and two-run (relational) abstract interpretation",
    "P08": "interval analysis of the generated images",
    "P09": "interval analysis with symbolic bounds, and provenance of the reported ranges",
    "P10": f"relational comparison of the two rendering calls by {VN}",
    "P11": "value numbering and interval analysis under mask value 0 and 1",
    "P12": "abstract interpretation with a domain of symbolically addressed scatter entries",
    "P13": f"abstract interpretation ({VN}) and interval analysis of the indices",
    "P14": "symbolic inequalities between value-numbered terms (interval and monotonicity reasoning)",
    "P15": "abstract interpretation over boxes that partition the documented domain",
    "P16": "abstract interpretation over boxes that partition the documented domain",
    "P17": "abstract interpretation over boxes that partition the documented domain",
    "P18": "abstract interpretation over classes of arguments and file systems",
    "P19": "abstract interpretation of the record classes, field by field",
    "P20": "abstract interpretation of the record classes, field by field",
    "P21": "abstract interpretation of histories over symbolic files",
    "P22": "abstract interpretation of histories over symbolic files with load failures",
    "P23": "abstract interpretation of histories over symbolic files",
    "P24": "abstract interpretation of histories over symbolic files",
    "P25": "abstract interpretation of histories with symbolic keys and chosen permutations",
    "P26": "abstract interpretation of histories, compared entry by entry",
    "P27": "abstract interpretation of the readers over symbolic files (array-layout domain)",
    "P28": "abstract interpretation of producer and consumer under enumerated schedules",
    "P29": "typestate of the thread, by abstract interpretation under enumerated schedules",
    "P30": "abstract interpretation under enumerated schedules, timeouts and failures",
    "P31": "abstract interpretation over directory trees with every draw enumerated",
    "P32": "abstract interpretation of histories against a step counter",
    "P33": "abstract interpretation of sampler sessions against a counter",
    "P34": "effect analysis of the samplers' delegated calls, by abstract interpretation",
    "P35": "abstract interpretation over an enumeration of configurations",
    "P36": "abstract interpretation; provenance of every constructor argument",
    "P37": "abstract interpretation with extremum sets and reassembled file contents",
    "P38": "abstract interpretation over symbolic disks, relational for reproducibility",
    "P39": "abstract interpretation over symbolic disks and record streams (array-layout domain)",
    "P40": "effect and state analysis of a symbolic disk after every event of every run",
    "P41": "exceptional control-flow analysis (every external call may fail) and provenance of the saved outputs",
    "P46": "value numbering with the mapped axes unrolled",
    "P47": "abstract interpretation of the main blocks from enumerated command lines on symbolic disks",
}
BOUNDS = {
    "P01": "no bound on sizes, coordinates or values; the position classes are exhaustive for the bilinear routine, for the trilinear one the classes inside the volume and on the borders. Rounding is not modelled.",
    "P02": "no bound on particles, flows or resolutions. In 3-D the quick tier takes two position classes per axis, the thorough tier all.",
    "P03": "no bound on image size or flow; all 16 classes of source/target positions.",
    "P04": "no bound; linspace/meshgrid/tile/pad are modelled as documented. Sub-pixel rounding of the sizes is as written in the source.",
    "P05": "symbolic batch size, flow count and device count; sessions of 2 (3 thorough) steps on 2 (all) construction paths.",
    "P06": "symbolic keys and sample indices; sessions of three batches; 4 (all) construction paths.",
    "P07": "the two runs differ in the order of listings and sets, the hash of strings and unseeded shuffles; interleavings of threads belong to P28-P30.",
    "P08": "every input; NaN is not modelled.",
    "P09": "every range list (symbolic length) and key; uses that draws stay within their bounds.",
    "P10": "every specification; the displacement itself is P02 and the rendering P12.",
    "P11": "every image and mask; with a histogram the property makes no statement.",
    "P12": "every position, diameter, image size; refutations of derived identities are confirmed on exact rational valuations of the extracted terms before they alarm.",
    "P13": "every image, dtype and histogram; library routines as documented.",
    "P14": "symbolic settings on every construction path. Proofs are by interval reasoning; where a proof does not close, a grid of settings (150 quick, 1500 thorough) is substituted into the extracted terms, and only a contradicting valuation alarms.",
    "P15": "the boxes cover the documented domain and its complement type by type and bound by bound; lists of ranges up to length 3.",
    "P16": "as P15, over the arguments of the three checkers.",
    "P17": "as P15; one setting is varied at a time (pairs that interact - sizes, batch and flows, speeds - jointly); the thorough tier adds combinations.",
    "P18": "file systems of a few entries; values by class.",
    "P19": "single fields and pairs of fields (quick: neighbours; thorough: all pairs), given, None and falsy.",
    "P20": "every record class registered as a pytree; jax's own tree functions are assumed.",
    "P21": "up to 3 (4) files of 1-3 slices, batch sizes 1-4, listing a file up to three times; the schedulers treat files alike, which is why small environments are representative. Contents are symbolic.",
    "P22": "every subset of unreadable files in environments as in P21, looping and not; an endless loop is recognised by the repeated state.",
    "P23": "as P21, histories that pass the end up to three times.",
    "P24": "as P21, a reset after every prefix; samplers with the real schedulers underneath.",
    "P25": "as P21, with several permutations per draw; key derivations symbolic.",
    "P26": "as P21; images of rank 2 and 3.",
    "P27": "sizes symbolic where the code allows it, otherwise a covering set (square, wide, tall; both layouts; v5 and v7.3).",
    "P28": "buffers 1-3 (1-5), eager/lazy producers and every number of timed-out waits; queue.Queue's contract is assumed, its memory model is not analysed.",
    "P29": "as P28, with the stop signal at each of the worker's checks.",
    "P30": "as P28, with exhaustion and errors at every position.",
    "P31": "trees of up to 3 directories and 5 files, batch sizes 1-3, every start drawn.",
    "P32": "episode lengths 1-3 (4), every history of steps/restarts over two episodes, also behind the prefetching wrapper.",
    "P33": "up to three (five) flow batches.",
    "P34": "scripted schedulers with and without images, masks and files; wrapper chains of depth 2.",
    "P35": "every format x images x wrappers x presence of optional keys, and each malformed value class.",
    "P36": "pairwise different values; each optional key absent in turn; each required key removed in turn.",
    "P37": "1-3 files, 3-D and 4-D; every answer of the user; every kind of entry in the configuration.",
    "P38": "lists of 0-30 entries and several ratios; the seed is symbolic.",
    "P39": "complete, partial and unreadable samples of each format; streams of up to 3 records; resized and unresized. Planes are compared as expressions, not sampled.",
    "P40": "every outcome at every transfer, over up to three consecutive runs.",
    "P41": "up to 3 batches; a failure at every external call.",
    "P46": "enumerated grid shapes up to 8 by 8, the flow function symbolic.",
    "P47": "enumerated command lines; lists of 10 entries, two samples.",
}
HEAD = """
# Static analysis of synthpix

## Approach
Everything is decided from `/repo`'s current source; no check imports or runs code of the library, and no solver is used.

* `sa/program.py` parses all modules (package, `src/main.py`, `scripts/`) and resolves names, classes, imports.
* `sa/interp.py` is an abstract interpreter that enumerates the paths of a function and value-numbers them: every
  value is a hash-consed term (`sa/terms.py`) with normalised arithmetic (polynomials over atoms; max/min/floor/clip,
  conditionals and indexing simplified), so that reordering, renaming, extracting helpers, De Morgan and
  loop/comprehension changes give the same term. Private helpers are inlined through the call graph; public functions can
  be kept opaque so that a check sees what is passed to them. `sa/lib.py` holds the transfer functions of the
  jax/numpy/stdlib calls used.
* Domains: intervals and symbolic regions (`sa/domain.py`), boxes of argument classes (`sa/boxes.py`, `settings.py`),
  scatter entries addressed symbolically (`sa/elements.py`), array layouts through reshape/transpose/stack/resize
  (`sa/layout.py`), small symbolic file systems (`sa/env.py`, `sa/disk.py`), written text (`sa/files.py`), histories of
  calls (`sa/histories.py`), and producer/consumer schedules (`sa/threads.py`).
* `Check.client` analyses short *client programs* against the library (construct a sampler, call `next`, ...), which are
  never executed: obligations are stated over the public API and not over private names.
* `sa/check.py` collects obligations: discharged / violated / undecided.

Why this reaches what tests cannot: each obligation is over symbolic inputs (every image, key, configuration) and over
every path, or over every history/schedule/disk state of an enumerated family, with symbolic contents, instead of sampled
values. What it does not see: IEEE rounding, XLA, and the inside of library primitives whose documented contract is assumed.

## When a check alarms
* An obligation is *violated* only when a semantic difference is established: all conditions of the path are decided, and
  the two terms differ as polynomials over independent atoms, are enclosed in disjoint intervals, name different symbolic
  entries, or the wrong exception/exit is reached. Then the check exits 1 with `VIOLATION property=<id> replay=<path>`;
  the replay file names the construct (function, call site, path) and the two terms.
* An identity between derived terms (rounding of sizes, inequalities, P12's kernels) that does not normalise is not
  refuted by failing to normalise: it is only refuted by a valuation of the *extracted terms* (exact rationals) that
  contradicts it. This evaluates formulas, never the program.
* What the rules do not understand (an unmodelled call, an undecided branch, a loop that cannot be summarised) leaves the
  obligation *undecided*: reported in the output and the evidence, exit 0. If an anchor is missing or nothing at all can be
  decided, the check exits 2 rather than claiming anything.
* Faults. Calls that may raise add "may raise" guards, which never decide a violation by themselves; P22, P30, P40 and P41
  inject faults explicitly.
* Cost: 0.1-35 s per check, about 2.7 min for all of them in one process; 90 s per analysed client, 300 s per quick and
  600 s per thorough check, after which the rest is undecided.

Three further design decisions:
* **Environments instead of unbounded histories.** Schedulers are interpreted on small file trees whose contents are symbols.
  The code treats files, slices and steps uniformly (no constants compared with counts other than those given), so that the
  families (every history up to the stated length, every placement of unreadable files, ...) meet every branch combination.
  This is a bound, stated per property.
* **Two runs.** Reproducibility (P07, P38) is relational: the same session is interpreted twice, with everything that the
  property excludes (listing order, set order, string hash, unseeded shuffles, earlier instances in the process) changed.
* **Schedules.** The prefetching thread and its consumer are interpreted against each other: at each blocking queue operation
  control may move, each timed wait may time out while the other side has not acted.
"""
TAIL = """
## Defects found and repaired
26 genuine defects were found by these analyses (or while writing the properties down). 25 are repaired, each in its own `fix:`
commit, and listed as `fixed:` in `known-findings.txt` with what failed. One is left as a known finding (P31): when a frame in
the middle of an episode cannot be read, the base scheduler skips it and goes on with the next file, so the entry serves the
following frames too early and, at the end of its episode, the first frame of another one; the steps are then no longer in
line across the batch. Repairing it needs a decision (drop the whole episode, repeat the frame, or fail) and changes to how
both schedulers share the file list, which is more than a small fix. P31 reports any other misplaced frame as a violation; no
check is loosened.

Observed, but not contradicting any documented behaviour, hence left alone: `EpisodicFlowFieldScheduler.__iter__` rewinds the
step counter without sampling; the MATLAB scheduler's `from_config` defaults `loop` to False while the other formats default
to True; `make` accepts booleans where it asks for integers; `make` documents `seed` as optional, whereas the synthetic sampler
requires it; `make` derives the scheduler's key from the same seed, and by the same first split, from which the sampler
derives its first batch's keys: the shuffle key and the first generation key share an ancestor, but no draw of the generator
uses that very key (P06 covers the sampler's own chain); `pack_triplet` does not resize images; `img_offset` is documented in
pixels and used in length units by the sampler; `position_bounds_offset` follows it.

## Planted bugs
Kept in `seeded/`, each written from the property and the code, confirmed to build, to pass the 641 stable tests, and to fail its
demonstration; all are caught by the check of their property:

| bug | property | needs |
|---|---|---|
@SEEDED@

Besides these, several hundred small mutants and 290 behaviour-preserving refactorings (helpers extracted, loops rewritten, early returns,
reordered statements, numpy/jax equivalents; in all modules) were run during development: refactorings must give no violated
obligation in *any* check, mutants must be reported by the property they break.
False alarms met on the way were corrected in the machinery or in the statement of the property (each of them: exit conditions decided on
partially understood paths; identities refuted because a term had no normal form; expected behaviour that the documentation does not
promise), never by listing them.
"""
