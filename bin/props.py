"""What each check runs, within which bounds."""
from dataclasses import dataclass, field


@dataclass
class Job:
    entry: str
    args: tuple = ()
    bounds: str = ""
    covers: tuple = ()
    mode: str = "real"
    time: float = 100
    workers: int = 8
    samples: int = 4
    query_ms: int = 20000
    max_insns: int = 400_000_000
    native_timeout: float = 20
    skip_if_violated: bool = True


@dataclass
class Prop:
    feature: str
    quick: list
    thorough: list = field(default_factory=list)
    level: str = "model_checking"
    assumptions: list = field(default_factory=list)
    outside: list = field(default_factory=list)


REAL = "floating-point arithmetic is decided over the real numbers; rounding is outside the claim"
ONE = "rayon runs on the calling thread only"
RND = "the random number generator is replaced by one returning a constant fraction"
PROPS = {}
J = Job
PROPS["C01"] = Prop(
    "cell",
    [
        J("h_cell", (3, 2), "3 events, 2 weights each in [-125,125], any seed, any neighbour order by index", ("big cell",)),
        J("h_cell", (4, 1), "4 events, 1 weight each", ("big cell",)),
    ],
    [J("h_cell", (6, 2), "6 events, 2 weights each", ("big cell",)), J("h_cell", (5, 4), "5 events, 4 weights each", ("big cell",))],
    assumptions=[REAL],
)
PROPS["C02"] = Prop(
    "resample",
    [
        J("h_grow", (3, 0, 0), "3 events in any metric space, one seed, naive search, unlimited", ("all events",)),
        J("h_grow", (3, 1, 1), "3 events, tree search, limited", ("all events", "only the seed")),
        J("h_grow", (4, 0, 1), "4 events, naive search, limited", ("all events", "only the seed")),
        J("h_grow_big", (150, 0, 0), "150 events on a line, 11 weights of the seed, naive search, unlimited", ("all events",)),
        J("h_grow_big", (100, 1, 0), "100 events, tree search, unlimited", ("all events",)),
        J("h_grow_big", (200, 1, 1), "200 events, tree search, limited", ("only the seed",)),
        J("h_grow_big", (200, 0, 1), "200 events, naive search, limited", ("only the seed",)),
    ],
    [J("h_grow", (4, 1, 1), "4 events, tree search", ("all events", "only the seed"), time=3000), J("h_grow", (5, 0, 1), "5 events", (), time=3000)],
    assumptions=[REAL, ONE],
)
PROPS["C03"] = Prop(
    "resample",
    [
        J("h_resample", (3, 1, 0, 1), "3 events, 1 weight, naive search, limited"),
        J("h_resample", (3, 1, 1, 0), "3 events, 1 weight, tree search, unlimited", ("total non-negative",)),
        J("h_resample", (3, 2, 1, 1), "3 events, 2 weights, tree search, limited"),
        J("h_resample_big", (300, 1, 1), "300 events on a line, more than 64 negative weights, one weight from 8 values, tree search, limited"),
        J("h_resample_big", (130, 0, 1), "130 events, more than 64 negative weights, naive search, limited"),
    ],
    [J("h_resample", (4, 1, 0, 1), "4 events", time=3000)],
    assumptions=[REAL, ONE],
)
PROPS["C04"] = Prop(
    "resample",
    [
        J("h_resample", (3, 1, 0, 0), "3 events, 1 weight, naive search, unlimited", ("total non-negative",)),
        J("h_resample", (3, 2, 1, 0), "3 events, 2 weights, tree search, unlimited", ("total non-negative",)),
        J("h_resample_big", (40, 0, 0), "40 events on a line, one weight from 8 values, naive search, unlimited", ("total non-negative",)),
        J("h_resample_big", (40, 1, 0), "40 events, tree search, unlimited", ("total non-negative",)),
    ],
    [J("h_resample_big", (140, 0, 0), "140 events", time=2000), J("h_resample", (4, 1, 0, 0), "4 events", time=3000), J("h_resample", (4, 1, 1, 0), "4 events", time=3000)],
    assumptions=[REAL, ONE],
)
PROPS["C05"] = Prop("resample", [J("h_nonneg_seed", (3, 0), "3 events, one seed", ("zero weight",)), J("h_nonneg_seed", (3, 1), "tree search", ("zero weight",)), J("h_seed_turn", (3, 0), "3 events on a line, three seeds (the first event, then any two)", ("one cell", "two cells")), J("h_seed_turn", (3, 1), "tree search", ("one cell", "two cells"))], [J("h_seed_turn", (4, 0), "4 events", time=1000), J("h_seed_turn", (4, 1), "4 events, tree search", time=1000)], assumptions=[REAL, ONE])
PROPS["C06"] = Prop(
    "search",
    [J("h_search", (n, k, l, 0), "", ()) for n in (3, 4) for k in (0, 1, 2, 3) for l in (0, 1)]
    + [J("h_search_big", (1009, k), "", ("all found", "none found")) for k in (0, 1)],
    [],
    assumptions=[ONE],
)
PROPS["C08"] = Prop(
    "dist",
    [
        J("h_metric", (1, 1, 0, 2), "", ("full events",)),
        J("h_metric", (2, 2, 0, 3), "", ("full events",)),
        J("h_metric", (2, 2, 2, 3), "", ("full events",)),
        J("h_metric", (1, 2, 2, 4), "", ("full events",)),
        J("h_metric", (2, 1, 2, 4), "", ("full events",)),
        J("h_metric", (3, 1, 1, 2), "", ("full events",)),
        J("h_types", (5,), "up to one particle of each of five types per event", ("all types on one side",)),
        J("h_many", (4, 2, 0, 2), "4 particles, 2 of them symbolic, distance to reordered copies"),
        J("h_many", (5, 2, 0, 2), "5 particles, 2 of them symbolic, distance to reordered copies"),
        J("h_many", (4, 2, 1, 1), "4 against 4 particles, one of them symbolic, symmetry"),
        J("h_many", (4, 2, 2, 1), "4 against 4 particles, one of them symbolic, order of particles"),
        J("h_many", (4, 2, 3, 1), "4 particles per event, one of them symbolic, triangle inequality"),
        J("h_crowd", (8, 8, 2), "8 particles of each of two types on a line, one momentum from 12 values"),
        J("h_crowd", (1, 1, 40), "one particle of each of 40 types"),
    ],
    [
        J("h_many", (4, 2, 0, 4), "4 symbolic particles, distance to reordered copies", time=3000),
        J("h_many", (4, 2, 1, 2), "4 against 4 particles, three of them symbolic, symmetry", time=3000),
        J("h_many", (4, 2, 2, 2), "4 against 4 particles, three of them symbolic, order of particles", time=3000),
        J("h_many", (4, 2, 3, 2), "4 particles per event, two of them symbolic, triangle inequality", time=3000),
    ],
    assumptions=[REAL],
)
PROPS["C09"] = Prop(
    "dist",
    [J("h_formula", ()), J("h_pairing", (2, 2, 0, 0)), J("h_pairing", (3, 2, 0, 0)), J("h_pairing", (3, 3, 2, 1)), J("h_pairing", (4, 2, 0, 2), "4 given and 2 symbolic particles, with transverse momentum"), J("h_pairing", (4, 2, 2, 2), "4 given and 2 symbolic particles, without transverse momentum"), J("h_pairing", (4, 4, 2, 3), "4 given against 2 given and 2 symbolic particles"), J("h_mixed", (2, 2, 0)), J("h_crowd", (9, 12, 1), "9 against 12 particles on a line, one momentum from 12 values"), J("h_crowd", (5, 9, 3), "5 against 9 particles of each of three types"), J("h_crowd", (3, 40, 1), "3 against 40 particles"), J("h_crowd", (1, 1, 40), "one particle of each of 40 types"), J("h_types", (5,), "up to one particle of each of five types per event", ("all types on one side",))],
    [J("h_pairing", (4, 3, 2, 2), "4 given and 3 symbolic particles", time=3000), J("h_pairing", (4, 4, 2, 2), "4 given and 4 symbolic particles", time=3000), J("h_pairing", (4, 4, 0, 3), "with transverse momentum", time=3000)],
    assumptions=[REAL],
)
PROPS["C10"] = Prop("event", [J("h_event", (3, 2), "3 particles of 4 types, 2 weights"), J("h_event_big", (300, 40), "300 particles of 40 types, one momentum from 12 values, 40 weights"), J("h_event_big", (60, 1), "60 particles of one type")], [J("h_event", (4, 1), "4 particles", time=1500)], assumptions=[REAL])
PROPS["C18"] = Prop("event", [J("h_fourvec", ())], [], assumptions=[REAL])
PROPS["C11"] = Prop("seeds", [J("h_seeds", (3, 2), "", ("all negative",)), J("h_seeds", (5, 1), "", ("all negative",)), J("h_seeds_big", (150,), "150 events, most of them negative, one with a weight from 16 values")], [J("h_seeds_big", (400,), "400 events", time=1500), J("h_seeds", (6, 1), "6 events, one weight", time=3000)], assumptions=[REAL, ONE])
PROPS["C12"] = Prop("unweight", [J("h_unweight", (3, 1), "", ("some discarded",)), J("h_unweight", (2, 3), "", ("some discarded",)), J("h_unweight_seq", (3,), "3 events, each random number one of two", ("some discarded",))], [J("h_unweight_seq", (4,), "4 events", time=1500), J("h_unweight", (4, 1), "4 events", time=3000)], assumptions=[REAL, RND])
PROPS["C13"] = Prop("run", [J("h_run", (3, 2), "", ("ignored event", "discarded event")), J("h_run_big", (1500,), "1500 records, one with any weight", ("ignored event", "discarded event")), J("h_run_err", (3,))], [], assumptions=[REAL])

PROPS["C14"] = Prop(
    "part",
    [
        J("h_partition", (2, 1, 1), ""), J("h_partition", (4, 1, 0), "", ("all regions used",)), J("h_partition", (5, 2, 1), ""),
        J("h_region", (3,), "", ("last region",)),
        J("h_partition_big", (1009, 3), "", ("last region",)),
    ],
    [],
    assumptions=[ONE],
)
PROPS["C15"] = Prop("coll", [J("h_collect", (12, 2), "", ("late cell kept", "cell dropped")), J("h_combine", (10, 10, 1)), J("h_combine", (3, 4, 1))], [], assumptions=[RND])
PROPS["C16"] = Prop("clus", [J("h_route", (2, 14), "", ("all removed",)), J("h_merge", (0,), "", ("combined", "separate")), J("h_merge", (1,), "", ("combined", "separate")), J("h_merge", (2,), "", ("combined", "separate")), J("h_route_big", (64, 14), "64 particles of all types, thresholds from 8 values"), J("h_route_big", (64, 6), "64 partons, hadrons and leptons"), J("h_route_big", (64, 0), "64 photons"), J("h_photon_big", (64,), "64 photons, half of them with a hadron nearby"), J("h_noclus", (2,))], [], assumptions=[REAL])
PROPS["C17"] = Prop("clus", [J("h_photon", (14,), "a photon with a particle of any of 14 types nearby, any radius, threshold and fraction", ("isolated", "not isolated")), J("h_photon_big", (64,), "64 photons, half of them with a hadron nearby, thresholds and fractions from 8 and 5 values")], [], assumptions=[REAL])

FMT = "numbers that depend on symbolic values are written as opaque texts that parse back to the same number; all other texts are real"
FS = "files are held in memory by the executor and are not compressed"
PROPS["C19"] = Prop(
    "hepmc",
    [
        J("h_hepmc_update", (1, 2, 1), "1 event, 2 weight tokens of symbolic bytes, one new weight"),
        J("h_hepmc_update", (2, 1, 1), "2 events, one of them may be left alone"),
        J("h_hepmc_update", (0, 0, 0), "no events"),
        J("h_hepmc_big", (100, 20), "one event with 100 particles and 20 named weights, two of them new"),
    ],
    [J("h_hepmc_update", (3, 1, 1), "3 events", time=3000), J("h_hepmc_update", (1, 3, 2), "longer tokens", time=3000)],
    assumptions=[FMT, FS],
)
PROPS["C20"] = Prop(
    "hepmc",
    [J("h_hepmc_read", (1, 1), "1 particle", ()), J("h_hepmc_read", (1, 3), "1 particle, other notations of numbers", ()), J("h_hepmc_big", (100, 20), "100 particles, 20 weights")],
    [J("h_hepmc_read", (2, 1), "2 particles", time=3000)],
    assumptions=[REAL],
)
PROPS["C21"] = Prop("lhef", [J("h_lhef_update", (1, 2), "1 event, tokens of up to 2 symbolic bytes"), J("h_lhef_update", (2, 1), "2 events"), J("h_lhef_update", (3, 1), "3 events"), J("h_lhef_update", (0, 1), "no events"), J("h_lhef_big", (300,), "an event with 300 particles")], [J("h_lhef_update", (2, 2), "2 events, longer tokens", time=3000), J("h_lhef_update", (4, 1), "4 events", time=3000)], assumptions=[FMT, FS])
PROPS["C22"] = Prop("lhef", [J("h_lhef_read", (1,), "1 particle"), J("h_lhef_read", (2,), "2 particles"), J("h_lhef_big", (300,), "300 particles")], [], assumptions=[REAL])
PROPS["C23"] = Prop(
    "xml",
    [J("h_xml_scale", (2, 1), "2 files with one event each, two contributions"), J("h_xml_scale", (3, 1), "3 files"), J("h_xml_missing", (), "cross section missing, or that of another contribution")],
    [J("h_xml_scale", (3, 2), "3 files with two events each", time=3000)],
    assumptions=[FMT, FS, REAL],
)
PROPS["C24"] = Prop(
    "xml",
    [J("h_xml_read", (1,), "1 particle", ("no outgoing particles", "all particles outgoing")), J("h_xml_read", (2,), "2 particles"), J("h_xml_update", (1, 1), "1 event"), J("h_xml_update", (2, 1), "2 events"), J("h_xml_update", (0, 1), "no events"), J("h_xml_big", (40, 7), "7 events with 40 particles each")],
    [J("h_xml_update", (3, 1), "3 events", time=3000)],
    assumptions=[FMT, FS, REAL],
)
PROPS["C25"] = Prop(
    "fio",
    [
        J("h_multi", (2, 1, 1, 0), "2 files of any format with up to 1 event each, reading", ("no events",)),
        J("h_multi", (2, 1, 1, 1), "2 files, updating all weights", ("no events",)),
        J("h_multi", (2, 1, 1, 2), "2 files, updating one event after the other", ("no events",)),
        J("h_multi", (1, 2, 1, 1), "1 file with up to 2 events"),
        J("h_multi", (1, 2, 1, 2), "1 file with up to 2 events"),
        J("h_multi", (3, 1, 1, 1), "3 files"),
        J("h_multi_big", (9, 3, 0), "9 files of all formats with up to 5 events each, reading"),
        J("h_multi_big", (9, 3, 1), "9 files, updating all weights"),
        J("h_multi_big", (9, 3, 2), "9 files, updating one event after the other"),
        J("h_multi_big", (2, 60, 1), "2 files with 60 or more events"),
        J("h_multi", (0, 0, 0, 0), "no files"),
        J("h_multi", (0, 0, 0, 1), "no files"),
        J("h_multi", (0, 0, 0, 2), "no files"),
    ],
    [J("h_multi", (3, 1, 1, m), "3 files", time=3000) for m in (0, 2)] + [J("h_multi", (2, 2, 2, m), "2 files with up to two events each", time=3000) for m in (0, 1, 2)],
    assumptions=[FMT, FS, REAL],
)
PROPS["C26"] = Prop(
    "fio",
    [J("h_bad_file", (f, 0, 0, 8), "file cut off anywhere", ("accepted", "rejected")) for f in range(4)]
    + [J("h_bad_file", (f, 1, 0, 8), "any byte replaced", ("accepted", "rejected")) for f in range(4)]
    + [J("h_removed", (f, 0, 0, 8), "any words missing from an event", ("accepted", "rejected")) for f in range(4)]
    + [J("h_announced", (2,), "2 files announcing any of five numbers of events, most of them too large", ("accepted",))]
    + [J("h_long", (f, k), f"130 copies of {v} inserted anywhere in an event, possibly in place of all that follows", ("accepted", "rejected")) for f in range(4) for k, v in enumerate(("a character of two bytes", "9", "space", "-1", "a character of three bytes"))]
    + [J("h_nan", (f,), "NaN in place of the weight or a component of a momentum") for f in range(4)],
    [J("h_bad_file", (f, 2, i, i + 1), "any two adjacent bytes replaced", time=3000) for f in range(4) for i in range(8)],
    assumptions=[FS],
)
PROPS["C27"] = Prop(
    "fio",
    [J("h_write_fail", (f, n, p), "the disk is full after any number of bytes", ("complete", "reported")) for f in range(3) for n, p in ((1, 0), (2, 3000), (3, 9000))],
    [],
    assumptions=[FS, "of a write that does not fit either one half is written or nothing, and all following ones fail"],
)
PROPS["C28"] = Prop(
    "fio",
    [J("h_detect", (2, 3), "up to 2 leading bytes, up to 3 bytes replaced", ("root",)), J("h_detect", (0, 5), "up to 5 bytes replaced", ("root",)), J("h_open", (), "one event in each format")],
    [J("h_detect", (3, 5), "up to 3 leading bytes, up to 5 bytes replaced", time=3000)],
    assumptions=[FS],
)
PROPS["C34"] = Prop(
    "fio",
    [J("h_rewind", (2, 1, 1), "2 files of any format with up to 1 event each, rewound twice"), J("h_rewind", (1, 2, 1), "1 file with up to 2 events"), J("h_multi_big", (12, 3, 0), "12 files of all formats with up to 5 events each")],
    [J("h_rewind", (2, 2, 1), "2 files with up to 2 events each", time=3000)],
    assumptions=[FMT, FS, REAL],
)
PROPS["C35"] = Prop(
    "e2e",
    [J("h_e2e", (f, 3), "3 events of one particle on a line, one of them possibly without particles", ("total non-negative",)) for f in (0, 1, 2)] + [J("h_e2e", (0, 4), "4 events", ("total non-negative",))],
    [J("h_e2e", (f, 4), "4 events", time=3000) for f in (1, 2)],
    assumptions=[FMT, FS, REAL, ONE],
)
PROPS["C39"] = Prop("hepmc", [J("h_hepmc_named", (1,), "1 event"), J("h_hepmc_named", (2,), "2 events, names in different order"), J("h_hepmc_missing", (), "one of two names missing"), J("h_hepmc_big", (100, 20), "20 names, any of them and another one requested")], [], assumptions=[FMT, FS])

PROG = "the program's main function is run with the logger, the response file reader and the thread pool replaced by stand-ins; the random number generator is the real one in checks of programs"
V = ["default options", "--ptweight", "--search", "--strategy", "--max-cell-size (symbolic)", "--minweight and --seed", "--include-neutrinos", "--weights", "jet definition", "lepton definition", "photon definition"]
PROPS["C31"] = Prop(
    "bin_cres",
    [J("h_cli", (i, 2 if i == 5 else 3), f"{v}; {2 if i == 5 else 3} events with symbolic weights", ("weights change",)) for i, v in enumerate(V)]
    + [J("h_cli_groups", (), "all subsets of the lepton and photon options", ("accepted", "rejected"))]
    + [J("h_cli_compr", (0, d), f"all algorithms, level of {d} symbolic digits", ("accepted",) if d == 0 else ("accepted", "rejected")) for d in range(4)]
    + [J("h_cli_values", (k, 2), "two adjacent symbolic bytes in a valid value", ("accepted", "rejected")) for k in range(3)]
    + [J("h_cli_numbers", (k, 0), "unusual values for a numeric option", ("accepted", "rejected")) for k in range(10)]
    + [J("h_cli_numbers", (k, 3), "three symbolic bytes as value of a numeric option", ("accepted", "rejected")) for k in (0, 1, 2, 3)],
    [J("h_cli", (i, 4), f"{v}; 4 events", time=3000) for i, v in enumerate(V) if i != 5] + [J("h_cli_values", (k, 4), "four symbolic bytes", time=3000) for k in range(3)],
    assumptions=[FMT, FS, REAL, PROG],
)
PROPS["C32"] = Prop(
    "bin_class",
    [J("h_classify", (f, d, n, 0), f"{n} events with a particle at a symbolic position, {2**d} regions", ()) for f in range(3) for d, n in ((1, 2), (2, 1), (2, 0), (0, 1))]
    + [J("h_classify_fail", (f, n), f"{n} events, the disk is full after any number of bytes", ("everything is written", "failure is reported")) for f in range(3) for n in (1, 2)]
    + [J("h_classify_many", (0,), "two input files, 18 pairs of names, three output directories", ("accepted", "refused"))],
    [J("h_classify", (f, 2, 2, 0), "2 events, 4 regions", time=3000) for f in range(3)] + [J("h_classify", (f, 1, 3, 0), "3 events, 2 regions", time=3000) for f in range(3)],
    assumptions=[FMT, FS, REAL, PROG],
)
PROPS["C36"] = Prop(
    "bin_part",
    [J("h_parti", (f, n, k, l), f"{n} events in two files, at least {k} of them with negative weight, {2**l} regions", c)
     for f, n, k, l, c in ((0, 5, 1, 1, ("partition", "too few events")), (1, 4, 2, 1, ("partition",)), (2, 4, 2, 1, ("partition",)), (0, 6, 3, 2, ("partition", "too few events")), (0, 2, 0, 0, ("partition", "too few events")))]
    + [J("h_parti_opts", (), "all subsets of the lepton and photon options, the number of regions, the metric and the jet algorithm", ("accepted", "rejected"))],
    [J("h_parti", (f, 7, 0, l), "7 events", time=3000) for f in range(3) for l in (1, 2)],
    assumptions=[FMT, FS, REAL, PROG, "negative weights are taken from a few values, other weights are symbolic"],
)
PROPS["C37"] = Prop(
    "fio",
    [J("h_overwrite", (f, s), "two pairs of input and output paths of several spellings, " + ("opened one by one" if s else "opened together"), () if s else ("accepted", "refused")) for f in range(3) for s in range(2)]
    + [J("h_overwrite_path", (f, 6 if f == 0 else 4), f"any output path of up to {6 if f == 0 else 4} bytes of an alphabet of five", ("accepted", "refused")) for f in range(3)],
    [J("h_overwrite_path", (f, 7), "any output path of up to 7 bytes", time=3000) for f in range(3)],
    assumptions=[FS],
)
PROPS["C07"] = Prop(
    "resample",
    [J("h_builder", (2, 0), "2 events with symbolic weights, either metric, three strategies, symbolic maximum cell size, both searches, calls in six orders, each two of them in either order", ("weights change",)), J("h_builder", (3, 0), "3 events", ("weights change",))],
    [J("h_builder", (3, 1), "3 events, all 24 orders of the calls", ("weights change",), time=1000), J("h_builder", (4, 0), "4 events, six orders", ("weights change",), time=2000)],
    assumptions=[REAL, ONE],
)
PROPS["C29"] = Prop(
    "capi",
    [J("h_capi_view", (w, n), f"two events with {w} weights and {n} particles each, of three types", c) for w, n, c in ((1, 1, ("negative weight",)), (2, 2, ("negative weight",)), (0, 2, ()), (3, 0, ("negative weight",)))],
    [J("h_capi_view", (3, 2), "three weights, two particles", ("negative weight",), time=1000), J("h_capi_view", (1, 3), "one weight, three particles", ("negative weight",), time=1000)],
    assumptions=["the distance function is a Rust function with the calling convention the field of DistanceFn has"],
)
CV = ["default options", "weight of the transverse momentum", "naive search", "symbolic maximum cell size", "jet definitions", "distance function given by the caller", "two input files"]
PROPS["C30"] = Prop(
    "capi",
    [J("h_capi_run", (i, 3), f"{v}; 3 events with symbolic weights, the first one negative", ("weights change",)) for i, v in enumerate(CV)]
    + [J("h_capi_err", (k,), f"{v}; any size of the buffer up to two more than needed", ("complete", "truncated")) for k, v in ((0, "missing input file"), (1, "invalid event"), (2, "output directory cannot be created"))],
    [J("h_capi_run", (i, 4), f"{v}; 4 events", ("weights change",), time=3000) for i, v in enumerate(CV)],
    assumptions=[FMT, FS, REAL, ONE],
)
SC = "threads switch where they acquire locks, call the observer, or wait; the number of switches that are not forced by waiting is bounded; memory accesses are sequentially consistent; the distribution of seeds over threads is fixed (round robin)"
PROPS["C41"] = Prop(
    "par",
    [
        J("h_par", (3, 1, 2, 0), "3 events, 2 threads, up to 2 voluntary switches, naive search, unlimited cells", ("several cells", "total non-negative")),
        J("h_par", (3, 2, 1, 0), "3 events with 2 weights, 2 threads, 1 switch", ("several cells", "total non-negative")),
        J("h_par", (3, 1, 2, 1), "3 events, tree search, 2 threads, 2 switches", ("several cells", "total non-negative")),
        J("h_par", (3, 1, 2, 2), "3 events, limited cells, 2 threads, 2 switches", ("several cells",)),
        J("h_par", (3, 1, 1, 4), "3 events, 3 threads, 1 switch", ("several cells", "total non-negative")),
        J("h_par", (3, 1, 1, 6), "3 events, limited cells, 3 threads, 1 switch", ("several cells",)),
    ],
    [
        J("h_par", (4, 1, 1, 0), "4 events, 2 threads, 1 switch", ("several cells", "total non-negative"), time=1000),
        J("h_par", (3, 1, 3, 0), "3 events, 3 switches", ("several cells", "total non-negative"), time=1000),
        J("h_par", (3, 1, 3, 3), "3 events, tree search, limited cells, 3 switches", ("several cells",), time=1000),
        J("h_par", (3, 1, 2, 4), "3 events, 3 threads, 2 switches", ("several cells", "total non-negative"), time=1000),
        J("h_par", (4, 1, 2, 1), "4 events, tree search, 2 switches", ("several cells", "total non-negative"), time=2000),
        J("h_par", (3, 1, 2, 6), "3 events, limited cells, 3 threads, 2 switches", ("several cells",), time=1000),
        J("h_par", (4, 1, 1, 6), "4 events, 3 threads, limited cells, 1 switch", ("several cells",), time=2000),
    ],
    assumptions=[REAL, SC, "rayon's pool of threads is replaced by a scheduler of the harness that drives the parallel iterator over the seeds; the locks are those of parking_lot with a hook at each acquisition"],
)
