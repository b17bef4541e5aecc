"""Which simulated runs decide which property. (build, family, mode, runs in the quick tier)

Builds: ns = default build (Rc, RefCell), s = feature sync (Arc, locks). Families: see ../DESIGN.md.
"""
PLANS = {
    "C01": [("ns", "loc", "seq", 48000), ("ns", "loc", "seq-fault", 12000), ("ns", "loc", "seq-nested", 12000),
            ("s", "loc", "conc", 60000), ("s", "loc", "conc-fault", 16000), ("s", "loc", "seq", 8000),
            ("ns", "full", "seq", 10000), ("s", "full", "conc", 6000), ("ns", "full", "seq-fault", 6000)],
    "C02": [("s", "share", "a", 1), ("s", "loc", "conc", 38400), ("s", "loc", "conc-fault", 22400),
            ("s", "loc", "conc-nested", 9600), ("ns", "loc", "seq", 16000), ("ns", "loc", "seq-fault", 9600),
            ("s", "full", "conc-fault", 4800), ("s", "reg", "conc", 16000), ("s", "cmd", "conc", 9600),
            ("s", "sql", "conc-fault", 2400), ("s", "sql", "conc-details", 1900), ("ns", "sql", "seq-fault", 2400),
            ("s", "open", "conc-fault", 1600), ("s", "err", "conc-fault", 800)],
    "C03": [("ns", "loc", "seq-set", 40000), ("s", "loc", "conc-set", 80000),
            ("s", "full", "conc-set", 4000)],
    "C04": [("ns", "loc", "seq", 60000), ("s", "loc", "conc", 40000), ("ns", "loc", "seq-fault", 12000),
            ("ns", "full", "seq", 12000), ("s", "full", "conc", 6000), ("ns", "full", "seq-fault", 6000)],
    "C05": [("ns", "loc", "seq-fault", 60000), ("s", "loc", "conc-fault", 40000),
            ("ns", "loc", "seq-nested-fault", 8000), ("ns", "full", "seq-fault", 16000), ("s", "full", "conc-fault", 8000)],
    "C06": [("ns", "sql", "seq-fault", 15300), ("ns", "sql", "seq-fault-mem", 13600), ("ns", "sql", "seq-fault-mem-details", 3400), ("ns", "sql", "seq-fault-details", 8500), ("s", "sql", "conc-fault", 8500),
            ("ns", "edit", "die", 8500), ("ns", "edit", "power", 6800), ("s", "edit", "die", 4200), ("ns", "edit", "move-power", 3400)],
    "C07": [("ns", "sql", "seq", 40000), ("s", "sql", "conc", 16000), ("ns", "sql", "seq-fault", 8000)],
    "C08": [("ns", "sql", "seq", 16000), ("ns", "sql", "seq-details", 28000), ("s", "sql", "conc-details", 12000),
            ("ns", "sql", "seq-fault-details", 6000)],
    "C09": [("s", "sql", "conc-details", 9800), ("s", "sql", "conc-fault-details", 9800),
            ("ns", "sql", "seq-fault-details", 9800), ("s", "edit", "grow-details", 14000), ("ns", "edit", "grow-details", 5600)],
    "C10": [("ns", "open", "seq", 24000), ("ns", "open", "seq-fault", 16000), ("ns", "open", "seq-dir", 8000),
            ("s", "open", "conc-fault", 10000), ("s", "open", "conc", 6000)],
    "C11": [("s", "reg", "conc", 210000), ("ns", "reg", "seq", 105000)],
    "C12": [("s", "cmd", "conc", 90000), ("ns", "cmd", "seq", 30000), ("ns", "loc", "seq-cmd", 48000),
            ("s", "loc", "conc-cmd", 48000)],
    "C13": [("ns", "edit", "plain", 20000), ("ns", "edit", "move", 12000), ("s", "edit", "move", 8000), ("ns", "edit", "move-die", 4000), ("ns", "edit", "die", 12000), ("s", "edit", "plain", 8000),
            ("s", "edit", "plain-details", 6000), ("ns", "sql", "seq-fault", 8000)],
    "C14": [("ns", "err", "seq", 10000), ("ns", "err", "seq-fault", 6000), ("s", "err", "conc", 4000), ("s", "err", "conc-fault", 3000)],
    "C15": [("ns", "loc", "seq-nested", 48000), ("ns", "loc", "seq-nested-fault", 12000),
            ("s", "loc", "conc-nested", 40000), ("ns", "full", "seq-nested-fault", 6000), ("s", "full", "conc-nested", 4000)],
    "C19": [("ns", "sql", "seq", 6000), ("ns", "sql", "seq-fault", 10000), ("ns", "sql", "seq-fault-details", 5000),
            ("s", "sql", "conc-fault", 4000), ("ns", "edit", "plain", 8000), ("ns", "edit", "die", 8000), ("s", "edit", "die", 3000),
            ("ns", "open", "seq", 6000), ("ns", "open", "seq-fault", 6000), ("s", "full", "conc-fault", 3000)],
}

# Properties a crash or hang of the simulated process breaks, by family.
CRASH = {
    "loc": ["C02"], "full": ["C02"], "share": ["C02"],
    "sql": ["C02", "C06", "C07", "C08", "C09", "C19"], "open": ["C02", "C10"], "edit": ["C02", "C06", "C09", "C13"],
    "reg": ["C02", "C11"], "cmd": ["C02", "C12"], "err": ["C02", "C14"],
}

RULES = ("One evaluation is one simulated execution, made from one integer: repository, patterns, values, per-thread "
         "programs, fault plan, hash keys and every scheduling decision. It is non-trivial if threads were switched "
         "beyond starting and ending them, or a fault fired inside an operation, or at least two operations shared "
         "state; distinct by the hash of its interleaving and of everything observed.")

COMPONENTS = {
    "real code": ["i18n_utility", "i18n_lexer", "i18n_provider", "i18n_provider_sqlite3 (families sql, open, edit, full, err)",
                  "i18n_localiser", "ICU4X", "rusqlite and SQLite 3.45 (same families)"],
    "simulated": ["thread scheduling: std locks, once cells and atomics of the i18n crates go through the seeded scheduler",
                  "SQLite VFS (files, locks, sleeping) under the provider", "directory listing order and errors",
                  "hash map keys", "time"],
    "stub": ["the repository behind the localiser in family loc: an in-memory provider with faults"],
}

ASSUMPTIONS = [
    "Threads are switched at lock, once-cell, atomic, provider, storage and operation boundaries only; data races between "
    "them are excluded by Rust's type system (the crates contain no unsafe code).",
    "Sampling: a clean batch is evidence, not proof.",
    "ICU4X data and formatting are trusted: the reference model formats single numbers and dates with them, too.",
]

_T = " Seeded sampling of schedules, histories and faults; trusts the reference model in sim/harness and ICU4X."
NOTES = {
    "C01": ("seeded schedules of localisation calls against a reference model of patterns and repository",
            "Every answer of every simulated call is compared with an independent evaluation of the stored pattern." + _T),
    "C02": ("seeded schedules and repository faults; deadlock, panic, step-bound and lasting-damage detection",
            "Lock-level interleavings with writer preference; every object is used again after the run." + _T),
    "C03": ("seeded schedules of calls and changes of defaults; history check against the defaults in force",
            "Interval candidates (register with overlapping writes) for every call and read." + _T),
    "C04": ("seeded schedules and histories; answers compared with the fallback rules of the model",
            "Text, tag and error details are compared." + _T),
    "C05": ("repository faults injected at seeded calls; error surfacing and recovery compared with the model",
            "A fault at any repository call of an operation, afterwards every call again." + _T),
    "C06": ("storage faults, editor crashes and power failures at seeded calls of the simulated SQLite storage; answers compared with a model of the files",
            "Real provider, rusqlite and SQLite over an in-memory file system with read errors, short and corrupt reads, failing opens and locks, failing allocations, crashes and torn writes." + _T),
    "C07": ("seeded repositories, listing orders, histories and schedules; lookups compared with a model of the files",
            "The model picks the strings from the generated rows, not with SQL." + _T),
    "C08": ("seeded divisions of components over files, listing and hash orders, histories and schedules; details compared with a model of the files",
            "Every figure and list of the details is compared." + _T),
    "C09": ("seeded schedules of details requests with storage faults and an editor adding rows; all-or-nothing and sameness checked over the history",
            "Failed requests, retries, and data that grow under the provider." + _T),
    "C10": ("seeded directories of well-formed, deviating, damaged and foreign files, listing orders, listing and storage faults while opening; outcome compared with a model",
            "One deviation from the schema per file, the complaint has to name it; opened repositories are probed for what they contain." + _T),
    "C11": ("seeded schedules of registry requests and listings; history check against a set model",
            "Spellings, malformed tags, listings in mid-change and after settling." + _T),
    "C12": ("seeded schedules of registrations, lookups and uses in patterns; write-once register per name",
            "History check for the registry; arguments seen by the commands are compared with the model." + _T),
    "C13": ("seeded schedules of readers and an editor holding locks, spilling, committing, rolling back and dying; simulated time; versions seen checked against the commits",
            "Old-or-new check per lookup over the recorded commits; waiting measured in simulated time." + _T),
    "C14": ("seeded errors, made and provoked, explained under storage faults and by several threads; texts compared with the shipped messages filled in",
            "Real localiser and SQLite provider over the shipped message files; type, variant, details and nested cause of every text are compared." + _T),
    "C15": ("seeded schedules of nested messages with faults; recursive reference model",
            "Messages nested up to three deep." + _T),
    "C19": ("seeded histories, schedules, storage faults and editor crashes over the simulated SQLite storage; every write and every lock left over is recorded",
            "The storage layer notes who creates, writes, truncates, deletes and locks; the real directory is compared, too." + _T),
}
