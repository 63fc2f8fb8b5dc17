SESSION = "TLC model checks HickleStore/HickleSession; histories generated from it are executed by the real code and the recorded observations judged against the specification (trace validation)"
LN = "Specification checked exhaustively within bounds; all pairs of operations of the specification and random histories (simulation) executed and judged by TLC after every step. "
MORE = {
    "P10": (SESSION, LN + "Histories are bounded (pairs and two-dump pairs exhaustively over a reduced alphabet, longer ones sampled)."),
    "P11": (SESSION, LN + "All pairs of writing and reading target kinds are covered, objects are sampled."),
    "P12": (SESSION, LN + "Failures are injected into member serialization, warnings, options and h5py calls at sampled points; open files of the process are observed through HDF5 and /proc."),
    "P13": (SESSION, LN + "All modes over absent, empty, foreign and used files in histories of two dumps, longer histories sampled."),
    "P14": (SESSION + "; TLC judges repeated loads of the round trip cases of all object families", LN + "File bytes, HDF5 trees, directory contents and aliasing are compared between steps."),
    "P15": ("TLC model checks the commit protocol (HickleCommit refines HickleStore, wrong variants refuted); the real dump is stopped at every point (exceptions, kill, disk full) and what is loaded afterwards is judged by TLC", "Commit protocol checked exhaustively within bounds; faults injected at every HDF5 call, sampled source lines, file size limits and failing writes for 10 scenarios, judged by TLC."),
    "P16": (SESSION, LN + "Every step of a history is repeated in a fresh process (twin) from the same files; both outcomes have to agree."),
    "P17": ("TLC model checks which loader applies (HickleLoaders/MCLoaders) over all histories of registrations, exclusions, dumps, loads and new processes; these histories are executed by the real code and judged by TLC (JudgeLoaders)", "Histories of four steps over a reduced alphabet enumerated (executed as a sample), longer ones simulated; classes with a loader module of their own get no direct loaders."),
    "P18": ("TLC model checks the reference reader on files whose classes are lost (HickleRecover); files holding objects of classes which vanish are dumped and loaded again without them by the real code, what comes back is judged by TLC against the stored layout (JudgeLayout)", "Kinds of loss (class, module, package, half broken module) times kinds of storage enumerated, surrounding containers enumerated within bounds and sampled."),
    "P19": ("TLC model checks writers and reference reader of the 3.x and 4.0.x layouts (HickleLegacy: OldRoundTrip, OldNames); files written from the object graphs of the specification are loaded by the real code in fresh processes, what comes back is judged by TLC (JudgeLegacy)", "Object graphs enumerated within bounds and simulated beyond, leaf values and deeper nestings sampled; layouts reconstructed from the sample files, the readers and the 3.x writer kept in the tree."),
    "P20": ("TLC model checks that the reference reader refuses files lacking a required piece (HickleForeign/Damage); the damaged files of the specification and damaged real files are loaded by the real code, outcomes judged by TLC (JudgeLayout)", "Plans enumerated by TLC within bounds; pieces removed from files dumped from all object families and arbitrary non-hickle files sampled."),
    "P21": ("TLC model checks reader and any-order writer of the layout (HickleFormat/HickleForeign); files written from the specification's behaviours are loaded by the real code, files written by the real code decoded by the specification (JudgeLayout)", "All behaviours of the writer enumerated within bounds, executed as a sample; decoding of dumped files of all object families by the specification."),
    "P22": ("TLC model checks the manager registry under all interleavings (HickleOverlap, wrong variants refuted); schedules generated from it drive the real operations step by step, outcomes judged by TLC (JudgeOverlap)", "Interleavings at the granularity of h5py and callback steps enumerated for two and sampled for three operations; free running threads are not enumerated."),
}
