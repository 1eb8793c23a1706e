"""Checks beyond the memory cache family: property -> (level, technique, note)."""
T = "TLA+ specification checked with TLC; "
V = "validated by a TLC trace specification"
MORE = {
    "C01": ("model_checking", T + "every transition of the session model and random histories of regrid calls replayed on the real code over encoded inventories and " + V,
            "Weights are encoded so that a result identifies the inventory, entry and shape it came from; the set of inventories, grids and spellings is finite."),
    "C17": ("model_checking", T + "all pairs of the specifications enumerated from the grid model matched by the real code and compared with the equality of the described grids in TLC",
            "Exhaustive over the listed parameter values and spellings; the grids are identified by an independent normal form in the specification."),
    "C18": ("model_checking", T + "all indexes of the model up to a bound, plus large random ones, looked up through the real code and " + V,
            "Entries are drawn from 15 kinds (supported, unknown, malformed); quick runs a sample of the length-3 indexes, thorough all."),
    "C06": ("model_checking", T + "transitions of the configuration model and random histories replayed in real sessions and " + V,
            "Model graphs over 2 options and 2 nested temporary configurations (transitions sampled in quick); random histories over all 12 options."),
    "C07": ("model_checking", T + "transitions of the configuration model (with refused changes) and random histories replayed in real sessions, observing what both caches work with, and " + V,
            "As C06, with invalid and refused values, single and combined; the caches are observed through their public API and by probing lookups and evictions."),
    "C08": ("model_checking", T + "histories with restarts, hand edits and crashes replayed in real processes and " + V,
            "Crash points are the executed source lines of the package (every k-th in quick, all in thorough); a death inside a single system call is not simulated."),
    "C24": ("model_checking", T + "an automaton of the texts checked against their grammar; all texts up to a bound and long random ones read by the real options and " + V,
            "Exhaustive over three alphabets up to the given lengths; digits are ASCII."),
    "C10": ("model_checking", T + "transitions of the disk cache model and random histories replayed on the real cache and " + V,
            "Sizes are multiples of a unit, the disk for the relative limit is simulated (statvfs of 100 units holding the cache files only); concurrent creations are covered by C09."),
    "C11": ("model_checking", T + "transitions of the disk cache model (purges, lost files, failures, directories) and random histories replayed on the real cache and " + V,
            "Entries, sizes, arguments, owner data, totals and summary are compared after every operation."),
    "C12": ("model_checking", T + "transitions of the disk cache model with failing and dying creations, histories with a death at every executed source line of a request, replayed in real processes and " + V,
            "Crash points are the executed source lines of the package in all threads (every third in quick); after a death in the middle of a removal the entry may be reported as lost."),
    "C13": ("model_checking", T + "transitions of the disk cache model over policies, roots, directories and sessions, and random histories, replayed in real processes and " + V,
            "Two user directories and two roots of each kind; the temporary directories are looked up in the file system after every operation."),
    "C14": ("model_checking", T + "transitions of the disk cache model with all forms of forced refresh and random histories replayed on the real cache and " + V,
            "The force function records what it is given; owner data are JSON values."),
    "C22": ("model_checking", T + "weights files enumerated from the format model (shapes, patterns, byte orders, scalar sizes, every truncation point, every wrong marker) read by the real code and " + V,
            "Matrices up to a small size exhaustively plus random larger ones; the file bytes are produced from the specification's layout, not by the code under test."),
    "C23": ("model_checking", T + "histories of additions (all orders of the model), subsets and merges run with the real builder and tools, all index entries and lookups " + V,
            "Twelve grids and eight interpolation settings; weights are encoded so that files and results identify the addition they come from."),
    "C15": ("model_checking", T + "every transition of the remote inventory model and random histories of lookups by two sessions against a server under control replayed in real processes and " + V,
            "Two remote inventories of four entries; the requests seen by the server and the results are compared after every lookup; the system inventory is redirected to the same server."),
    "C16": ("model_checking", T + "transitions of the remote inventory model with failing, cut and corrupt answers and random histories of lookups replayed in real processes and " + V,
            "Faults at the index and at every weights file, repaired or not afterwards, also in a local inventory; a fault is one of eight kinds."),
    "C25": ("model_checking", T + "a fine-grained model of the resumed download checked for safety and refinement; all combinations of what decides about a download, interruptions at every chunk, deaths at executed source lines and random histories run against a server under control and " + V,
            "A remote file that changes between the HEAD and the resumed GET of one download is outside the model (limit of multiurl); bodies of up to ten chunks."),
    "C05": ("model_checking", T + "a model of the locking protocol checked to refine the sequential cache; groups of 2-4 threads run under a controlled scheduler (every single preemption at executed lines, random and priority based schedules down to byte codes), the recorded histories checked for linearizability against the cache model by a TLC trace specification",
            "Inventories are local; threads are switched at executed lines or byte codes of the package and at lock operations, not inside the libraries."),
    "C09": ("model_checking", T + "a model of the lock and rename protocol (deaths at any step, purges, forced refreshes) checked for safety and progress, with its broken variants refused; groups of 1-4 processes or threads run under a controlled scheduler (preemptions at executed lines and at file operations, kills, coverage guided and random schedules), the recorded histories " + V,
            "Switches happen at executed lines of the package, operations on files of the cache, and sleeps; content of the paths is observed after every switch."),
    "C19": ("model_checking", T + "every transition of the model of the calls (kinds of input, lists, backends made before, targets) and random histories replayed on the real code, the fields of the results identified, and " + V,
            "The reference for a message is what the engine itself gives for it; precomputed weights are encoded; lists of up to twelve fields."),
    "C20": ("model_checking", T + "transitions of the model of the options on their way to the engine (all subsets of options after all subsets, seven kinds of input, areas) replayed, what the engine is told recorded and " + V,
            "The engine is observed through subclasses of its job and inputs; options that are not given may be left to it."),
    "C21": ("model_checking", T + "all shapes and chunkings of the model up to a bound regridded as arrays and datasets by both backends, every field of the results identified, and " + V,
            "Up to three other dimensions and six fields per variable (twelve in thorough); integers with precomputed weights only, as the engine refuses them."),
    "C26": ("model_checking", T + "a fine-grained model of the locking of the configuration checked to refine its atomic model, with each part of the protocol shown to be needed; groups of 2-3 threads run under a controlled scheduler (every single preemption at sampled executed lines, random and priority based schedules), the recorded histories checked for linearizability against the model by a TLC trace specification",
            "Threads are switched at executed lines of the package and at its lock operations, not inside the libraries; a temporary configuration is entered and left by the same thread."),
    "C27": ("model_checking", T + "a fine-grained model of how processes lock, write and rename the configuration file (deaths at any step) checked for safety and progress, with its broken variants refused; groups of 2-4 processes run under a controlled scheduler (preemptions at file operations and the lines after them, kills, random schedules), the recorded histories " + V,
            "Switches happen at operations on the files of the directory (and up to three lines after each), and sleeps; the file is looked at after every switch."),
    "C28": ("model_checking", T + "a model of the steps of an addition (deaths at any step) checked for safety, with its broken variants refused; additions and makings of weights interrupted at sampled executed lines and file lengths in real processes, what is left and what follows " + V,
            "Kills at executed lines of the package and wherever a file is cut at a length; the engine is a stand-in that reads the grid definitions and writes its weights; one builder at a time."),
}
