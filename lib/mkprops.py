"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
S="src/earthkit/regrid/"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],mechanism=[dict(name=n,where=S+w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=S+w) for n,m,w in state],observe_at=list(obs),hook_needed=hook)))

p("C01","Precomputed regridding always applies the weights of the requested entry",
 "regrid() (and the deprecated interpolate()) with precomputed weights returns exactly the matrix that the requested inventory holds for (input grid, output grid, interpolation method) applied to the values, shaped as that entry's output grid, or raises ValueError when the inventory holds no such entry. This does not depend on which inventories, grids, methods or spellings were used earlier in the session, nor on the memory-cache policy, size, strict mode or clearing in between. The caller's values and grid dictionaries are not modified.",
 ["histories","configurations","inputs"],"all interleavings of regrid calls over several inventories, grid pairs, methods and spellings with cache reconfiguration and clearing between them",
 "tests call one inventory with one configuration and compare one reference field; they never mix inventories, nor reconfigure the cache between calls",
 ["backends/precomputed.py","backends/db.py","utils/memcache.py"],[("MatrixBackend.regrid","backends/precomputed.py"),("MatrixDb.find","backends/db.py"),("MemoryCache.get","utils/memcache.py")],
 [("MEMORY_CACHE","loaded weights kept in memory","utils/memcache.py")],["earthkit.regrid.array.regrid","earthkit.regrid.interpolate"])

p("C02","The memory cache never exceeds its limit and its statistics are exact",
 "After every operation the reported current size of the in-memory weights cache is the sum of the sizes of the weights it retains, the count is their number, and under the 'largest' and 'lru' policies the size is at most the configured maximum; 'off' retains nothing. Every successful lookup that is answered from memory adds one hit and nothing else, every other successful lookup under an active policy adds one miss, a lookup of existing weights that fails (unreadable or refused) adds nothing, and clearing sets everything to zero. Changing the limit or policy takes effect at once on what is already retained.",
 ["histories","configurations"],"all sequences of lookups, clears, and policy/limit/strict changes over weights of differing sizes, with right, missing and wrong size estimates",
 "the memory-cache tests that exist are either skipped or run one short scripted history per policy",
 ["utils/memcache.py","utils/matrix.py"],[("MemoryCache.get / _reduce / update / clear / info","utils/memcache.py")],
 [("items/curr_mem/hits/misses","cache contents and statistics","utils/memcache.py")],["memory_cache_info()"])

p("C03","Memory-cache eviction follows the selected policy and is never needless",
 "Weights retained in memory are served without being read again, until evicted or cleared. Under 'lru' only the least recently used weights are evicted, under 'largest' only the largest ones, each only while room is lacking; 'unlimited' never evicts. Weights that are larger than the whole limit are not retained and (strict mode off) are still applied, without evicting the ones already retained.",
 ["histories","configurations"],"all sequences of lookups over weights of differing sizes, under each policy and limit, with policy and limit changes in between",
 "existing tests look at two matrices and one eviction; the victim choice depends on the whole access history",
 ["utils/memcache.py"],[("LRUPolicy.reduce / LargestPolicy.reduce","utils/memcache.py"),("_create_with_pre_check","utils/memcache.py")],
 [("items","ordered map of retained weights","utils/memcache.py")],["memory_cache_info()","which file version a result was computed from"])

p("C04","Strict mode refuses oversized weights and changes nothing",
 "With strict mode on and a limited policy, a lookup of weights whose recorded size exceeds the configured maximum raises ValueError, is not applied or retained, evicts nothing and does not change the statistics; weights that fit are served after evicting as needed. With strict mode off, or under 'unlimited' and 'off', no lookup is ever refused because of its size. Strict mode never refuses weights already in memory.",
 ["histories","configurations"],"all histories of lookups and strict-mode/policy/limit changes",
 "two scripted tests with a patched size estimate; they do not observe the cache after the refusal nor with prior content",
 ["utils/memcache.py"],[("_create_with_pre_check","utils/memcache.py")],(),["array.regrid","memory_cache_info()"])

p("C05","Concurrent regridding is linearizable, loads once and never deadlocks",
 "However calls to regrid with precomputed weights, memory_cache_info(), clear_memory_cache() and changes of the memory cache options from several threads interleave, each returns what some sequential order of them would return, and the final statistics and contents are those of that order. While weights stay cached they are read from disk once, however many threads ask for them at the same time. All calls complete, also after one of them fails.",
 ["schedules"],"all thread interleavings (context switches at any statement or lock operation) of small groups of concurrent calls",
 "the tests are single threaded",
 ["utils/memcache.py","backends/db.py"],[("MemoryCache.lock","utils/memcache.py")],(),["call/return history of threads"])

p("C06","Configuration precedence and temporary configuration scoping",
 "get() returns, converted to the option's type, the environment variable if set, else the value set in the innermost active temporary configuration, else the value set in the main configuration, else the default. A temporary configuration starts as a copy of the enclosing one; set() and reset() inside it affect only it, never the file, and leaving it (normally, by exception, nested to any depth, or failing on entry) restores the enclosing configuration exactly. Unknown option names raise KeyError, and setting an option shadowed by the environment stores the value and warns.",
 ["histories","configurations"],"all sequences of get, set (all three call forms), reset, temporary enter/exit (normal or exceptional), and environment changes, over all options",
 "unit tests check fixed sequences of a couple of steps on one option",
 ["utils/config.py"],[("Config.get/_set/reset/temporary","utils/config.py"),("new_config","utils/config.py")],
 [("_config/_stack","option values and the stack of temporary configurations","utils/config.py")],["config.get","config.env","warnings"])

p("C07","A rejected configuration change has no effect",
 "When set(), reset() or temporary() raises (unknown name, wrong type, invalid value, or a value refused by the cache it configures), every option keeps the value it had, in memory and in the config file, and caches keep working with their previous settings. This holds for every form of call, also when several options are set at once and only one is bad. After any successful change the disk cache and the memory cache use exactly the values that get() reports.",
 ["histories","configurations","inputs"],"all mixes of valid and invalid changes of one or several options after any history, including inside temporary configurations",
 "tests check that bad values raise, not what is left behind",
 ["utils/config.py","utils/memcache.py","utils/caching.py"],[("Config.set","utils/config.py"),("MemoryCache.update","utils/memcache.py"),("Cache._config_changed","utils/caching.py")],(),["config.get","config file","memory_cache_info()","cache.policy"])

p("C08","Configuration survives restarts and crashes",
 "With autosave on, a new session sees exactly the option values of the last completed set()/reset() of the main configuration; with autosave off, or for temporary configurations, the file is left untouched. save_as() writes a file that loads to the same values. If the process dies at any point of a change, the next session starts with the values either before or after that change, never with a mixture or with defaults.",
 ["crash_points","histories","configurations"],"all histories of changes over all options and value types, and a crash at every step of a save",
 "tests never restart a process nor interrupt a save",
 ["utils/config.py"],[("save_config","utils/config.py"),("_init_config","utils/config.py")],(),["config file","config.get in a new process"])

p("C09","A cached file is created once and is only ever visible complete",
 "For a given owner and arguments, whatever threads and processes sharing a cache directory do concurrently, and wherever one of them is killed, the path of the cache entry either does not exist or holds the complete content of one successful creation. As long as the entry stays in the cache, the content is created exactly once and all callers obtain that same path; different owners, arguments or extensions obtain different paths. No caller is blocked forever by a dead process.",
 ["schedules","crash_points"],"all interleavings of 2-3 concurrent requesters (threads and processes) and a kill at every step of each of them",
 "the tests call it sequentially in one process",
 ["utils/caching.py"],[("cache_file: FileLock, .tmp and rename","utils/caching.py")],(),["content of the returned path at every step","calls of create()"])

p("C10","The disk cache respects its size limit and evicts the oldest entries",
 "After a new entry is added, or the limit or location changes, and the pending cache work is done, the total size is at most maximum-cache-size provided enough evictable data exists; entries are removed in order of least recent access, only as many as needed, and none when the cache is within the limit. A file still being created by another caller, and entries created after its creation started, are never removed by this. Lookups of an existing entry count as access and never remove anything.",
 ["histories","configurations","schedules"],"all sequences of creations, accesses, limit changes and removals over entries of different sizes, with creations in progress",
 "one test with fixed limits and three files",
 ["utils/caching.py"],[("_check_cache_size/_decache/_latest_date","utils/caching.py")],(),["cache.entries()","cache.size()","directory content"])

p("C11","Disk-cache bookkeeping matches the files, and purge removes what it should",
 "After every operation the entries reported by the cache are exactly the files (or directories) present that it created, each with its actual size, owner, arguments and owner data, and the reported total and summary agree with their sum and number (files deleted by someone else excepted). purge() removes every entry whatever its size; purge(matcher) removes exactly the matching ones; nothing outside the cache directory is ever touched. Files removed behind the cache's back are not listed any more and re-created on the next request.",
 ["histories","fault_sequences"],"all sequences of creating (files and directories, empty or not, failing or not), re-requesting, purging with matchers, external deletion, and listing",
 "tests create two entries and purge once",
 ["utils/caching.py"],[("_purge_cache/_delete_entry/_update_entry/_cache_entries","utils/caching.py")],(),["cache.entries()","cache.size()","cache.summary_dump_database()"])

p("C12","A failed or interrupted creation leaves the cache usable",
 "If the creation of a cache entry fails (exception) or its process dies, no entry becomes visible for it, the error reaches the caller, and a later request runs the creation again and succeeds. Afterwards listing, size, summary, purge and the size limit work as if the failed attempt had never happened. Leftover partial data is never served as, or merged into, the content of an entry.",
 ["fault_sequences","crash_points","histories"],"every failure point of a creation (exception before, during, after writing; kill at each step) followed by any sequence of cache operations",
 "no test makes a creation fail",
 ["utils/caching.py"],[("cache_file","utils/caching.py"),("_latest_date/_summary_dump_cache_database","utils/caching.py")],(),["cache API after failures"])

p("C13","The cache policy decides where files live and when they disappear",
 "Under 'user' cached files are in user-cache-directory and survive the session; under 'temporary' they are in a directory of this session below temporary-cache-directory-root, and under 'off' in one below temporary-directory-root where nothing is reused, listed or limited: every request creates anew and gets its own path. Both temporary directories vanish when the policy or the root is changed and at exit, and changing any of these options takes effect on the next call without affecting other directories. Limit options apply to 'user' and 'temporary', never to 'off'.",
 ["histories","configurations"],"all sequences of policy and location changes (plain or in temporary configurations) mixed with cache requests and process exit",
 "tests check each policy once from a fresh state",
 ["utils/caching.py","utils/temporary.py"],[("CachePolicy and subclasses","utils/caching.py"),("Cache._config_changed","utils/caching.py")],(),["cache.directory()","cache.policy.name","file system"])

p("C14","Forced refresh and owner data of cached files",
 "A request with force re-creates the entry exactly when the flag is true or the given function says so; the function is consulted only for an existing entry and receives the arguments, path and the owner data stored by the last creation. Owner data returned by a creation is stored and reported until the entry is re-created or removed. Without force an existing entry is always reused as it is.",
 ["histories","fault_sequences"],"all sequences of requests with no, true, false and callable force over several entries, with failing creations and restarts in between",
 "one or two scripted calls",
 ["utils/caching.py","utils/download.py"],[("cache_file force handling","utils/caching.py")],(),["arguments seen by force()","creations"])

p("C15","Remote inventories: what is downloaded, and when",
 "With a cached index and a match in it, no request to the remote server is made for the index, and weights already on disk are never downloaded again. When a lookup finds no match, the remote checksum is consulted at most once per session, the index is downloaded again exactly if it differs from the checksum of the cached index, and the lookup is answered from the up-to-date index; the first ever use downloads the index. What is used always equals what some complete remote version held.",
 ["histories","configurations","fault_sequences"],"all sequences of lookups (matching, not matching), sessions, and remote updates (index, checksum, added matrices)",
 "the tests that use the remote need the network and are not run; the protocol has state across sessions",
 ["backends/db.py","utils/download.py","utils/caching.py"],[("UrlAccessor._get_index","backends/db.py"),("MatrixDb.find_entry","backends/db.py")],
 [("_checked_remote/_index_path","session state of a remote inventory","backends/db.py")],["requests seen by the server","results"])

p("C16","A failed index or weights access does not poison later calls",
 "If loading or downloading an index, a checksum or weights fails (missing, incomplete or invalid index, wrong version, missing or incompletely transferred weights, server error), the call raises and leaves no trace: once the cause has gone, the same and other lookups in the same session give the results they would have given without the failure. A failed refresh keeps the previously cached index usable. An inventory that failed to load never behaves like an empty one.",
 ["fault_sequences","histories"],"every sequence of lookups with faults injected in any remote or local access, followed by recovery",
 "no test injects failures",
 ["backends/db.py","utils/caching.py","utils/memcache.py"],[("MatrixDb._load_index","backends/db.py"),("UrlAccessor","backends/db.py")],(),["results after recovery"])

p("C17","Grid specifications match exactly when they describe the same grid",
 "Two gridspecs of the supported kinds (global HEALPix, ORCA, and octahedral and original reduced Gaussian grids, regular latitude-longitude grids on any area) match if and only if they describe the same grid: documented spellings (case, lists or tuples, number types, explicit defaults, HEALPix ring default and old 'ordering' key, equivalent global longitudes) match, while different grid names, numbers, increments, orderings, scanning flags, shapes or areas never do. Matching is symmetric and does not modify its arguments. Unsupported or malformed specifications raise an error.",
 ["inputs"],"all documented gridspec spellings and areas, compared pairwise",
 "tests compare a fixed table of pairs; matching is a relation over pairs of inputs",
 ["gridspec.py"],[("GridSpec.__eq__ and subclasses","gridspec.py")],(),["GridSpec.from_dict","==","inventory lookups"])

p("C18","Inventory lookups find every supported entry and tolerate unknown ones",
 "Every entry of an index with a supported input and output grid is found by its grids and method, under all documented names of the method, and no lookup returns an entry with a different grid or method. Entries with unknown grid types or malformed content are skipped without affecting the others, in any position. An index with a wrong or missing version is refused.",
 ["inputs","configurations"],"all indexes made of supported, unsupported and malformed entries in any order, and all lookups in them",
 "tests use one shipped index",
 ["backends/db.py"],[("MatrixIndex.load/find/match","backends/db.py"),("MatrixDb._method_alias","backends/db.py")],(),["array.regrid with a local inventory"])

p("C19","High-level regridding treats every input type consistently",
 "regrid() of a fieldlist returns one field per input field, in order, each with the values that regridding that field alone gives and its own metadata apart from the grid; a single field, GRIB bytes and in-memory GRIB give the same result as the list of one. The deprecated interpolate() of a fieldlist gives what regrid() gives with the same precomputed weights. Options given by the caller reach the interpolation unchanged, and are neither modified nor remembered. Unsupported inputs, missing arguments, unknown backends and unsupported targets raise ValueError.",
 ["inputs","configurations"],"all combinations of input types, list lengths, backends and options, including failures in the middle",
 "tests check one or two fields per type",
 ["regrid.py","interpolate.py","data_interpolate.py","data/__init__.py","data/fieldlist.py","data/grib.py","data/numpy.py","data/handler.py","backends/__init__.py"],[("get_data_handler","data/__init__.py"),("FieldListDataHandler","data/fieldlist.py"),("GribMessageDataHandler","data/grib.py"),("BackendMaker","backends/__init__.py")],(),["regrid()"])

p("C20","Every interpolation option reaches the interpolation engine",
 "With the default backend, for every kind of input, each option the caller gives (interpolation, nearest method, distance, distance tolerance, number of neighbours, target grid and area) is passed to the engine exactly as given, in the documented form, and options the caller does not give keep the documented default or the engine's own. An option given in one call has no effect on another. The area is passed as north/west/south/east and the caller's grid is left unchanged.",
 ["inputs","configurations","histories"],"all subsets and values of options, for arrays, GRIB messages, fields and fieldlists, in any sequence of calls",
 "tests compare results for a few options with default values, where losing an option goes unnoticed",
 ["backends/mir.py","data/fieldlist.py","data/grib.py","data/numpy.py"],[("MirBackend.regrid/regrid_grib/adjust_options","backends/mir.py")],(),["calls received by the engine"])

p("C21","Xarray regridding equals slice-by-slice regridding",
 "Regridding a DataArray or Dataset gives, for every combination of the non-geographical dimensions, the values that regridding that slice alone gives, whether data are in memory or chunked; these dimensions keep their order, size and coordinates, and the geographical dimensions and coordinates are those of the target grid. Every variable of a dataset is regridded independently of the others and of the numeric type of its input. Inputs are not modified.",
 ["inputs","configurations"],"all shapes and dimension orders, chunkings, data types, dataset compositions and grid kinds",
 "tests use two shapes and one target",
 ["data/xarray.py"],[("XarrayDataHandler.regrid","data/xarray.py")],(),["regrid() results"])

p("C22","The engine's weights files are read faithfully and corrupt ones refused",
 "Reading a weights file of the engine gives exactly the matrix it encodes, for every shape, sparsity pattern, byte order and supported scalar size, also when converted to npz and loaded back. A file cut off at any point or with an unexpected type marker raises an error rather than giving a matrix. Grid-definition files written from coordinates hold these coordinates exactly.",
 ["inputs","fault_sequences"],"all small matrices, byte orders and scalar sizes; truncation at every byte and every wrong marker",
 "no test reads generated files or corrupt ones",
 ["utils/mir.py","utils/stream.py"],[("mir_cached_matrix_to_array","utils/mir.py"),("Stream","utils/stream.py")],(),["mir_cached_matrix_to_array","mir_write_latlon_to_griddef"])

p("C23","Building an inventory keeps it consistent",
 "Adding weights to an inventory makes them findable under their grids and method with the values and memory size of the matrix, and leaves all previous entries findable and unchanged, in whatever order entries are added or repeated. Entries that differ in grids or in interpolation settings never overwrite each other's weights. A subset or copied inventory contains exactly the requested entries, is usable on its own and gives the same results as the original.",
 ["histories","inputs"],"all sequences of additions (including repeated and non-default interpolation settings), subsets and copies",
 "no test builds an inventory",
 ["utils/builder.py","backends/db.py"],[("make_matrix","utils/builder.py"),("MatrixIndex.subset/to_raw, MatrixDb.copy_matrix_file","backends/db.py")],(),["inventory directory","array.regrid"])

p("C24","Sizes, durations and percentages are parsed exactly or refused",
 "Every size, duration or percentage option accepts a non-negative integer with an optional unit, of which only the first letter counts (K, M, G, T, P in either case for sizes, powers of 1024; s, m, h, d, w for durations; % for percentages), optionally surrounded or separated by blanks, and yields exactly that quantity. None is accepted only where documented. Anything else raises ValueError and is not stored.",
 ["inputs"],"all strings up to a bounded length over the relevant alphabet, and all large numbers with units",
 "tests check a table of examples",
 ["utils/humanize.py","utils/config.py"],[("as_number/as_bytes/as_seconds/as_percent","utils/humanize.py")],(),["config.set/config.get"])

p("C25","Downloads: reuse, out-of-date checks and re-downloads",
 "A downloaded file is reused without contacting the server unless check-out-of-date-urls is on; then it is downloaded again exactly if the server's version changed and either download-out-of-date-urls is on or the caller asked for updates, and otherwise the cached one is returned. A failed or interrupted download never replaces, removes or corrupts a good cached file and never becomes visible as one. Files of different URLs never share an entry.",
 ["histories","configurations","fault_sequences"],"all sequences of downloads, remote changes, option changes, failures and restarts",
 "tests that download need the network and are not run",
 ["utils/download.py","utils/caching.py"],[("download_and_cache","utils/download.py")],(),["requests seen by the server","file content"])

p("C26","The configuration can be used by several threads at once",
 "Each set, each reset and each entry and exit of a temporary configuration takes effect as a whole, one after the other, whichever threads make them: no change is lost, undone or made to fail by that of another thread, and a rejected change leaves nothing behind, neither for its own thread nor for others. Leaving a temporary configuration removes that one, even when another thread has entered its own since. get never fails for a known option, and returns a value the option had at some moment during the call (while a change is being applied, possibly already its new value). When all is done the configuration, the configuration file and the caches agree.",
 ["schedules","histories"],"all interleavings of the configuration operations of several threads, including nested, crossing and rejected ones, switched at any executed line",
 "the tests of the configuration run in one thread",
 ["utils/config.py","utils/memcache.py","utils/caching.py"],[("new_config / one_at_a_time / forward / undo_on_error","utils/config.py"),("Config.set / reset / temporary / get","utils/config.py")],
 [("CONFIG._stack","temporary configurations, shared by all threads","utils/config.py")],["config.get/set/reset/temporary","memory_cache_info()","the configuration file"])

p("C27","Several processes can share one configuration file",
 "Sessions in several processes that use the same configuration file, start at the same time, change it at the same time or are killed at any moment, never damage it: at every moment the file holds one complete configuration that a session saved (or, before the first session, there is none), and once it is there it stays. A session that starts gets a configuration the file held meanwhile, or the defaults when there was none, and never replaces one that another session has saved. A completed change is in the file unless a later one has replaced it. Killed processes block nobody, no lock or temporary file is left behind by the others, and the umask of the process is as it was.",
 ["schedules","crash_points"],"all interleavings of the starts and changes of several processes at their file operations, and kills at any of these",
 "tests run one process and kill none",
 ["utils/config.py"],[("save_config","utils/config.py"),("_init_config_file / _init_config","utils/config.py")],
 [("config.yaml, .lock, .tmp","the file shared by all sessions","utils/config.py")],["the configuration file","config.get in new sessions"])

p("C28","Interrupted building leaves inventories and grid definitions usable",
 "An addition to an inventory that fails (a full disk, weights of the engine that cannot be read) or is killed at any moment leaves the inventory usable: its index is whole, every entry that was there is still found and its weights are whole, and the addition is either in it completely or not at all (weights that were added again may already be the new ones, with the old size in the index, until the addition is repeated). Repeating it completes it. An addition that fails leaves no temporary file behind. When weights are made from coordinates, an interruption leaves the output as it was or complete, and a grid definition given to the engine always holds all the coordinates, whatever was interrupted before.",
 ["crash_points","histories"],"kills at every point of an addition, and files that get cut or cannot be written at every length",
 "no test builds an inventory, and none interrupts anything",
 ["utils/builder.py","utils/mir.py"],[("make_matrix","utils/builder.py"),("mir_make_matrix, mir_cached_matrix_to_file, grid definitions","utils/mir.py")],
 [("index.json, *.npz, *.griddef","inventory and engine cache directories","utils/builder.py")],["inventory directory","array.regrid","what the engine is given"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
