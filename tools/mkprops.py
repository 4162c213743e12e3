import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over.split(),text=qtext),why_tests_cant=why,
      anchors=dict(files=[f if f.startswith('/')==False and '/' in f and not f.startswith('handling') and not f.startswith('algorithm') and not f.startswith('monitoring') and not f.startswith('config/') and not f.startswith('daemon') and not f.startswith('utils') else 'preload-src/src/'+f for f in files],
        state=[dict(zip(('name','meaning','where'),s)) for s in state],
        mechanism=[dict(zip(('name','where'),m)) for m in mech],observe_at=list(observe),hook_needed=hook)))

p('P01','A save replaces the state file only with a complete, synced new one',
 "Saving writes the whole model to a separate, exclusively created file beside the state file and renames it over the state file only after every record has been written, flushed and synced to disk without an error. If any of those steps fails, the state file is not touched, the temporary file is removed, and the caller receives an error. A save never reports success without having replaced the state file.",
 'crash_points fault_sequences inputs','for every point at which the process or machine stops during a save, and every write, flush, sync or rename that fails',
 'Tests write to a healthy file system and read back; no test makes a write, flush, sync or rename fail, or stops the process inside a save.',
 ['handling/state_io.c'],[('write to <state>.tmp opened O_CREAT|O_EXCL, then g_rename','preload_state_write_file'),('sticky first error in the write context','write_state and the write_* callbacks')],
 [('tmp file','the only file written before the rename','preload_state_write_file')],['the state file and its directory after a failed or interrupted save','return value of preload_state_write_file'])
p('P02','Every saved record is read back into the fields it was written from',
 "For every record kind, what the writer emits and what the reader parses agree in tag, number, order and type of fields, and each field is restored into the model attribute it was saved from. Everything the model needs across a restart is saved without filtering: every map, every executable, every use of a map by an executable, every pairwise chain with its four times and sixteen counts, every sequence-tree node and the model clock. A record that refers to another is written after it.",
 'inputs histories','for every model the daemon can build and every restart',
 'The round-trip tests use tiny models with one or two entries and check a few fields; a swapped, dropped or narrowed field that the sample leaves equal is not seen.',
 ['handling/state_io.c','algorithm/vomm.c'],[('write_* / read_* pairs per record tag','state_io.c'),('export order maps, exes, exemaps, markovs, VOMM nodes','write_state')],
 [('seq','identity used to link records','map.h, exe.h')],['text of the state file','model after loading'])
p('P03','Learned changes are marked unsaved and the mark is cleared only by a good save',
 "After each completed scan the model is marked as having unsaved changes and as needing a model update. A save is skipped only when nothing is unsaved, and the unsaved mark is cleared only when the save succeeded, so a failed save is retried by the next one. Saving happens on every autosave period, on request by signal, and on orderly exit.",
 'histories fault_sequences','for every interleaving of scans, saves, save failures, signals and exits',
 'No test runs the scheduler across scans and failing saves; the smoke test only checks that the daemon stays up for two seconds.',
 ['handling/state.c','daemon/preload.c'],[('dirty / model_dirty flags','preload_state_tick, preload_state_save'),('save after the main loop','main')],
 [('state->dirty','a scan has happened since the last save','state.h')],['whether the state file is rewritten'])
p('P04','Every path admitted into the model can be saved and loaded again',
 "The daemon can always read the state file it wrote itself: for every path it admits into the model, the encoded form written to the state file fits the reader's field limit and buffer, and no admitted path is silently cut short on the way in. Paths that would not fit are rejected at admission and never shortened.",
 'inputs','for every path of every length and with every byte that a running process can map or execute',
 'Tests only use short ASCII paths without characters that need escaping.',
 ['handling/state_io.c','monitoring/proc.c','utils/common.h'],[('FILELEN/FILELENSTR width contract','common.h, proc.c, state_io.c')],
 [],['daemon start with its own state file','paths recorded in the model'])
p('P05','A damaged, foreign or hostile state file is rejected without crashing',
 "Loading a state file whose header is foreign or of another major version leaves the model empty and starts normally; a record with missing fields, an unknown tag, an unknown or duplicate reference stops loading with an error that names the line (a sequence-tree record with an unknown reference is skipped instead). Whatever the file contains, loading never uses a missing reference, never registers an object twice and never runs into an internal assertion.",
 'inputs','for every byte sequence in the state file',
 'Tests feed a handful of malformed files; the space of bad records (self-pairs, duplicate ids, negative times, missing fields in the middle of a record) is not sampled.',
 ['handling/state_io.c','algorithm/markov.c','algorithm/vomm.c'],[('sscanf result counts and index lookups checked per record','read_* functions'),('header and version gate','read_state')],
 [],['return value of preload_state_read_file','model after a failed load'])
p('P06','No external input can overflow a fixed-size buffer',
 "Every read of external text into a fixed-size buffer (process maps, process links, memory statistics, state-file fields, generated /proc and /sys names) is limited to the buffer's size, terminator included, and every array indexed by a runtime value is indexed within its bounds.",
 'inputs','for every content of /proc, /sys, the state file and the command line',
 'Tests never present inputs near the buffer limits, and an overflow of a few bytes is usually silent.',
 ['monitoring/proc.c','handling/state_io.c','utils/power.c','algorithm/markov.c'],[('bounded conversions and sizeof limits','proc.c, state_io.c, power.c')],
 [],['memory outside the buffer'])
p('P07','Values that were not obtained are never used',
 "A value parsed from external text is used only on paths where that conversion is known to have succeeded or was given a default first, and a result that may be absent (failed lookup, failed open, failed conversion) is not dereferenced or passed on as valid on any path. A file descriptor, stream or directory is used only after its open was checked.",
 'inputs fault_sequences','for every input and every failing library or system call',
 'Tests drive mostly the success paths; failing opens, short conversions and absent lookups are barely exercised.',
 ['handling/state_io.c','monitoring/proc.c','utils/power.c','config/conf.c','handling/readahead.c'],[('result checks after every sscanf/open/lookup','all parsing code')],
 [],['crashes or garbage values'])
p('P08','The daemon heartbeat never stops and never multiplies',
 "Every run of a periodic step (scan/predict, model update, autosave) schedules exactly one successor before it ends, on every path including battery mode and disabled scanning or prediction, and is itself one-shot. The scan step is always followed by the update step and the update step by the scan step. Starting the daemon starts exactly one such chain, plus one autosave chain when a state file is configured.",
 'schedules configurations','for every number of cycles, configuration and battery state',
 'No test runs the main loop past the first cycle; a lost or doubled timer shows only after a cycle in a particular configuration.',
 ['handling/state.c'],[('one-shot timers that re-arm each other','preload_state_tick, preload_state_tick2, preload_state_autosave')],
 [],['timer sources attached to the main loop'])
p('P09','The model clock advances by exactly the time each step waits',
 "Whenever a periodic step schedules its successor, it advances the model clock by exactly the number of seconds it schedules, and no other code changes the clock except loading a state file. One full scan/update round on mains power lasts exactly the configured cycle.",
 'histories configurations','for every configured cycle length (odd or even), battery state and number of rounds',
 'Tests never let a timer fire; a half-second rounding or a doubled delay is invisible to them and accumulates in every learned time.',
 ['handling/state.c'],[('state->time increments paired with g_timeout_add_seconds','preload_state_tick, preload_state_tick2')],
 [('state->time','model clock in seconds','state.h')],['difference between model clock and wall clock'])
p('P10','Scanning, prediction and battery mode are gated exactly as configured',
 "Processes are scanned only when scanning is enabled and prefetching happens only when prediction is enabled, each independently of the other; on battery neither happens. The pending model update after a scan runs exactly once, in the step following that scan.",
 'configurations schedules','for every combination of switches, battery state and every sequence of cycles',
 'The switches are never toggled in a test and battery state cannot be injected.',
 ['handling/state.c','utils/power.c'],[('doscan/dopredict/battery tests','preload_state_tick'),('model_dirty','preload_state_tick2')],
 [],['calls that scan /proc or read files ahead'])
p('P11','Signal handlers do only async-signal-safe work',
 "Code that can run inside an asynchronous signal handler calls only functions that are async-signal-safe and touches no model, heap or main-loop structure; the requested work is done later, in the main loop.",
 'schedules','for every instruction at which a signal can arrive',
 'A signal arriving inside the allocator or the main loop is a matter of microseconds; tests send at most one signal to an idle daemon.',
 ['daemon/preload.c'],[('handler defers to the main loop','sig_handler and the main-loop source it wakes')],
 [],['deadlock or heap corruption after a signal'])
p('P12','Each documented signal has its documented effect',
 "SIGHUP reloads the configuration (a broken file does not stop the daemon) and reopens the log, SIGUSR1 dumps model and configuration, SIGUSR2 saves the state, and SIGTERM, SIGINT and SIGQUIT end the main loop so that the final save runs; SIGPIPE is ignored. Handling a signal other than an exit request never ends the daemon and every later signal is handled as well.",
 'schedules histories','for every sequence of signals',
 'Only one SIGTERM-like stop is exercised by the smoke test.',
 ['daemon/preload.c'],[('signal dispatch in the main loop','sig_handler_sync'),('handler installation','set_sig_handlers')],
 [],['actions after a signal'])
p('P13','Prefetching stays within the configured memory budget',
 "In each cycle the sizes of the files chosen for prefetching never add up to more than the budget computed from current memory statistics with the documented formula, max(0, total*memtotal + available*memfree) + cached*memcached + buffers*membuffers with every percentage clamped to -100..100. Each chosen map is charged its full size, rounded up to kilobytes without loss, exactly once, before the next one is considered.",
 'inputs configurations','for every memory state, configuration and set of maps of any size',
 'No test runs the selection with real or adversarial map sizes; integer narrowing and mis-charged maps only show with huge or many maps.',
 ['algorithm/prophet.c'],[('budget formula and charging loop','preload_prophet_readahead'),('clamp_percent','prophet.c')],
 [('memavail','remaining budget','preload_prophet_readahead')],['set of maps handed to the readahead stage'])
p('P14','Only maps predicted to be needed are prefetched, most needed first',
 "Each prediction starts from zeroed scores for every executable and map, collects bids, propagates every executable's score to each of its maps (voting against maps of running executables), and sorts by need before choosing. Only maps with evidence of need are chosen, strictly in order of need, and no map after the first refused one is chosen.",
 'histories inputs','for every model and every sequence of prediction rounds',
 'Tests do not run two prediction rounds or inspect which maps are requested.',
 ['algorithm/prophet.c'],[('zero, bid, propagate, sort, select phases','preload_prophet_predict, preload_prophet_readahead')],
 [('lnprob','log-probability of not being needed','exe.h, map.h')],['set and order of maps handed to the readahead stage'])
p('P15','Read-ahead requests cover exactly the selected file ranges',
 "Whatever the order of the selected maps, the requests issued cover every byte range of every selected map of the right file; ranges are merged only when they belong to the same file and overlap or touch, and a merged request never becomes shorter than any of its parts. Every pending range, including the last one, is issued, and none is issued twice.",
 'inputs','for every set of maps and every sort strategy',
 'There is no test of the merge; nested or touching ranges in a particular order are needed to expose an error.',
 ['handling/readahead.c'],[('merge loop','preload_readahead'),('offset/length passed through to readahead(2) and its fallback','process_file')],
 [],['arguments of readahead/mmap requests'])
p('P16','Reader processes are bounded, always reaped and never run daemon code',
 "No more reader processes than configured exist at a time, all of them are reaped before a prefetch round ends, and waiting for them cannot hang the daemon. A reader process always terminates after its one file and never returns into the daemon's code, and a failed fork neither miscounts children nor blocks; with parallelism disabled files are read in-process.",
 'schedules fault_sequences configurations','for every limit, every order in which children end and every fork or wait failure',
 'Tests do not fork; hangs need a failing wait, and a returning child needs parallel mode.',
 ['handling/readahead.c'],[('procs counter and wait_for_children','readahead.c'),('exit in the child','process_file')],
 [('procs','live reader processes','readahead.c')],['process table, daemon liveness'])
p('P17','Every ordering used for sorting is a consistent total preorder',
 "Each comparison used for sorting maps is antisymmetric and transitive on every pair of values, including equal keys, extreme offsets and lengths, and computes its result without overflow or truncation. The prediction order places more needed maps first, and the disk order follows the configured strategy with a known block preferred to the inode fallback.",
 'inputs configurations','for every pair and triple of maps',
 'Comparators are static and never tested; inconsistent ones fail only for particular value pairs.',
 ['handling/readahead.c','algorithm/prophet.c'],[('three-way comparisons','map_path_compare, map_block_compare, map_prob_compare'),('strategy dispatch','sort_files')],
 [],['order of requests'])
p('P18','Removing an executable leaves no reference to it anywhere',
 "When an executable is removed from the model, every structure that can refer to it (its chains in partner executables, running list, pending scan lists, sequence tree and its history and context) no longer refers to it before its memory is released. A removed executable is never read or written again.",
 'histories','for every sequence of launches, exits, file deletions, scans, saves and predictions',
 'A dangling pointer needs deletion of a tracked program between particular steps; tests remove executables only from models without sequence tree or pending scans.',
 ['handling/exe.c','handling/model_utils.c','algorithm/vomm.c','monitoring/spy.c'],[('preload_state_unregister_exe','exe.c')],
 [('every container of executable pointers','registries that must forget it','state.h, vomm.c, spy.c')],['use after free'])
p('P19','Identity of tracked objects is stable while they are indexed',
 "The attributes that identify a map or an executable in the model's indexes (path, offset, length) do not change from the moment it is indexed until it is removed, equal maps always have equal hashes, and equality compares all three attributes. Index keys live as long as their entries.",
 'histories inputs','for every sequence of insertions, lookups and removals',
 'Hash-table corruption shows only later as a lost entry; tests look up freshly inserted samples.',
 ['handling/map.c','handling/exe.c','algorithm/vomm.c','monitoring/spy.c'],[('preload_map_hash / preload_map_equal','map.c'),('keys owned or co-owned by entries','hash table constructors and insertions')],
 [],['lookups that miss existing entries'])
p('P20','Maps live exactly as long as they are used',
 "A map is registered in both map indexes exactly while at least one executable uses it: it enters both with its first use and leaves both, and is freed, with its last. Every use takes exactly one reference and every dropped use releases exactly one; each newly registered map or executable gets a fresh sequence number never used before.",
 'histories','for every sequence of uses and releases',
 'Unit tests check single ref/unref steps on one map; leaks and double releases need combined histories across scan, load and removal.',
 ['handling/map.c','handling/exe.c','monitoring/proc.c','handling/state_io.c'],[('preload_map_ref/unref with (un)registration at 0','map.c'),('exemap constructor and destructor','exe.c')],
 [('refcount','number of uses','map.h')],['maps and maps_arr contents'])
p('P21','A table is never modified while it is being iterated',
 "No callback or loop body that runs while a hash table, pointer array or list is being walked inserts into, removes from or frees that same container, directly or through any function it calls; removals found during a walk are deferred until the walk is over.",
 'histories inputs','for every model content and every iteration',
 'Modification during iteration corrupts only for particular table sizes and orders.',
 ['handling/exe.c','handling/model_utils.c','algorithm/markov.c','algorithm/vomm.c','monitoring/spy.c'],[('collect first, remove later','preload_cleanup_invalid_entries'),('registration order','preload_state_register_exe')],
 [],['iteration order, crashes'])
p('P22','Every pair of tracked programs shares one chain known to both',
 "A newly learned executable is linked by exactly one chain with every other known executable and never with itself; a chain is listed by both of its ends from creation until it is freed, and freeing it removes it from the end that survives. Walking all chains visits each exactly once.",
 'histories','for every sequence of additions and removals of executables',
 'Tests build two or three executables; a chain missing on one side shows only in later removals or accounting.',
 ['algorithm/markov.c','handling/exe.c'],[('preload_markov_new / preload_markov_free','markov.c'),('registration loop','preload_state_register_exe'),('visit from the a side only','preload_markov_foreach')],
 [],['markovs arrays of both executables'])
p('P23','Chain statistics count each transition once and stay well defined',
 "A chain's state always encodes bit 1 for the first and bit 2 for the second program running; a state change is counted at most once per clock instant, and only when the state really changed, as one departure from the old state, one transition old to new, one running-mean update and one new start time. No statistic, correlation or bid divides by zero, indexes outside the four states or aborts, whatever times and counts were learned or loaded.",
 'histories inputs','for every sequence of starts and stops and every loaded record',
 'Tests use a few hand-picked transitions; equal timestamps, zero weights and inconsistent loaded times are not sampled.',
 ['algorithm/markov.c','algorithm/prophet.c'],[('preload_markov_state_changed','markov.c'),('guards before division','preload_markov_correlation, markov_bid_for_exe')],
 [('weight, time_to_leave, state, change_timestamp','chain statistics','markov.h')],['chain fields, daemon liveness'])
p('P24','Programs are dropped from the model only when certainly gone',
 "An executable is removed from the model only if it is not running and its file is known not to exist or not to be a regular file any more; errors that leave this undecided (permission, I/O) keep it. Cleanup runs with every save and considers every executable.",
 'fault_sequences histories','for every file-system error and every running state',
 'Tests use existing and missing files only; permission or I/O errors and running programs are not combined.',
 ['handling/model_utils.c','handling/state.c'],[('errno test after stat','preload_validate_exe, preload_validate_map'),('running check','check_exe_validity')],
 [],['entries missing after a save'])
p('P25','The sequence model stays bounded and survives a restart',
 "The launch history holds at most five entries and the sequence tree never grows deeper than five levels below its root, whatever the launch sequence. A tree loaded from the state file is kept when the daemon starts running, is not seeded a second time from the chains, and its identifiers are unambiguous.",
 'histories inputs','for every launch sequence and every restart',
 'Tests issue at most a few launches and never go through load followed by run.',
 ['algorithm/vomm.c','handling/state.c'],[('MAX_VOMM_DEPTH','vomm_update'),('vomm_init / vomm_hydrate_from_state','preload_state_run')],
 [('history, current context, root','sequence model','vomm.c')],['tree size and depth, tree after restart'])
p('P26','Bids always raise need, never for running programs, and grow with confidence',
 "Every bid lowers (never raises) the log-probability that a program is not needed, is finite, and is larger the more often the predicted launch was observed. A program that is already running receives no bid.",
 'inputs histories','for every count, chain statistic and context',
 'Tests assert at most that a score changed; sign, monotonicity and finiteness over all counts are not covered.',
 ['algorithm/prophet.c','algorithm/vomm.c'],[('log(1-p) bids with clamping','predict_ppm, predict_dg_fallback, predict_global_frequency, markov_bid_for_exe')],
 [('exe lnprob','score','exe.h')],['scores after a prediction'])
p('P27','Every documented setting is read, from the right key, in the right unit',
 "Each setting in the shipped configuration file is read from exactly the group and key under which it is documented, with the documented default and unit, into the setting that the daemon acts on; no documented key is ignored and no key is stored into another setting. The configuration dump prints each setting's value under its own name.",
 'configurations','for every configuration file',
 'No test loads a configuration file.',
 ['config/conf.c','config/confkeys.h','config/conf.h','preload-src/preload.conf'],[('confkey table expanded for defaults, loading and dumping','conf.c')],
 [],['values in effect after loading'])
p('P28','A configuration that fails to load changes nothing and leaks nothing',
 "When a configuration file cannot be read or holds an invalid value, the settings in effect are exactly those from before, the error is reported, and everything allocated for the attempt is released; when it loads, all settings are replaced at once and the previous ones released exactly once. Only the initial load is fatal; a reload never ends the daemon.",
 'configurations fault_sequences','for every broken or valid configuration file and any number of reloads',
 'No test reloads a configuration.',
 ['config/conf.c','daemon/preload.c'],[('parse into a fresh structure, assign at the end','preload_conf_load')],
 [],['settings after a failed reload, memory'])
p('P29','Command-line options mean the same in every form',
 "Every long option and its short form have the same effect and agree on taking an argument; each documented option changes exactly its own setting, and replaced values are released. Unknown options end the program with the usage text and a failure status, while help and version end it successfully.",
 'inputs','for every command line',
 'Tests never call the command-line parser.',
 ['config/cmdline.c','handling/context.c'],[('option table and short option string','cmdline.c')],
 [],['settings and exit status'])
p('P30','The daemon modifies nothing but its own log, state and temporary file',
 "On the file system the daemon creates, writes, renames or removes only its log file, its state file and that file's temporary sibling, never with permissions for other users; every file it observes or prefetches is opened read-only and its contents are never changed.",
 'inputs configurations histories','for every run',
 'A test cannot observe every file effect of every path.',
 ['handling/state_io.c','utils/log.c','handling/readahead.c','monitoring/proc.c'],[('read-only opens; O_EXCL temporary; 0600/0660 modes','open calls')],
 [],['file-system changes'])
p('P31','Every file, stream and temporary object is released on every path',
 "Every descriptor, stream, directory handle, mapping and I/O channel opened by a periodic or reload operation is closed exactly once on every path out of it, including error paths, and every temporary string, list or error object it allocates is released or handed to an owner exactly once.",
 'fault_sequences histories','for every failure inside every operation and any number of cycles',
 'Leaks are invisible to the tests and matter only after thousands of cycles.',
 ['handling/state_io.c','monitoring/proc.c','handling/readahead.c','utils/log.c','utils/power.c','handling/model_utils.c'],[('paired open/close and new/free','all operations')],
 [],['open descriptors and memory over time'])
p('P32','Only admissible files enter the model',
 "A file is considered only if it is backed by an absolute path, is not marked deleted, has prelink suffixes removed, and passes the configured prefix list: the first matching prefix decides, an exclamation mark rejects, no match accepts. Maps are judged by the map list and executables by the executable list, the daemon never tracks itself, and only programs whose maps reach the minimum size are learned.",
 'inputs configurations','for every process, path and prefix list',
 'No test injects /proc contents or prefix lists.',
 ['monitoring/proc.c','monitoring/spy.c'],[('sanitize_file, accept_file','proc.c'),('minsize test','new_exe_callback')],
 [],['paths in the model'])
p('P33','Fatal log messages end the daemon and ordinary ones never do',
 "After initialisation every message at or below the configured verbosity is written to the log, a fatal message ends the process with a failure status after being written, and no other message ends it. Opening or reopening the log connects standard output and error (and initially an empty standard input) to it, keeps no extra descriptor, and a failed reopen leaves the old log in use.",
 'fault_sequences configurations','for every message, verbosity and log-file failure',
 'No test installs the log handler or makes opening the log fail.',
 ['utils/log.c'],[('default log handler','preload_log'),('dup2 onto the standard streams','preload_log_init, preload_log_reopen')],
 [],['log file content, process exit'])
p('P34','Each scan classifies every program exactly once as running, started or stopped',
 "A scan refreshes the running time stamp of every known program it sees, queues a program as started only if it was not already running, and as stopped only if it was running and is no longer seen; afterwards the running list holds exactly the programs seen running. A program's start is reported to the sequence model once per start, unknown programs are queued for learning unless known to be uninteresting.",
 'histories','for every sequence of process tables',
 'No test drives the scanner with process tables.',
 ['monitoring/spy.c','handling/state.c','handling/exe.c'],[('time stamp comparison','exe_is_running, running_process_callback, already_running_exe_callback')],
 [('running_timestamp, last_running_timestamp','what was seen when','exe.h, state.h')],['running list and change list after a scan'])
p('P35','Running time is accounted once, for exactly the time that passed',
 "Each model update adds to every running program, and to every chain whose two programs both run, exactly the model time that passed since the previous accounting, and then moves the accounting mark to now; nothing else adds running time. New programs are registered and chain states updated before time is added.",
 'histories','for every sequence of scans and updates, including skipped ones and restarts',
 'No test calls the accounting.',
 ['monitoring/spy.c','handling/state_io.c'],[('last_accounting_timestamp','preload_spy_update_model')],
 [],['time of executables and chains'])
p('P36','Start-up happens in an order that makes every later step safe',
 "The command line is parsed before the log is opened, the log before the configuration is loaded, the configuration before the state, and the state completely before the first timer or main-loop iteration; the daemon detaches before it loads the state or starts timers. Loading always starts from an empty model, takes stock of running processes after reading the file, and brings every chain's state in line with them.",
 'configurations inputs','for every command line, configuration and state file',
 'The smoke test starts the daemon twice with one configuration; a wrong order mostly matters with other options.',
 ['daemon/preload.c','handling/state.c'],[('sequence of calls','main, preload_state_load')],
 [],['behaviour after start'])
# not decidable by this family
p('P37','Predictions are accurate enough to shorten start-up times',
 "Programs prefetched by the daemon start faster than without it, and the learned model predicts launches better than chance.",
 'histories','for every usage pattern','Accuracy is statistical and workload dependent.',
 ['algorithm/prophet.c','algorithm/vomm.c'],[('prediction algorithms','prophet.c, vomm.c')])
p('P38','Probabilities and times survive a save and load bit for bit',
 "The real-valued attributes restored from a state file equal those saved.",
 'inputs','for every value','Only a few simple values are tested.',
 ['handling/state_io.c'],[('%lg text format','write_markov, write_exemap')])
p('P39','A process observed in a scan is the one whose maps are learned',
 "The maps learned for an executable are those of the process in which it was seen, even if processes end and their identifiers are reused between the two observations.",
 'schedules','for every timing of process exits and identifier reuse','Requires kernel scheduling that tests do not control.',
 ['monitoring/spy.c','monitoring/proc.c'],[('pid remembered from scan to update','spy.c')])
p('P40','A cycle finishes within its period and prefetching does not slow the foreground',
 "The daemon's scanning, saving and prefetching stay within their time slots and the I/O and CPU they use do not delay foreground programs.",
 'schedules','for every load','Timing is not observable in unit tests.',
 ['handling/readahead.c','daemon/preload.c'],[('idle I/O class and nice level','readahead.c, preload.c')])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
print(len(P))
