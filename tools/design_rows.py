ROWS = {
"C01": ("blocks with slow, failing, fast methods and attributes; concurrent random Get/Put/Post/Subscribe/Unsubscribe with every kind of path", "ledger of responses per request id (exactly one final), returned data against a reference model, refused requests leave state unchanged", "failing handlers, malformed paths and values, slow handlers holding others up"),
"C02": ("every subscription path/depth of blocks of all attribute kinds, delta and not, while the block is changed at random", "replayed view of every subscriber against a Get at every delivery and at quiescence; silence for unaffected subscribers and after unsubscribe", "subscribe/unsubscribe between changes, children added/removed, callbacks that raise"),
"C03": ("nested grouped sections over several attributes and blocks", "one message per group per subscriber, never an intermediate state; order of ungrouped changes", "exceptions at any point of a group"),
"C04": ("every meta type x generated valid, borderline and hostile values through put, set_value and method parameters", "independent type-membership oracle, unchanged value on refusal, identity on members, recorded arguments of method bodies", "wrong types, NaN/inf, overflow, ragged tables, missing/unknown parameters"),
"C05": ("stateful, manager and runnable blocks walked through random action histories, every field attempted at every observed state", "refusal iff served flag false, code behind it never ran, flags against the declared states", "attempts from inside state-change notifications"),
"C06": ("random legal and illegal actions, single and concurrent", "published state trace against an independent transition relation; outcome of each action; part logs untouched by refused actions", "a part failing at every hook"),
"C07": ("random parts with random hook sets, speeds and arguments", "start/end intervals: no part starts phase n+1 before all ended n; documented order; part_info content; arguments", "failure of any part at any phase"),
"C08": ("random generators, breakpoints, pause/seek/resume/re-run histories", "segments given to parts against a reference scan (conservation and order), published step counters after every event", "pause and seek after the n-th event, parts of different speeds"),
"C09": ("abort/disable injected after the n-th observed event of configure, run, pause, seek, resume, reset, for every n", "state, outcome of interrupted calls, phases started afterwards, recovery by reset/configure/run", "repeated and concurrent aborts and disables, slow aborts"),
"C10": ("managers over children with settings of every type, ports, layouts, exports, own settings; random edits, saves, loads, reverts; fresh processes with an initial design; managers of managers; children whose fields come and go", "snapshot at save against state after load; stage barriers in the recorded puts; modified flag and message against a shadow copy after every step", "truncated, missing and unappliable design files, unwriteable targets, templates"),
"C11": ("managers exporting attributes of every type and methods of their children, exports of exports; random child changes (values, alarms, columns, choices, descriptions, fields added/removed), export changes, hiding, puts and calls through exports", "every export equal to the child's field after every step; field list; puts and calls recorded in the child; refused exports change nothing; subscribers of exports see every value in order; ports severed exactly when hidden", "bad names and sources, failing methods, concurrent calls, puts and export changes (hangs are detected)"),
"C12": ("contexts waiting on put_async/post_async/when_matches with random completion orders", "wait outcome against a reference; no early timeouts; no leftover subscriptions", "stops before/during waits, errors, callbacks that wait"),
"C13": ("attributes of every meta type with hostile values, methods, metas, messages of every kind; blocks served live with subscriptions", "decode(encode(x)) is the same object, text and types; messages against an independently built JSON; replayed delta text equals served text", "malformed mappings and text must be refused"),
"C14": ("the real PVA server, handlers, conversions and proxies over an in-process pvAccess network carrying real p4p Values; blocks of every field type changed in every way", "conversion round trips against an independent reading of the Value; every client's accumulated view equals the block after every step, and only changed fields are sent; puts, RPCs and proxies against what the block recorded; channel list against what is published", "values p4p can't hold, malformed puts and RPCs, network losses, fields and types that change under clients, server disabled and reset"),
"C15": ("several websocket clients with colliding ids sending every kind of message, blocks changing meanwhile, clients that disconnect; a real server on the loopback interface for REST, websocket and pages", "per-client ledger: every message answered once, on that connection, with its id and the block's own answer; replayed subscriptions equal the block; pages equal the files they name", "malformed text, unknown types, unserialisable results, duplicate ids, closed connections, addresses inside and outside the subnets, paths that lead out of the web folder, the server disabled and reset again and again"),
"C16": ("proxies of blocks of every field type and of managers, over an in-process websocket to the real server handlers; remote blocks changed in every way; puts and calls through the proxy", "proxy snapshot equals the remote one after every step; deltas of the proxy grouped and ordered as the remote's; puts and calls recorded in the remote part; outcomes of pending requests", "connection lost with messages in flight and requests pending, closed by the server, comms disabled, server down during reset"),
"C17": ("generated YAML definition trees (parameters, defines, includes of includes, parts, controllers, comments, docstrings) and arguments", "the controllers, parts and arguments created, against an independent expansion of the same tree", "missing, duplicated, unknown and ill-typed parameters, broken files"),
"C18": ("several senders pipelining commands, every kind of reply, reply bytes cut anywhere; whole random boxes described, read, set and polled; a real server on the loopback interface with threads", "reply ledger per command, order of commands per sender; what the client reports against the box", "error replies, messages that can't be encoded, connections cut before, in the middle of and after replies, stop() with requests outstanding, restarts"),
"C19": ("random boxes (blocks, fields of every type, table layouts, labels, PCAP groups) whose fields are put to, changed by the hardware, or both at once; tables with some or unknown rows; the layout; with and without dataset columns; LUTs of all simple functions, gates and pulses for their icons", "after every step all attributes, tables, buses, links and the layout against the memory of the simulated box; words sent decoded by an independent packer; the function that a drawn icon computes", "refusals, coerced values, connections lost with requests outstanding, PandA absent at start, resets that fail, disable"),
"C20": ("random rows through DoubleBuffer, with real and small table sizes; scans as for C21 through the real PandASeqTriggerPart (position compare and gated, with some of the axes visible) to a simulated pair of sequencers that hand over to each other; small and real batches", "the tables played, joined up, against the rows requested; against the points, durations and row starts of the scan; and against what the motors did in the executed PMAC profile: blind until they are about to start the next row, never triggered before it", "pauses, seeks, breakpoints, slow table writes, late active signals, wrong repeats and prescale, frames too long for the hardware, points at which nothing visible moves"),
"C21": ("scans of 12 kinds of generator (lines, grids, spirals, Lissajous, arrays, concatenations, excluded regions, static), up to 41000 points, with 1-4 motors of random speed, acceleration, resolution, limits and settle time, through the real RunnableController, PmacChildPart, PMAC manager, CS and trajectory parts to a simulated trajectory scan; small and real numbers of points per profile", "the profile that was executed is followed in time: every lower/centre/upper position, output program, gap (velocity, acceleration, duration, entry velocity), run up, tail off, chunk sizes, and progress reports, against the scan generator; scans that can not be done are refused", "pauses and seeks at any time (also while points are being appended), breakpoints, scans that are too fast or outside the limits"),
"C22": ("scans of 12 kinds of generator, with 1-3 frames per step, breakpoints and several detectors (areaDetector, Andor, Xmap, reframing) through the real RunnableController, detector runnables with driver, HDF writer, position labeller, exposure and plugin parts, to simulated drivers and writers which produce frames", "frames the driver was told to take and exposures/periods per part of the scan, the label file parsed back and matched with frame counters, where each frame ends up in the file (each point once, in its place), dataset infos, layout and attribute files, path and id of the file, flushing and closing", "pauses, seeks, aborts and re-arming at any moment, slow writers, detectors that stop early, Windows paths"),
"C23": ("several parts raising, replacing, clearing alarms, mixed with state changes", "served health against a shadow set of alarms after every event", "faults and disables"),
"C24": ("runnable blocks with parts having random tweak rules; exposure parts; detector tables over child detectors", "returned parameters accepted by an independent copy of the rules, fixpoint, untouched parameters unchanged, frame arithmetic, refusal only if impossible; configure gets the same", "never-settling and refusing parts"),
"C25": ("recording controllers and stateful blocks added before, during and after start, singly, in lists and concurrently; jobs spawned; several start/stop cycles; queues with several producers and consumers", "lifecycle trace: starts/stops exactly once, published lists complete, without hidden or unstarted blocks; each job ran once with its arguments, result or error at every waiter; FIFO queues; no early timeouts", "failing and slow blocks, blocks that add blocks while starting, work finishing only during stop"),
"C26": ("blocks of every kind of Channel Access part, waveform tables, actions, motor and CS port parts and IOC status parts on a simulated PV store that merges updates, delays, disconnects and refuses as Channel Access does", "every state shown to a subscriber matched with the history of the PV (value, severity and time of the same update, never going back), state at rest equal to the PV's, records written by puts and actions and their results, choices, limits and port tags as of the connection", "disconnects at any moment, PVs missing at start, restarts with other choices, bursts of updates, columns of changing length, failing actions, puts to PVs that are not there"),
"C27": ("scans of 11 kinds of generator, snakes, breakpoints, several runs and scans, through the real Odin and Xspress3 writer parts, unrolling and dataset table parts, to simulated writers sharing out frames in blocks of 1-50 over 1-5 files, which write real HDF5 files", "every pixel, id and sum read back through the virtual datasets against the scan point that was stamped in it; demand positions and axes against the generator; every published dataset looked up; what the writer was told; end of runs against frames written", "snakes refused, aborts, incomplete blocks, late and merged counts, slow closing of files"),
"C28": ("scan files of 1-4 sets of 0-4 repeats with generators of several kinds, run by the real scan runner part on a real runnable controller whose part fails, is refused, aborted, timed out or not writeable as planned; several files and runs after each other", "every scan the block was given (generator, directory, order, number) against the file; counters, status, state and every line of the report against what was planned", "scans that go wrong in seven ways, abort after the n-th event with 0-8 yields of lag, broken files, recovery runs"),
"C29": ("the real shutter, axes, directory monitor, pre-move, double trigger, PandA pulse and beam selector parts in a real runnable controller, over simulated children that are slow to answer; scans with breakpoints, pauses, seeks and aborts; tables of detectors, exports and units of all kinds", "shutter values at every point and whenever the scan stands still; acceptance against the reasons to refuse; puts to moved axes; pulse block settings against duration, frames and exposure; the selector's trajectory against cycles, dwell times and angles", "aborts while shutters are opening, pauses within a cycle, detectors not armed, exports mixed between pulse blocks"),
"C30": ("whole scans with the demo blocks as their YAML makes them (one or two detectors, one or more frames a step, given or default exposures), over lines, grids, snakes, regions, spirals, with breakpoints, axes left to the user, pauses and rewinds, aborts, and failures at a step", "every value the counters took, against the points' bounds in order; the HDF5 files, read through a second handle whenever the scan stands still and again once closed, against images computed from the positions; the dataset table against the files", "pauses and aborts at any step with varied lag; points shorter than the time that blocks take to talk"),
"C31": ("the real dataset busses part with random tables that change between configures; scans with the real kinematics part over raw, compound and mixed motors, captured in all ways, with variables, programs and generators of several kinds", "datasets reported against the table; a file is written at the paths reported, read back through the links made for processing, results are written where processing puts them and read back through the virtual file at the paths reported", "scans one after another with other axes and captures; names that begin with one another; encoders in any row of the table"),
"C32": ("one to three clients with views made before and after changes to a block with attributes of every type and methods of several signatures, that read, put, put several at once and call in every way, rightly and wrongly", "values read against the model when it didn't change meanwhile; multisets of puts and calls asked for against those that ran; what calls return", "changes by the block at once with the clients; setters and methods that take time or fail; names that aren't there"),
}
