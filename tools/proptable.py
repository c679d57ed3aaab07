C = "malcolm/core/"
B = "malcolm/modules/builtin/"
S = "malcolm/modules/scanning/"
W = "malcolm/modules/web/"
PB = "malcolm/modules/pandablocks/"
PM = "malcolm/modules/pmac/"
AD = "malcolm/modules/ADCore/"
NOTE = (
    "Held on the executions produced (seeded, replayable); counts of observed "
    "events are in the evidence. Not a proof: paths the workload does not "
    "drive are not judged. "
)

prop(
    "C01",
    "Every request gets exactly one final response, and failures stay contained",
    "Every Get, Put or Post sent to a block, and every Unsubscribe, produces exactly one final response carrying the request's id: a Return carrying the requested data or the method's result if it succeeded, otherwise an Error. "
    "A Put that returns success is visible to the next Get, and a Put or Post that was refused has no effect. "
    "No request, however malformed, slow or failing, stops other requests to the block being answered.",
    ["inputs", "schedules", "histories"],
    "all request kinds, paths (existing, missing, too long, too short), values and concurrent mixes of slow, failing and fast handlers",
    "Tests send a handful of well-formed requests one at a time; they do not interleave slow and failing handlers or try arbitrary paths.",
    [C + "controller.py", C + "request.py", C + "response.py", C + "views.py"],
    [
        ("request dispatch", C + "controller.py Controller.handle_request/_handle_request"),
        ("get/put/post handlers", C + "controller.py _handle_get/_handle_put/_handle_post"),
        ("response callbacks", C + "request.py Request.return_response/error_response"),
    ],
    NOTE + "Response counting happens at the callback given to each request.",
    "runtime monitor: per-request response ledger against a reference model under concurrent random request mixes",
)
prop(
    "C02",
    "Subscribers' replayed view always equals the state the block serves",
    "A subscriber to any path of a block first gets that path's current value, and whenever a message arrives the view it holds (the latest update, or all delta changes applied in order) equals what a Get of the same path returns at that moment. "
    "A change under a subscribed path is never left undelivered once the change is complete, and subscribers that were not affected get nothing. "
    "After an unsubscribe is answered no more messages arrive for that id, and other subscriptions are unaffected.",
    ["inputs", "histories", "schedules"],
    "all subscription paths and depths, delta or not, histories of value, alarm, meta, table, child add/remove changes and subscribe/unsubscribe in between",
    "Tests check a few fixed change lists; the equality of replayed view and served state for every history and path is not asserted anywhere.",
    [C + "notifier.py", C + "models.py", C + "controller.py"],
    [
        ("change squashing and delivery", C + "notifier.py Notifier/NotifierNode"),
        ("model change notification", C + "models.py Model.set_endpoint_data and friends"),
        ("subscription handling", C + "controller.py _handle_subscribe/_handle_unsubscribe"),
    ],
    NOTE + "Get and subscription are both read through requests.",
    "runtime monitor: replayed subscriber view compared with Get at every delivery and at quiescence",
)
prop(
    "C03",
    "Changes made together are seen together",
    "When several fields of a block are changed as one group (an attribute's value with its alarm and timestamp, or any changes made inside one grouped section, also nested ones), every subscriber sees them in a single message at the end of the group and never sees a state in which only some have been made. "
    "Ungrouped changes are delivered one message each and in the order they were made. "
    "This holds even if the grouped section fails part way through: what was changed is delivered once, and later changes are still delivered.",
    ["histories", "schedules", "inputs"],
    "all nestings and sizes of grouped sections, exceptions inside them, several controllers and several subscribers at different depths",
    "Tests cover one non-nested group with one subscriber; exceptions inside groups and nested groups are not exercised.",
    [C + "controller.py", C + "notifier.py", C + "models.py", C + "concurrency.py"],
    [
        ("grouped changes", C + "controller.py changes_squashed; notifier.py changes_squashed"),
        ("attribute set with alarm and timestamp", C + "models.py AttributeModel.set_value_alarm_ts"),
    ],
    NOTE,
    "runtime monitor: per-group message ledger for subscribers at every depth, with injected failures inside groups",
)
prop(
    "C04",
    "Values held always satisfy their declared type",
    "Whatever value is put to an attribute, set by the code that owns it, or passed to a method, the value that results is always a member of the declared type: right number type, string, boolean, one of the listed choices, array with elements of the right type, or table with exactly the declared columns of equal length each of its declared element type. "
    "An input that cannot be converted is refused with an error and leaves the value unchanged, and one already of the declared type is kept unchanged. "
    "Method calls get exactly the declared parameters, with defaults filled in, and missing, unknown or unconvertible parameters are refused before the method body runs.",
    ["inputs"],
    "all declared types and all Python or JSON values, valid, borderline and hostile",
    "Tests try two or three values per type; type membership for arbitrary inputs is universally quantified.",
    [C + "models.py", C + "table.py", C + "views.py", C + "alarm.py", C + "timestamp.py"],
    [
        ("per type validation", C + "models.py *Meta.validate"),
        ("method parameter validation", C + "models.py MethodModel.validate/post"),
        ("table validation", C + "models.py TableMeta.validate; table.py"),
    ],
    NOTE,
    "runtime monitor: type-membership oracle written independently of the metas, over generated values sent as puts, sets and method calls",
)
prop(
    "C05",
    "A read-only attribute or method can never be used from outside",
    "At every moment a Put to an attribute of a block's own, or a Post to a method, whose served writeable flag is false is refused with an error, changes nothing and never runs the code behind it; when the flag is true it is not refused for that reason. "
    "The writeable flags follow the block's state: each attribute or method is writeable in exactly the states declared for it, from the moment the new state is visible. "
    "Methods and attributes that were never given a setter are never writeable.",
    ["histories", "inputs", "schedules"],
    "all attributes and methods of stateful and runnable blocks, every state reached through random action histories, attempts at every state change",
    "Tests check the flags in a few states; refusing every attempt in every reachable state and transition is not sampled.",
    [C + "controller.py", B + "controllers/statefulcontroller.py", S + "controllers/runnablecontroller.py", C + "models.py"],
    [
        ("writeable check", C + "controller.py Controller.check_field_writeable"),
        ("state dependent flags", B + "controllers/statefulcontroller.py set_writeable_in/transition"),
    ],
    NOTE,
    "runtime monitor: attempts put/post against every field at every observed state, compared with the served flag and the declared states",
)
prop(
    "C06",
    "A block's state only moves along allowed transitions and failures end in Fault",
    "The sequence of states a block publishes follows only the transitions its kind of block allows, and every action leaves the block in the state that action promises, or in Fault (with the failure's message as its health) if a part failed, unless it failed while only checking parameters, which changes nothing. "
    "An action requested in a state that does not allow it is refused and leaves the state and the parts untouched. "
    "From Fault or Aborted a reset brings the block back to Ready, from Disabled likewise, and disable is possible from every state the block can rest in.",
    ["histories", "fault_sequences", "schedules"],
    "all sequences of actions, legal or not, one at a time and concurrent, with a failure of any part at any phase",
    "Tests walk a few fixed paths; illegal requests from every state and a failure at every phase are not enumerated.",
    [B + "controllers/statefulcontroller.py", B + "util.py", S + "util.py", S + "controllers/runnablecontroller.py"],
    [
        ("allowed transitions", B + "util.py StatefulStates, ManagerStates; scanning/util.py RunnableStates"),
        ("transition and fault handling", B + "controllers/statefulcontroller.py transition/try_stateful_function/go_to_error_state"),
    ],
    NOTE,
    "runtime monitor: published state trace checked against an independent transition relation, with a failing part injected at every phase",
    level="fault_enumeration",
)
prop(
    "C07",
    "Phases are barriers: every part finishes a phase before the next begins",
    "When a block performs an action, the parts taking part in each phase run at the same time, and no part starts a phase before all parts finished the previous one; phases run in the documented order for the action. "
    "Information a part reports in one phase reaches every part that is entitled to it in later phases, labelled with the part it came from, and each part is given the arguments it asked for. "
    "If any part fails in a phase the other parts' waits are stopped, the failure is what the caller sees, and no later phase of that action runs.",
    ["schedules", "configurations", "fault_sequences"],
    "all sets of parts and of phases they take part in, all relative speeds, any part failing at any phase",
    "Tests use one or two parts that finish at once, so overlap or reordering between phases cannot show.",
    [C + "hook.py", C + "part.py", C + "controller.py", S + "controllers/runnablecontroller.py", S + "hooks.py"],
    [
        ("running parts in a phase", C + "controller.py run_hooks; hook.py start_hooks/wait_hooks"),
        ("phase order", S + "controllers/runnablecontroller.py do_configure/do_run/do_seek/do_abort"),
    ],
    NOTE + "Start and end of every phase are recorded inside harness parts with random cooperative delays.",
    "runtime monitor: phase barrier and information-flow checker over recorded start/end events of generated parts",
)
prop(
    "C08",
    "A scan performs every point exactly in order through pauses, seeks and breakpoints",
    "For any scan, the consecutive segments the parts are told to prepare for and run start at the published completed step and end at the published configured step, so that a scan which is never rewound runs each point exactly once in order, and pausing at or seeking to step k and resuming does exactly the points from k on. "
    "A run ends finished only when all points are done, otherwise it ends armed with the next segment prepared, and segments never cross a breakpoint. "
    "Completed never exceeds configured, configured never exceeds total, completed is never ahead of the slowest part that reports progress, and a seek beyond the end goes to the last step.",
    ["inputs", "histories", "schedules"],
    "all generators (dimensions, snaking, lengths), breakpoint lists, sequences of run, pause at any step, seek anywhere, resume and re-run",
    "Tests use a couple of fixed scans and one or two pauses.",
    [S + "controllers/runnablecontroller.py", S + "util.py", S + "hooks.py"],
    [
        ("step bookkeeping", S + "controllers/runnablecontroller.py do_configure/_call_do_configure/do_run/do_seek/get_breakpoint_index"),
        ("progress", S + "controllers/runnablecontroller.py update_completed_steps"),
    ],
    NOTE,
    "runtime monitor: conservation/ordering checker over the segments given to recording parts, against a reference scan model",
)
prop(
    "C09",
    "Abort and disable work at any moment and leave a recoverable block",
    "Whenever abort is accepted, it returns only once the block is in Aborted, every action that was in progress has been stopped and told so, and no part is asked to start anything but the abort phase from then on (checking parameters excepted, as it changes nothing). "
    "Disable does the same ending in Disabled. "
    "After either, reset followed by a new configure and run works as on a fresh block.",
    ["schedules", "fault_sequences", "histories"],
    "abort or disable at every distinguishable moment of configure, run, pause, seek, resume and reset, with parts of different speeds, also repeated and concurrent",
    "Tests abort at one or two convenient points with instant parts.",
    [S + "controllers/runnablecontroller.py", B + "controllers/statefulcontroller.py", C + "context.py"],
    [
        ("abort", S + "controllers/runnablecontroller.py abort/try_aborting_function/do_abort"),
        ("stopping part contexts", C + "context.py stop/sleep/wait"),
    ],
    NOTE,
    "runtime monitor: abort injected after the n-th observed event for every n, trace oracle on phases, states and outcomes",
    level="fault_enumeration",
)
prop(
    "C10",
    "A saved design loads back to the same settings",
    "Saving a block's design and later loading it, in the same or a fresh process, restores every configuration attribute of every child, the layout, the exports and the names chosen, and the block's own settings, to the values at the time of saving, whatever they were changed to in between. "
    "Loading applies settings stage by stage in the order of their stages and touches nothing that is not saved; a design that can not be written, read or applied is refused with an error. "
    "The modified flag is true exactly when a setting of a visible child, which children are visible, or the exports differ from what was last saved or loaded, with a message naming each.",
    ["inputs", "histories", "fault_sequences"],
    "all values of every attribute type, layouts, exports, sequences of edit, save, load and revert, children whose fields come and go, managers of managers",
    "Tests save and load one or two scalar values.",
    [B + "controllers/managercontroller.py", B + "parts/childpart.py", B + "util.py"],
    [
        ("save and load", B + "controllers/managercontroller.py do_save/do_load/_validated_config_filename"),
        ("child settings", B + "parts/childpart.py on_load/on_save/send_modified_info_if_not_equal"),
    ],
    NOTE,
    "runtime monitor: full-state snapshot at save compared after load over random edit histories, modified flag against a shadow copy",
)
prop(
    "C11",
    "Exported fields mirror the child's and act on it",
    "An exported attribute always shows the value, alarm, timestamp, type and description the child's attribute has, follows every change of it, and a put to it is a put to the child; an exported method runs the child's method with the arguments given and returns its result or error. "
    "The fields a block offers are exactly its own fields plus the current exports of fields its visible children have, under their chosen names, and changing the exports never affects the children. "
    "Exporting something that does not exist, or under a name that is not valid or already taken, is refused and changes nothing. Hiding a child disconnects its inputs and those connected to it, and no others.",
    ["histories", "inputs", "schedules"],
    "all export tables, child changes, export changes and puts or calls through the exports, also at the same time and through several levels",
    "Tests export one attribute once.",
    [B + "controllers/managercontroller.py", B + "parts/childpart.py", C + "controller.py", C + "models.py"],
    [
        ("export table", B + "controllers/managercontroller.py set_exports/update_exportable/_make_export_field"),
        ("child ports and layout", B + "controllers/managercontroller.py set_layout; parts/childpart.py on_layout/sever_sink_ports"),
        ("applying changes", C + "models.py Model.apply_change"),
    ],
    NOTE,
    "runtime monitor: parent/child mirror comparison at every quiescent point of random export and change histories",
)
prop(
    "C12",
    "Waits return the right result exactly when they should, or say why not",
    "A wait for the result of an asynchronous put or call returns that request's own result or raises its error, no matter in which order results arrive or how many are waited for together. "
    "A wait for a value returns once and only once the attribute satisfies the condition, raises at once if a bad value appears, and raises a timeout naming what it waited for, not earlier than its time limit. "
    "Stopping the context ends the wait in progress, or if there is none the next one that has to wait, with an abort error, unless told to ignore earlier stops; and no subscription outlives the blocking wait for a value that made it.",
    ["schedules", "inputs", "histories"],
    "all orders of completions, values and stops relative to the waits, any number of futures, timeouts",
    "Tests complete the futures in one order before or during the wait.",
    [C + "context.py", C + "future.py", C + "views.py"],
    [
        ("servicing futures", C + "context.py _service_futures/wait_all_futures"),
        ("waiting for values", C + "context.py when_matches/when_matches_async; future.py"),
    ],
    NOTE,
    "runtime monitor: wait outcomes compared with a reference over random completion orders and injected stops",
)
prop(
    "C13",
    "Everything the server sends decodes back to the same thing",
    "Any request, response, block description, attribute, table or value that is encoded for sending decodes to an equal object with the same type identity, for every value including extremes, unicode, empty and non-finite ones. "
    "Decoding something unknown or malformed raises an error instead of producing a wrong object. "
    "Encoding the decoded object again gives the same text.",
    ["inputs"],
    "all requests, responses, metas, attributes, tables, points generators and values",
    "Tests encode a few fixed examples.",
    [C + "models.py", C + "request.py", C + "response.py", C + "table.py", W + "util.py"],
    [
        ("encoding", "to_dict/json_encode of the Serializable classes in malcolm/core/models.py, request.py, response.py, table.py"),
        ("decoding", "from_dict/deserialize_object of the same classes"),
    ],
    NOTE,
    "runtime monitor: encode/decode round-trip oracle over generated objects of every registered kind",
)
prop(
    "C14",
    "PVA clients see the same structure and changes as the block",
    "Converting any block, attribute, table or method result to its PVA representation and back gives an equal value. "
    "Each change a block makes reaches PVA monitors as a change of exactly the fields that changed, so that a client accumulating updates holds the same value the block serves. "
    "Values PVA can not hold are refused rather than silently altered. Exactly the published blocks and their fields can be reached, until the server is disabled and again once it is reset, and clients of a block whose structure changes are reconnected to its new state. "
    "Puts and calls over PVA, and through a PVA proxy, have the effect, result or error they have on the block, and the proxy holds the same state as the block.",
    ["inputs", "histories"],
    "all structures and values of served blocks and histories of changes to them",
    "Tests convert a few fixed structures, and the PVA server tests are not run here.",
    ["malcolm/modules/pva/controllers/pvaconvert.py", "malcolm/modules/pva/controllers/pvaservercomms.py"],
    [
        ("conversion", "malcolm/modules/pva/controllers/pvaconvert.py convert_to_type_tuple_value/convert_value_to_dict/update_path"),
        ("change delivery", "malcolm/modules/pva/controllers/pvaservercomms.py BlockHandler.on_response"),
    ],
    NOTE,
    "runtime monitor: conversion round trip and accumulated monitor view against the block state",
)
prop(
    "C15",
    "The web server routes every message correctly and only lets local clients write",
    "Every message a websocket client sends is answered on that client's connection only, with its own id, and with the same content as asking the block directly; malformed messages get an error and do not disturb the connection or other clients. "
    "A client may use the same ids as other clients, and may reuse an id once its subscription has ended; when a connection closes its subscriptions end, at the latest when there is next something to tell them. "
    "Websocket Put and Post are refused for clients outside the server's subnet unless that is allowed, and REST gets and posts give the same answers as the websocket. "
    "Anything else a browser asks for is a file of the web folder and of nowhere else, or the GUI's page; a disabled server serves nothing until it is reset, however often.",
    ["inputs", "histories", "schedules"],
    "all message contents, interleavings of several clients, id reuse, disconnects, remote addresses",
    "Tests send two or three good messages from one client.",
    [W + "parts/websocketserverpart.py", W + "parts/restfulserverpart.py", W + "parts/guiserverpart.py", W + "controllers/httpservercomms.py", W + "util.py"],
    [
        ("message handling", W + "parts/websocketserverpart.py MalcWebSocketHandler"),
        ("rest", W + "parts/restfulserverpart.py RestfulHandler"),
    ],
    NOTE,
    "runtime monitor: client-side ledger of responses against direct block requests, with several hostile clients",
)
prop(
    "C16",
    "A websocket proxy converges to the remote block and acts on it",
    "A proxy of a remote block shows the same fields, values, alarms and metadata as the remote block, and after any sequence of remote changes becomes equal to it again once messages have drained. "
    "A put or call on the proxy has the effect, result or error that it has on the remote block. "
    "Changes the remote block makes together reach subscribers of the proxy together, in the order they were made. "
    "When the connection is lost the proxy's health reports it, requests pending or made meanwhile fail, and when the client is reset and connected again the proxy becomes equal to the remote block again.",
    ["histories", "fault_sequences", "inputs"],
    "all remote histories of value, alarm, meta, table and field changes, and connection losses at any point",
    "Tests read one counter through one proxy.",
    [W + "controllers/websocketclientcomms.py", B + "controllers/proxycontroller.py", C + "models.py"],
    [
        ("applying remote changes", W + "controllers/websocketclientcomms.py on_message/_handle_change; models.py apply_change"),
        ("reconnection", W + "controllers/websocketclientcomms.py recv_loop"),
    ],
    NOTE,
    "runtime monitor: proxy snapshot compared with remote snapshot after random histories over a loopback connection, with injected disconnects",
)
prop(
    "C17",
    "A YAML definition assembles exactly the system it describes",
    "Creating blocks from a YAML definition gives exactly the controllers, parts and included blocks it lists, in order, each with the parameters given after substituting parameters and definitions, with defaults filled in and types converted (nothing is claimed of defaults and values which themselves contain $(...) of other parameters). "
    "Parameters of one file never leak into another, and the same definition used several times gives independent results. "
    "Missing, unknown or unconvertible parameters, unknown names and duplicates are refused with an error.",
    ["inputs", "configurations"],
    "all YAML files with parameters of every type, nested includes, defines, repeated and partial substitutions",
    "Tests assemble a few fixed files.",
    ["malcolm/yamlutil.py", "malcolm/core/part.py", C + "process.py", B + "parameters.py", B + "defines.py"],
    [
        ("section parsing and substitution", "malcolm/yamlutil.py Section, make_block_creator, make_include_creator"),
        ("parameter and define definitions", B + "parameters.py, defines.py"),
    ],
    NOTE,
    "runtime monitor: generated YAML files assembled and compared with an independent expander",
)
prop(
    "C18",
    "PandA client requests always get their own answers",
    "Every command sent to a PandA gets the reply that belongs to it, whatever the number of concurrent senders, reply kinds (single line, multi-line, error) and however the reply bytes are split up on the network. "
    "What the client reports as blocks, fields, values, tables and changes is what the server sent. "
    "When the connection is closed all outstanding requests fail rather than wait.",
    ["schedules", "inputs", "fault_sequences"],
    "all mixes of concurrent commands, reply sizes, splits of the byte stream, error replies and disconnects",
    "Tests feed canned replies one at a time.",
    [PB + "pandablocksclient.py"],
    [
        ("request and reply matching", PB + "pandablocksclient.py send/recv/_send_loop/_recv_loop"),
        ("parsing", PB + "pandablocksclient.py get_blocks_data/get_changes/get_table_fields"),
    ],
    NOTE,
    "runtime monitor: a scripted server with unique replies and random byte splits, per-request answer ledger",
)
prop(
    "C19",
    "PandA tables, fields and buses reach the hardware and come back unchanged",
    "Writing any table (of values that fit the bits of their fields) to a PandA table attribute sends words from which the same table is read back, every field in its own bits, signed values and enum labels included. "
    "Values polled from the hardware appear on the matching attribute with the right type, and puts to attributes send exactly the text the hardware expects. "
    "Position and bit bus tables show every bus with its current value and settings, and editing one row changes only that row's fields on the hardware (bits that share a PCAP group are captured together). "
    "The layout shown is the one kept on the hardware, if it keeps one. After the connection was lost, or if the PandA was not there at the start, reset brings everything back as the hardware now has it. "
    "The icon of a block draws what its fields now make it do: the gate and inputs of its function, and the edges that it reacts to.",
    ["inputs", "histories"],
    "all table layouts (field positions, widths, signedness, enums), table contents, field types and bus histories",
    "Tests pack one fixed table layout.",
    [PB + "parts/pandatablepart.py", PB + "parts/pandabussespart.py", PB + "controllers/pandamanagercontroller.py", PB + "controllers/pandablockcontroller.py", PB + "util.py"],
    [
        ("packing", PB + "parts/pandatablepart.py list_from_table/table_from_list"),
        ("polling", PB + "controllers/pandamanagercontroller.py, pandablockcontroller.py handle_change"),
    ],
    NOTE,
    "runtime monitor: simulated PandA memory compared with attributes over random layouts and histories",
)
prop(
    "C20",
    "PandA sequencer tables describe exactly the scan's triggers",
    "Concatenating the sequencer tables written to the two sequencers, in the order they are played, gives exactly the rows requested for the scan: the same triggers, outputs, durations and repeats, with no row lost, repeated or reordered (the ticks that a switch takes being made up for), no table longer than the hardware allows, and each that is not the last either full or long enough to write the next. "
    "A sequencer's table is only rewritten while the other one is active, and only the last table loops. "
    "The rows played trigger each point of the scan segment exactly once, live for its duration: each row of joined points waits for its own start (the gate signal, or the position of the axis that moves most among those the PandA sees, in the direction it moves), is preceded by a dead pulse if it is not the first, and the last is followed by one. "
    "With position compare, no row can be triggered before the motors arrive at its start, and none is still blind when they do. "
    "Scans that can not be triggered like this are refused or fail; after a pause, seek or breakpoint the tables are those of the remaining segment.",
    ["inputs", "schedules"],
    "all scan shapes, durations, row lengths across table sizes, split points and hand-over timings",
    "Tests use a few short scans that fit in one or two tables.",
    ["malcolm/modules/ADPandABlocks/util.py", "malcolm/modules/ADPandABlocks/doublebuffer.py", "malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py"],
    [
        ("rows", "malcolm/modules/ADPandABlocks/doublebuffer.py SequencerRows"),
        ("double buffering", "malcolm/modules/ADPandABlocks/doublebuffer.py DoubleBuffer"),
        ("row generation", "malcolm/modules/ADPandABlocks/parts/pandaseqtriggerpart.py"),
    ],
    NOTE,
    "runtime monitor: a simulated pair of sequencers plays the tables written, and the played stream is compared with the requested rows",
)
prop(
    "C21",
    "Motor trajectories pass through every scan point, within limits, on time",
    "For any scan, and any part of one after a breakpoint, pause or seek, the profile sent to the motion controller moves every scanned axis through each point's lower, centre and upper positions at the scan's times, so the time spent on each row of joined points is the scan's. "
    "The output programs mark every point live and its middle once and the gaps dead when every point is to be triggered, each row once when rows are gated, and nothing otherwise; the steps reported complete are those whose points have been passed. "
    "In a gap between rows no axis exceeds its maximum velocity or acceleration, each arrives at the velocity of the next point, and the gap takes at least the minimum turnaround time and the delay after the point before it; runs up to the start and tails off from the end are within the maximum velocity, and a scan whose run up or tail off would be outside the soft limits, or whose points need more than the maximum velocity, is refused. "
    "A scan duration that is guessed is long enough for every axis. "
    "The axes named, the number of points announced and the arrays sent always agree, are finite and have positive times, and profiles sent in several parts join up with no point lost or repeated, none being sent too late. "
    "(Not claimed: acceleration and gap times of motors that have a velocity settle time, scans that velocity_profile refuses to make turnarounds for, soft limits inside turnarounds, velocities within moves over 4 s that are cut into pieces.)",
    ["inputs", "configurations"],
    "all generators (directions, snaking, dimensions, durations), axis limits, offsets, resolutions, output triggers and chunkings",
    "Tests compare a few fixed scans with literal arrays.",
    [PM + "parts/pmacchildpart.py", PM + "util.py", PM + "infos.py", PM + "parts/pmactrajectorypart.py"],
    [
        ("profile building", PM + "parts/pmacchildpart.py calculate_profile_from_velocities/add_profile_point/write_profile_points"),
        ("velocity profiles", PM + "util.py profile_between_points; malcolm/modules/pmac/velocityprofile.py"),
    ],
    NOTE + "Positions are compared with a tolerance of one trajectory tick of motion.",
    "runtime monitor: the profile writes are recorded, integrated and compared with the scan points",
)
prop(
    "C22",
    "Detectors and file writers are armed for exactly the frames of the scan",
    "For every part of a scan, including after breakpoints, pauses, seeks and re-arming, the detector is told to take exactly the frames of that part (times the frames per step), each with the exposure asked for and a period that fits the point's duration, and the file writer to place frame n of the scan at n's position in the file, so that every point ends up in the file exactly once in its place. "
    "Position labels given for the frames cover each frame of the part once, with consecutive numbers matching the detector's counter and the scan's indexes. "
    "The datasets reported for the file, its layout and attributes describe the scan's dimensions, ranks and paths, at the path and with the name asked for. "
    "(Not claimed: several frames per step with alternating generators, frames still in plugins when the detector says it has stopped, seeks forwards that skip points.)",
    ["inputs", "histories"],
    "all generators, frames per step, segments, pauses and seeks",
    "Tests configure one fixed scan once.",
    [AD + "parts/detectordriverpart.py", AD + "parts/hdfwriterpart.py", AD + "parts/positionlabellerpart.py"],
    [
        ("detector arming", AD + "parts/detectordriverpart.py on_configure/on_seek/on_run"),
        ("file layout", AD + "parts/hdfwriterpart.py"),
        ("labels", AD + "parts/positionlabellerpart.py"),
    ],
    NOTE,
    "runtime monitor: simulated detector/writer records commands, frame ledger against the scan",
)
prop(
    "C23",
    "Health always shows the worst current problem",
    "At every moment a block's health shows the most severe alarm among those its parts currently report, with that alarm's message, and is OK when no part reports one. "
    "Clearing or replacing one part's alarm never hides or resurrects another's. "
    "A disabled block counts as an invalid alarm and a faulted one as a major alarm of the block itself, until it is reset.",
    ["histories"],
    "all histories of alarms raised, replaced and cleared by several parts, mixed with state changes",
    "Tests raise one alarm.",
    [B + "controllers/basiccontroller.py", B + "controllers/statefulcontroller.py", C + "alarm.py"],
    [("alarm aggregation", B + "controllers/basiccontroller.py update_health")],
    NOTE,
    "runtime monitor: served health compared with a shadow set of alarms after every event",
)
prop(
    "C24",
    "Validation tweaks settle on parameters every part accepts",
    "Validating scan parameters returns parameters that every part accepts as they are, or fails with the reason; validating what was returned changes nothing more. "
    "Parameters no part asked to change are returned as given (or with their defaults). "
    "Frame exposure, readout and duration are made consistent: exposure plus dead time never exceeds the frame time, and a requested exposure or duration that is possible is kept.",
    ["inputs", "configurations"],
    "all scan parameters, tweaks by several parts, exposures, readout times, clock accuracies and frame counts",
    "Tests validate one or two fixed requests.",
    [S + "controllers/runnablecontroller.py", S + "parts/exposuredeadtimepart.py", S + "infos.py", S + "parts/detectorchildpart.py"],
    [
        ("tweak loop", S + "controllers/runnablecontroller.py validate"),
        ("exposure", S + "parts/exposuredeadtimepart.py; infos.py ExposureDeadtimeInfo"),
    ],
    NOTE,
    "runtime monitor: fixpoint and acceptance oracle over generated parts and parameters",
)
prop(
    "C25",
    "A process starts, publishes and stops every block cleanly",
    "Every block added to a process, before or after it is started, is started exactly once, and can be found by name until the process stops; names are unique. Every server is told the complete list of blocks to publish (each once, top level blocks first when the process starts, hidden ones never), which only has blocks that have been started. "
    "Work handed to the process runs exactly once, its result or error reaches whoever waits for it, queues keep order, and wait limits are honoured. "
    "Stopping the process halts every block once, waits for work in progress, and leaves the process restartable; a block that fails to start, publish or stop does not stop the others.",
    ["schedules", "histories", "fault_sequences"],
    "all orders of add, remove, start, stop, with failing and slow blocks and work in progress",
    "Tests start one or two well-behaved blocks.",
    [C + "process.py", C + "concurrency.py", B + "controllers/servercomms.py"],
    [
        ("lifecycle", C + "process.py start/stop/add_controllers/_start_controllers/_clear_spawn_list"),
        ("spawned work and queues", C + "concurrency.py Spawned/Queue/RLock"),
    ],
    NOTE,
    "runtime monitor: lifecycle event trace checker with recording controllers and injected failures",
)
prop(
    "C26",
    "EPICS-backed attributes always show the PV's latest state",
    "An attribute backed by EPICS PVs shows, after every PV update, that update's value, severity as alarm, and timestamp, all of the same update and never going back to an older one; a disconnect shows as an alarm, keeping the value, which the next update clears, and so does a value that can't be shown. "
    "A table of waveforms shows the latest of each PV, once they are of the same length, with the worst of their severities. "
    "A put writes exactly the value converted to the PV's type to the setpoint PV, waits for it as configured, and the attribute afterwards shows what was read back; an action writes its value once and succeeds only if the status becomes good in time, failing with the message PV's text otherwise. "
    "Connecting fails if a PV that has to be there is missing, takes choices, display limits and port names from the PVs, and after disabling no further updates are applied until reset connects again. "
    "Motor assignments, compound motors' ports, and an IOC's health, icon and dependencies follow their PVs in the same way.",
    ["inputs", "histories"],
    "all attribute kinds, PV histories of values, severities, disconnects, and puts",
    "Tests feed one value per kind.",
    ["malcolm/modules/ca/util.py", "malcolm/modules/ca/parts/caactionpart.py", "malcolm/modules/ca/parts/cawaveformtablepart.py"],
    [("PV to attribute", "malcolm/modules/ca/util.py CAAttribute/WaveformTableAttribute")],
    NOTE + "Channel access itself is replaced by a simulated PV store.",
    "runtime monitor: simulated PV store histories against the served attribute after every event",
)
prop(
    "C27",
    "Frames shared out between several file writers appear at their point of the scan",
    "A scan with the Odin or Xspress3 writer makes a file in which, once the writers have written their files, reading the data, unique ids and sums at any index of the scan gives those of the frame taken at that point, for every number of writers, size of block and number of frames, whole blocks or not (Xspress3 with one writer; with several, which each write their channels of every frame, the links to channels, ids, scalars and deadtimes lead to what was written). "
    "The demand positions in the file are those of the scan for each index, the axes are given by dimension, and every dataset in the published table is where the table says with the rank it says. "
    "The writer is told exactly how many frames to expect and where, each run ends only when its frames are written, completed steps never exceed the steps written, the last run ends only when the files are closed, and abort stops the writer. "
    "Scans that turn back within a dimension are refused, unless unrolled into one line, and then every frame is at its place in that line.",
    ["inputs", "configurations"],
    "all scans, numbers of writers, block sizes, image sizes and types, file names, breakpoints",
    "Tests configure one scan of one block size and compare requests to the writer, never reading the file.",
    ["malcolm/modules/ADOdin/parts/odinwriterpart.py", "malcolm/modules/xspress3/parts/xspresswriterpart.py", S + "parts/unrollingpart.py", S + "parts/datasettablepart.py"],
    [
        ("sharing out and virtual datasets", "malcolm/modules/ADOdin/parts/odinwriterpart.py files_shape/one_vds/create_vds"),
        ("NeXus nodes and dataset table", "malcolm/modules/ADOdin/parts/odinwriterpart.py add_nexus_nodes/create_dataset_infos"),
        ("unrolling", S + "parts/unrollingpart.py on_validate"),
    ],
    NOTE + "The file writers are simulated, and write real HDF5 files; the vdsgen library is taken as it is.",
    "runtime monitor: frames tagged with their scan point, read back through the file made and compared with the scan",
)

prop(
    "C28",
    "The scan runner does every scan of its file once, in order, and reports what became of it",
    "Running the scan runner on a file of scan sets configures and runs the scan block once for every repeat of every set, in the order of the file, with the generator of that set and a directory of its own, and no other. "
    "A scan that is refused, fails, times out or is aborted doesn't stop those after it; the counts of configured, successful and failed scans, the status and the report give exactly what happened to each. "
    "After abort of the runner no more scans are started, run fails and the runner stays Aborted; a file that is missing or malformed is refused; after any of these a good file can be loaded and run again.",
    ["inputs", "faults", "schedules"],
    "all scan files, outcomes of scans, moments of abort",
    "Tests call the part with a mocked block and one outcome at a time.",
    [S + "parts/scanrunnerpart.py", S + "controllers/runnablecontroller.py"],
    [
        ("loading", S + "parts/scanrunnerpart.py loadFile/parse_yaml/parse_scan"),
        ("running and outcomes", S + "parts/scanrunnerpart.py run/run_scan_set/run_scan"),
        ("abort", S + "parts/scanrunnerpart.py abort"),
    ],
    NOTE + "Set names are distinct and no two runs start in the same second.",
    "runtime monitor: scans done by the real block compared with the scan file and with the runner's counts and report",
)

prop(
    "C29",
    "Parts that help a scan along do their job at their moment of it",
    "An attribute set for the points of a scan (a shutter) is at its pre-run value whenever points are taken, isn't put there by configure, and is back at its reset value when the scan is Finished, Paused or Aborted. "
    "Axes outside the set that can be moved together, double triggered detectors enabled with other than 2 frames, and (unless told otherwise) bad directory monitors are refused, and only those; a pre-move has arrived when configure returns, once. "
    "A PandA pulse block is set to make the detector's frames of each point evenly over its duration, each as wide as the exposure, centred or without delay, nothing else is put, and it is refused if exports, units, detector state or exposure don't allow that. "
    "The beam selector goes to the diffraction and back to the imaging position once for each step, in the move time, staying at each for at least the exposure there, also after breakpoints and pauses.",
    ["inputs", "configurations", "schedules"],
    "all scans, breakpoints, moments of pause and abort, detector tables, exports, units, exposures",
    "Tests call one method of each part with mocked children.",
    [S + "parts/attributeprerunpart.py", S + "parts/simultaneousaxespart.py", S + "parts/directorymonitorpart.py", S + "parts/doubletriggerpart.py", "malcolm/modules/pmac/parts/motorpremovepart.py", "malcolm/modules/pmac/parts/beamselectorpart.py", "malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py"],
    [
        ("shutters", S + "parts/attributeprerunpart.py on_pre_run/on_reset"),
        ("refusals", S + "parts/simultaneousaxespart.py, doubletriggerpart.py, directorymonitorpart.py"),
        ("pulses", "malcolm/modules/ADPandABlocks/parts/pandapulsetriggerpart.py on_configure/on_post_configure"),
        ("beam selector", "malcolm/modules/pmac/parts/beamselectorpart.py on_validate/on_configure"),
    ],
    NOTE + "Shutters move in the order they are told to. When a run fails into Fault nothing is claimed.",
    "runtime monitor: values of simulated children at every point and state of scans, against what the part is for",
)

prop(
    "C30",
    "A demonstration scan visits every point and writes every frame once, in its place",
    "A scan with the motion, detector and scan blocks of malcolm.modules.demo drives every axis that it is to move, in each run, to the start and then the end of each point in order, waits at the start of the next point whenever it is Armed or Paused, ends at the end of the last point, and doesn't move other axes. "
    "Once Finished each detector's file has, at the index of each point (of each frame, if several are taken a step) and nowhere else, the image for that point's position and the exposure, its sum and a unique id that increases through the scan, whatever pauses, rewinds and breakpoints there were; a frame taken again has an id higher than all before. "
    "When aborted or failed the file is closed, and has at least the frames of the steps reported complete. The dataset table lists exactly what is in the files of the detectors that are enabled. A scan told to fail at a step does, and the blocks can be used again after.",
    ["inputs", "schedules", "histories"],
    "all generators, axes moved, detectors, frames per step, exposures, breakpoints, moments of pause, rewind, abort and failure",
    "Tests run one scan of each demo block.",
    ["malcolm/modules/demo/parts/motionchildpart.py", "malcolm/modules/demo/parts/countermovepart.py", "malcolm/modules/demo/parts/filewritepart.py", "malcolm/modules/demo/util.py", S + "parts/detectorchildpart.py", S + "parts/datasettablepart.py", S + "controllers/runnablecontroller.py"],
    [
        ("motion", "malcolm/modules/demo/parts/motionchildpart.py on_configure/on_run, countermovepart.py move"),
        ("frames", "malcolm/modules/demo/parts/filewritepart.py on_configure/on_run/on_seek/on_reset"),
        ("whole scan", S + "parts/detectorchildpart.py, " + S + "controllers/runnablecontroller.py"),
    ],
    NOTE + "A move that is in progress when a scan is aborted may still end.",
    "runtime monitor: recorded counter positions and real HDF5 files of whole scans, read while open and once closed",
)

prop(
    "C31",
    "What a PandA captures is described as captured, and axes calculated from it are found again",
    "A PandA reports to its file writer exactly one dataset for each bit captured and for each value, difference, sum, mean, minimum or maximum of a position captured that has a dataset name, with the type of the table and the NDAttribute that carries it; and none for others. "
    "The file for kinematics processing links, under the axis number, to the mean (and, when all have them, the minimum and maximum) dataset of each raw motor of the coordinate system, and holds the program and the variables that the PMAC reports, with resolutions and offsets that the PandA already applies made neutral; "
    "results left where processing puts them are found, for each axis scanned, at the path, with the type and rank, that the dataset table says, and the others under their number. Scans with a raw motor that isn't captured are refused.",
    ["inputs", "configurations", "histories"],
    "all tables of bits and positions, motors, coordinate systems, generators, variables, programs, orders of scans",
    "Tests have one PandA table, and one coordinate system with made up datasets.",
    ["malcolm/modules/ADPandABlocks/parts/pandadatasetbussespart.py", "malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py", "malcolm/modules/pmac/util.py", "malcolm/modules/ADCore/infos.py"],
    [
        ("datasets", "malcolm/modules/ADPandABlocks/parts/pandadatasetbussespart.py on_report_status"),
        ("kinematics", "malcolm/modules/ADPandABlocks/parts/kinematicssavupart.py on_configure/on_post_configure/create_files/create_vds_file"),
        ("axes", "malcolm/modules/pmac/util.py cs_axis_mapping/cs_axis_numbers"),
    ],
    NOTE + "The files are those of scans in one coordinate system, whose block the part was given.",
    "runtime monitor: HDF5 files made by the code under test, followed as processing would, against the tables they come from",
)

prop(
    "C32",
    "A view of a block reads, writes and calls exactly what it names",
    "Whatever is read through a view of a block or of anything in it, by attribute, item or to_dict, is the state of the block at that time, however old the view; a name that isn't there raises an error, and is never a value, and nothing can be set on a view. "
    "Putting to an attribute, or to several at once (in the order given, or by name if given in a plain dict), hands exactly those values, validated, once each to the code behind exactly those attributes, and this is done when the put returns; puts to read only ones are refused. "
    "Calling a method, at once or asynchronously, runs it once with each argument, given by position or by name, as the parameter that it was given for and the others at their defaults, and gives what it returned; calls with too many, repeated, unknown or missing arguments are refused and run nothing.",
    ["inputs", "interleavings", "histories"],
    "all types of attribute, values, signatures, ways of giving arguments, ages of views, and clients at once",
    "Tests make one view of one block and read, put and call it once each, correctly.",
    ["malcolm/core/views.py", "malcolm/core/context.py", "malcolm/core/controller.py", "malcolm/core/future.py"],
    [
        ("views", "malcolm/core/views.py View/Attribute/Method/Block/make_view"),
        ("requests", "malcolm/core/context.py put/post/put_async/post_async"),
        ("handling", "malcolm/core/controller.py _handle_put/_handle_post/make_view"),
    ],
    NOTE + "Waits and subscriptions made through views are those of C12.",
    "runtime monitor: what is read compared with the models at the time, and what ran with what was asked for, exactly once",
)
