PATHS = ("Path-sensitive abstract interpretation of every path of the flattened code (all callees inlined); "
         "sound up to the stated models of library calls; joins only lose precision toward alarms.")
PROPS = []
NA = []


def P(id, title, statement, over, qtext, why, files, mech, technique, note, **kw):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      technique=technique, note=note, **kw))


def N(id, title, statement, over, qtext, why, files, mech, reason, **kw):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                   reason=reason, **kw))


TESTS = "The existing tests exercise only the spool database library, one command line inserter and GOES-R decoding; "

P("R01", "Only completely received products are released",
  "A product assembled from fragments (broadcast frames or blocks relayed by a master server) is flagged complete only if every fragment, from the first to the last, arrived in sequence and was saved without error. "
  "The processor never stores, indexes or queues a product that is not so flagged.",
  ["inputs", "histories", "fault_sequences"],
  "Every sequence of received fragments (lost, duplicated, interleaved, restarted) and every failure to save one.",
  TESTS + "the frame and product processors never run under them, and the space of fragment histories cannot be sampled.",
  ["src/framep.c", "src/slavenbs/framep.c", "src/pctl.c", "src/nbsp.c"],
  [("fragment counter and completeness flag of the active product", "src/pctl.c update_activepce_framecounter, complete_activepce"),
   ("frame processors", "src/framep.c sbnframeproc; src/slavenbs/framep.c slavenbsproc"),
   ("product processor", "src/nbsp.c process_pctl_element")],
  "path-sensitive typestate/dataflow on flattened LLVM IR", PATHS)

P("R02", "A product is announced only after it is stored",
  "A product is queued for filters and clients, entered in the spool index, and recorded as received only if every step of storing its content in the configured spool succeeded. "
  "If storing fails, none of these happens for that product.",
  ["fault_sequences", "configurations"],
  "Every failure point of uncompressing, opening, writing or inserting a product, for each spool type.",
  TESTS + "no test injects a storage failure into the product processor.",
  ["src/nbsp.c", "src/nbspq.c", "src/ertxdb.c", "src/efile.c"],
  [("storage status gates index, record and queues", "src/nbsp.c process_pctl_element, pce_spool_product")],
  "path-sensitive typestate on flattened LLVM IR", PATHS)

P("R03", "Retransmissions recover lost products and never duplicate received ones",
  "With the retransmission database enabled for a product, a retransmission whose original is recorded as received is neither stored nor queued, and a complete product whose original was lost, is unknown, or that is no retransmission is processed. "
  "A stored product is recorded as received, and an incomplete one as failed, under its own sequence number.",
  ["histories", "inputs", "configurations"],
  "Every history of originals, losses and retransmissions, and every answer of the retransmission database.",
  TESTS + "the retransmission logic is never executed by them.",
  ["src/nbsp.c", "src/ertxdb.c", "src/rtxdb.c"],
  [("lookup of the original and the three-way decision", "src/nbsp.c process_pctl_element"),
   ("recording the outcome", "src/ertxdb.c e_nbsp_rtxdb_put_ok, e_nbsp_rtxdb_put_fail")],
  "path-sensitive typestate on flattened LLVM IR", PATHS)

P("R04", "Configured selection patterns decide what is kept, filtered and served",
  "Reception of a product that the product pattern rejects is abandoned; a product is queued for the filters only if the filter pattern accepts it and for the clients only if the server pattern accepts it, and an accepted and stored product is queued for each of them independently. "
  "A compressed product is stored uncompressed only if the keep-compressed pattern rejects it.",
  ["inputs", "configurations"],
  "Every product and every combination of pattern answers (match, no match, error), in the processor and in the slave readers.",
  TESTS + "pattern gating is not reached by any of them.",
  ["src/nbsp.c", "src/nbspre.c", "src/framep.c", "src/slavenbs/framep.c", "src/slavefp/framep.c", "src/slavein/framep.c"],
  [("pattern gates", "src/nbsp.c e_export_product; src/framep.c start_activepce; src/slave*/framep.c"),
   ("pattern selection", "src/nbspre.c")],
  "path-sensitive typestate on flattened LLVM IR", PATHS)

P("C01", "Every lock taken is released on every path, and only when held",
  "In the receiving, processing and serving daemon, every mutex that a function acquires is released before it returns, on success and on every error path; no thread locks a mutex it already holds or unlocks one it does not hold.",
  ["schedules", "fault_sequences"],
  "Every path, including failures of the lock, wait, queue and database calls, of every function that uses a mutex.",
  TESTS + "none of the daemon's threads runs under them and lock failures cannot be provoked by inputs.",
  ["src/pctldb.c", "src/nbspq.c", "src/libqdb/qdb.c", "src/stats.c", "src/nbsp.c", "src/libspoolbdb/spoolslots.c"],
  [("lock/unlock pairs", "all users of pthread_mutex_lock")],
  "path-sensitive lockset typestate on LLVM IR", PATHS)

P("S01", "A storage failure is never reported as success",
  "Saving a product to the file spool or inserting it in the memory or cache spool, and storing a record in the retransmission database, in the processing queue database, or in the in-memory reception control queue, returns success only if the complete content was handed over and every allocation, database and write operation it needed succeeded, short writes included.",
  ["fault_sequences"],
  "Every failure and short write at every storage operation, in every combination.",
  TESTS + "the library tests never make an operation fail.",
  ["src/memfile.c", "src/spooldb.c", "src/mspoolbdb.c", "src/cspoolbdb.c", "src/rtxdb.c", "src/libqdb/qdb.c", "src/pctldb.c", "src/pctlmfdb.c",
   "src/libspoolbdb/spoolbdbv.c"],
  [("file spool", "src/memfile.c save_memfile, save_memfile_skip"), ("memory and cache spools", "nbsp_mspoolbdb_insert, nbsp_cspoolbdb_insert"),
   ("databases", "nbsp_rtxdb_put, qdb_snd, pctldb_snd, pctlmfdb_snd, spooldb_write")],
  "path-sensitive typestate on flattened LLVM IR", PATHS + " The written memory itself is not compared bit by bit.")

P("S02", "Every spool stores the same bytes of a product",
  "Whatever the spool type, what is stored for a product is the received file from its first byte to its last, except that the leading communications control header is left out exactly when the configuration asks for that and the product has one.",
  ["configurations", "inputs"],
  "Every spool type, save format and product.",
  TESTS + "none of them stores a product through the processor.",
  ["src/nbsp.c", "src/efile.c", "src/memfile.c"],
  [("storing step", "src/nbsp.c pce_spool_product and the functions it calls")],
  "path-sensitive dataflow on flattened LLVM IR", PATHS)

P("S03", "The memory spool overwrites only its oldest products, within its size limit",
  "Inserting in the ring of spool databases writes to the current database only if the recorded size plus the data stays within the limit of one database; otherwise the next one in the ring (the oldest) is emptied first and becomes the current one. "
  "The recorded size grows by exactly what was inserted and is reset only when the current database was emptied; the emergency truncations follow the same rules.",
  ["histories", "fault_sequences"],
  "Every sequence of insertions and truncations, for every limit, number of databases and database failure.",
  TESTS + "those of the spool library only insert a few items and read them back; wrapping with failures is not sampled.",
  ["src/libspoolbdb/spoolbdbv.c", "src/libspoolbdb/spoolbdb.c"],
  [("ring operations", "src/libspoolbdb/spoolbdbv.c spoolbdbv_write2, spoolbdbv_truncate_oldest, spoolbdbv_truncate")],
  "path-sensitive typestate and zone analysis on flattened LLVM IR", PATHS + " Limits below 1 GiB per database.")

P("S04", "The file spool index deletes only what it overwrites and stays in bounds",
  "Entering a product in the index of the file spool deletes the file whose name is overwritten, and no other, before its slot is reused; slot number, offset and pointer always move together and stay within the index, also when a saved index is restored.",
  ["histories", "inputs"],
  "Every sequence of insertions for every index size, and every saved index.",
  TESTS + "the index is used by the daemon only.",
  ["src/spooldb.c"],
  [("ring of names", "src/spooldb.c spooldb_insert, spooldb_read")],
  "path-sensitive typestate and zone analysis on flattened LLVM IR", PATHS)

P("C02", "No thread of the daemon waits for a lock or a peer while holding a lock",
  "The order in which the daemon's mutexes are nested is acyclic. While a thread holds a mutex it does not sleep, do network input or output, wait for a child process, or wait on a condition variable other than with that mutex alone; "
  "a thread is joined under a mutex only if it never takes that mutex.",
  ["schedules"],
  "Every interleaving of the receiving, processing, filtering, serving and maintenance threads.",
  TESTS + "the threads do not run under them, and a deadlock needs a particular interleaving.",
  ["src/nbspq.c", "src/libqdb/qdb.c", "src/pctldb.c", "src/serverc.c", "src/libconn/conn_table.c", "src/libspoolbdb/spoolslots.c", "src/libspoolbdb/spoolbdbv.c"],
  [("all lock acquisitions and blocking calls", "callers of pthread_mutex_lock in nbspd")],
  "lock-order and effect analysis over locksets", "Locksets are path-sensitive per function and propagated over the call graph; lock classes are struct fields or globals, so two instances of one class count as one lock.")

P("C03", "Waiting threads re-check what they wait for, and are woken when it changes",
  "A thread that waits on a condition variable has tested the condition it stands for (a queue is empty, all read slots are in use), and tests it again after waking before acting on it. "
  "That condition is changed only with its mutex held, and every change that can end the wait is signalled in or right after the same critical section.",
  ["schedules"],
  "Every interleaving of senders, receivers and spurious wakeups, and every path of the functions that change the condition.",
  TESTS + "they are single threaded.",
  ["src/libqdb/qdb.c", "src/pctldb.c", "src/libspoolbdb/spoolslots.c"],
  [("queue waits", "src/libqdb/qdb.c nbspqt_rcv, nbspqt_snd; src/pctldb.c pctldb_rcv_pce, pctldb_send_pce"),
   ("read slot wait", "src/libspoolbdb/spoolslots.c spoolbuf_slots_open, spoolbuf_slots_close")],
  "path-sensitive typestate on flattened LLVM IR", PATHS)

P("C04", "Cancelling a thread leaves no lock held and no database operation half done",
  "The threads that the daemon cancels release, through their cleanup handlers, every mutex they may hold at a point where they can be cancelled, and they cannot be cancelled inside a database operation or while they hold a read slot of a spool.",
  ["schedules", "fault_sequences"],
  "Every cancellation point of every thread that can be cancelled, for every moment of the cancellation.",
  TESTS + "no thread is cancelled under them.",
  ["src/serverc.c", "src/servert.c", "src/libqdb/qdb.c", "src/nbspq.c", "src/cspoolbdb.c", "src/mspoolbdb.c"],
  [("client threads", "src/serverc.c client_thread_main and its cleanup handlers"), ("cancellation", "callers of pthread_cancel")],
  "context-sensitive call graph walk with cancellation state and locksets", "Cancellation points are the standard ones; contexts are (function, cancellation state, handlers pushed, locks held).")

P("M03", "Results of allocations and opens are tested before they are used",
  "In every C program of the repository, the result of a memory allocation or of opening a stream or directory is tested for failure before it is dereferenced, handed to a function that dereferences it untested, or kept in a structure when the function reports success; "
  "and a pointer known to be null is not dereferenced.",
  ["fault_sequences"],
  "Every failure of every allocation or open call, on every path of the function that made it.",
  TESTS + "no allocation fails under them.",
  ["src/pctldb.c", "src/nbspq.c", "src/mfile.c", "src/libqdb/qdb.c", "src/libspoolbdb/spoolbdbv.c", "filters/filterlib/c/dcnids/nbspradgis.c"],
  [("allocation and open sites", "all callers of malloc, calloc, realloc, strdup, fopen, fdopen, popen, opendir in every program")],
  "path-sensitive null dataflow with bottom-up function summaries", "All functions of all programs built by the repository's makefiles; pointers reloaded from memory after a call that may change it are not followed.")

P("M01", "The daemon closes every descriptor, stream and database handle exactly once",
  "In every function of nbspd, a descriptor, stream or database handle that is opened, directly or by a called function, is on every path closed, handed to the caller, or kept in a structure or global for which some place closes it; "
  "none is closed twice, returned after being closed, or left in the caller's variable after being closed.",
  ["fault_sequences", "histories"],
  "Every path of every function, with every failure of every call in it.",
  TESTS + "the error paths on which a daemon that runs for months loses descriptors are not taken by them.",
  ["src/nbsp.c", "src/libconnth/tcpsock.c", "src/slave_net.c", "src/slave_in.c", "src/spooldb.c", "src/libqdb/qdb.c", "src/rtxdb.c", "src/npcast.c"],
  [("opening calls", "all callers of open, socket, accept, fopen, popen, opendir, db_create in nbspd")],
  "bottom-up, path-sensitive ownership analysis with function summaries",
  "Functions of nbspd except main. Values reached through pointers kept in structures are followed within one function only; across functions a member that owns a value must have some place that releases it.")

P("M02", "The daemon frees every block of memory exactly once and not before its last use",
  "In every function of nbspd, a block of memory that is obtained, directly or by a called function, is on every path freed, handed to the caller, or kept in a structure or global for which some place frees it; "
  "none is freed twice, used after being freed, or left in the caller's variable after being freed, and the start routine of a thread frees the block it was given.",
  ["fault_sequences", "histories"],
  "Every path of every function, with every failure of every call in it.",
  TESTS + "the error paths on which a daemon that runs for months loses memory are not taken by them.",
  ["src/nbsp.c", "src/pctl.c", "src/nbspq.c", "src/libqdb/qdb.c", "src/serverm.c", "src/serverc.c", "src/filters.c", "src/pfilter.c", "src/slavet.c"],
  [("allocations", "all callers of malloc, calloc, realloc, strdup in nbspd")],
  "bottom-up, path-sensitive ownership analysis with function summaries",
  "Functions of nbspd except main. Values reached through pointers kept in structures are followed within one function only; across functions a member that owns a block must have some place that frees it.")

P("W01", "Sizes found in received data are checked before they are used",
  "Whatever bytes arrive (a satellite frame, a block or packet relayed by a master server, a request on the input fifo), the daemon reads them, unpacks their headers and copies their contents only within its buffers: "
  "every size that comes from the data is bounded before it is used to read, copy or index, the parts of an accepted frame lie within it, a size kept beside a buffer is never larger than the buffer, and a memory file grows before what is added to it would not fit.",
  ["inputs"],
  "Every byte sequence that can be received, of any length, in each of the receiving threads.",
  TESTS + "no frame, relayed packet or fifo request is decoded by them, and malformed ones cannot be enumerated.",
  ["src/sbn.c", "src/framep.c", "src/reader.c", "src/nbs1r.c", "src/packfp.c", "src/packfpu.c", "src/slavein/reader.c", "src/slavenbs/framep.c", "src/mfile.c"],
  [("frame decoder", "src/sbn.c unpack_sbn_headers, sbn_unpack_frame, copy_ctrlheader"),
   ("relayed packets", "src/nbs1r.c recv_nbs_packet; src/packfp.c nbsfp_recv_fpath; src/packfpu.c nbsfp_unpack_fpath"),
   ("input fifo", "src/slavein/reader.c recv_in_packet"), ("memory file", "src/mfile.c write_memfile, realloc_memfile")],
  "path-sensitive interval and linear-relation analysis (abstract interpretation) with buffer contracts",
  PATHS + " String parsing of headers (strtok, sscanf) and the client side of http are not covered.")

P("D06", "Text that is not part of a program is never used as a format string",
  "In every C program of the repository, the format argument of every call of the printf, scanf, syslog, err and warn families, and of every function of the repository that hands a parameter on as such a format, "
  "is a string constant of the program or is put together from such constants only: product names, header text, configuration values, host names and error messages are never interpreted as formats.",
  ["inputs"],
  "Every input, configuration and command line: the format does not depend on them.",
  TESTS + "a message with a stray conversion in a product or host name does not occur in them.",
  ["src/err.c", "src/file.c", "src/serverm.c", "src/httpd.c", "filters/filterlib/c/err.c"],
  [("format arguments", "all callers of the printf, scanf, syslog, err and warn families in every program")],
  "interprocedural origin analysis of format arguments", "All functions of all programs built by the repository's makefiles.")

P("N03", "Every address of a host is tried until one works",
  "When a host name is resolved to connect to it, or to open a socket on it, the addresses are tried one after the other, each with a socket of its own and regardless of the failures before it, until every step (socket options, bind and listen, connect) succeeds on one; "
  "only then is a descriptor returned, and it is the one for which the steps succeeded. Failure is reported only when the last address has failed (or memory is exhausted), with no descriptor left open by an earlier attempt handed back, and the list of addresses is freed once.",
  ["fault_sequences", "inputs"],
  "Every list of addresses and every combination of failing steps on each of them.",
  TESTS + "no connection is made by them, and the order and number of failing addresses cannot be produced by a test.",
  ["src/libconnth/tcpsock.c", "src/mcast.c", "src/libmcast/src/mcast.c"],
  [("address loops", "src/libconnth/tcpsock.c tcp_server_open_conn, tcp_client_open_conn_timed; src/mcast.c udp_client, udp_server")],
  "path-sensitive typestate over the attempts", "Every function that calls getaddrinfo in the programs built by the repository's makefiles. The inside of connect_timed is taken as one step.")

P("N01", "No client or filter is sent the rest of a stream after a gap",
  "When a write to a client does not take a whole part of a product (error or time-out), nothing more is written on that connection: the client thread ends, or the main thread is told to close it, and after the client has reconnected, on the new descriptor, the product is sent again from its beginning before another product is taken from the queue. "
  "The next product is taken only after every part of the current one was sent whole; if a part cannot be made the thread ends. A fifo on which a product was only partly written is closed before anything else is written to it.",
  ["fault_sequences", "histories"],
  "Every combination of complete, partial and failing writes, of reconnections and of failures to make a part, for products of any number of parts.",
  TESTS + "no client is connected by them, and the point where a connection stalls cannot be chosen by a test.",
  ["src/serverc.c", "src/emwin.c", "src/nbs1s.c", "src/filters.c"],
  [("client thread", "src/serverc.c client_thread_main and what it calls"), ("filter thread", "src/filters.c filter_main, sendto_fifo_filter")],
  "path-sensitive typestate of the stream with difference bounds", "The client threads and the filter thread of nbspd. That the main thread closes the connection it was told to close, and the byte counts of writem() itself, are not part of the property.")

P("N04", "Every running client that may have a product is queued it exactly once",
  "For each product taken from the server queue, every entry of the connection table that is a running network client and that the distribution filter (when enabled) does not deny gets exactly one record of its own kind: an NBS client the whole packet, an EMWIN client the record the EMWIN filter made for this very product, and only if that filter accepted it; no other entry gets anything. "
  "The state of one client (a full queue, a stopped thread, a denial) does not change what the others get. If executing the distribution filter fails, nobody gets that product.",
  ["inputs", "histories", "configurations"],
  "Every connection table (any number of entries, of any kind, in any order), every answer of the filters and of the queues.",
  TESTS + "no client is connected by them, and tables with mixed kinds and states of clients cannot be enumerated.",
  ["src/serverm.c", "src/libconnth/conn.c", "src/libconnth/ce.c", "src/appdata.c", "src/serverf.c"],
  [("distribution loop", "src/serverm.c process_server_queue, server_send_client_queues"), ("client predicates", "src/libconnth/ce.c, src/appdata.c")],
  "interval and difference-bound analysis of the loop for one arbitrary entry, per kind of client",
  "The attributes of the followed client are taken as constant during the distribution of one product; the filters' own answers are not examined.")

P("N05", "The distribution filter decides for each running client separately",
  "With the distribution filter in use, for each product and for every running client the script is executed with that client's name and address (empty if unknown), and what is then stored as the client's permission is the script's answer for its name, else for its address, else the script's default, else the built-in default. "
  "No answer of the script, or an unreadable one, is not an error; if a variable cannot be set or the script cannot be executed, failure is reported, and success is reported only if every running client got its permission for this very product.",
  ["inputs", "histories", "fault_sequences"],
  "Every connection table, and every combination of answers and failures of the script for its clients.",
  TESTS + "no distribution filter is executed by them.",
  ["src/serverf.c", "src/sfilter.c"],
  [("permission of each client", "src/serverf.c exec_net_filter, tcl_get_allow_val, tcl_set_serverinfo"), ("execution of the script", "src/sfilter.c exec_sfilter_cmd")],
  "typestate over the script's variables and answers for one arbitrary entry, with difference bounds",
  "The Tcl interpreter is modelled (variables hold what was set last); the rules a user's script implements are not examined.")

P("D01", "Nothing runs before the configured privileges are dropped",
  "At the start of nbspd, when a user and group are configured, the group, then (as root) the supplementary groups, then the user are changed to those found under the configured names, "
  "before anything is created, started or executed: no script, file, socket, thread or background process precedes them or follows a failure of one of them, which ends the program with a failing status. "
  "The stop script is executed at the end only if they were dropped.",
  ["configurations", "fault_sequences"],
  "Every combination of configured user and group, and every failing system call during the start.",
  TESTS + "nbspd itself is never started by them, and failures of setuid or setgid cannot be produced.",
  ["src/main.c", "src/init.c", "src/pw.c", "src/exec.c"],
  [("start", "src/main.c main, init; src/init.c drop_privs and what it calls"), ("look up and change of user and group", "src/pw.c"), ("end", "src/main.c cleanup, registered with atexit")],
  "path-sensitive typestate over the history of start and end",
  "The configuration files are read before (they hold the names). Threads that only handle signals are not counted.")

P("D04", "One instance works at a time and removes only its own files",
  "nbspd creates its pid file exclusively, after it has gone into the background and before the worker threads and the fifo are made, and writes its own process number into it. "
  "If the file exists already or cannot be written, the start ends with a failing status and no new file is left behind. "
  "The pid file and the fifo are removed only by the instance that made the pid file.",
  ["histories", "fault_sequences", "configurations"],
  "Every failing step of the start, every content of an existing pid file, and every point where the program may end.",
  TESTS + "nbspd itself is never started by them.",
  ["src/main.c", "src/init.c", "src/pid.c", "src/qstate.c"],
  [("pid file", "src/pid.c create_pidfile, remove_pidfile; src/init.c init_lock"), ("end", "src/main.c cleanup; src/init.c cleanup_files")],
  "path-sensitive typestate over the history of start and end",
  "The atomicity of open with O_EXCL is that of the file system. A pid file removed or replaced by others while the program runs is not considered beyond what remove_pidfile reads back.")


P("W02", "What is packed for the network is unpacked as the same",
  "The attributes of a product (sequence number, product type, category, code, channel index) and its file name and path, as packed for the queues and file-path clients, are those that a receiver of that packet unpacks, for every value a field can hold; "
  "so are the attributes, file name, compression flag, number of blocks, and number, size and place of each block of the packets that are made from it for an NBS1 client, and a slave's product gets those values. The receivers accept every packet the senders can make, and read it to its end and no further. "
  "The packets of a product are numbered 1, 2, ... and never above the announced count, and the sending function reports success only when that many were sent.",
  ["inputs", "histories"],
  "Every value of every field, of every size of block, and every number of packets.",
  TESTS + "a product is never sent or received by them, and wide values and full blocks are rare in practice.",
  ["src/packfpu.c", "src/packfp.c", "src/nbs1s.c", "src/nbs1r.c", "src/serverc.c", "src/slavenbs/framep.c", "src/pctl.c"],
  [("packing", "src/packfp.c, src/packfpu.c"), ("NBS1 packets", "src/nbs1s.c build_nbs_packet, src/nbs1r.c recv_nbs_packet, unpack_nbs1_header"), ("sender", "src/serverc.c send_nbs1_client"), ("receivers", "src/packfpu.c, src/nbs1r.c, src/slavenbs/framep.c")],
  "byte provenance abstract interpretation of the senders and, on the bytes they produce, of the receivers; difference bounds for the numbering",
  "That the announced count and the size of the last block fit the size of the file is arithmetic that is not examined. The content of the data is not followed beyond its place and length. Products are taken to have fewer than 65536 blocks (4 GB).")


P("Q01", "What is handed to a queue is stored once and accounted for, or refused",
  "An element handed to a queue of nbspd (the queue of received products, the filter and server queues, a client's queue) is stored at most once and only if, with what is already queued, the hard limit on the number of elements (for received products also the one on their total size) is not reached; a zero limit means none. "
  "The sender is told that it was accepted (0, or 1 when the soft limit on the number is reached, and only then) exactly if the element, and for a received product both its record and its data, was stored; every function up to the caller hands that on as success or failure. "
  "The number of queued elements changes by exactly one with each element stored or taken, the total size by its size. "
  "A receiver is told 0 only if it took exactly one element, handed on in the buffer it gets (a received product together with its own data and their size, also when the buffer has to grow), and 1 only if the queue is empty; it waits until a valid deadline.",
  ["inputs", "fault_sequences", "histories"],
  "Every number of queued elements, limit, data size, timeout and outcome of each database operation.",
  TESTS + "the queues are used by them with a few elements, no limits and no database failures.",
  ["src/libqdb/qdb.c", "src/pctldb.c", "src/pctlmfdb.c", "src/pctl.c", "src/nbspq.c", "src/libconnth/cq.c"],
  [("queues", "src/libqdb/qdb.c nbspqt_snd, nbspqt_rcv"), ("received products", "src/pctldb.c pctldb_send_pce, pctldb_rcv_pce; src/pctlmfdb.c"), ("status", "src/nbspq.c e_nbspq_snd1, e_nbspq_rcv1; src/pctl.c epctl_send, epctl_rcv; src/libconnth/cq.c")],
  "path-sensitive typestate with difference bounds over the inlined queue functions, every database operation split into success and failure",
  "What Berkeley DB does with a record it accepted is not modelled. The limit on total size is decided for several limits and sizes, the total being arbitrary. The report of the soft limit on total size is not covered. Counts and limits are taken to be below 2^30.")
P("P01", "No '/' that was received gets into the path of a product",
  "Whatever characters the header lines of a broadcast product contain, and whatever name a product sent by a master or peer has, a product that is kept (still open when the frame or packet has been processed, so that it goes on to be filed) has a path built for it, and no '/' that was received is part of that path: the directory it is filed in is the one the program builds.",
  ["inputs"],
  "Every content of the header lines of a frame and of the packets of a master.",
  TESTS + "they use well formed names.",
  ["src/sbn.c", "src/framep.c", "src/slavenbs/framep.c", "src/pctl.c"],
  [("broadcast", "src/sbn.c split_wmo_header, validate_wmo; src/framep.c make_product_fname"), ("masters", "src/slavenbs/framep.c split_fbasename, get_fpath")],
  "path-sensitive taint analysis of one witness character with positions, over the inlined processing of one frame or packet",
  "One received '/' is followed at a time, at every position of every received field; so '..' alone (a single component) is not excluded, and a name with several '/' is decided through each of them. The packet of a slave's reader is taken as it is stored in memory; the names in the fifo of recv_in are not covered.")
P("D02", "Stop signals end nbspd in an orderly way, whenever they come",
  "Whenever nbspd creates a thread the signals INT, QUIT, ABRT, TERM, HUP, PIPE and ALRM are blocked, and no thread unblocks them; one thread that waits for them exists before any other thread does, and nbspd does not detach (daemon) after that. "
  "For each of INT, QUIT, ABRT and TERM that it receives, that thread sets the flag that asks all threads to end (and nothing clears it again); for HUP it records the request to reload; none of HUP, PIPE and ALRM ends the program. "
  "In every thread, a loop that waits for something again and again, and is not counted, reads that flag in each round; and a thread that has read it as set does not wait for anything more (data, connections, time).",
  ["schedules", "histories", "inputs"],
  "Every moment a signal can come at, every signal, every state a thread can be in when the flag is set.",
  TESTS + "nbspd is not run by them, and a signal would have to come at every possible moment.",
  ["src/signal.c", "src/main.c", "src/reader.c", "src/slave_net.c", "src/slave_in.c", "src/serverm.c", "src/serverc.c", "src/filters.c", "src/nbsp.c", "src/nreadn.c"],
  [("signals", "src/signal.c init_signals_block, init_signals_thread, signal_thread, signal_handler"), ("order", "src/main.c main"), ("loops", "the *_main functions of the threads and their loops")],
  "typestate analysis of the signal mask over main, path-sensitive analysis of the signal thread for each signal, loop analysis of every thread",
  "Waits for a condition variable by itself are the subject of C03. A loop one of whose exits depends on something that it counts or walks through is taken to end. A read or write that blocks in the kernel is not counted as waiting again and again.")
P("D03", "When nbspd ends its threads end first, then what they use is closed",
  "However nbspd ends once it has started threads or while it is starting them (main returns, or the program exits because a step of the start failed or a stop signal came), each thread that main created was asked to end (the quit flag was set, or the thread was cancelled) and has been joined, exactly once, before anything that it uses is closed or released, the pid file is removed, the stop script is executed, or the program is over. "
  "No thread that was not created is joined or cancelled. Only main ends the program: no other thread calls exit. "
  "No text taken from the configuration file is used after the texts were released.",
  ["histories", "fault_sequences", "configurations"],
  "Every combination of failing calls during the start, every set of threads that were created, every way of ending.",
  TESTS + "nbspd is never started nor stopped by them.",
  ["src/main.c", "src/init.c", "src/reader.c", "src/slave.c", "src/serverm.c", "src/filters.c", "src/nbspq.c", "src/signal.c"],
  [("cleanup", "src/init.c cleanup, atexit"), ("threads", "kill_* of reader.c, slave.c, serverm.c, filters.c, pctlmfdb, nbspq.c, signal.c"), ("signals", "src/signal.c signal_handler")],
  "typestate analysis of the threads over the whole history of main and its atexit functions, with what each thread uses and each function releases collected over the call graph",
  "At most two reader threads (whichever of them) and two slaves, slaves of the types 1 to 3. What a thread 'uses' are the places in global variables that it and what it calls mention. That a thread that was asked to end really does is not decided here (liveness).")
P("D05", "A child process of nbspd runs a program or ends, and is waited for",
  "After a fork the child only runs another program (exec) or ends with _exit, whatever fails: it never returns into the daemon, never ends with exit (which would remove the pid file and wait for threads that it does not have), and does none of the daemon's work (locks, waits, pipes, removals). "
  "The daemon itself never executes another program. It waits for exactly the child that it made, until that has ended, before it goes on; nothing in nbspd waits for just any child, so the end of a filter or of the web server is seen by whoever opened it.",
  ["fault_sequences", "histories"],
  "Every outcome of fork (also the second one), exec and waitpid.",
  TESTS + "a failing fork or exec is not produced by any test.",
  ["src/exec.c", "src/per.c"],
  [("scheduler", "src/exec.c exec_scheduler, exec_external_program, wait_first_child")],
  "path-sensitive analysis of both sides of every fork",
  "What popen does inside the library is not looked at; M01 decides that what it opened is closed. Functions called through a pointer are followed up to their return.")
P("C05", "What threads share is used by one thread only or under its lock",
  "In nbspd the fields of every structure that has a mutex (queues, reception queue, memory spool and its read slots, state of a client's connection) and that several threads use are read and changed only with that mutex held, from its construction to its destruction; so are operations on the database handles of such structures. "
  "A global variable that running threads change is used by one thread only or under one lock; a request to reload or to hang up is taken and cleared in one critical section, so none is lost. "
  "The thread of a client is given a copy of its own of its element of the connection table, complete before the thread starts and not touched by others afterwards. "
  "By design and not covered: numbers that are only reported, flags that are only ever set, and the server's own looks at a connection's status and queue length.",
  ["schedules"],
  "Every interleaving of the threads of nbspd, and every call chain from a thread to an access.",
  TESTS + "nbspd's threads are never run by them, and the schedule cannot be chosen by a test.",
  ["src/libqdb/qdb.c", "src/pctldb.c", "src/pctlmfdb.c", "src/libspoolbdb", "src/libconnth", "src/signal.c", "src/filters.c", "src/serverm.c", "src/serverc.c"],
  [("queues", "src/libqdb/qdb.c, src/pctldb.c"), ("spool", "src/libspoolbdb/spoolbdbv.c, spoolslots.c"), ("connections", "src/libconnth/ce.c, conn.c; src/serverc.c client_thread_create"), ("requests", "src/signal.c, src/filters.c, src/serverm.c")],
  "lockset analysis: locks held at every access, path-sensitive and propagated through the call graph from every thread",
  "Which of several objects of the same kind a lock belongs to is not distinguished. Readers of the broadcast and the slave threads are alternative modes of operation. Fields of structures nested in a guarded structure are not followed.")

N("X01", "An accepted product reaches every client that may have it",
  "Every product accepted by nbspd is eventually delivered to every connected client and filter whose selection accepts it, within the configured timeouts.",
  ["schedules"],
  "Every schedule, load and speed of the clients.",
  TESTS + "no client or schedule is exercised.",
  ["src/serverm.c", "src/serverc.c", "src/filters.c"],
  [("clients", "src/serverm.c, src/serverc.c"), ("filters", "src/filters.c")],
  "A liveness property over time-outs, scheduler and network; no sound static argument bounds them. The safety parts are claimed separately (N01, N04, N05, Q01, C02, C03).")

N("X02", "No frame of the broadcast is lost at line rate",
  "nbspd receives and processes frames as fast as the satellite receiver sends them, without loss in the socket buffer.",
  ["schedules"],
  "Every load of the system.",
  TESTS + "throughput depends on the machine.",
  ["src/reader.c", "src/nbsp.c"],
  [("readers", "src/reader.c")],
  "A quantitative property of the running system (speed of disks, database and scheduler); the source does not determine it.")

N("X03", "Decoders produce the values the producers encoded",
  "The GOES-R, NIDS radar and upper air decoders output the physical values that the product formats define for the bytes received.",
  ["inputs"],
  "Every product.",
  TESTS + "they compare a few outputs.",
  ["filters/filterlib/c"],
  [("decoders", "filters/filterlib/c/dcgoesr, dcnids, dcgini")],
  "The oracle is the formats' external documents (scaling, projections), which are not in the repository; without it static analysis has nothing to compare the arithmetic with. Safety of the parsing is claimed in W01 and M03.")

N("X04", "The Tcl filters store and deliver products as their configuration says",
  "The filter scripts under tclfilters and the tcl* directories apply every rule of the user's rc files to every product they receive.",
  ["inputs", "configurations"],
  "Every rc file and product.",
  TESTS + "they run no filter.",
  ["filters"],
  [("filters", "filters, tclgempak, tclgrads, tclmetar")],
  "The rules are Tcl code and array keys evaluated at run time (eval, source, uplevel); which commands run is not determined by the sources, and no static semantics of them is at hand here.")
