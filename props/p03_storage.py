N = ("Complete within the stated bounds: every history, every fault or crash position and every listed torn state is executed on the real class from /repo over a simulated flash block; "
     "histories are found by depth-first enumeration of all choices. Trusted: compiler, the flash model (programming only clears bits, reported success is true unless injected otherwise).")
P("C05", "Stored settings survive power loss at any point",
  "Whatever the history of writes and restarts and wherever power is lost, including in the middle of programming a cell, after power returns reading yields the last completed write or the one that was in progress, complete and valid; never anything else, never a torn value. "
  "Only a loss during the erase that starts a new pass, or before the first write of that pass has completed, may lose the values of the previous pass; reading then yields the newest value still intact or reports that there is none. "
  "After any recovery further writes succeed, are read back, and survive restarts.",
  ["crash_points", "histories"],
  "All histories of up to 6-9 (thorough 8-12) writes and restarts on blocks of 1, 2, 3, 4 and 6 cells, blank or containing garbage, with up to 2 (3) power losses at every storage operation: 6 torn-cell patterns, every subset of cells erased; also histories that write an earlier value again.",
  "The tests run a few complete histories with a fault-free or grossly broken store and never cut power.",
  ["util/wear_level.hh"], [("append to the next blank cell, erase only when full", "WearLevel/WearLeveler write"), ("scan from the top for the newest valid cell", "WearLevel/WearLeveler constructors")],
  "Exhaustive enumeration of histories and crash points, including torn writes and partial erases, on the real code", "fault_enumeration", N,
  "One evaluation = one history with its crash points and torn states. Non-trivial: at least one power loss happened.",
  [dict(name="c05", src="c05_crash.cc"), dict(name="c05big", src="big.cc", flags=["-DBIG=5"])], ["Data validation rejects torn values (that is what its checksum is for)."])
P("C06", "Settings storage tolerates failing cells, reads and erases and spreads wear",
  "Whatever pattern of storage failures occurs, reading reports success only with a value that is intact in the block, and it is the newest such value unless a read itself failed; a write that reports success has been stored, one that finds nothing wrong succeeds, and once the storage works again writing works again and survives a restart. "
  "Only cells of the block are ever accessed, only blank cells are written, reading and starting up never modify the block, the block is erased only when no unused cell is left, and without failures every cell is written equally often with one erase per pass.",
  ["fault_sequences", "histories"],
  "All histories of up to 5-8 (thorough 6-9) writes, restarts and reads on blocks of 1, 2, 3 and 5 cells with up to 2 (3) injected failures of 5 write kinds, 5 erase kinds and 2 read kinds at every storage operation; also histories that write an earlier value again.",
  "The tests simulate one bad cell and one kind of failing erase in fixed histories.",
  ["util/wear_level.hh"], [("is-writeable scan with a single erase per write", "WearLevel/WearLeveler write"), ("downward scan on read", "WearLevel/WearLeveler read")],
  "Exhaustive enumeration of histories and storage fault patterns on the real code", "fault_enumeration", N,
  "One evaluation = one history with its faults. Non-trivial: at least one fault was injected.",
  [dict(name="c06", src="c06_faults.cc"), dict(name="c06big", src="big.cc", flags=["-DBIG=5"]), dict(name="c06pair", src="pairs.cc", flags=["-DPAIR=6"])],
  ["An erase that reports success leaves no valid data behind.", "A start-up read failure combined with earlier write failures is left open."])
P("C07", "Double-buffered stream sends every accepted element once, in order",
  "Over every history of transmit calls, completions and refusals by the hardware, the chunks handed to the hardware are, in order and without loss or duplication, exactly the elements of the accepted transmit calls; a chunk being transmitted is never changed and no second one is started before its completion. "
  "A transmit call is refused, leaving no trace, only if its data does not fit behind what is already waiting or the hardware refuses to start; data that had been accepted while busy is sent on completion, or with the next transmit call if the hardware refused it then.",
  ["histories", "fault_sequences"],
  "All reachable states of streams of 1, 2, 3, 4 and 8 elements under transmit calls of every length, completions (also spurious) and hardware refusals; all histories of up to 6 (8) events without state merging; element values from alphabets with default, largest and repeated values.",
  "The tests run two straight histories with hardware that always accepts.",
  ["util/doublebuf_stream.hh"], [("inactive buffer collects while the active one is sent", "util/doublebuf_stream.hh transmit"), ("buffer swap on completion", "util/doublebuf_stream.hh tx_done_callback")],
  "Explicit-state breadth-first search over event histories of the real class, lock-step against a reference model", "model_checking",
  "Complete within the stated bounds; every edge is executed on the real class from /repo under AddressSanitizer. Trusted: compiler, reference model.",
  "One execution replays one history of events; states distinct by buffer fill levels and transmission status. Non-trivial: state-changing or refused event.",
  [dict(name="c07", src="c07_dbuf.cc"), dict(name="c07big", src="big.cc", flags=["-DBIG=7"]), dict(name="c07pair", src="pairs.cc", flags=["-DPAIR=7"])], ["Completion does not interrupt a transmit call (documented).", "Empty transmit calls are left open."])
