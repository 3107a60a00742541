# what is claimed, and how it is decided
PE = "path-sensitive event-trace dataflow over the LLVM IR of the current sources"
CHECKS = {
 "P01": dict(technique=PE + ": write-set and lockset typestate on the outcome fields, status-literal facts at every write", note="every write of status/resolved/rejected on every path; loops folded to one iteration; aliasing by access path"),
 "P02": dict(technique='conditional constant propagation of every operation over finite case tables on the LLVM IR, compared with a reference model of attach / complete / detach (who is queued, who is notified, under which lock)', note='list identity is by field; list library functions are trusted'),
 "P03": dict(technique="lock-balance typestate on every CFG path of every function, three build configurations", note="locks identified by access path"),
 "P04": dict(technique="lockset + interprocedural effect analysis (may run user code / may block)", note="calls through unknown pointers are user code unless they are an internal virtual slot whose implementations are analysed; worker start handshake mutex excluded"),
 "P05": dict(technique="interprocedural lock-order graph, cycle detection, same-class nesting", note="lock classes are struct fields"),
 "P11": dict(technique="conditional constant propagation over the finite decision table of the set (flags x outcome x counts), path-sensitive lockset for the accounting, constructor rows with exact loop propagation", note="up to three inputs per decision row and 18 per constructor row; callees are summarised by their contracts"),
 "P17": dict(technique="conditional constant propagation of every operation over finite case tables on the LLVM IR, compared with a reference model of the channel's three queues and its capacity", note='queue library functions are trusted; queue lengths and capacity range over a small finite table'),
 "P18": dict(technique='conditional constant propagation of every operation over finite case tables on the LLVM IR, compared with a reference model of the close flags, the drain rules and the wake-up of every waiter', note='queue library functions are trusted; queue lengths range over a small finite table'),
 "P19": dict(technique="conditional constant propagation of every operation over finite case tables on the LLVM IR, compared with a reference model of permits and waiters, with lock sets", note="queue library functions are trusted; waiter and permit counts range over a small finite table"),
 "P09": dict(technique="conditional constant propagation of the block's callback dispatch over a finite case table (kind x outcome x callback result), constructor rows, path-sensitive release counting", note="the callback itself is an unknown call"),
 "P10": dict(technique="conditional constant propagation of discard over all dependent lists up to a bound, simulated GQueue model; handler tables per class", note="lists of up to three dependents; longer lists by loop uniformity"),
 "P06": dict(technique="guarded-by analysis (lockset at every access on every path) with escape analysis for fresh objects", note="guard table is stated in sa/rules/p06.py"),
 "P12": dict(technique="conditional constant propagation of every typed await over its outcome table (value of each type / error), ownership of the returned copy by trace dataflow", note="GValue accessors and g_type_is_a are modelled"),
 "P13": dict(technique="conditional constant propagation of every typed constructor, resolver and async-pair return with a model of GValue initialisation, setters and ownership", note="GValue setters are trusted"),
 "P14": dict(technique=PE + ": value/error exclusivity facts at every completion site, error domain and code resolved from the creating call", note="errors coming from outside the library are not judged"),
 "P15": dict(technique="conditional constant propagation of the async-pair state machine (start, ready callback, cancel, finalise) over its case table", note="the wrapped operation follows the GIO async convention"),
 "P16": dict(technique="interprocedural pairing analysis of every GIO wrapper: start call, callback resolved from its argument, finish call, reference balance", note="pairing table start/finish derived from names plus a list of irregular ones"),
 "P27": dict(technique="conditional constant propagation of timeout creation, firing, postponing and finalising over a finite case table; arithmetic width inspection in the IR", note="GSource functions are trusted"),
 "P28": dict(technique="conditional constant propagation of arming, firing and finalising signal and cancellable futures over a finite case table, with a model of weak references and GValue", note="GSource and GCancellable signal functions are trusted"),
 "P30": dict(technique="conditional constant propagation of every operation of a delayed future over (held back x input state) with lock and order obligations", note="the input's notification itself is P02"),
 "P36": dict(technique="conditional constant propagation of promise creation, exposure, discard and release; write-set and call-site scan of all other promise operations", note="when discard reaches the promise is P10"),
 "P38": dict(technique="definite-assignment and address-escape dataflow over every path of every function on the LLVM IR", note="a local whose address is passed to a call counts as given a value from then on; loops folded to one iteration"),
 "P37": dict(technique="conditional constant propagation of the descriptor functions over a table of descriptors, ownership of every use site by trace dataflow", note="GBoxed machinery is trusted"),
 "P29": dict(technique="conditional constant propagation of the bridge's creation, await, completion, callback and propagate functions over a finite case table (every value type for every propagate function), with lock and order obligations", note="GSource and dex_future_finally (P09) are trusted"),
 "P20": dict(technique="conditional constant propagation over small scheduler states with a simulated queue model: await, completion, registration, prepare/check and dispatch (every sequence of fiber behaviours up to a bound), lock and order obligations", note="two (thorough: three) fibers per dispatch; the context switch itself is N05"),
 "P21": dict(technique="conditional constant propagation of fiber creation, entry, outcome, data release, exit and discard over the finite table of return values, constant evaluation of the entry trampoline", note="the context switch itself is N05"),
 "P22": dict(technique='conditional constant propagation of stack creation over (size x page size x minimum), of freeing, pooling and of the dispatch rows (stack state x size x pool fill x outcome) with a simulated queue model and lockset', note='mmap/mprotect are trusted; the default page-layout configuration of this platform is analysed'),
 "P24": dict(technique='conditional constant propagation of push, pop and steal over (ring size x fill x index range x every pattern of concurrent steals at the points the protocol allows), with a model of ring contents and of compare-exchange; event-order rules for fences and atomic orders', note='weak-memory linearizability itself is N03; index values are sampled at small, wrapped and large positions'),
 "P23": dict(technique='abstract interpretation over a finite case table of queue contents (conditional constant propagation on LLVM IR), with lock sets and a points-to model of the queues', note='Every push, drain, pop, steal and flush routine is interpreted abstractly for queues of 0-4 items (plus items pushed during dispatch), 1-4 workers and batch sizes 1/2/8: an item is stored complete under the lock before the notification, taken under the lock, invoked once with its own data, freed once. Interleavings are covered by the lock-set and ordering obligations (with P24 for the lock-free ring), not by enumeration.'),
 "P25": dict(technique='abstract interpretation over a finite case table (conditional constant propagation on LLVM IR, errno modelled as a clobberable cell)', note="Both backends' read/write handlers, submission, worker and completion paths are interpreted abstractly for 7 counts x 6 offsets x results/errno values; the bytes each request writes into the io_uring SQE / passes to pread/read/pwrite/write are compared with the request, and the completion value with the recorded result."),
 "P26": dict(technique='abstract interpretation over a finite case table of queue, ring and completion states (conditional constant propagation on LLVM IR) with lock sets and reference counting per path', note='Submission (thread x queue x room), prepare (0-4 queued x 7 ring-room patterns), worker and dispatch (0-65 completions, late arrivals) are interpreted abstractly; each request must appear exactly once downstream, with one reference, under the lock, and be recorded, acknowledged, completed and released in that order. Races are covered by the lock-set/ordering rules. Requests in flight when a context is destroyed are outside the property.'),
 "P34": dict(technique='abstract interpretation over a finite case table of queue states (conditional constant propagation on LLVM IR), plus a path-sensitive create/attach/release typestate of every GSource', note="prepare, check and dispatch of all six source types are evaluated for empty and non-empty queues (contents 0-7); every function that creates a source is followed on all paths from creation to attach/hand-out/release; owners' teardown must destroy what they attached."),
 "P33": dict(technique='abstract interpretation of worker start, run, stop and finalisation over a finite table of states (lock-set and ordering obligations on every path)', note="The creator's wait loop is decided for 0-3 waits; glib's threads, conditions and main loops are modelled by their contracts."),
 "P35": dict(technique='abstract interpretation of the once-sections over a finite case table (first, second and late caller) plus an effect analysis of every write to a process-wide variable', note="glib's once and private-data primitives are modelled by their contracts."),
 "P32": dict(technique='abstract interpretation of every finaliser over a finite case table (each owned field present or absent, queues of 0-3 elements)', note="glib's own release functions are modelled by their contracts; completions still queued in an I/O context are covered by P26."),
 "P31": dict(technique="static path-sensitive guard (typestate) analysis of all exported functions' object parameters", note="every exported function x object parameter (from the installed headers): no use before the declared type's check, neutral exit on its failure; documented-nullable NULL accepted"),
 "P08": dict(technique='static case-table analysis (abstract interpretation) of the reference protocol', note='dex_ref/unref and all weak-reference operations on every case: last/not last/upgraded/dropped again with 0..3 weak refs, all list positions; locks, ordering, ownership of fields, finaliser chaining'),
 "P07": dict(technique='ownership ledger: dataflow of every owned reference (objects, errors, strings, variants, queues) along every path of every function of the library, with a contract table for every callee', note='aliasing through containers and callback hand-over follow the contract table; reference cycles are outside it'),
}
NA = {
 "N01": "fairness is a liveness property over infinite executions of the main loop and the kernel scheduler; no static argument in reach bounds it",
 "N02": "quantifies over clock readings and main-loop load; the source code fixes only the conversion and the rejection, which P27 decides",
 "N03": "equivalence of all weak-memory executions needs a memory-model exploration (model checking); P24 decides the statically visible protocol (orders, masking, growth), not linearizability",
 "N04": "a quantitative bound over unbounded histories; the pools are deliberately unbounded or trimmed lazily",
 "N05": "hand-written assembly and libc context routines; IR-level analysis does not see registers",
}
