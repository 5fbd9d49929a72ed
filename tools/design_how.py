HOW = {
"C01": "the connect/disconnect program and the priorities are symbolic; oracle: the connections sorted (stably) by descending priority, compared with the log of invocations for emit, call and emit_fast, twice.",
"C02": "the shape of the parameter list, kind of callable, arity, argument count and max_args are symbolic; oracle: Python itself (the callback is called directly with 0..n arguments to find out which counts it accepts).",
"C03": "the declared types are classes whose metaclass answers issubclass/isinstance by a solver variable per pair, so every reflexive relation is covered; oracle: the statement evaluated over the same variables; a second harness uses real classes.",
"C04": "histories over callables whose owners/arguments have symbolic equality; oracle: a counting model of connected callables (multiset), checked through `in`, len, connect results and who is called.",
"C05": "the moment each owner is released (between emissions, or inside any invocation of any callback) is symbolic; oracle: weak references plus the list of live connections.",
"C06": "which invocation of which callback emits how often is symbolic; oracle: reference interpreter of the three documented modes over callback sequences.",
"C07": "programs of block/unblock/pause/resume/contexts/emissions with arbitrary values, and with callbacks that emit/pause/raise during delivery; oracle: reference interpreter (held list, blocked depth), functools.reduce for reducers.",
"C08": "which callback fails when, at which depth and in which mode is symbolic; oracle: the error names callback, signal and original error, and a plain emission afterwards behaves as on a fresh signal.",
"C09": "trees of emissions over several signals are symbolic; Signal.current_emitter()/sender() are read on entry and after each action; oracle: the stack of emissions the harness itself started.",
"C10": "callbacks that connect/disconnect/emit at symbolic points; oracle: every callback connected throughout runs exactly once, in order, disconnected ones never after their disconnection.",
"C11": "programs of connects/disconnects on group and members with emissions of every member; oracle: one EmissionInfo per member emission and group callback, with the member's arguments, in order of nesting.",
"C12": "programs of nested group/member blocks and pauses with exclusions; oracle: per member a stack of reasons for being blocked.",
"C13": "threads under the symbolic scheduler, thread-bound callbacks, drains at arbitrary points; oracle: each queued call runs once, on its thread, in queue order, other callbacks directly.",
"C14": "2-3 threads of emit/connect/disconnect with symbolic preemption at any line; oracle: the observed result is one that some serial order of the operations gives; no deadlock; current_emitter per thread.",
"C15": "call instants, arguments and operations are symbolic on a virtual clock; oracle: reference interpreter of the throttle policy (leading/trailing).",
"C16": "as C15 with the debounce policy.",
"C17": "each list operation with unbounded integer indices / bounded slices over elements with symbolic identity and equality; oracle: the built-in list on the same elements, compared item by item by identity, including exceptions.",
"C18": "every mutating operation; oracle: replaying the event log on a plain copy gives the list, at each before-event the list is unchanged and at each after-event changed; unchanged operations emit nothing.",
"C19": "all moves; oracle: the permutation stated in the documentation computed on plain lists.",
"C20": "histories over children of several kinds, then an emission of every child; oracle: child_event exactly for the children now in the list, with their index found by identity.",
"C21": "each dict operation with keys of any coincidence pattern; oracle: built-in dict (results, order, exceptions) plus replay of the events.",
"C22": "each set operation; oracle: built-in set plus the exact net difference per notification; insertion order for ordered sets.",
"C23": "histories of selection operations with arbitrary items; oracle: set model with active/current invariants and one notification per change; plus listeners that change the selection in turn.",
"C24": "histories over list and selection; oracle: the selected items that are still in the list, by identity; navigation computed on plain indices.",
"C25": "histories of assignments on six kinds of classes; oracle: the declared comparison (or identity/==) applied by the harness to the same symbolic values.",
"C26": "as C25 for EventedModel, with validators that keep, replace or reject any value.",
"C27": "dependency graphs with symbolic setters; oracle: the property evaluated before and after each assignment by plain functions.",
"C28": "update/reset with every sub-mapping and any values; oracle: the fields' values before and after, one notification per changed field, all values in place when the first listener runs.",
"C29": "states of signals/groups/containers/models before copying are symbolic, so are the operations afterwards on copy and original; oracle: the same operations on the original without copying; copies made by running callbacks.",
"C30": "each operation on the proxy next to the same one on the plain object; oracle: results and state equal, one event per change.",
"C31": "histories of creating, releasing, replacing (at the same address), copying, connecting and emitting over 17 class families; oracle: a callback hears exactly the emissions of the object it was connected to.",
"C32": "histories of setter connections with arbitrary values; oracle: a plain setattr/setitem model per connection.",
"C33": "programs of emissions inside monitors; oracle: the harness's own list of emissions; connections before and after are compared.",
"C34": "every combination of options through every way of connecting; oracle: the statement evaluated over the options, and that a refused connection changed nothing.",
"C36": "items with symbolic identity/equality and validators that keep, replace or reject each; oracle: the list of decisions, and pydantic's own list/set/dict types for typed items.",
"C37": "families of classes and option combinations are symbolic; oracle: the statement evaluated over the choices, the comparison answered by the harness.",
"C38": "programs over a stand-in QTimer (qtpy is replaced for the import of psygnal.qt), emissions from real other threads; oracle: a table of running timers and a queue.",
"C39": "declarations with any combination of options on owners of several kinds; oracle: the options themselves, tested by what the instance does (accepting or refusing callbacks, the order of a nested emission, names and owner shown).",
"C35": "class declarations over ordinary, private and reserved names; oracle: the mapping name -> declared signature.",
}
SEEDS = {
"c02-max-args-builtin": "C02 (first missed: builtin methods were connected with their own arity only; harness `builtins` added)",
"c07-falsy-initial": "C07 (first missed: initial values were opaque true objects; false/empty/None initials added)",
"c14-setattr-unlocked": "C14 (first missed: the concurrent changes were connect/disconnect only; setter connections and priorities added)",
"c14-contains-unlocked": "C14 (found by a mutant that no check caught: threads that only ask were not in the family; harness `queries` added)",
"c15-stale-args": "C15 (first missed: all calls had the same form; calls without arguments and with keywords only added)",
"c23-empty-parent": "C23 (first missed: parents were never empty; sizes 0-2 now)",
"c35-mro-order": "C35 (first missed: two levels of classes only; harness `chain` added)",
}
