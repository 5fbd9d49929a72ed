import json
P=[]
def p(id,title,statement,over,text,why,files,mech,obs=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=m,where=files[0]) for m in mech],**({"observe_at":obs} if obs else {}))))
S="src/psygnal/_signal.py"; W="src/psygnal/_weak_callback.py"; G="src/psygnal/_group.py"; Q="src/psygnal/_queue.py"
D="src/psygnal/_group_descriptor.py"; M="src/psygnal/_evented_model.py"; T="src/psygnal/_throttler.py"
L="src/psygnal/containers/_evented_list.py"; DI="src/psygnal/containers/_evented_dict.py"; SE="src/psygnal/containers/_evented_set.py"
SL="src/psygnal/containers/_selection.py"; SEL="src/psygnal/containers/_selectable_evented_list.py"; PX="src/psygnal/containers/_evented_proxy.py"
p("C01","Every connected callback runs exactly once per emission, in priority order",
"For any sequence of connections and disconnections made while the signal is idle, one emission calls each currently connected callback exactly once per connection, with the emitted arguments. Callbacks run in descending priority, whatever integers the priorities are, and callbacks of equal priority run in the order they were connected. This is the same for every way of emitting (emit, calling the signal, emit_fast) and for every repeated emission.",
["inputs","histories"],"all integer priorities, all argument values, all connect/disconnect programs up to the stated length","The tests connect a handful of callbacks with a few fixed priorities; the order guarantee is about every assignment of priorities and every interleaving of connects and disconnects.",
[S],["SignalInstance.connect","SignalInstance._append_slot","SignalInstance._run_emit_loop","SignalInstance.emit_fast"],["callback invocations"])
p("C02","Connecting checks arity; callbacks get the longest prefix they accept",
"A callable is accepted by a default connect exactly when it can be called with no more positional arguments than the signal declares and has no required keyword-only parameter; otherwise connecting raises ValueError and changes nothing. On emission an accepted callback receives the longest prefix of the emitted arguments that its positional parameters (or an explicit max_args) allow, in order and unmodified. Emitting with check_nargs=True raises TypeError, without calling anything, exactly when the number of arguments differs from the signature.",
["inputs","programs"],"all parameter lists (positional-only/regular/optional/*args/keyword-only) up to the bound, all signal arities and argument counts up to the bound, all max_args values","Tests enumerate about a dozen hand-written signatures; compatibility is a relation over all parameter lists and arities.",
[S,W],["SignalInstance._check_nargs","_acceptable_posarg_range","SignalInstance.emit","WeakCallback max_args handling"],["connect result","callback arguments"])
p("C03","Type checks reject exactly the incompatible callbacks and arguments",
"With check_types, connecting succeeds exactly when every annotated parameter of the callback (other than *args) that lines up with a signal argument is annotated with that argument's declared type or a subclass of it (a union is accepted when one of its members is), and emitting succeeds exactly when every argument's type is the declared type or a subclass. A rejected connect (ValueError) or emit (TypeError) has no effect: nothing is connected and no callback runs.",
["inputs","programs"],"all assignments of types from a small class lattice to signal, callback annotations and arguments, up to the stated arity","Tests sample few type combinations; the relation is over all combinations and positions.",
[S],["_parameter_types_match","_is_subclass","SignalInstance.emit","SignalInstance.connect"],["raised errors","callback invocations"])
p("C04","Connection bookkeeping follows callback identity",
"For every history of connects and disconnects over callables of any kind (functions, bound methods of equal or unequal objects, partials, builtin methods, callable objects), a callable is reported as connected exactly while it has been connected more often than disconnected, the length counts the connections, and disconnecting one callable never removes or hides another. Connecting with unique=True never adds a second connection and unique='raise' raises ValueError exactly when the callable is already connected; disconnecting an unconnected callable raises ValueError exactly when missing_ok is False, and disconnecting without argument removes everything.",
["histories","programs"],"all programs of connect/unique-connect/disconnect operations up to the stated length over the callable kinds","Tests disconnect a callable right after connecting it; conflation of two different callables, or stale entries after particular sequences, need specific pairs and histories.",
[S,W],["weak_callback","SignalInstance._slot_index","SignalInstance.disconnect","WeakCallback.__eq__/_key"],["contains","len","callback invocations"])
p("C05","Callbacks bound to a dead object are never called and disappear",
"Connecting a bound method, a partial of one, or an attribute/item setter keeps no strong reference to its object: once the object is released, and at whatever moment of the history this happens (between emissions or in the middle of one), its callbacks are not called again, the remaining callbacks are still each called exactly once in order, and the connection count drops to the live connections. Plain functions, lambdas and objects that cannot be weakly referenced stay connected.",
["histories"],"all programs of connects, releases and emissions up to the stated length, including releases made by a running callback","Tests delete one object between two emissions; which objects die, in which order, and when relative to an emission is a quantifier over histories.",
[S,W],["WeakCallback subclasses","SignalInstance._try_discard","emit loops"],["callback invocations","len"])
p("C06","Nested emissions follow the declared re-emission mode",
"When callbacks emit the same signal again, the mode of the signal alone fixes the exact sequence of callback invocations: 'immediate' runs each nested emission completely at the point where it is made, 'queued' runs it completely after the current one, emissions in the order they were made, and 'latest-only' runs it completely at once and then abandons what remained of the emission it interrupted. Every emission made with emit() in 'immediate' and 'queued' mode is delivered to every callback exactly once, and in 'latest-only' the last emission made always is.",
["programs","inputs"],"all re-emission programs: which callback, at which of its invocations, emits how many times, up to the bound; all three modes","Tests run one fixed re-emission pattern per mode with one emission threshold; the order depends on the whole tree of nested emissions.",
[S],["SignalInstance._run_emit_loop_immediate/_queued/_latest_only","SignalInstance._run_emit_loop"],["sequence of (callback, argument)"])
p("C07","Blocking drops, pausing defers: nothing lost, duplicated or reordered",
"While a signal is blocked, emissions have no effect; while it is paused, emissions are held back and on resume are delivered exactly once, in the order made (or once as the value of the given reducer over all of them), and emissions made by callbacks during that delivery behave as ordinary ones. Properly nested block or pause contexts take effect until the outermost one ends and then restore the state found at entry; emission is possible again afterwards even if a callback raised while held-back emissions were being delivered, and nothing is delivered twice.",
["histories","programs"],"all programs of emit/block/unblock/pause/resume/nested contexts up to the bound, arbitrary arguments, callbacks that re-enter pause/resume or raise","Tests use a single block or pause around straight-line emissions; nesting, re-entrancy and failures during resume are histories they do not sample.",
[S],["SignalInstance.block/unblock/blocked","SignalInstance.pause/resume/paused","_SignalBlocker","_SignalPauser"],["callback invocations"])
p("C08","A failing callback is reported and leaves the signal fully usable",
"If a callback raises, the emission stops there and the caller gets an EmitLoopError whose cause is that exception (never a silently swallowed error, also through nested emissions of other signals), callbacks after it are not called for that emission and callbacks before it have been called exactly once. Afterwards the signal behaves as if freshly idle: the next emission is delivered completely, in every re-emission mode and with no leftovers from the failed one, and no emitter is reported as current. Unbounded recursive emission ends in RecursionError and leaves the same clean state.",
["fault_sequences","programs"],"which callback fails, at which of its invocations, at which nesting depth, in which mode, followed by further emissions","Tests raise once in a single callback; the state left behind depends on where in a nested emission the fault strikes.",
[S,"src/psygnal/_exceptions.py"],["SignalInstance._run_emit_loop","SignalInstance.emit_fast","EmitLoopError"],["raised exception","later callback invocations"])
p("C09","The current emitter is always the innermost signal being emitted",
"Inside a callback, Signal.current_emitter() is the signal instance whose emission invoked that callback and Signal.sender() is the object owning it, at any depth of nested emissions across any signals and objects, also after an inner emission has finished or failed. Each thread sees its own emissions only, and outside any emission both are None.",
["programs","fault_sequences"],"all trees of nested emissions over several signals and objects up to the bound, with failures at any point","Tests query the emitter in one flat or once-nested callback; restoration after inner emissions and failures is over all emission trees.",
[S],["Signal._emitting","Signal.current_emitter","Signal.sender"],["value seen in callbacks"])
p("C10","Changing connections during an emission affects no other callback",
"When a running callback disconnects itself or any other callback, or connects a new one, every callback that was connected before the emission and is not disconnected during it is still called exactly once and in order. A callback disconnected before its turn is not called any more in that emission, and after the emission the set of connections is exactly what the operations imply. Whether a callback connected during an emission already takes part in it is left open; emissions made after that reach it.",
["programs"],"all assignments of connect/disconnect actions to running callbacks, all priorities, all re-emission modes","No test changes connections while the signal is emitting; skipping a neighbour needs a particular relation between the acting and the affected callback.",
[S],["emit loops over connected callbacks","SignalInstance.disconnect/connect"],["callback invocations"])
p("C11","A signal group relays every member emission exactly once",
"A callback connected to a group receives, for each emission of each member signal, exactly one notification carrying the emitting member and its exact arguments, in the order of the emissions (made through emit or by calling the member), whatever mix of members and nested emissions occurs; callbacks connected directly to the members through the group receive the raw arguments. Members keep working as independent signals, connecting or disconnecting on one member never affects another, connecting several callbacks to the group or disconnecting and reconnecting never duplicates or loses notifications, and the group counts and reports only its own callbacks.",
["histories","programs"],"all programs of group/member connects, disconnects and emissions up to the bound, arbitrary arguments","Tests use a couple of fixed sequences; relay duplication or loss depends on histories of connects and disconnects.",
[G],["SignalRelay._slot_relay","SignalRelay.connect/connect_direct/disconnect","SignalGroup"],["EmissionInfo received"])
p("C12","Blocking or pausing a group acts on all members and restores them exactly",
"While a group is blocked, no non-excluded member emits and nothing is relayed for it, excluded members behave as usual, and unblocking returns each member to the blocked state it had before, also for nested block contexts with different exclusions and for members blocked on their own. While a group is paused, its relayed notifications are held back and delivered once, in order, when it resumes.",
["histories","configurations"],"all programs of group and member block/unblock/pause/resume contexts and emissions, all exclusion sets, up to the bound","Tests enter one group block; nesting with different exclusions and individually blocked members is a history-quantified claim.",
[G,S],["SignalRelay.block/unblock/blocked","_SignalBlocker","SignalInstance.pause/resume on groups"],["callback invocations","is blocked"])
p("C13","Callbacks bound to a thread run there, once, in order, and nowhere else",
"A callback connected for a given thread is never executed on any other thread: emissions made on that thread run it at once, emissions made elsewhere are queued and run, exactly once each and in the order queued, when that thread drains its queue, and draining the queue of one thread never runs another thread's callbacks. Each thread draining its own queue from one place, a queued callback that raises is reported by the drain and the remaining queued callbacks are still delivered by the next drain.",
["schedules","histories"],"all interleavings (bounded preemptions) of emitting and draining threads; all programs of emissions and drains; failures at any queued callback","Tests run one thread and sleep; which thread drains when, relative to concurrent emissions, is the schedule quantifier.",
[Q,S],["QueuedCallback.cb","emit_queued","SignalInstance.connect(thread=...)"],["thread identity in callbacks","invocation order"])
p("C14","Concurrent use of one signal is serialised",
"When several threads emit, connect or disconnect on the same signal concurrently, under every thread schedule each emission calls each callback connected throughout exactly once, the callbacks of one emission are not interleaved with those of another, no emission raises or deadlocks, and afterwards the connections are exactly those implied by the completed calls.",
["schedules"],"all schedules with a bounded number of preemptions at source-line granularity of 2-3 threads with short programs","The test-suite has no test that controls the schedule; a race needs a switch at a specific line.",
[S],["SignalInstance._lock","SignalInstance._run_emit_loop","SignalInstance.connect/disconnect"],["callback invocations","len"])
p("C15","A throttled function runs at most once per interval and keeps the last call",
"For any timing of calls, two invocations of a throttled function are never closer than the interval apart (except around flush and cancel), given that the function itself returns quickly and does not call the throttler, the first call of a quiet period runs immediately with policy 'leading' and not before the interval with 'trailing', and the arguments of the last call before quiet are always delivered exactly once, no later than one interval after that call. Every invocation uses the arguments of the most recent call, cancel drops the pending call and flush runs it at once.",
["inputs","schedules"],"all real-time gaps between calls (symbolic instants), all programs of call/cancel/flush up to the bound, both policies","Tests sleep with fixed short delays on a real clock; the guarantee is over all call timings.",
[T],["Throttler.__call__","_ThrottlerBase._actually_call/_start_timer/cancel/flush"],["invocation instants and arguments"])
p("C16","A debounced function waits for quiet and runs once with the last arguments",
"For any timing of calls, a trailing-debounced function is invoked exactly once per burst, exactly one interval after the last call of the burst and with that call's arguments, and never while calls keep arriving closer than the interval; with the leading policy the first call of a burst also runs immediately. Cancel drops the pending call, flush runs it at once, and a flushed or cancelled call is not run again by the timer (calls being made from one thread).",
["inputs","schedules"],"all symbolic call instants, all programs of call/cancel/flush up to the bound, both policies","Tests sleep with fixed delays; the guarantee is over all call timings.",
[T],["Debouncer.__call__","_ThrottlerBase"],["invocation instants and arguments"])
p("C17","An evented list behaves exactly like a list",
"Every operation of an evented list (indexing, slicing, assignment, deletion, insert, append, extend, pop, remove, reverse, clear, concatenation with lists, equality, membership) has the same result, the same effect on the contents and raises the same kind of error as on a built-in list, for all indices (negative and out of range included), slices, lengths and element values. An operation rejected because of its index or arguments leaves the contents unchanged.",
["inputs","histories"],"all indices and slice bounds (symbolic integers), all element identities and equalities, all operation sequences up to the bound","Tests use fixed indices on one small list; off-by-one and negative-index behaviour is a property of every index and length.",
[L],["EventedList mutators"],["list contents","return values","exceptions"])
p("C18","Evented list events are exact and ordered around each change",
"For every mutating operation, replaying the emitted events on a copy of the old contents reproduces the new contents; insertions and removals report the element's actual non-negative position, changes the index or slice that was assigned, and values are the actual old and new objects. Each insertion, removal and move is announced by its '-ing' event while the old contents are still in place and confirmed by its '-ed' event once the change is visible, in matched pairs, and an operation that raises, or assigns the object that is already there, emits no confirmation.",
["inputs","histories"],"all operations, indices, slices and values up to the bound","Tests check one event per operation with fixed arguments; exact index reporting is over all indices and multi-element operations.",
[L],["EventedList signals: inserting/inserted/removing/removed/changed/moving/moved/reordered"],["event log"])
p("C19","Moving list items yields the stated permutation and never loses items",
"move(src, dest) removes the item at src and reinserts it in front of the item that was at dest, for all in-range sources and all destinations (negative destinations count from behind the last item, those beyond the ends mean the end), and move_multiple puts the selected items, in the given order, in front of the item that was at the destination with all others keeping their relative order. The list is always a permutation of what it was, the moved/moving (or reordered) events describe it, and an invalid source raises without changing anything.",
["inputs"],"all list lengths, sources (in any order), destinations, negative values included, up to the bound","A table of about twenty cases is tested; the index shifting is wrong only for particular combinations of sources and destination.",
[L],["EventedList.move","EventedList.move_multiple","_move_plan"],["list contents","event log"])
p("C20","Child events are re-emitted with the child's current index",
"In a list with child events enabled, an event emitted by any evented element currently in the list, however it got there, is re-emitted exactly once per emission with the element's current position and the original event (each element occurring once in the list); an element no longer in the list is never reported. This holds after every sequence of insertions, assignments, removals and moves.",
["histories","inputs"],"all histories of insert/assign/delete/move/clear operations up to the bound followed by a child emission","Tests append a child and emit once; connections to children depend on the whole history.",
[L],["EventedList._connect_child_emitters/_disconnect_child_emitters","child_event"],["child_event emissions"])
p("C21","An evented dict behaves like a dict and reports exact changes",
"Every operation an evented dict offers has the same result, key order, contents and error behaviour as on a built-in dict, for all keys and values. Each key added, removed or replaced is announced before and confirmed after the change with the actual key and values, exactly once; replaying the confirmations on the old contents gives the new ones, and setting a key to the same object or failing emits no confirmation.",
["inputs","histories"],"all key equality patterns, value identities and operation sequences up to the bound","Tests use literal string keys; behaviour depends on the coincidence pattern of keys and values.",
[DI],["EventedDict / TypedMutableMapping"],["contents","event log"])
p("C22","Evented sets behave like sets and report exact net changes",
"Every operation and operator of an evented set (and, with insertion order, of an ordered set) has the same result, contents and error behaviour as the built-in set for all element values and arguments, including several iterables, one-shot iterables, duplicates and the set itself. Each mutating method that changes the contents emits exactly one notification whose added and removed elements are precisely the difference between new and old contents, and one that changes nothing emits none; the notifications of an in-place operator between sets together describe exactly its net change.",
["inputs","histories"],"all equality patterns among elements, all argument shapes and operation sequences up to the bound","Tests use fixed small integer sets; parity over overlapping, duplicated and aliased arguments is unsampled.",
[SE],["EventedSet/OrderedSet/_BaseMutableSet","_reduce_events"],["contents","events"])
p("C23","Selection keeps active and current items consistent",
"After every history of operations on a selection, the active item is the sole selected item when exactly one is selected and None otherwise, setting the active item selects exactly that item and makes it current, and items not in the parent collection are never selected. Each change of the active or current item made by a single-item operation is notified exactly once with the new value, notifications always trace the actual changes and end at the final value, and a rejected single-item operation leaves contents, active and current item as they were.",
["histories","inputs"],"all histories of add/discard/toggle/set-active/set-current/clear/select-only/replace operations up to the bound, all item equality patterns","Tests drive a few fixed sequences with mocks; consistency is an invariant over all histories.",
[SL],["Selection.active/_current","Selection._update_active","Selection._emit_change"],["active","_current","contents","events"])
p("C24","A selectable list's selection always stays within the list",
"After every history of list mutations and selection operations, each selected item is in the list; items removed or replaced are deselected and other selections are untouched. An inserted item becomes the active one where the list says so, selecting next/previous moves from the current item to its neighbour, clamped at the ends (or wrapping on request), and removing a non-empty selection removes exactly the selected items and selects a remaining neighbour when any remain.",
["histories","inputs"],"all histories of list and selection operations up to the bound","Tests exercise single operations on a fixed list; the subset invariant is over all histories.",
[SEL,SL],["SelectableEventedList","Selectable mixin"],["selection","list contents"])
p("C25","Evented dataclass fields emit exactly when their value changes",
"For an evented class of any supported kind (dataclass, attrs, msgspec, pydantic, plain), assigning a field stores the value and emits that field's signal with the new and old value exactly once if the field's comparison says it changed (for array values as a whole, and by identity where the two values cannot be compared, whatever values the field had before), and not at all otherwise. Emission happens after the value is visible, also for aliased signals, and assigning one field or one instance never emits on another.",
["inputs","histories","configurations"],"all assignment sequences over fields and instances up to the bound, all value identity/equality patterns, all class kinds, aliases and comparison configurations","Tests assign literals once per kind; change detection is over all identity/equality patterns and assignment sequences.",
[D,"src/psygnal/_evented_decorator.py","src/psygnal/_dataclass_utils.py"],["evented_setattr","SignalGroupDescriptor","_build_dataclass_signal_group"],["emissions","attribute values"])
p("C26","Evented model fields emit exactly when their value changes",
"Assigning a field of an evented model stores the (validated) value and emits that field's signal with the stored value exactly once when it differs from the old value (by the field's comparison, or by identity where the two values cannot be compared) and never otherwise; a rejected assignment raises, emits nothing and changes nothing. Signals of other fields, private attributes and other instances never fire.",
["inputs","histories"],"all assignment sequences over fields up to the bound, all value patterns, validation on or off","Tests assign a few literals; change detection interacts with validation and equality in ways that need particular values.",
[M],["EventedModel.__setattr__"],["emissions","attribute values"])
p("C27","Model properties that depend on fields are notified consistently",
"When a field or property setter of an evented model changes state, each property declared (or guessed) as depending on the changed fields emits once with its new value if and only if the value changed, after the change is visible, in no particular order, and no other field or property emits (a property without dependencies emits only when itself assigned). Several fields changed by one property setter yield one notification per changed field and property, listeners not raising.",
["inputs","programs"],"all value patterns, all dependency graphs of the harness family, chains and shared dependencies, property setters that write several fields","Tests contain a few fixed dependency graphs with literal values.",
[M],["EventedModel._setattr_with_dependents_impl","_get_field_dependents"],["emissions"])
p("C28","Model update and reset apply all values and emit each change once",
"update() with any mapping of plain values or nested models leaves the model with exactly the given values and emits one notification per field whose value changed, none for the others, with group-level notification held until all values are applied; reset() restores every default of the non-frozen fields that have one and notifies each change. Two models of the same class compare equal exactly when their fields are equal, and a failing update raises without leaving signals blocked or paused.",
["inputs"],"all subsets of fields, all value patterns, nested models, up to the bound","Tests update one or two literal fields; the claim is over all subsets and values.",
[M],["EventedModel.update","EventedModel.reset","EventedModel.__eq__"],["emissions","attribute values"])
p("C29","Copies and pickles keep state and never share connections by accident",
"A deep copied or unpickled signal, evented container or evented model, and a shallow copy of a container or model, has equal contents and configuration (name, signature, description, checks, re-emission mode, blocked state) and works on its own: mutating or emitting on the copy never notifies the original's listeners and vice versa, except strongly-held functions that are documented to be copied along, with their priority and argument limit.",
["histories","configurations"],"all combinations of configuration and connection state up to the bound, followed by arbitrary emissions/mutations on copy and original","Tests copy one instance of each type in one state.",
[S,W,G,L,DI,SE],["SignalInstance.__getstate__/__setstate__","StrongFunction.__getstate__","container copy methods"],["state of the copy","callback invocations"])
p("C30","An evented proxy forwards operations and reports each change once",
"Through an evented object proxy every attribute, item and in-place operation (on mutable objects) has the same result and effect as on the wrapped object, and each attribute or item set or deleted through the proxy emits exactly one event with the actual name or key and value when another object was stored, and none when the same object was or when the operation raised (an equal but distinct object may count as either); each in-place operator is announced exactly once.",
["inputs","histories"],"all operation sequences up to the bound on wrapped objects, lists and dicts, all value patterns","Tests perform one operation of each kind on one object.",
[PX],["EventedObjectProxy","EventedCallableObjectProxy"],["events","wrapped state"])
p("C31","Signals and groups of different objects are isolated",
"Every object of a class with declared signals (each under its own name), signal groups or group descriptors, subclasses and several declarations per class included, has its own signal instances: the same attribute of the same object is always the same instance, emitting or connecting on one object or attribute never reaches a callback of another, and this also holds after other objects have been created, copied and released.",
["histories","programs"],"all interleavings of object creation, release, access, connect and emission over several objects/classes/attributes up to the bound","Tests look at one or two instances; confusion needs specific object lifetimes and several declarations.",
[S,G,D],["Signal.__get__","SignalGroupDescriptor.__get__","SignalGroup.__get__"],["instance identity","callback invocations"])
p("C32","Attribute and item setters assign exactly the emitted value",
"A signal connected to an object's attribute or to a container's key assigns on every emission exactly the emitted value (the single argument, or the tuple of the first maxargs arguments when several are accepted), leaves everything else untouched, never keeps a weakly referenceable object alive, and is removed precisely by the matching disconnect (same object and same attribute or equal key).",
["inputs","histories"],"all argument counts and maxargs up to the bound, all histories of connect/disconnect over several objects, attributes and keys","Tests use one object and one attribute.",
[S,W],["SignalInstance.connect_setattr/connect_setitem/disconnect_setattr/disconnect_setitem","WeakSetattr","WeakSetitem"],["attribute/item values"])
p("C33","Monitoring utilities see every emission and leave no trace",
"Inside the event-monitoring context every emission delivered by a signal of the monitored object (or, without an object, of any signal, through emit, a call or on resuming from a pause) is reported exactly once with its signal and arguments, to any kind of logger that accepts one argument; after the context ends, normally or by an exception, nothing is reported and the connections (or the enclosing monitor) are what they were before. Iterating an object's signal instances yields each of its signals exactly once, private ones only on request, and of a group its members.",
["histories","programs"],"all emission programs over monitored and unmonitored objects up to the bound, nested monitors, exceptions","Tests monitor one emission.",
["src/psygnal/utils.py"],["monitor_events","iter_signal_instances","SignalInstance._debug_hook"],["reported events"])
p("C34","Every way of connecting honours its options; refusals change nothing",
"Called directly, as a decorator or as a decorator factory, on a signal, a group or all members of a group, connecting returns the callable itself and honours every given option (unique, max_args, priority, thread, argument count and type checks, or else the signal's own defaults) in every combination. If connecting raises, or finds a unique callable already connected, nothing has changed. For a callable that cannot be weakly referenced, on_ref_error alone decides: 'raise' refuses it, 'warn' warns once and keeps it strongly, 'ignore' keeps it strongly and silently.",
["inputs","configurations"],"all combinations of options, ways of connecting, kinds of callables and targets within the harness family, all integer priorities","Tests use one option at a time on one kind of callable; options interact.",
[S,W,G],["SignalInstance.connect","SignalRelay.connect_direct","SignalGroup.connect","WeakCallback._try_ref"],["connections","callback invocations","exceptions and warnings"])
p("C35","A signal group is a faithful mapping of its declared signals",
"A signal group contains exactly one signal instance for every signal declared on its class and all its bases (the most derived declaration of a name), under its name, with its signature and description, each also available as attribute unless the name is reserved, in which case creating the class warns and the rest of the group's interface keeps working. Lookup, iteration, membership and length agree, unknown names raise KeyError (AttributeError), and every member's emission reaches the group's callbacks. A group counts as uniform exactly if all its signals have the same signature, and a strict group that is not raises TypeError.",
["programs","configurations"],"all class definitions up to the bound: sets of ordinary, private and reserved names, signatures, inheritance with overriding, several bases","Tests define a handful of group classes; names and inheritance interact.",
[G],["SignalGroup.__init_subclass__","SignalGroup.__init__","_is_uniform"],["mapping interface","relayed notifications","warnings"])
p("C36","Evented containers as pydantic fields hold exactly the validated items",
"A pydantic or evented model field annotated with an evented container (list, selectable list, set, ordered set, selection or dict), with or without item types, accepts exactly what the corresponding built-in container accepts. It then holds a container of the annotated class with exactly the validated items, in their order (except for unordered sets), that notifies its changes and is independent of the input. A rejected value raises ValidationError and leaves the model as it was.",
["inputs","configurations"],"all items up to the bound, all decisions of item validators, all forms of input, by construction or assignment","Tests validate one literal per container; order, duplicates and rejections depend on the items.",
[L,SE,DI],["EventedList.__get_pydantic_core_schema__","_BaseMutableSet.__get_pydantic_core_schema__","TypedMutableMapping.__get_pydantic_core_schema__"],["field contents","validation errors","events"])
p("C37","Evented classes are recognised and their options are honoured",
"is_evented and get_evented_namespace tell exactly for the classes made evented (by decorator or descriptor), their subclasses and instances, under which attribute the signal group of an instance is found, in whatever order the classes are used. With cache_on_instance=False nothing is stored on instances and they can be pickled; with patch_setattr=False assignments emit only if __setattr__ is wrapped with evented_setattr; comparisons given as argument or as __eq_operators__ alone decide what is a change. A warning is given exactly for classes without signals, unless switched off.",
["configurations","histories","inputs"],"all mixtures of decorated, described and plain classes in a family up to the bound, all combinations of options, all values assigned","Tests use one option at a time on one class.",
[D,"src/psygnal/_evented_decorator.py"],["is_evented","get_evented_namespace","SignalGroupDescriptor.__get__","evented_setattr","evented"],["return values","emissions","instance state","warnings"])
p("C38","The Qt queue timer delivers thread-bound callbacks exactly while it runs",
"start_emitting_from_queue makes exactly one timer per thread run with the interval and timer type given last, however often it is started and stopped, and stop_emitting_from_queue stops it. Each timeout of a running timer calls every callback queued for its thread exactly once, in order, on that thread; without timeouts none of them is called. A callback that fails, emits or controls the timer does not disturb this.",
["histories","inputs"],"all programs of start, stop, emissions and timeouts up to the bound, any intervals and values","Tests start one timer once with a real event loop.",
["src/psygnal/qt.py","src/psygnal/_queue.py"],["start_emitting_from_queue","stop_emitting_from_queue","emit_queued"],["timer state","callback invocations"])
p("C39","Signal instances are exactly what their declaration says",
"Every instance of a declared signal, on objects of any kind (ordinary, slotted, frozen, not weakly referenceable, of a subclass), and every signal instance created directly, has the declared name (by default that of the attribute), description, signature and emitting object, which it does not keep alive if it can be weakly referenced. It checks callbacks on connection and re-emits as declared, in any spelling of the mode's case; an unknown mode raises ValueError. Calling a signal instance is the same as emitting it, with the same checks.",
["configurations","inputs"],"all combinations of declaration options, kinds of owner and emitted values within the bound","Tests declare a few signals with one option each; options interact with the kind of owner.",
[S],["Signal.__init__","Signal.__set_name__","Signal.__get__","SignalInstance.__init__","SignalInstance.__call__"],["attributes of the instance","connections","callback invocations"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for q in P: jsonschema.validate(q,sch)
print(len(P))
