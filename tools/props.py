"""The properties; tools/gen.py writes properties.jsonl and MANIFEST.json from here."""
P = []


def prop(id, title, statement, over, quant, why, files, mech, observe, technique, level="exploration", note="", state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, level=level, note=note, state=state))


CORE = "python/xoscar/core.pyx"
POOL = "python/xoscar/backends/pool.py"
IPOOL = "python/xoscar/backends/indigen/pool.py"
CTX = "python/xoscar/backends/context.py"
BCORE = "python/xoscar/backends/core.py"
API = "python/xoscar/api.py"
MSG = "python/xoscar/backends/message.pyx"
SER = "python/xoscar/serialization/core.pyx"

prop("C01", "A stateful actor runs one method at a time; yields give the turn away",
     "While a method of a stateful actor runs, no other method of that actor runs, whether the calls come from clients, other processes or local "
     "references, as calls, tells, batches or generator steps, and whether they return, fail or are cancelled; methods marked no_lock are exempt and "
     "stateless actors are not restricted. (The calls of one batch are one turn: without a batch implementation they run together inside it.) The turn is given away at each yield of an async generator method and while awaitables a method "
     "returned (alone or in a tuple) are awaited, so other calls can run there, and it is always given back.",
     ["schedules", "histories"], "all interleavings of concurrent calls of every kind from several processes, with failures and cancellations",
     "The tests run a handful of calls in one order; mutual exclusion is about every interleaving, including cancellation while queued.",
     [CORE, API], [("actor lock around dispatch", CORE + ":_BaseActor.__on_receive__"), ("local calls", CORE + ":_actor_method_wrapper"),
                   ("generator steps", CORE + ":_run_actor_async_generator")],
     ["entry/exit events recorded inside the actors", "balance kept by read-sleep-write"],
     "in-actor entry/exit monitor + lost-update oracle under concurrent stress",
     note="Exclusion, progress at yields and lock recovery on the interleavings reached by random concurrent mixes over three pools; trusts the monitor code inside the workload actors.")

prop("C02", "Every call and tell runs exactly once, in each sender's order",
     "Each awaited call and each tell sent to a living actor executes exactly once, none is lost or repeated. What one sender issues in sequence to one "
     "actor starts in that order, so a call sees the effects of everything the same sender told before.",
     ["schedules", "histories"], "all mixes of calls, tells, generator and batch calls of any payload size from many senders, local and remote",
     "Tests send a few messages and do not watch order or duplication under concurrency and large payloads.",
     [CORE, POOL, CTX, BCORE, "python/xoscar/backends/communication/socket.py"],
     [("one task per received message, in order", POOL + ":on_new_channel"), ("FIFO channels", "python/xoscar/backends/communication/socket.py"), ("tell", CORE + ":ActorRefMethod.tell")],
     ["receiver's log against the senders' programs"], "offline trace checker (exactly-once, per-sender FIFO) over receiver logs",
     note="Histories of random concurrent senders on real pools.")

prop("C03", "Each caller gets the answer of its own call",
     "The value or error a call returns to its caller is the one its own execution produced, unchanged, no matter how many calls are in flight between the "
     "same two processes, in which order they finish, how large they are, or from which threads and event loops they were issued.",
     ["schedules", "histories", "inputs"], "all sets of concurrent calls with out-of-order completion, from tasks, threads and other pools",
     "Tests do not issue hundreds of overlapping calls with distinguishable answers from several threads.",
     [BCORE, CTX, MSG, "python/xoscar/backends/router.py"], [("futures by message id", BCORE + ":ActorCallerThreadLocal._listen"), ("message ids", MSG + ":new_message_id")],
     ["answers compared with a function of the request"], "online oracle on tokens echoed by out-of-order calls",
     note="Answers are checked one by one; breadth from random delays, sizes, routes and threads.")

prop("C04", "An exception raised by an actor reaches the caller as itself",
     "When an actor method raises, the caller's await raises an instance of the same exception type with the same args and attributes, which can be caught by "
     "type, whose text contains the original text, names the address and process of origin exactly once and whose traceback leads to the raising "
     "function. This holds from every kind of method, over any number of hops, and neither actor is affected.",
     ["inputs", "histories"], "all exception kinds and kinds of method, over routes of several hops",
     "Tests raise ValueError; exceptions with C-level fields, custom constructors, groups or several hops are not tried.",
     ["python/xoscar/utils.py", MSG, CORE], [("error wrapping", "python/xoscar/utils.py:wrap_exception"), ("no double wrapping", MSG + ":ErrorMessage.as_instanceof_cause"), ("error capture", POOL + ":_ErrorProcessor")],
     ["the exception object in the caller's except clause"], "differential oracle: caught exception vs the locally built one",
     note="A fixed family of some thirty exception kinds times seven method kinds times random routes.")

prop("C05", "Cancelling a call cancels its execution in the callee and nothing else",
     "When a caller cancels a pending call, the callee's execution receives the cancellation (through further hops and awaited parts too), a call still "
     "queued never runs, and the caller ends promptly as cancelled unless the callee handled the cancellation and answered. Calls nobody cancelled run "
     "to completion with their own answers, and the actors stay usable.",
     ["schedules", "histories"], "all moments of cancellation: before sending, queued, running, at a yield, at completion; local, remote and two-hop",
     "Tests cancel one sleeping call; cancellation races with queueing and completion are not reached.",
     [CTX, POOL, CORE], [("cancel message", CTX + ":IndigenActorContext._wait"), ("cancelling the task", POOL + ":ActorPoolBase.cancel"), ("cancelling parts", CORE + ":_handle_actor_result")],
     ["life-cycle events recorded in the callee", "outcome at the caller"], "per-call life-cycle trace checker under random cancellation",
     note="Random cancellation moments incl. races with completion; endless calls make a lost cancellation certain to show.")

prop("C06", "xo.wait_for ends in time, exactly as asked, and cancels what it gave up",
     "xo.wait_for(call, timeout) returns the call's own value or error when it finishes first, and otherwise raises asyncio.TimeoutError not before the "
     "timeout and promptly after it, whatever state the callee or its process is in (even stopped). The call given up is cancelled in the callee, cancelling "
     "the wait cancels the call, and other calls are not disturbed.",
     ["schedules", "histories"], "all timeouts (none, zero, racing, long), callee behaviours incl. stopped processes, outer cancellation",
     "Tests use one slow call and one timeout; stopped processes, races and outer cancellation are not covered.",
     [API, CTX], [("wait with forwarded cancellation", API + ":wait_for"), ("cancel message", CTX + ":IndigenActorContext._wait")],
     ["outcome and time at the caller", "life-cycle events in the callee"], "per-wait outcome oracle + callee life-cycle monitor, SIGSTOP faults",
     note="Random timeouts raced with completion, outer cancellation and SIGSTOPped callees.")

prop("C07", "The registry of actors behaves as one consistent table",
     "Creates, destroys, has_actor, actor_ref and calls issued concurrently by any clients and actors are linearizable per actor: of concurrent creates one wins "
     "and the others get ActorAlreadyExist, of concurrent destroys one wins and the others get ActorNotExist, calls reach the incarnation alive at that "
     "moment, and nothing else can happen. At rest main pool and sub pool agree on what exists, and a destroyed uid can be used again.",
     ["schedules", "histories"], "all interleavings of registry operations from clients and from inside pools",
     "Tests create and destroy one actor at a time; races between creates, destroys and the notification of the main pool are not reached.",
     [POOL, CTX], [("create", POOL + ":MainActorPoolBase.create_actor"), ("destroy", POOL + ":MainActorPoolBase.destroy_actor"), ("sync to main", POOL + ":SubActorPoolBase.notify_main_pool_to_destroy")],
     ["timed invocations and responses at the callers"], "linearizability checking (Wing-Gong) of recorded concurrent histories",
     note="Histories of up to 40 operations per uid; lookups bind only outside half-done operations. Main-pool, sub-pool and local views are exercised separately.")

prop("C08", "Lifecycle hooks run once and failed creations leave nothing behind",
     "A successful creation runs the constructor and then __post_create__ exactly once, with uid and address set, before create_actor answers; destroying runs "
     "__pre_destroy__ exactly once before destroy answers and no method runs afterwards. When the constructor, __post_create__ or the arguments fail, or the "
     "creation is cancelled, the caller gets that error, nothing is registered anywhere and the uid stays usable. Racing creates and destroys run hooks for one "
     "winner only.",
     ["fault_sequences", "schedules", "histories"], "all failure points of creation and destruction, cancellation, and races, in all views (main, sub, local)",
     "Tests check the good path; failures in hooks, cancelled creations and races are not covered.",
     [POOL, CORE], [("create and roll back", POOL + ":ActorPoolBase.create_actor"), ("destroy", POOL + ":ActorPoolBase.destroy_actor"), ("cancelled in sub pool too", POOL + ":MainActorPoolBase._call_sub_pool")],
     ["hook events recorded by the actors in every process", "has_actor and calls afterwards"], "fault injection in hooks + trace checker over recorded hook events", level="fault_enumeration",
     note="Every failure kind times view times random races.")

prop("C11", "Results mean the same for every caller, whatever awaitables they contain",
     "A method may return, or an async generator method yield, values, coroutines, tasks, futures, other async generators, and tuples mixing them; the "
     "caller (or the generator at its yield) gets the tuple with every awaitable replaced, at its own position, by what it produced, or the error of one of "
     "them, after all of them are over. A generator method ends with xo.Return(value) or None, failures of what it yielded are thrown into it, and it can "
     "handle them and go on. This holds for stateful and stateless actors, sync, async and no_lock methods, and every route.",
     ["inputs", "schedules"], "all nested shapes of results, failures at all places, all routes to the actor",
     "Tests cover a few shapes; positions, nesting and errors combine without bound.",
     [CORE], [("resolving results", CORE + ":_BaseActor._handle_actor_result"), ("generator driver", CORE + ":_BaseActor._run_actor_async_generator")],
     ["answers at the callers"], "random result shapes checked against a reference model of the result semantics",
     note="Shapes to nesting depth 3.")

prop("C09", "A reference names an actor wherever it goes",
     "A reference holds an address and a uid. References to one actor are equal and hash alike however and wherever they were made, survive pickling and "
     "any number of passes between processes, and from every place reach the actor that has that name now: the newest incarnation once the name is used "
     "again, ActorNotExist (never an old incarnation, never another actor) while nobody has it, also through bound methods obtained earlier. A uid of the "
     "group given at its main pool is found in the sub pool that has it.",
     ["histories", "inputs"], "all histories of create, destroy, re-create, look up, pass, keep and call, from all places, for all uids",
     "Tests look up a reference once; stale local references, names used again and routes are not combined.",
     [CORE, POOL, CTX, "python/xoscar/_utils.pyx"],
     [("references", CORE + ":ActorRef"), ("local shortcut", CORE + ":LocalActorRef"), ("finding uids in the group", POOL + ":MainActorPoolBase.actor_ref"), ("resolving", CTX + ":IndigenActorContext.actor_ref")],
     ["answers of the actors reached", "equality and hashes of references"], "random reference histories judged by a model of who has each name",
     note="Random histories over main, sub and in-process pools.")

prop("C10", "Where an actor lives does not change what its methods mean",
     "The same sequence of operations on an actor gives the same values, errors (type, args) and effects whether the caller is in the actor's process, in "
     "another process of its pool, in another pool or a client without a pool, whether it is addressed directly or through its main pool, and equals "
     "running the methods of the class on a plain object: all parameter kinds, defaults, missing or private methods, wrong arguments, sync and async.",
     ["inputs", "histories"], "all programs of calls over all placements and routes",
     "Tests check each route with a few calls; local shortcuts duplicate the remote path and may drift from it for some kind of call.",
     [CORE, CTX, POOL], [("remote calls", CORE + ":ActorRefMethod"), ("local calls", CORE + ":LocalActorRefMethod"), ("dispatch", CORE + ":_BaseActor.__on_receive__")],
     ["answers at callers", "state of the actor after each step"], "differential execution: actor over every route vs a plain object",
     note="Random programs of 25-50 steps on 4 placements x 4 routes per round.")

prop("C12", "xo.generator gives each item once, in order, and ends as written",
     "Iterating what an xo.generator method returned gives exactly the items the (sync or async) generator yields, in order, each once, then ends, or raises "
     "the very error the generator raised after the items before it, whatever the text or type of error. Iterators can be passed to other processes and go on there. A generator "
     "that ended, failed, was destroyed or whose iterator was dropped is removed from the actor and closed, and giving one up never blocks anyone.",
     ["schedules", "inputs", "histories"], "all scripts of items, errors and moments of giving up, many concurrent consumers, all routes",
     "Tests run a fixed generator to its end; errors that look like ends, abandonment and hand-over under concurrency are not reached.",
     [API], [("stepping", API + ":AsyncActorMixin.__xoscar_next__"), ("iterator", API + ":IteratorWrapper"), ("wrapping", API + ":generator")],
     ["items and ends at the consumers", "generators left in the actor and closed ones"], "script-driven generators compared with what consumers saw; resource monitor in the actor",
     note="Also checks that the consumer's event loop is not blocked when iterators are dropped.")

prop("C13", "A batch of calls is those calls",
     "ref.method.batch(delays...) answers the list of the results of the single calls in order, runs each exactly once with its own arguments, and if some fail raises the "
     "error of one of them; single calls of a method with a batch implementation, and batches of one with only a single implementation, mean the same. "
     "Empty batches answer an empty list, batches mixing methods are refused, send=False only sends. This holds locally and remotely, for sync, async and no_lock methods.",
     ["inputs", "histories"], "all batches over all kinds of extensible methods, parameters, failing members and routes",
     "Tests use two or three fixed batches without failing members.",
     ["python/xoscar/batch.py", CORE], [("batch wrapper", "python/xoscar/batch.py:_ExtensibleWrapper"), ("batches of calls", CORE + ":_collect_delays")],
     ["answers at the callers", "log of executions in the actor"], "differential oracle: batch vs the single calls, plus execution log",
     note="Random batches of 0-7 calls.")

prop("C14", "Actors are created where their allocation strategy says",
     "MainPool, ProcessIndex, AddressSpecified, RandomSubPool, RandomLabel and IdleLabel place an actor only in a process they allow (random ones only with the label, "
     "failing if there is none). With IdleLabel no two living actors (or creations under way) of one (label, mark) share a process, NoIdleSlot is raised only if no such process was free, "
     "and a slot is free again when its actor was destroyed or its creation failed.",
     ["schedules", "histories"], "all concurrent mixes of creations, failures and destructions with all strategies and label layouts",
     "Tests allocate sequentially; concurrent creations and slots given back are not covered.",
     ["python/xoscar/backends/allocate_strategy.py", POOL], [("strategies", "python/xoscar/backends/allocate_strategy.py"), ("placeholder of a pending creation", POOL + ":MainActorPoolBase.create_actor")],
     ["each actor's own view of its address", "intervals of life of actors"], "interval-overlap checker over recorded creations and destructions",
     note="Label layouts with shared, single and missing labels.")

prop("C15", "When a process dies, whoever waits for it is told, and only they",
     "When a sub pool or a whole pool dies or is stopped (killed, frozen then killed, exits by itself, kill_actor), every pending call, queued call, batch, creation, "
     "generator step and transfer to it fails promptly with an error saying that the connection is closed, at clients and at actors of other processes, also when "
     "passed on by a main pool; calls made later fail likewise, nothing waits forever, and calls to and from other processes go on undisturbed.",
     ["fault_sequences", "schedules"], "all ways and moments of dying with all kinds of waits pending in all places",
     "Tests kill one process with one sleeping call; transfers under way, queued calls, callers in other pools and through main pool are not combined.",
     [BCORE, POOL, CTX, "python/xoscar/backends/communication"],
     [("failing what waits on a closed client", BCORE + ":ActorCallerThreadLocal._listen"), ("server end", POOL + ":AbstractActorPool.on_new_channel")],
     ["outcome of each wait", "answers of bystanders"], "crash injection with an outcome oracle per wait and liveness bound", level="fault_enumeration",
     note="Six ways to die x eight kinds of wait x places; a wait is judged lost after 45 s.")

prop("C16", "Auto recovery brings back the process and exactly its actors",
     "When a sub process dies, with auto_recover='actor' (the default) a new process serves the same address with the same environment and holds exactly the actors that existed there, "
     "each with its class, arguments, uid and fresh state, however and by whomever it was created, and no destroyed one; with 'process' an empty process; with False nothing. "
     "References held before work again, wait_actor_pool_recovered returns when this is done, the callbacks tell each loss and recovery once, and other processes' actors keep their state. "
     "This holds for simultaneous and repeated deaths and deaths during recovery.",
     ["fault_sequences", "histories"], "all histories of creations and destructions before deaths, all modes, single, simultaneous, repeated deaths",
     "One test kills one process holding one actor.",
     [IPOOL, POOL], [("monitor", POOL + ":MainActorPoolBase.monitor_sub_pools"), ("recover", IPOOL + ":MainActorPool.recover_sub_pool"), ("knowing what existed", POOL + ":SubActorPoolBase.notify_main_pool_to_create")],
     ["state reported by every actor after recovery", "callbacks"], "crash injection + model of what must exist compared with what is found", level="fault_enumeration",
     note="Random histories of 8-16 operations before each of two or three deaths per mode.")


prop("C17", "Pools that end leave nothing behind",
     "Whatever ends a pool - stop (once, twice, concurrently), its context manager, an error in its use, a start that fails (port in use, bad module) or is cancelled, "
     "with calls pending, frozen or dead sub processes or a recovery under way - ends in bounded time; its processes are gone, its addresses can be used again, no listening socket, descriptor, "
     "shared memory or task stays behind, what waited for its actors fails as closed, and a later pool at the same address starts empty. Sub processes whose main process dies end by themselves.",
     ["fault_sequences", "schedules", "histories"], "all ways and moments for pools of all layouts to end",
     "Tests stop idle pools and do not look at what remains.",
     [POOL, IPOOL, "python/xoscar/backends/communication"], [("stopping", POOL + ":MainActorPoolBase.stop"), ("starting", POOL + ":MainActorPoolBase.create"), ("processes", IPOOL + ":MainActorPool.kill_sub_pool")],
     ["/proc: processes, sockets, descriptors", "asyncio tasks", "outcome of pending waits"], "resource monitor (before/after) with injected faults at every way to end", level="fault_enumeration",
     note="Thirteen ways to end x random layouts; also the death of the main process.")

prop("C18", "Sub pools can be added and removed at any time without harming others",
     "append_sub_pool and remove_sub_pool, in any order and at once with each other and with calls, creations, kills and recoveries, either do what they say or raise: an appended sub pool gets "
     "an address, label and environment of its own, holds new actors and is reachable from everywhere; a removed one is gone for everyone (its actors cannot be called, its process has ended, it is never "
     "allocated to and never recovered). Other sub pools, their actors and calls are not affected, also while another sub pool is dead.",
     ["histories", "schedules", "fault_sequences"], "all sequences and overlaps of appends, removals, kills, creations and calls",
     "Tests append and remove one sub pool at a time in a healthy pool.",
     [POOL, IPOOL, "python/xoscar/backends/config.py", API], [("append", IPOOL + ":MainActorPool.append_sub_pool"), ("remove", IPOOL + ":MainActorPool.remove_sub_pool"), ("configuration of pools", "python/xoscar/backends/config.py")],
     ["model of the pool's layout against lists, allocation, calls and processes"], "model-based monitor of layout under concurrent changes and kills",
     note="Random histories of overlapping changes; every step judged against a model.")

prop("C20", "Values arrive as what they were",
     "Whatever value is passed, returned or sent - primitives, strings with any characters, enums, subclasses of builtin types with or without attributes, containers of any nesting, objects, functions, numpy arrays "
     "of any layout and dtype, sparse matrices, pandas and arrow objects, torch tensors - arrives with the same type, items, attributes and bits, whichever way it goes (call, result, stream, relay); "
     "serializing does not change the value itself. (Read-only buffers may stand for bytes and arrays.)",
     ["inputs"], "all values of the supported kinds nested in any way",
     "Tests send a dozen fixed values and compare with ==, which does not see types, attributes, dtypes or strides at play.",
     [SER, "python/xoscar/serialization/numpy.py", "python/xoscar/serialization/scipy.py", "python/xoscar/serialization/aio.py", "python/xoscar/serialization/pyfury.py"],
     [("serializers by type", SER + ":serialize"), ("deserialize", SER + ":deserialize"), ("arrays", "python/xoscar/serialization/numpy.py")],
     ["the value rebuilt by its receiver, compared strictly"], "generated values + strict differential oracle (type, state, bits)",
     note="About ninety kinds of leaves and containers, nested at random; sampled.")

prop("C21", "What refers to one object still does after serialization",
     "Values with shared or cyclic references among lists, dicts, their subclasses, tuples, arrays and objects are restored with the same graph: one object stays one, two stay two, cycles close, the order of dicts "
     "stays, and what is shared is written once. The same holds between the arguments of one call, for steps continued in threads at any threshold, for several serializations of the same objects at once. A graph that cannot be restored "
     "(a cycle through a tuple met from outside it, too deep a nesting) is refused with an error, never restored wrongly, and harms nothing else.",
     ["inputs", "schedules"], "all graphs of references, all thresholds of spawning",
     "Tests share one object in a list; placeholders, callbacks and spawning interact over graphs in ways a few samples do not reach.",
     [SER, "python/xoscar/serialization/aio.py"], [("placeholders", SER + ":Placeholder"), ("resuming in threads", SER + ":serialize_with_spawn"), ("replacement in containers", SER + ":DictSerializer")],
     ["bijection of nodes between both graphs"], "generated graphs + graph-isomorphism oracle over every way of serializing",
     note="Random graphs up to 200 nodes; objects pickled as a whole are leaves.")

prop("C22", "Channels deliver each message once, whole and in order",
     "Over TCP, unix sockets and in-process channels every message sent is received exactly once, unchanged, and those of one sender in order, with any number of senders at both ends, sizes from nothing to many megabytes in any number of "
     "buffers, slow or several receivers. A buffer may be changed as soon as send (or tell) has returned. Closing an end delivers what was sent before, and whoever sends or receives afterwards gets an error instead of waiting.",
     ["schedules", "histories", "inputs"], "all interleavings of senders and receivers, sizes and moments of closing",
     "Tests send one array over an idle connection.",
     ["python/xoscar/backends/communication/socket.py", "python/xoscar/backends/communication/dummy.py", "python/xoscar/backends/communication/utils.py", "python/xoscar/serialization/aio.py"],
     [("framing", "python/xoscar/serialization/aio.py:AioSerializer"), ("buffers", "python/xoscar/backends/communication/utils.py:write_buffers"), ("channel", "python/xoscar/backends/communication/socket.py:SocketChannel")],
     ["each message rebuilt and compared at its receiver", "sequence numbers per sender"], "online exactly-once/order/content monitor at both ends of channels under stress",
     note="Real sockets in one process and tells to another.")

prop("C24", "A message that cannot be read harms nothing but itself",
     "A call, creation, tell or batch whose arguments or answer cannot be read by the other side fails with what reading raised, is not carried out if its arguments were unreadable, and other calls of the same connection, before, "
     "during and after, are answered as ever (those under way may fail as closed if not even the message's header could be read). Bytes that are no message - cut, changed, of another protocol, "
     "split anyhow - sent to a pool or answered to a caller are never taken for a message, end at most their own connection, and leave no call waiting forever.",
     ["inputs", "fault_sequences"], "all unreadable values in all positions, all cut or changed byte streams",
     "Tests send well-formed messages only.",
     [POOL, BCORE, MSG, SER, "python/xoscar/serialization/aio.py", "python/xoscar/backends/communication/socket.py"],
     [("unreadable messages", MSG + ":MessageSerializer.on_deserial_error"), ("who receives", POOL + ":on_new_channel"), ("who waits", BCORE + ":ActorCallerThreadLocal._listen")],
     ["outcome of every call of the connection", "log of executions"], "fault injection in values and bytes + per-call outcome monitor", level="fault_enumeration",
     note="Nine unreadable kinds x six positions x two callers; ten kinds of broken bytes at both sides.")

prop("C19", "Through proxies everything works as it does directly, and nothing goes past them",
     "With proxies configured by host, by address or by wildcard, over one or more hops, every operation - creating, looking up, calling, telling, batches, generators, errors, cancelling, destroying, killing and recovering, reading the "
     "configuration, passing references on - gives what it gives directly, from clients and from actors, one at a time and at once; no process connects to an address its proxies stand for. When a gateway dies what goes through it fails as closed, "
     "and works again when the gateway is back.",
     ["configurations", "schedules", "fault_sequences"], "all proxy configurations, operations and places they are done from, deaths of gateways",
     "Tests call one actor through two proxies; all hosts of a test can reach each other, so going past a proxy is not noticed.",
     [BCORE, "python/xoscar/backends/router.py", CTX, POOL, IPOOL], [("routes", "python/xoscar/backends/router.py:Router"), ("forwarding", BCORE + ":ActorCallerThreadLocal.call"), ("gateways", POOL + ":AbstractActorPool.forward")],
     ["every connection attempt of every process (audit events)", "results against a model"], "firewall monitor on connection attempts + model of results over random topologies", level="fault_enumeration",
     note="Chains of two to four hosts on loopback addresses; clients outside know the main pools.")

prop("C25", "Messages are read back as they were written",
     "Every kind of message, with any values in its fields, with and without trace and profiling context, is read back by the other side equal in every field and of the same kind, also nested in others (forwarded, cancelled), also when many follow "
     "each other in one stream. An error result raises over there what was raised here, with its text, attributes, cause and place; its type can be caught as what it was.",
     ["inputs"], "all kinds of messages and values of their fields",
     "Tests write six messages with fixed fields.",
     [MSG, SER], [("kinds of messages", MSG + ":MessageType"), ("errors", MSG + ":ErrorMessage"), ("headers", MSG + ":MessageSerializer")],
     ["field-wise comparison of each message read with the one written"], "generated messages + field-wise round-trip oracle",
     note="All kinds, nested forwarding; sampled fields.")

prop("C26", "copy_to copies exactly what it was told to",
     "copy_to brings to each remote buffer or file, by block sizes of any relation to their lengths, exactly the bytes of its local counterpart, whatever their kinds (bytes, arrays of any dtype and shape, memoryviews, files), wherever they are; what lies "
     "around it is left alone, sources are not changed, copies at once do not mix. When a destination fails or is refused, is too small or of another kind, copy_to raises, and never reports success of what was not copied.",
     ["inputs", "schedules", "fault_sequences"], "all lists of local and remote objects, sizes and block sizes, failures of destinations",
     "Tests copy two buffers of fixed sizes in one way.",
     [API, CTX, POOL, CORE, "python/xoscar/backends/communication"], [("splitting", "python/xoscar/backends/context.py:IndigenActorContext.copy_to_buffers"), ("receiving", POOL + ":AbstractActorPool.handle_copy_to_buffers_message")],
     ["bytes of every destination and of a margin around it"], "differential byte oracle (with margins) over generated copies and injected failures", level="fault_enumeration",
     note="Random sizes around the block sizes; kinds mixed; failures of destinations.")

prop("C28", "Files, events and caches of xoscar.aio do what their blocking models do",
     "An AioFileObject reads, writes, seeks and iterates like the file it stands for, also when used by several tasks at once, without blocking the loop; AioEvent is an event for processes; a function in alru_cache gives what it would give uncached: it is "
     "computed once per arguments as long as it is kept, in any number of concurrent callers, evicting the least recently used, keeping no failed or cancelled computation unless told to, telling apart what typed tells apart; "
     "invalidation, clearing and closing do what they say, counters are right.",
     ["inputs", "schedules", "histories"], "all sequences and overlaps of operations of files, events and caches",
     "Tests do each operation once.",
     ["python/xoscar/aio"], [("files", "python/xoscar/aio/file.py"), ("events", "python/xoscar/aio/parallelism.py:AioEvent"), ("cache", "python/xoscar/aio/lru.py:alru_cache")],
     ["results against blocking files and a model cache", "heartbeat of the loop"], "differential monitor against reference models over random histories",
     note="Histories up to some hundreds of operations.")

prop("C30", "Debug options report what they are for, and change nothing else",
     "With debug options on, exactly the calls that close a cycle of waiting calls are reported, with the whole cycle in order, across processes, through simultaneous calls, tells, yielded calls and untraced parts (no_message_trace, also left by an error); calls, messages and lock holders that last longer "
     "than their option are reported while they last and not after; errors of actors are reported once. What is off is not reported, and results, errors and the number of executions are the same in every case.",
     ["schedules", "configurations"], "all trees of calls over any actors, all options",
     "Tests look for one cycle of two actors.",
     ["python/xoscar/debug.py", CTX, POOL, CORE], [("cycles", "python/xoscar/debug.py:detect_cycle_send"), ("traces", "python/xoscar/debug.py:record_message_trace"), ("slow calls", "python/xoscar/debug.py:debug_async_timeout")],
     ["log records of all processes against the cycles of the tree of calls"], "log monitor against a model over generated call trees",
     note="Random trees up to 25 calls over five actors in three processes.")

prop("C34", "What xoscar names itself never has the name of anything else",
     "Identifiers xoscar makes up (of messages, actors, generators, references to buffers and files) are distinct among all processes, threads and times: after fork, with seeded random generators, made at once by many threads, "
     "in pools at many addresses; an actor created without a uid never takes another's place, and no caller gets another's answer or cancellation because names met.",
     ["schedules", "histories"], "all processes and threads making names, whatever users seed and fork",
     "Tests never compare names of two processes.",
     ["python/xoscar/_utils.pyx", "python/xoscar/utils.py", CTX, IPOOL], [("random ids", "python/xoscar/_utils.pyx:new_random_id"), ("actor ids", "python/xoscar/_utils.pyx:new_actor_id")],
     ["every name made, collected from all processes"], "uniqueness monitor over names collected from forked and seeded processes",
     note="Thousands of names from forked, seeded and threaded makers.")

prop("C31", "Profiles say what was recorded and called, and lose nothing",
     "For every task being profiled, and for all those at once, a profile says exactly what was recorded under its keys, the ten most called methods with the exact number of their calls, and the ten calls that took longest of those "
     "at least as long as its threshold, longest first, whatever the ids of actors, the arguments and the durations are; it can be taken once, after which nothing is kept. Options come from arguments, then environment, then defaults, and stay. Reports come as often as asked, until the task has ended. "
     "Calls give the same with profiling on.",
     ["histories", "inputs"], "all histories of profiled tasks and calls",
     "Tests collect rising durations of one actor, which hides what happens with any other order, id or argument.",
     ["python/xoscar/profiling.py", BCORE], [("calls", "python/xoscar/profiling.py:_CallStats"), ("data", "python/xoscar/profiling.py:ProfilingDataOperator"), ("collecting", BCORE + ":ActorCallerThreadLocal.call_with_client")],
     ["profiles against a model of what was recorded"], "model-based monitor over random histories and real calls",
     note="Histories up to 300 steps of up to four tasks; the duration of a real call is that of sending it, which is not judged.")

prop("C32", "Metrics show what was recorded",
     "Counters, gauges, meters and histograms show the count, the last value, the rate and the mean of exactly what was recorded since metrics were initialised, per the time and number of values at which each reports, for both backends and in every process of a pool, whether declared before or after metrics were initialised; "
     "tags are shown as given, with host and process, and the caller's tags are not changed. Percentiles are reported once per full window, over its values only.",
     ["histories", "inputs"], "all histories of records over all clocks",
     "Tests record a few values in real time and mostly check that something was reported.",
     ["python/xoscar/metrics"], [("kinds", "python/xoscar/metrics/backends/metric.py:AbstractMetric"), ("declared early", "python/xoscar/metrics/api.py:_MetricWrapper"), ("prometheus", "python/xoscar/metrics/backends/prometheus/prometheus_metric.py")],
     ["value shown (console, Prometheus registry) after each record"], "model-based monitor under a controlled clock",
     note="A counter's count is one for all tags, as implemented; record_time_cost_percentile is a known finding.")

prop("C27", "A program that comes to its end ends",
     "Whatever a program still has going on - calls, messages, batches, generators, queued, cancelled or timed calls, actors being made or destroyed, pools of its own not stopped, used as clients or from actors - when its main function returns, raises, exits, is cancelled or is interrupted, the loop closes and the program ends with "
     "that outcome, in the main or another thread; the next loop in the same process can use pools again; no process it started outlives it, and pools of others that it used go on.",
     ["schedules", "histories", "fault_sequences"], "all programs, what is pending in them, and the ways and moments to end",
     "Tests run inside loops that fixtures stop in good order.",
     [BCORE, CTX, POOL, IPOOL, "python/xoscar/backends/router.py"], [("pending calls", BCORE + ":ActorCallerThreadLocal._listen"), ("cancelled calls", CTX + ":IndigenActorContext._wait"), ("orphans", POOL + ":SubActorPoolBase")],
     ["exit status and outcome of every loop of real programs", "process tree during and after"], "process monitor over generated programs and endings", level="fault_enumeration",
     note="Programs of up to three loops and four pending kinds of 14; a bound of 90 s stands for never.")

STORE = "cpp/collective/rendezvous/src/tcp_store.cpp"
prop("C23", "The rendezvous store is one table for all, whoever fails",
     "All operations on a store (TCPStore in cpp/collective/rendezvous: set, get, add, compareSet, deleteKey, append, check, getNumKeys, multiGet, multiSet, wait), by any threads, stores and processes, give what they would one at a time in some order that respects what happened before what "
     "(those without an answer happen before the next answered one of the same connection). A wait ends exactly when all its keys have been made, in whatever way, or at its own timeout, after which the store works as before; watchers see each change of their key once, in order. Clients that end, die, stand still or send nonsense harm "
     "no other client and not the server; when the server ends, operations fail and clients live on idle. Servers of one process can be shared, groups are ready when all have come, and closed stores leave nothing. No data race, invalid memory access, leak or undefined behaviour happens.",
     ["schedules", "histories", "fault_sequences"], "all concurrent histories of clients, threads, deaths and inputs",
     "The tests of collectives need the built gloo extension and use the store only to exchange addresses once, without a failure.",
     [STORE, "cpp/collective/rendezvous/include/utils.hpp", "cpp/collective/rendezvous/src/socket.cpp"],
     [("requests", STORE + ":TCPStoreMasterDaemon::query"), ("waits", STORE + ":TCPStoreMasterDaemon::waitHandler"), ("watches", STORE + ":TCPStoreMasterDaemon::sendKeyUpdatesToClients"), ("connections that end", STORE + ":TCPStoreMasterDaemon::queryFds")],
     ["answers and times of every operation", "notifications", "reports of thread, address and undefined-behaviour sanitizers", "descriptors and threads"],
     "ThreadSanitizer and Address/UndefinedBehaviorSanitizer builds under generated clients; linearizability checker over recorded histories", level="fault_enumeration",
     note="The store's sources are compiled with the libfmt of the sandbox and the interface of gloo's Store; histories of up to 5 threads and 50 operations; unix only.")

prop("C29", "A pool on all interfaces is used by any of its addresses",
     "A pool that listens at 0.0.0.0 or :: is used by any address of its machine, with several at once, by clients with or without a pool of their own: actors are created where asked (by address, index, label, in the main or a sub process), found, called, cancelled, destroyed and killed, recoveries are waited for and configurations read, "
     "as by the configured address. Every reference handed out names the host by which the pool was reached and the process where the actor is, and is usable; no request goes round in circles.",
     ["histories", "schedules"], "all operations by all addresses",
     "One test looks up one actor of a main pool without sub pools by 127.0.0.1.",
     [POOL, CTX, "python/xoscar/utils.py", "python/xoscar/backends/router.py"], [("addresses of references", "python/xoscar/utils.py:fix_all_zero_ip"), ("which process is meant", POOL + ":MainActorPoolBase._get_pool_address")],
     ["references, answers and errors of every operation", "state told by actors", "cpu time when idle"], "model-based monitor over random operations by several addresses",
     note="Addresses of the loopback network (127.0.0.0/8, ::1) stand for those of a machine.")

prop("C33", "Each process of a pool is what its configuration asked for",
     "Every process of a pool, from its start, after each death and recovery, and when appended, has the address (host, port), label, environment (its own on top of the parent's, that of no other), modules (imported with that environment), logging, python and internal address asked for, all processes tell the same configuration, and actors made by label land on that label; "
     "SIGINT, which Ctrl-C sends to all, does not end sub pools or calls in them. Configurations may be as large as they come; the default size is one process per cpu. What cannot be (sizes that differ, unknown recovery modes, taken ports, failing modules or logging) is refused with an error that says so, and nothing is left.",
     ["inputs", "histories", "fault_sequences"], "all configurations, and deaths and appends of processes so configured",
     "Tests start pools of a handful of configurations and look at addresses and labels only.",
     [IPOOL, POOL, "python/xoscar/backends/config.py", "python/xoscar/backends/test/pool.py", "python/xoscar/backends/indigen/fate_sharing.py"],
     [("sizes and defaults", POOL + ":create_actor_pool"), ("handing over", IPOOL + ":MainActorPool._create_sub_pool_from_parent"), ("set-up", IPOOL + ":MainActorPool._start_sub_pool_in_child"), ("appended", IPOOL + ":MainActorPool.append_sub_pool")],
     ["what actors in each process tell of it", "configuration told by each process", "processes and shared memory left by refused configurations"], "model-based monitor over generated configurations",
     note="Schemes other than the default are covered by C21; use_uvloop in sub pools is a known finding.")

VENV = "python/xoscar/virtualenv/uv.py"
prop("C35", "A virtual environment holds what was asked for",
     "After VirtualEnvManager.install_packages succeeds, every requirement that applies (its marker, evaluated with the platform's and xoscar's variables — engine, model, cuda_version, #system_...# and the like — being true) is met in the environment: name in any spelling, version, extras, url. Requirements whose marker is false, and packages already there as asked for when "
     "installed ones are to be skipped, are left alone; options (index, extra index, find-links, trusted hosts, no build isolation, log) reach the installer as given; other environments, the parent's and what was in the environment stay. A failed or cancelled installation raises and ends its processes; the environment can be created again, used, and removed whole.",
     ["inputs", "histories", "fault_sequences"], "all lists of requirements, markers, options and installed packages",
     "Most tests of virtual environments need a network; those that run check a handful of markers.",
     ["python/xoscar/virtualenv/core.py", VENV, "python/xoscar/virtualenv/platform.py", "python/xoscar/virtualenv/utils.py"],
     [("what applies", "python/xoscar/virtualenv/core.py:VirtualEnvManager.process_packages"), ("what is there", VENV + ":UVVirtualEnvManager._resolve_install_plan"), ("installing", VENV + ":UVVirtualEnvManager.install_packages"), ("cancelling", VENV + ":UVVirtualEnvManager.cancel_install")],
     ["distributions in the environments, read from their metadata", "arguments of the installer", "processes", "errors"], "model-based monitor over generated requirements, with the real installer offline and a stand-in for it",
     note="Packages are tiny wheels made for the purpose, installed by the real uv without a network; markers with `in` or `~=` on xoscar's own variables are outside.")

prop("C36", "A registered serializer serves its types and their subclasses only",
     "An object is serialized by the serializer of the nearest class, in the order of inheritance, of all registered at that moment, one for the context's name before one for none; registrations (of a class, several, or a name to be imported later; one serializer for many) and unregistrations at any time take effect for all that follow and change nothing else. "
     "Each gets the header and parts it made, shared objects once, temporary parts unmixed, by every way of serializing; an error in reading a part is offered to each serializer outside it, innermost first, with the part's place. The same table of types dispatches everywhere.",
     ["histories", "inputs"], "all histories of registrations and hierarchies of classes",
     "Tests register one or two classes once, before any use.",
     ["python/xoscar/_utils.pyx", "python/xoscar/serialization/core.pyx"],
     [("dispatch", "python/xoscar/_utils.pyx:TypeDispatcher"), ("registering", "python/xoscar/serialization/core.pyx:Serializer.register"), ("errors", "python/xoscar/serialization/core.pyx:deserialize")],
     ["the serializer each object tells it was read by", "values", "arguments of rewritten errors"], "reference model of the table checked over random histories of registrations and nested values",
     note="Types of up to eight classes; redefinition of a serializer class of the same name is outside.")

COLL = "python/xoscar/collective/"
prop("C37", "Collectives give each rank of a group what they define",
     "In a world of processes each with a rank (init_process_group), new_group gives all of its ranks, and nobody else, one name — the same when made again, in any order of ranks, another for another group, and the default for all ranks — and refuses what is no group. reduce, allreduce, gather, allgather, scatter, reduce_scatter, alltoall and broadcast on a group put in each rank's buffer exactly what "
     "the operation defines for the reduction, root (counted in the group) and types given, read and write no memory but the buffers given, leave what is sent as it was, and hand roots and tags on as given. Types, reductions and calls that cannot be (also in processes without a rank) are refused.",
     ["inputs", "histories"], "all programs of collectives over all groups, types, sizes, layouts and roots",
     "The tests of collectives need the built extension (not so here) and make one world of three ranks with small arrays of one or two types each.",
     [COLL + "core.py", COLL + "process_group.py", COLL + "common.py", COLL + "utils.py", "cpp/collective/gloo"],
     [("groups", COLL + "core.py:RankActor.new_group"), ("pointers and sizes", COLL + "process_group.py:ProcessGroupGloo"), ("types and reductions", COLL + "common.py"), ("binding", "cpp/collective/gloo/src/scatter.cc")],
     ["buffers of every rank and their neighbours", "requests to gloo", "reports of address and undefined-behaviour sanitizers"],
     "the real binding built with Address/UndefinedBehaviorSanitizer over a stand-in for gloo; model of every operation's result",
     note="gloo itself is not in the tree: a stand-in with its interface, which touches the memory gloo would, takes its place (cpp/gloo); worlds of up to four ranks on one machine.")

UCXF = "python/xoscar/backends/communication/ucx.py"
prop("C38", "UCX channels keep what socket channels keep",
     "Between processes reached by UCX, each message arrives whole, unchanged, once and in the order in which it was sent, whatever its parts (empty ones, long ones, several dimensions) and however many senders; calls, tells, batches and "
     "copies of buffers and files do over UCX what they do over sockets, also when UCX is only one of a pool's addresses. A refused copy, a cancelled call, a closed end or a killed process harms only itself: who waits on what is gone is told, and everybody "
     "else goes on. Ends may be closed by several at once, handlers are run for every connection, and nothing stays open when a pool has stopped. Settings asked for are worked out as documented (flags before the process' own variables before those of the configuration), UCX starts once with them, and the environment stays as it was.",
     ["schedules", "inputs", "fault_sequences"], "all mixes of messages, calls, copies, cancellations, closings and deaths over UCX, and all option sets",
     "The tests over UCX are skipped without the library, and send two messages and start one pool where it is.",
     [UCXF, CTX, POOL, "python/xoscar/backends/communication/utils.py"],
     [("messages over endpoints", UCXF + ":UCXChannel"), ("connections and stopping", UCXF + ":UCXServer"), ("options", UCXF + ":UCXInitializer"), ("copies straight into buffers", CTX + ":IndigenActorContext.copy_to_buffers")],
     ["values and order at receivers", "the stand-in's log of endpoints opened, closed and misused", "settings given to UCX"],
     "real UCX channels over a stand-in for UCX: comparison oracles, leak monitor over its event log, faults",
     note="UCX itself is not there: a stand-in in Python with its interface, which matches messages in order and reads long ones from the sender's memory when the receiver is ready, takes its place; RDMA and devices are C91.")

prop("C90", "gloo and NCCL carry out what the bindings ask for",
     "Collectives run by the real gloo library over its transports, and on CUDA devices by NCCL, give the same results as defined.",
     ["inputs", "schedules"], "all groups, types, roots and schedules", "Tests run one group of three ranks with small arrays.",
     ["python/xoscar/collective/process_group.py", "python/xoscar/collective/backend/nccl_backend.py"], [("groups", "python/xoscar/collective/process_group.py:ProcessGroupNCCL")],
     ["buffers of each rank"], "none", note="not claimed")
prop("C91", "Messages over RDMA and device buffers arrive as sent",
     "Messages by the real UCX library over its transports, and buffers on CUDA or NPU devices over any transport, arrive unchanged and in order.",
     ["inputs", "schedules"], "all messages", "Tests are skipped without hardware.",
     ["python/xoscar/backends/communication/ucx.py", "python/xoscar/serialization/cuda.py"], [("transport", "python/xoscar/backends/communication/ucx.py:UCXChannel")],
     ["messages"], "none", note="not claimed")

NA = [
    dict(property="C90", reason="gloo's sources and headers, cupy, NCCL and CUDA devices are not there, so those libraries cannot be executed; xoscar's own part, the binding and the layer above, is decided by C37 over a stand-in for gloo"),
    dict(property="C91", reason="neither UCX itself nor a CUDA/NPU device or library is present, so those cannot be executed; xoscar's UCX channels are decided by C38 over a stand-in for UCX"),
]
