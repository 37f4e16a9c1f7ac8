#!/usr/bin/env python3
"""Writes properties.jsonl (one place to keep the wording)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Device state machine accepts exactly the documented transitions",
  "In every reachable state, a requested transition is accepted (request returns true) exactly when the documented state diagram has an arrow for it, and then the device ends up in the state the arrow points to; every other request returns false and changes nothing: no state change, no pending state, no callback. Error can be entered from every state except itself and, once the machine is in the error state, no further transition is ever accepted. State and transition names convert to their values and back without ambiguity, and unknown names are rejected with an exception.",
  ["histories", "inputs"], "all reachable states x all transition requests, along every request sequence up to the depth bound",
  "Tests walk a few happy paths; the claim is over every state/request pair and every history leading there.",
  ["fairmq/StateMachine.cxx", "fairmq/States.cxx", "fairmq/States.h"],
  [("transition table", "fairmq/StateMachine.cxx Machine_::transition_table"), ("no_transition", "fairmq/StateMachine.cxx"), ("name tables", "fairmq/States.cxx")],
  ["StateMachine::ChangeState result", "GetCurrentState", "state-change and new-transition subscriptions", "GetState/GetTransition/GetStateName/GetTransitionName"])

p("C02", "Concurrent transition requests are applied one at a time, none lost",
  "When several threads request transitions while another thread drives the state machine, each request that returned true leads to exactly one visit of its target state, in the order accepted, and subscribers, state preparation and state handler see every visited state exactly once, in that order; only an error request may overtake a pending transition. The driving thread waiting for a pending state is always woken when a transition is accepted (a timed wait returns false after its timeout). An exception leaving a state handler puts the machine into the error state, and no interleaving deadlocks.",
  ["schedules"], "all interleavings of requesters, waiters, subscribers and the driving thread up to the preemption bound",
  "Tests run one or two OS-chosen schedules; lost wake-ups and dropped requests need particular interleavings.",
  ["fairmq/StateMachine.cxx", "fairmq/StateMachine.h"],
  [("pending flag + condition variable", "fairmq/StateMachine.cxx DefaultFct / ProcessWork"), ("state mutex", "fairmq/StateMachine.cxx ChangeState")],
  ["ChangeState results", "state-change callbacks", "handler calls", "WaitForPendingState(For)"])

p("C03", "State queue delivers pushed states in order without losing a wake-up",
  "States pushed into a state queue are handed to waiters exactly once and in push order, and a waiter never stays blocked while a state it may take is queued or while the custom condition it waits for was set through the queue. A timed wait returns without a state only if none was available, waiting does not change the caller's condition object, and an error state once pushed makes every later wait that reaches it fail with a device-error exception (it is never consumed). Clearing drops exactly the states queued at that moment.",
  ["schedules", "histories"], "all interleavings of pushers, notifiers and a waiter up to the preemption bound; all operation sequences up to the depth bound",
  "Tests do not exercise the queue concurrently; lost notifications only show in specific interleavings.",
  ["fairmq/StateQueue.h"],
  [("mutex + condition variable with predicate", "fairmq/StateQueue.h WaitForNext/WaitForNextOrCustom/WaitForCustom"), ("sticky error", "fairmq/StateQueue.h PopFrontUnsafe")],
  ["WaitForNext / WaitForState / WaitForNextOrCustom / WaitForCustom results and termination"])

p("C04", "Event subscriptions: each live subscriber gets each matching event once",
  "Emitting an event calls every callback currently subscribed for exactly that event type and argument types, once each, with the emitted key and arguments; callbacks for other event types or other argument types are not called, and emissions that start after an unsubscribe has returned do not call the callback. A subscriber that subscribes again for the same event and argument types replaces its previous callback. Subscribing, unsubscribing and emitting may be done from several threads at once without data races, deadlocks or lost subscriptions.",
  ["histories", "schedules"], "all operation sequences over a small set of events, argument types and subscribers up to the depth bound; all interleavings of concurrent operations up to the preemption bound",
  "The one existing test performs a single fixed sequence on one thread.",
  ["fairmq/EventManager.h", "fairmq/EventManager.cxx"],
  [("signal lookup keyed by (event type, callback type)", "fairmq/EventManager.h GetSignal"), ("connection map keyed by subscriber", "fairmq/EventManager.h Subscribe/Unsubscribe")],
  ["callback invocations"])

p("C05", "Configuration store behaves as an atomic map of typed properties",
  "The configuration store behaves as if every set, update, delete and read took effect at one instant: a read returns the last value set, updating several properties either changes all of them (all existed) or none, updating or reading a missing property fails without effect, and deleting removes it. Queries by prefix, by regular expression and of channel information return exactly the matching stored properties. This holds for any number of threads, without data races or deadlocks.",
  ["histories", "schedules"], "all operation sequences up to the depth bound against a reference map; all interleavings of concurrent operations up to the preemption bound",
  "Tests check single-threaded examples with a handful of values.",
  ["fairmq/ProgOptions.cxx", "fairmq/ProgOptions.h"],
  [("store mutex", "fairmq/ProgOptions.h/.cxx fMtx"), ("existence check before update", "fairmq/ProgOptions.cxx UpdateProperties")],
  ["ProgOptions API results"])

p("C06", "Property change subscribers see every change with the value that was set",
  "Whenever a property is set or successfully updated, each subscriber for the property's type is called exactly once with its key and the new value, and each string subscriber exactly once with its key and the textual form of that value; failed updates, deletions and reads call nobody, and unsubscribed parties are not called. The textual form of a property of each supported type is the one obtained by printing the value, and its reported type name identifies the type.",
  ["histories", "inputs"], "all supported property types x boundary values x operation sequences up to the depth bound",
  "Tests sample two or three types; the dispatch tables have one entry per type and list type.",
  ["fairmq/ProgOptions.cxx", "fairmq/ProgOptions.h", "fairmq/Properties.cxx", "fairmq/Properties.h", "fairmq/PropertyOutput.h"],
  [("type dispatch tables", "fairmq/Properties.cxx fTypeInfos / fEventEmitters"), ("emit after store", "fairmq/ProgOptions.h SetProperty/UpdateProperty")],
  ["subscriber callbacks", "GetPropertyAsString", "PropertyHelper::GetPropertyInfo / ConvertPropertyToString"])

p("C07", "At most one controller may steer a device; release wakes whoever waits",
  "At any time at most one party controls a device: taking control succeeds exactly if nobody or the same party holds it, only the current controller's transition requests reach the device (a request with nobody in control takes control implicitly, a request by anyone else fails with an error and does nothing), stealing always succeeds, and releasing by a non-controller has no effect. Every party blocked until control is released returns once it is released (unless it is taken again before the party looks). This holds for any interleaving of the parties.",
  ["schedules", "histories"], "all operation sequences of three parties up to the depth bound and all their interleavings up to the preemption bound",
  "Tests check sequential examples only.",
  ["fairmq/PluginServices.cxx", "fairmq/PluginServices.h"],
  [("controller mutex + condition variable", "fairmq/PluginServices.cxx")],
  ["TakeDeviceControl/StealDeviceControl/ReleaseDeviceControl/ChangeDeviceState/WaitForReleaseDeviceControl"])

p("C08", "Built-in controller always brings the device to its end state",
  "With the built-in static controller a device is taken through initialisation, binding, connecting, task initialisation and running; when its run ends, when a shutdown signal arrives at any moment, or when the device fails in any state, the device reaches its end (or error) state, control is released and all controller threads terminate. No interleaving of device progress, shutdown request and error leaves the controller waiting forever; it also terminates if another party ends the device. In interactive mode every key requests exactly its transition (i INIT DEVICE, b BIND, x CONNECT, j INIT TASK, r RUN, s STOP, t RESET TASK, d RESET DEVICE), also if several keys arrive at once; q, a signal or an error end the device from any state; other keys, white space and the end of the input leave it in its state.",
  ["schedules", "fault_sequences"], "all interleavings of controller, signal handler and device threads up to the preemption bound, with a shutdown request or device failure at any point",
  "Tests start devices and hope for one schedule; shutdown racing with an automatic state change is not reachable on demand.",
  ["fairmq/plugins/control/Control.cxx", "fairmq/plugins/control/Control.h", "fairmq/StateQueue.h", "fairmq/StateMachine.cxx"],
  [("startup/shutdown sequences over the state queue", "fairmq/plugins/control/Control.cxx RunStartupSequence/RunShutdownSequence/SignalHandler")],
  ["device states visited", "thread termination", "device controller after the end"])

p("C09", "Device task hooks run exactly once per visited state, in documented order",
  "For every sequence of accepted transitions the device calls the user hook of each visited state exactly once (initialise, bind, connect, task initialisation, pre-run, run, post-run, task reset, reset), a run ends by returning to the ready state, and no hook runs in any other state. If any hook throws, the device enters the error state, no later hook runs, and the exception ends the device's state machine run with an error. A transition request, whenever it is made, makes the conditional run loop stop and blocked transfers of the device return.",
  ["histories", "fault_sequences"], "all accepted transition sequences up to the depth bound, with an exception injected in each hook",
  "Tests follow one path per hook.",
  ["fairmq/Device.cxx", "fairmq/Device.h", "fairmq/StateMachine.cxx"],
  [("state handler dispatch", "fairmq/Device.cxx constructor HandleStates"), ("exception -> error", "fairmq/StateMachine.cxx ProcessWork")],
  ["hook calls", "GetCurrentState", "RunStateMachine outcome"])

p("C10", "Incoming data callbacks get every message exactly once and in order",
  "While a device with registered data callbacks runs, every message that arrives on a registered input channel is passed exactly once, in arrival order per sub-channel and with the index of its sub-channel, to the callback of that channel, until a callback asks to stop or throws, or a state change is requested; then the run ends (in the error state after an exception, even if the channels use different transports; after a state-change request sub-channels already found ready may still be served) and messages not yet taken stay in the transport. This holds for one or several channels, single- and multi-part callbacks, and channels of different transports.",
  ["histories", "fault_sequences", "configurations"], "all arrival orders and all receive outcomes (data, timeout, interruption) over small channel configurations",
  "Tests run one channel with one message.",
  ["fairmq/Device.cxx", "fairmq/Device.h"],
  [("input dispatch loops", "fairmq/Device.cxx HandleSingleChannelInput/HandleMultipleChannelInput/PollForTransport")],
  ["callback invocations", "messages left in the transport"])

p("C11", "Channels end up bound and connected exactly as configured, or fail",
  "After binding and connecting states, every configured sub-channel has each of its endpoints attached exactly once with the configured method; invalid channel configurations are reported as invalid, and a device whose channels cannot be validated or attached ends in the error state instead of running with a partial set of channels. Automatic port selection only uses ports inside the configured range and the endpoint really bound, and whether an endpoint is bound or connected, is what the configuration store reports.",
  ["configurations", "fault_sequences"], "all small channel configurations x all bind/connect outcomes",
  "Tests use one or two hand-written addresses.",
  ["fairmq/Device.cxx", "fairmq/Channel.cxx"],
  [("Validate", "fairmq/Channel.cxx Validate"), ("AttachChannels/BindEndpoint", "fairmq/Device.cxx")],
  ["socket bind/connect calls", "device state", "configuration store addresses"])

p("C12", "Channel configuration text yields exactly the channel it describes",
  "Parsing a channel configuration (command-line sub-options or JSON) yields, for each sub-channel of the named channel of the named device, exactly the given option values and the documented defaults for everything not given, with settings on a sub-channel overriding those on its channel; entries of other devices and unknown keys contribute nothing. A channel built from those properties reports the same values, and storing a channel into the configuration and reading it back yields an equal channel.",
  ["inputs", "configurations"], "all combinations of option keys (present/absent, channel/sub-channel level) over boundary values, 0-3 sub-channels",
  "Tests parse a few literals; each option key is separate code.",
  ["fairmq/SuboptParser.cxx", "fairmq/JSONParser.cxx", "fairmq/Channel.cxx", "fairmq/ProgOptions.cxx"],
  [("option key table", "fairmq/SuboptParser.cxx channelOptionKeys"), ("property tree walk", "fairmq/JSONParser.cxx ChannelParser/SubChannelParser"), ("channel from properties", "fairmq/Channel.cxx")],
  ["Properties returned by the parsers", "Channel getters"])

p("C13", "Message buffers behave as independent byte arrays",
  "A message reports the size and content it was created or rebuilt with, a requested alignment of its data address holds for every power-of-two alignment below 64 KiB (also for buffers it receives over the ZeroMQ transport; the shared-memory transport hands over the sender's buffer in place), growing its used size fails and shrinking succeeds keeping the leading bytes, and a copy has the source's size and content at the time of copying and keeps them while the source is rebuilt, resized, sent or destroyed. This holds along every sequence of such operations, for both transports.",
  ["histories", "inputs"], "all operation sequences up to the depth bound over sizes, alignments and buffer origins, both transports, against a reference byte array",
  "Tests check single operations on one message.",
  ["fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/shmem/Common.h"],
  [("buffer header", "fairmq/shmem/Common.h ShmHeader"), ("used-size views", "fairmq/zeromq/Message.h SetUsedSize"), ("reference counting", "fairmq/shmem/Message.h Copy")],
  ["Message GetData/GetSize/SetUsedSize/Copy/Rebuild"])

p("C14", "Every buffer handed to the library is released exactly once",
  "A user-supplied buffer's release function is called exactly once, after the last message referring to it is gone and never earlier; a region block's release callback is called exactly once per message created from it; and memory obtained from a shared segment is returned completely once all messages using it are gone. This holds along every sequence of create, copy, rebuild, resize, send, receive, failed transfer and destroy.",
  ["histories", "fault_sequences"], "all operation sequences up to the depth bound, both transports, all buffer origins, with transfer failures injected",
  "Tests observe single releases; leaks and double releases need particular sequences.",
  ["fairmq/zeromq/Message.h", "fairmq/shmem/Message.h", "fairmq/shmem/Manager.h", "fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/Socket.h"],
  [("CloseMessage / reference count", "fairmq/shmem/Message.h CloseMessage"), ("meta hand-over", "fairmq/shmem/Socket.h")],
  ["free function calls", "region callbacks", "segment free memory"])

p("C15", "Shared buffer headers locate data and count references for all alignments",
  "For every start address and every permitted alignment, the bookkeeping stored with a shared buffer places the user data at an address with that alignment, inside the allocated area and large enough for the requested size, and the data address and reference counter computed later by any process are the same ones. The counter starts at one, and increments and decrements (up to 65535 references) from any number of threads are never lost; exactly one decrement observes the drop to zero.",
  ["inputs", "schedules"], "all start offsets modulo the maximum alignment x all power-of-two alignments; all interleavings of counter updates up to the preemption bound",
  "No test computes the layout directly; only default alignment is exercised.",
  ["fairmq/shmem/Common.h"],
  [("ShmHeader layout", "fairmq/shmem/Common.h ShmHeader"), ("atomic counter", "fairmq/shmem/Common.h ShmHeader::RefCountPtr and friends")],
  ["ShmHeader::UserPtr / FullSize / RefCount / IncrementRefCount / DecrementRefCount"])

p("C16", "Concurrent release of shared copies frees the buffer exactly once",
  "When copies of a shared-memory message are destroyed, rebuilt, copied further or sent from different threads or devices at the same time, the underlying buffer is freed exactly once, after the last of them, and its content stays intact until then. The same holds for buffers inside unmanaged regions, whose owner is told exactly once.",
  ["schedules"], "all interleavings of copy/destroy/resize operations by up to three threads up to the preemption bound",
  "Needs two decrements to race; tests are single-threaded here.",
  ["fairmq/shmem/Message.h", "fairmq/shmem/Common.h", "fairmq/shmem/UnmanagedRegion.h"],
  [("atomic reference counter", "fairmq/shmem/Common.h"), ("deallocation decision", "fairmq/shmem/Message.h CloseMessage")],
  ["segment free memory", "content", "region callbacks"])

p("C17", "Region owners are told about every released block exactly once",
  "Every message created from an unmanaged region leads to exactly one acknowledgement of its block (address, size as last used, hint unchanged) to the region's owner, individually or in bulk, no matter which device releases it, in which order, how releases interleave with the delivery threads, or whether the queue between devices is full; acknowledgements issued before the region is destroyed are delivered within the configured linger time. No callback is made after destruction of the region has completed.",
  ["schedules", "histories"], "all interleavings of releasing threads, acknowledgement sender and receiver up to the preemption bound; batches around the bulk limits",
  "Tests release a couple of blocks in one schedule; batch boundaries and shutdown races are not reached.",
  ["fairmq/shmem/UnmanagedRegion.h", "fairmq/shmem/UnmanagedRegionImpl.h", "fairmq/shmem/Message.h"],
  [("ack sender/receiver threads and message queue", "fairmq/shmem/UnmanagedRegion.h")],
  ["region callback invocations"])

p("C18", "Region event subscribers learn every region's creation and destruction once",
  "A subscriber to region events is told about each region that exists when it subscribes and about each later creation and destruction, exactly once each and creation before destruction, with the region's identity and flags (a region both created and destroyed between two looks of the polling event thread may be skipped entirely); the list of regions returned on request contains exactly the existing ones. After unsubscribing (or destroying the transport) returns, the callback is not called any more, and subscribe, unsubscribe and region operations never deadlock.",
  ["schedules", "histories"], "all interleavings of subscriber, region creator/destroyer and event thread up to the preemption bound, both transports",
  "Tests create and destroy one region in one schedule.",
  ["fairmq/shmem/Manager.h", "fairmq/zeromq/Context.h", "fairmq/zeromq/TransportFactory.h"],
  [("event thread with condition variable", "fairmq/shmem/Manager.h RegionEventsSubscription, fairmq/zeromq/Context.h RegionEventsSubscription")],
  ["region event callbacks", "GetRegionInfo"])

p("C19", "Region lookup is consistent and deadlock-free across threads and sessions",
  "Regions created in a session get distinct identifiers (an explicitly requested identifier of an existing region opens that region), and a message referring to a region always resolves to the memory of the region with that identifier in the current session: never to a destroyed region, another session's region or a previous incarnation. Creating, looking up, listing and removing regions from several threads never deadlocks or corrupts the registry.",
  ["schedules", "histories"], "all interleavings of create/lookup/remove/list by up to three threads up to the preemption bound; all create/destroy/recreate sequences up to the depth bound",
  "Lock-order inversions and stale caches need two threads or a recreated session.",
  ["fairmq/shmem/Manager.h", "fairmq/zeromq/Context.h", "fairmq/zeromq/UnmanagedRegion.h"],
  [("region map mutex, session mutex", "fairmq/shmem/Manager.h CreateRegion/GetRegion/RemoveRegion"), ("thread-local lookup cache with generation", "fairmq/shmem/Manager.h GetRegionFromCache")],
  ["region ids", "data addresses and contents seen through messages"])

p("C20", "Shared memory of a session lives exactly as long as it has users",
  "A session's shared memory exists from the first device's attach until the last device's detach: no device's detach removes memory that another attached device uses, the last detach removes everything the session created (unless cleanup was disabled), and another session's objects are never touched. This holds for any order and interleaving of devices attaching and detaching.",
  ["schedules", "histories", "configurations"], "all interleavings of up to three devices attaching and detaching up to the preemption bound; all attach/detach sequences up to the depth bound",
  "Tests attach and detach one device at a time.",
  ["fairmq/shmem/Manager.h", "fairmq/shmem/Monitor.cxx", "fairmq/shmem/Segment.h"],
  [("device counter under session mutex", "fairmq/shmem/Manager.h constructor/CleanupIfLast"), ("session-scoped object names", "fairmq/shmem/Common.h MakeShmName")],
  ["shared memory objects of the session in /dev/shm", "usability of attached devices"])

p("C21", "A crashed session can always be cleaned up, and only that session",
  "Wherever a process using a shared-memory session dies, cleaning up that session by name afterwards removes every shared object the session created, touches no object of any other session or user, can be repeated without harm, and a new device can then start in the session. The monitor's listing never changes anything.",
  ["crash_points"], "process death at every shared-memory system call of a session's lifetime x cleanup, repeated cleanup and restart",
  "Tests clean up only after orderly runs; crash points between object creations are never hit.",
  ["fairmq/shmem/Monitor.cxx", "fairmq/shmem/Manager.h", "fairmq/shmem/Segment.h", "fairmq/shmem/UnmanagedRegion.h"],
  [("Monitor::Cleanup by session name", "fairmq/shmem/Monitor.cxx"), ("object naming", "fairmq/shmem/Common.h MakeShmName")],
  ["/dev/shm content", "restart success"])

p("C22", "Send and receive report exactly what happened and keep ownership clear",
  "A transfer returns the number of payload bytes transferred if and only if the message was handed over, and otherwise a timeout, interruption or error code with the message still owned by the caller and unchanged (failed send) or without any payload delivered (failed receive); only when the transport terminates in the middle of a multi-part message may its parts be lost. A transfer with timeout zero never blocks, one with a positive timeout gives up not before that time (up to the clock granularity of 1 ms) and soon after it, one with negative timeout only ends by success, interruption or error; system calls interrupted by signals neither shorten the timeout nor damage the message; byte and message counters equal the sum of successful transfers.",
  ["fault_sequences", "inputs"], "all sequences of transport-level outcomes (success, would-block, interrupted system call, termination, other error) up to the depth bound x timeouts x single/multi-part, both transports",
  "Tests cannot make the transport fail at will.",
  ["fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Common.h", "fairmq/Channel.h"],
  [("retry loops", "fairmq/zeromq/Socket.h, fairmq/shmem/Socket.h Send/Receive"), ("ShouldRetry/HandleErrors", "fairmq/zeromq/Common.h")],
  ["return codes", "message state", "GetBytesTx/Rx, GetMessagesTx/Rx"])

p("C23", "Multi-part messages arrive whole, in order, across any transport pairing",
  "A message or multi-part message sent through a channel is received with the same number of parts, in the same order, with identical sizes and contents, including empty parts, whichever transports the message buffers and channels use and however the parts were produced (owned, shared copies, resized, region blocks). Messages of successive sends on one connection are received in send order.",
  ["inputs", "configurations", "histories"], "all part-size vectors up to the bound x buffer origins x transport of parts and channel, several sends in sequence",
  "Tests send a few fixed shapes within one transport.",
  ["fairmq/Channel.h", "fairmq/zeromq/Socket.h", "fairmq/shmem/Socket.h", "fairmq/shmem/Message.h"],
  [("transport conversion", "fairmq/Channel.h CheckSendCompatibility/CheckReceiveCompatibility"), ("multi-part metadata", "fairmq/shmem/Socket.h")],
  ["received parts"])

p("C24", "Polling reports readiness of exactly the channels asked about",
  "After polling, a channel is reported ready for input (output) exactly if the transport reported it readable (writable) and channels of its kind are used for receiving (push, pub and xpub are for output only, pull, sub and xsub for input only, all others for both), each index and channel name mapping to the corresponding sub-channel for every poller construction; unknown channel names fail with an error, interrupted polls are retried and a terminated transport ends the poll without reporting readiness or failing.",
  ["configurations", "fault_sequences"], "all channel lists up to three channels x sub-channel counts x readiness patterns x poll outcomes, both transports",
  "Tests poll one pair of channels.",
  ["fairmq/zeromq/Poller.h", "fairmq/shmem/Poller.h"],
  [("offset map", "fairmq/zeromq/Poller.h, fairmq/shmem/Poller.h"), ("socket type to events", "SetItemEvents")],
  ["CheckInput/CheckOutput"])

p("C25", "Stock devices forward every message exactly once to the right output",
  "The merger forwards each message received on any input once to its output; the splitter sends successive messages to successive outputs in rotation; the multiplier sends one copy of each message to every output; the proxy passes messages through; the sink writes all received payload bytes to its file in order. Content, part structure and per-input order are preserved, in single- and multi-part mode and whichever transports the channels use, and messages not yet taken when the device is stopped stay in the transport. A sink or benchmark sampler with a maximum number of messages handles exactly that many in each run, and a sink that cannot write its data fails.",
  ["histories", "configurations"], "all arrival sequences up to the depth bound x numbers of inputs/outputs x single/multi-part",
  "No existing test covers forwarding content and distribution.",
  ["fairmq/devices/Merger.h", "fairmq/devices/Splitter.h", "fairmq/devices/Multiplier.h", "fairmq/devices/Proxy.h", "fairmq/devices/Sink.h", "fairmq/devices/BenchmarkSampler.h"],
  [("run loops / data handlers", "fairmq/devices/*.h")],
  ["messages on the outputs", "output file"])

p("C26", "Messages built from the transport allocator own exactly their container data",
  "Memory obtained from a channel's memory resource belongs to one message: turning a container into a message yields a message with the container's bytes at the same address and leaves nothing behind in the resource, an empty or foreign container yields an equal copy or empty message, and every allocation is either released by its container or by the message, exactly once. The resource counts exactly its outstanding allocations.",
  ["histories"], "all sequences of allocate, deallocate, container growth, move, message extraction up to the depth bound, with allocation failures",
  "Tests check one vector of one type.",
  ["fairmq/MemoryResources.h", "fairmq/MemoryResources.cxx", "fairmq/MemoryResourceTools.h"],
  [("pointer to message map", "fairmq/MemoryResources.h ChannelResource"), ("getMessage", "fairmq/MemoryResourceTools.h")],
  ["messages and number of outstanding allocations"])

p("C27", "Counting semaphore never over-admits and never loses a wake-up",
  "A semaphore initialised with n admits at most n holders plus one for each signal at any time, every signal is eventually usable by exactly one waiter, and a waiter is never left blocked while the count is positive. A shared semaphore behaves identically through all its copies, and the reported count equals initial value plus signals minus completed waits.",
  ["schedules"], "all interleavings of up to three waiters and signallers up to the preemption bound",
  "No test exercises it concurrently.",
  ["fairmq/tools/Semaphore.cxx", "fairmq/tools/Semaphore.h"],
  [("mutex + condition variable + counter", "fairmq/tools/Semaphore.cxx")],
  ["Wait/Signal/GetCount"])

p("C28", "Rate limiting keeps the average iteration rate at the configured value",
  "A loop that calls the rate limiter once per iteration never runs faster, on average over any window longer than its adjustment period, than the configured rate beyond its documented tolerance, and an iteration slower than the period is not delayed further once the accumulated lead is used up. The limiter keeps regulating for every positive rate, every pattern of iteration durations and arbitrarily long runs; it never divides by zero, stalls forever or stops regulating.",
  ["histories", "inputs"], "all iteration-duration patterns up to the depth bound x rates from 0.1 Hz to above the clock resolution, under a virtual clock",
  "Real-time tests cannot enumerate timing patterns or run long enough.",
  ["fairmq/tools/RateLimit.h"],
  [("adaptive sleep", "fairmq/tools/RateLimit.h maybe_sleep")],
  ["virtual time consumed by iterations"])

p("C29", "Instance limit holds for any interleaving of construction and destruction",
  "An object type limited to N instances never has more than N at the same time: constructing within the limit always succeeds, beyond it fails with an error and changes nothing, and destroying one makes room for exactly one again. This holds for every order and interleaving of constructions and destructions.",
  ["histories", "schedules"], "all construct/destroy sequences up to the depth bound and all interleavings of up to three threads up to the preemption bound",
  "No test exercises it.",
  ["fairmq/tools/InstanceLimit.h"],
  [("static counter", "fairmq/tools/InstanceLimit.h InstanceLimiter")],
  ["constructor outcome"])

p("C30", "Part containers keep every part, in order, exactly once",
  "Adding parts (single, several, or another container's parts) appends exactly those parts in the given order and leaves the source empty; access by index or iteration returns the part added at that position, access outside fails, size and emptiness agree with the number of parts, and clearing or moving leaves no part owned twice or lost.",
  ["histories"], "all operation sequences up to the depth bound against a reference list",
  "Tests check a few additions.",
  ["fairmq/Parts.h"],
  [("part vector", "fairmq/Parts.h")],
  ["Parts API", "destruction of parts"])

p("C31", "Child processes are run to completion and fully reported",
  "Running a command line returns its complete standard output and standard error, line by line and in order (nothing lost, cut, or duplicated, for any size, any chunking, and also if the last line lacks a newline), every line with the given prefix, and its exit code; it passes the process the whole given standard input, and the requested signal goes to that process and to nothing else. It returns only after the process has finished, whichever streams that closes before; a command that cannot be started or is killed is reported as failure (an exception or a nonzero code) instead of success.",
  ["inputs", "schedules"], "all child behaviours over a small alphabet (output pieces and sizes, closing streams, reading input, exit status, signals) and all interleavings of the child with the reader",
  "Tests never run a child with controlled output boundaries.",
  ["fairmq/tools/Process.cxx", "fairmq/tools/Process.h"],
  [("execute with line reader", "fairmq/tools/Process.cxx")],
  ["execute_result"])

p("C32", "Running out of shared memory fails cleanly, after the configured attempts",
  "If a shared memory segment has no room for a message (created by size, with alignment, from a user buffer, by rebuilding, through the memory resource, or as a copy that needs a reference count), the operation fails with the exception documented for it exactly when the configured number of attempts (one by default, without limit if the device is configured not to throw) at the configured interval has been made. It succeeds within one interval once enough memory is released, is given up within one interval if the transport is interrupted, and a request larger than the segment fails at once. A failed operation takes no memory, neither releases nor changes the user's buffer, leaves its target empty and all other messages and reference counts as they were, and later operations work as if it had not been made.",
  ["histories", "inputs"], "all ways to create a message x all retry settings x memory released / transport interrupted / resumed at every half interval; all sequences of operations with the segment filled and emptied in between",
  "Tests check one failing allocation with and without retries.",
  ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h", "fairmq/shmem/UnmanagedRegion.h", "fairmq/plugins/config/Config.cxx"],
  [("retry loop", "fairmq/shmem/Manager.h Allocate"), ("strong exception behaviour", "fairmq/shmem/Message.h InitializeChunk, InitializeFromBuffer, Copy")],
  ["exceptions and their time", "free memory of the segment", "contents and reference counts of messages"])

p("C33", "The session monitor removes abandoned sessions and only those",
  "A monitor of a session removes the session's shared memory if and only if no device of it has given a heartbeat for the configured timeout: never while a device is running, also if the device started on top of the remains of a dead one or right after these were cleaned up, and always shortly after the timeout if all devices have died or left anything behind, for any number of sessions after one another. A monitor that only looks removes nothing; a self-destructing one ends once the session it has seen is gone, or after twice the timeout if there was none; one told to clean on exit leaves nothing. Only one monitor per session can run, it ends upon a signal, and its lock is released then.",
  ["histories", "crash points", "schedules"], "all histories of device starts, orderly ends, deaths and manual cleanups up to the depth bound, with pauses chosen around the polling intervals and the timeout, under a virtual clock",
  "Tests never run a monitor next to devices; the timing relative to its polling decides.",
  ["fairmq/shmem/Monitor.cxx", "fairmq/shmem/Monitor.h", "fairmq/shmem/Manager.h"],
  [("watch loop and heartbeat check", "fairmq/shmem/Monitor.cxx Watch, CheckHeartbeats"), ("heartbeats", "fairmq/shmem/Manager.h Heartbeats")],
  ["objects of the session", "life of the monitor"])

p("C34", "A device program runs as its command line, hooks and plugins ask, or fails",
  "For every command line, each option of FairMQ, of a plugin or of the program itself has exactly the value and type given (as '--option value' or '--option=value', whatever arguments of other parties surround it; abbreviations are not guessed) and otherwise its default; a value that does not fit, or an option given twice (list options collect all), ends the program before a device is created. The runner's hooks are called once and in the documented order and take effect; plugins are searched for in the configured paths (prepended, overriding, appended ones), each is loaded once, and instantiated once, in the order of loading, between the device's creation and its start; a plugin that cannot be found, loaded or instantiated ends the program. At initialisation the device gets the channels of --mq-config, otherwise those of --channel-config, for its --config-key, otherwise its --id. Logging options (also changed at run time) reach the logger. The exit code is 0 after a normal run, which ends only when the controlling plugin has released the device, and after --help, --print-options, --print-channels and --version, which never start the device; it is nonzero (or an exception leaves Run) if no device was created or a hook of the device or of the runner failed.",
  ["inputs", "schedules"], "all options x values x forms x surrounding arguments, all pairs of options; all combinations of channel and logging options; all lists of search paths, installations, loading orders and failing plugins up to the bounds; all failing hooks x schedules",
  "Tests check one order of two plugins and one list of search paths; no test runs a program with invalid or foreign options.",
  ["fairmq/DeviceRunner.cxx", "fairmq/PluginManager.cxx", "fairmq/PluginManager.h", "fairmq/ProgOptions.cxx", "fairmq/plugins/config/Config.cxx", "fairmq/runDevice.h"],
  [("sequence of a program", "fairmq/DeviceRunner.cxx Run"), ("plugin options and search", "fairmq/PluginManager.cxx"), ("parsing", "fairmq/ProgOptions.cxx ParseAll")],
  ["exit code", "typed properties seen by hooks, plugins and device", "calls of hooks, plugins and logger in order"])

p("C35", "Rate logging reports each channel's true rates at its interval",
  "While a device runs, each of its channels whose rateLogging is n > 0 is reported every n seconds with the rates of messages and payload bytes, received and sent, of exactly the transfers since its previous report (or the start of the run), whatever the other channels transfer and whatever their intervals are; a channel with rateLogging 0 is never reported. Reporting starts anew with each run, and neither delays the run's end nor goes on after it, however the run ends.",
  ["inputs", "histories", "schedules"], "all combinations of intervals, all histories of transfers per second in both directions, all ends of a run, one and two runs, schedules up to the preemption bound, both transports",
  "No test looks at what is reported.",
  ["fairmq/Device.cxx", "fairmq/Channel.h", "fairmq/shmem/Socket.h", "fairmq/zeromq/Socket.h"],
  [("reports", "fairmq/Device.cxx LogSocketRates")],
  ["lines reported", "time of each report", "time of the run's end"])

p("C36", "The shared memory monitor shows exactly what a session has in use",
  "At any point of a session the monitor's overview (Monitor::PrintShm, GetFreeMemory, SegmentIsPresent, RegionIsPresent) shows the session's name and number of devices, exactly its managed segments with their true total, free and used bytes, and exactly its unmanaged regions, each with its size and whether it is alive or destroyed. With FAIRMQ_DEBUG_MODE the list of buffers (GetDebugInfo, PrintDebugInfo) and the counts shown contain exactly the message buffers allocated and not yet released (or reset with the content), each once, in its segment, with offset, requested size, creator and creation time, whichever device releases them, also while devices create and release concurrently; and Reset of a device's transport is refused exactly while it has messages.",
  ["inputs", "histories", "schedules"], "all operation sequences up to a depth (create, from user buffer, of a region, rebuild, shrink, copy, send, receive, release, region created and destroyed, device joining and leaving, reset of the content), one and two segments, both allocators, schedules of two devices and a monitor up to the preemption bound, both builds",
  "The tests do not look at the monitor's output, and are not run in debug mode.",
  ["fairmq/shmem/Monitor.cxx", "fairmq/shmem/Manager.h", "fairmq/shmem/Message.h"],
  [("list", "fairmq/shmem/Monitor.cxx GetDebugInfo, PrintDebugInfo"), ("overview", "fairmq/shmem/Monitor.cxx PrintShm"), ("bookkeeping", "fairmq/shmem/Manager.h Allocate, Deallocate")],
  ["lines printed", "entries listed", "exceptions of Reset"])

p("C37", "Allocation in a full segment waits, retries and fails as configured",
  "Creating or rebuilding a shared memory message for which the segment has no room at the moment fails with MessageBadAlloc after exactly the configured number of attempts (bad-alloc-max-attempts; one if not given or below one, unlimited if -1 or shm-throw-bad-alloc is false), made at the configured interval; it succeeds within one interval if memory becomes available before the last attempt, whoever releases it, and fails within one interval if the transport is interrupted. A request that exceeds the segment fails at once, whatever the settings. A failed creation leaves nothing behind: no memory is lost, an existing message is left empty, and transport and message work again once there is memory. Of several rivals exactly as many succeed as there is memory for.",
  ["inputs", "histories", "schedules"], "all combinations of the settings, both allocators, all ways of creation, every event (none, release, interruption) at every phase of an interval, schedules of rivals up to the preemption bound",
  "A test samples one size and setting and cannot check the times.",
  ["fairmq/shmem/Manager.h", "fairmq/shmem/Message.h", "fairmq/plugins/config/Config.cxx"],
  [("attempts", "fairmq/shmem/Manager.h Allocate"), ("settings", "fairmq/shmem/Manager.h constructor")],
  ["outcome of the creation", "elapsed virtual time", "free memory of the segment"])

p("C38", "The shared memory monitor command acts on exactly the session it is given",
  "Every action of fairmq-shmmonitor applies to exactly the session named by --shmid, or by --session of the current user if no id is given, whatever other sessions are present and in whatever order the options stand. --cleanup removes everything of that session (also what a monitor of it left), --reset-content frees all its messages and keeps its segments, --debug, --view (the default), --get-shmid, --list-all and --help change nothing of any session; view shows that session or that there is none, get-shmid its id, list-all each session once. It returns 0, and 2 without doing anything for options it cannot understand. Monitoring lasts until it is told to stop by a signal; with --self-destruct also until the session has ended, or has sent no heartbeat for the timeout (and then removes it), or never appeared for twice the timeout; a second monitor of a session ends at once and disturbs nothing; after its end nothing of the session's monitor is left, the session is removed with --clean-on-exit and stays usable otherwise, and other sessions are untouched. Interactively, every key typed is obeyed at once, also several together (q quits, x removes the session unless only viewing, h, b and others change nothing), the overview is shown once per interval, it ends within an interval when told to stop, also after its input was closed or it was stopped and continued, and the terminal's mode is restored.",
  ["inputs", "histories", "schedules"], "every combination of action, way to name a session, order of the options and presence of a monitor, with two sessions in use; every end of a monitored session, timeout and other command meanwhile; every sequence of keys up to a depth, one by one and at once, with every end; schedules up to the preemption bound",
  "Tests call parts of the Monitor class, never the command.",
  ["fairmq/shmem/runMonitor.cxx", "fairmq/shmem/Monitor.cxx", "fairmq/shmem/Monitor.h"],
  [("actions", "fairmq/shmem/runMonitor.cxx main"), ("monitoring", "fairmq/shmem/Monitor.cxx Run, Watch, CheckHeartbeats, SignalMonitor"), ("removal", "fairmq/shmem/Monitor.cxx Cleanup, CleanupFull, ResetContent")],
  ["exit code", "shared memory objects of every session", "free memory of the segments", "lines printed", "virtual time of the monitor's end"])

p("C39", "Stock device programs do what their command line says",
  "Each stock program (fairmq-bsampler, fairmq-sink, fairmq-merger, fairmq-splitter, fairmq-proxy, fairmq-multiplier), started with any combination of its options in any order and form, obeys exactly these, and uses the defaults its help states for all others: it works on the channels named, with single or multi-part messages as told, over either transport (set for the channel or for the device). The sampler sends exactly the configured number of messages (without end if 0), each of the configured number of parts, size, alignment and zeroed if asked, at the configured rate; the sink takes the configured number of messages and writes exactly what it receives, stopping once the file has its maximum size; merger, splitter, proxy and multiplier pass on every message, complete and to the right outputs. It ends with exit code 0 by its limit, or promptly when it gets SIGINT or SIGTERM, and with exit code 1, without hanging, if an option has no valid value, a channel it needs is not configured or its file cannot be written.",
  ["inputs", "histories"], "every combination of options given and left out, both forms, orders and transports for each program, every kind of wrong option; schedules at the default order (one deviation in thorough)",
  "Tests start some of the programs in one configuration and need installed binaries.",
  ["fairmq/devices/runBenchmarkSampler.cxx", "fairmq/devices/runSink.cxx", "fairmq/devices/runMerger.cxx", "fairmq/devices/runSplitter.cxx", "fairmq/devices/runProxy.cxx", "fairmq/devices/runMultiplier.cxx", "fairmq/runDevice.h", "fairmq/devices/BenchmarkSampler.h", "fairmq/devices/Sink.h"],
  [("options", "fairmq/devices/run*.cxx addCustomOptions"), ("obeying", "fairmq/devices/*.h InitTask, Run"), ("life", "fairmq/runDevice.h main, DeviceRunner, plugins/control")],
  ["messages at the program's peers", "contents of the sink's file", "exit code"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
