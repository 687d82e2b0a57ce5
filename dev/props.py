"""the properties: claimed (PROPS) and not applicable (NA)"""
FW = 'lib/Framework/'
TYPESTATE = 'path-sensitive interprocedural typestate analysis over LLVM IR'
NOTE = ('Static, over every path of the compiled functions (normal and exceptional edges); no execution. Sound up to the call-graph cut named in DESIGN.md '
        '(user code is opaque, reads through unresolved pointers are attributed by field).')

PROPS = [
 dict(id='C01', title='A block is only ever executed by one thread at a time',
      statement='Whatever threads call into a running block (its worker, calls on its methods, activation, subscription and port set-up), all user callbacks of the block and all unshared state of its '
                'ports are used by one thread at a time. Exclusive access is given up exactly once on every way out, including exceptions. A thread inside one block never touches the unshared state of another.',
      over=['schedules', 'programs'], forall='every interleaving of worker threads and external callers, every block implementation, every exception',
      why='The tests run a handful of topologies on one schedule; a missing acquisition shows only under a particular interleaving.',
      files=[FW + 'ActorInterface.hpp', FW + 'WorkerActor.hpp', FW + 'WorkerActor.cpp', FW + 'WorkerActorPortAllocation.cpp', FW + 'Block.cpp'],
      mechanism=[('ActorInterfaceLock / workerThreadAcquire', FW + 'ActorInterface.hpp')],
      technique='interprocedural must-lockset typestate over LLVM IR', level_note=NOTE),
 dict(id='C02', title='No wake-up is lost: new input, returned buffers and calls get processed',
      statement='When a message, slot call, label or buffer is delivered to a block, a buffer or token comes back to it, or an external call has changed it, the block is marked for another work pass after the change is visible. '
                'A worker that takes the mark either runs the block or puts the mark back, a sleeping worker is notified or wakes within a bounded time, and activity during work marks the block again.',
      over=['schedules', 'programs'], forall='every interleaving of producers, consumers and external callers',
      why='Lost wake-ups need a particular interleaving and then look like a slow test; the tests only see that the data arrives eventually.',
      files=[FW + 'ActorInterface.hpp', FW + 'InputPort.cpp', FW + 'OutputPort.cpp', FW + 'WorkerActor.cpp'],
      mechanism=[('flagExternalChange / flagInternalChange', FW + 'ActorInterface.hpp'), ('work event counters', 'include/Pothos/Framework/InputPortImpl.hpp')],
      technique=TYPESTATE, level_note=NOTE),
 dict(id='C03', title='Port queues shared between threads are always guarded by their own lock',
      statement='The message, slot-call, label and buffer queues of an input port and the buffer and token pools of an output port are accessed only under the lock of that same queue. '
                'An operation that inspects a queue and then changes it does so in one critical section, so concurrent producers never lose, duplicate or misplace entries.',
      over=['schedules'], forall='every interleaving of producers and the consumer, every path through the port operations',
      why='Unguarded access corrupts a queue only under true concurrency; tests are almost single threaded.',
      files=['include/Pothos/Framework/InputPortImpl.hpp', 'include/Pothos/Framework/OutputPortImpl.hpp', FW + 'InputPort.cpp', FW + 'OutputPort.cpp', FW + 'WorkerActor.cpp'],
      mechanism=[('one spin lock per queue', 'include/Pothos/Framework/InputPort.hpp')],
      technique='per-object lockset and critical-section analysis over LLVM IR', level_note=NOTE),
 dict(id='C04', title='The spin locks provide mutual exclusion and publication',
      statement='The exclusive and the reader/writer spin lock admit either one writer or any number of readers, never both: an attempt answers true exactly when it took the lock, blocking acquisition returns only with the lock held, '
                'and a release gives back exactly what was taken. Everything written before a release is visible after the next acquisition.',
      over=['schedules'], forall='every interleaving and every weak-memory execution of the lock operations',
      why='The only tests of the locks exercise them on a strongly ordered machine for a few milliseconds.',
      files=['include/Pothos/Util/SpinLock.hpp', 'include/Pothos/Util/SpinLockRW.hpp'],
      mechanism=[('atomic lock word', 'include/Pothos/Util/SpinLockRW.hpp')],
      technique='transition conformance of the lock word over all IR paths, with memory orders', level_note=NOTE),
 dict(id='C05', title='Locks cannot deadlock and are released on every way out',
      statement='No thread of the library takes a lock it already holds (except a reader/writer lock shared twice), no two locks are nested in opposite orders in conflicting modes, every lock a function takes is released on every way out of it, exceptions included, '
                'no block method or registered callable runs while an exclusive spin lock is held and no plugin event handler while the plugin registry is locked, and nothing waits on a condition while holding another lock or joins a thread while holding a lock that thread takes.',
      over=['schedules', 'faults'], forall='every path, every exception and every interleaving of the locking code of the library',
      why='A deadlock needs a particular interleaving, error path or re-entrance, which tests almost never hit.',
      files=['lib/Plugin/Registry.cpp', 'lib/Managed/Registry.cpp', FW + 'InputPort.cpp', FW + 'OutputPort.cpp', FW + 'ThreadEnvironment.cpp', 'lib/Remote/RemoteProxy.cpp', 'lib/Remote/ServerHandler.cpp', 'lib/System/Logger.cpp', 'lib/Object/Convert.cpp', 'lib/Proxy/Convert.cpp'],
      mechanism=[('plugin registry lock', 'lib/Plugin/Registry.cpp'), ('port queue locks', FW + 'InputPort.cpp'), ('thread environment locks', FW + 'ThreadEnvironment.cpp')],
      technique='interprocedural lock-set, lock-order and release analysis over all IR paths', level_note=NOTE),
 dict(id='C06', title='Shared buffers and objects are freed exactly once, after their last user',
      statement='Every Object and ManagedBuffer handle owns exactly one reference to its container on every path of construction, copy, move, assignment (self-assignment included), reset and destruction: a reference is taken before the old one is '
                'dropped, the container is destroyed or returned to its manager exactly when the last reference goes, after everything done through the others is visible, and "unique" answers true only for the sole owner. '
                'A BufferChunk spanning chained buffers keeps the references of all of them through copy, move and assignment, and never uses them after clearing them.',
      over=['schedules', 'histories', 'programs'], forall='every sequence of handle operations, from any number of threads',
      why='A leaked or early-dropped reference, or a wrong memory order, shows only for some operation sequences and interleavings.',
      files=['include/Pothos/Framework/ManagedBuffer.hpp', FW + 'ManagedBuffer.cpp', 'include/Pothos/Framework/BufferChunk.hpp', FW + 'BufferChunk.cpp', 'lib/Object/Object.cpp', 'include/Pothos/Object/Object.hpp'],
      mechanism=[('intrusive atomic reference counts', 'include/Pothos/Framework/ManagedBuffer.hpp')],
      technique='reference-count balance and order as path-sensitive typestate over LLVM IR', level_note=NOTE),
 dict(id='C07', title='Queues and the buffer accumulator lose, duplicate and reorder nothing',
      statement='A RingDeque behaves as a bounded double-ended queue for every sequence of operations: each push adds one element at its end, each pop destroys exactly the element at its end, indexed access reaches the i-th element, growing, copying, moving and (self-)assignment keep all elements in order, '
                'and storage is freed only when empty and with its size. The ordered queue releases entries exactly in index order. The library pushes into these queues only with room and reads or pops them only when not empty. '
                'The buffer accumulator holds exactly the bytes pushed minus the bytes popped, in order; it merges only contiguous buffers and always has a front.',
      over=['histories', 'inputs'], forall='every sequence of queue operations, fill level and wrap-around position, every buffer length',
      why='The tests use a few sequences; wrap-around, growth and partial consumption bugs need particular fill levels.',
      files=['include/Pothos/Util/RingDeque.hpp', 'include/Pothos/Util/OrderedQueue.hpp', FW + 'BufferAccumulator.cpp', FW + 'InputPort.cpp', 'include/Pothos/Framework/InputPortImpl.hpp', 'include/Pothos/Framework/OutputPortImpl.hpp'],
      mechanism=[('ring indices', 'include/Pothos/Util/RingDeque.hpp'), ('push / pop of the accumulator', FW + 'BufferAccumulator.cpp')],
      technique='abstract interpretation with affine equalities over LLVM IR (effect summaries of every member)', level_note=NOTE),
 dict(id='C08', title='Failures in user code are contained and never kill a worker or the process',
      statement='An exception of any type thrown by a user callback (work, propagateLabels, a slot or method call), a plugin event handler or a static initialisation block '
                'never leaves the worker thread task, plugin registration or initialisation: it is caught, reported, and the system stays usable.',
      over=['programs', 'inputs'], forall='every exception type thrown at every call into user code, on every path',
      why='Tests throw one exception type from one place; an uncaught one elsewhere terminates the process.',
      files=[FW + 'WorkerActor.cpp', FW + 'WorkerActorPrePostWork.cpp', 'lib/Plugin/Registry.cpp', 'lib/Plugin/Static.cpp'],
      mechanism=[('POTHOS_EXCEPTION_TRY / catch(...) around user calls', FW + 'WorkerActor.cpp')],
      technique='interprocedural exception-flow analysis over LLVM IR (typed catch matching)', level_note=NOTE),
 dict(id='C09', title='Consumed and produced elements, labels and messages are accounted exactly',
      statement='Around every call of work(): the elements, pointers, labels and minima shown belong to the buffers of the ports, and work() runs only when a reserve is met or a message waits (or there are no buffered inputs). Afterwards exactly the consumed bytes leave the input, '
                'labels of consumed elements are propagated once, counted and removed, all others move by the same amount, and exactly the produced bytes are posted and taken from the buffer manager. '
                'Every posted buffer, label and message reaches every subscriber exactly once, in order, labels at the byte position after what is already queued; totals count each once. Input memory is written in place only by its sole holder.',
      over=['inputs', 'histories', 'programs'], forall='every number of elements consumed, produced and reserved, every set of labels, subscribers and element sizes',
      why='The tests check a few flows with one or two subscribers and aligned sizes; off-by-one accounting shows only for particular label positions, partial consumption or subscriber sets.',
      files=[FW + 'WorkerActor.cpp', FW + 'InputPort.cpp', FW + 'OutputPort.cpp', 'include/Pothos/Framework/InputPortImpl.hpp', 'include/Pothos/Framework/OutputPortImpl.hpp'],
      mechanism=[('preWorkTasks / postWorkTasks', FW + 'WorkerActor.cpp'), ('bufferLabelPush', FW + 'InputPort.cpp')],
      technique='abstract interpretation with affine equalities over LLVM IR (per-iteration effect summaries)', level_note=NOTE),
 dict(id='C10', title='A thread pool runs exactly the registered tasks',
      statement='A task that is registered with a thread pool is run until it is unregistered, and never after unregistering returned; in a pool of several threads no two threads are in one task at a time, and every task gets its turn. One thread runs per task, or as many as the pool size allows and tasks need; threads end when they are not needed and are waited for. '
                'A registration that fails leaves nothing behind; a block is registered with exactly the pool that it refers to, and with none when it is destroyed.',
      over=['schedules', 'histories', 'faults'], forall='every interleaving of pool threads with every sequence of registrations, including threads that cannot be started',
      why='Tests see a few interleavings of a few blocks, and never a thread that cannot be started.',
      files=['lib/Framework/ThreadEnvironment.cpp', 'lib/Framework/ThreadEnvironment.hpp', 'lib/Framework/Block.cpp'],
      mechanism=[('registerTask/unregisterTask', 'lib/Framework/ThreadEnvironment.cpp'), ('setThreadPool', 'lib/Framework/Block.cpp')],
      technique='abstract interpretation: lock, table, signature, thread and flag events of all IR paths against the registration protocol', level_note=NOTE),
 dict(id='C11', title='Process-wide tables are only used under their lock',
      statement='Every process-wide table that can change after start-up (plugin registry, module paths, local and proxy conversion, compare, hash and to-string tables, managed classes, remote objects, '
                'node and DNS tables) is read and changed only while one and the same lock is held, and changed only under exclusive ownership of it; no reference into the table is used after the lock was given up.',
      over=['schedules'], forall='every interleaving of threads that look up, register and unregister',
      why='The tests register and look up from one thread; a race corrupts a tree only under concurrency.',
      files=['lib/Plugin/Registry.cpp', 'lib/Plugin/Module.cpp', 'lib/Object/Convert.cpp', 'lib/Object/Compare.cpp', 'lib/Object/Hash.cpp', 'lib/Managed/Registry.cpp', 'lib/Proxy/Convert.cpp', 'lib/Remote/Client.cpp', 'lib/Remote/ServerHandler.cpp'],
      mechanism=[('one reader/writer lock per table', 'lib/Plugin/Registry.cpp')],
      technique='inter-procedural lockset inference per table over LLVM IR', level_note=NOTE),
 dict(id='C12', title='Lookup tables follow the plugin registry',
      statement='A lookup table that is maintained from plugin events (conversion, compare, hash, to-string, managed classes, proxy conversion) contains exactly the registered plugins: handling "add" enters all of its keys or none, handling "remove" takes out exactly the keys that were entered and leaves no empty '
                'entries behind, any other event changes nothing, and a lookup never uses an entry that is not there.',
      over=['histories'], forall='every sequence of plugin registrations and removals',
      why='The tests hardly ever remove plugins; a stale entry shows only when something is looked up after its module was unloaded.',
      files=['lib/Object/Convert.cpp', 'lib/Object/Compare.cpp', 'lib/Object/Hash.cpp', 'lib/Object/ToString.cpp', 'lib/Managed/Registry.cpp', 'lib/Proxy/Convert.cpp'],
      mechanism=[('plugin event handlers', 'lib/Object/Convert.cpp')],
      technique='symbolic key pairing of add/remove effects over all IR paths', level_note=NOTE),
 dict(id='C13', title='Plugins belong to the module that registered them until it is unloaded',
      statement='A plugin that is registered while a module is loaded belongs to that module (with the version the module states), and only then: when the load is over, also by a failure, the module is no longer the one that plugins are registered for, and loads do not overlap. '
                'The registry entry and the list of the plugins of the module change together. The last copy of a module removes exactly the plugins that still belong to it and then unloads the library, and never throws. A load that fails is a PluginModuleError. '
                'safeLoad loads a module into the process only after another process loaded it successfully: this file, with this build of the library. A null module answers every question.',
      over=['histories', 'faults', 'schedules'], forall='every order of loading, registering, removing and unloading, and every failure of a load or of the test of a module',
      why='The tests register plugins from static initialisers of one process that never unloads a module and whose modules all load.',
      files=['lib/Plugin/Module.cpp', 'lib/Plugin/ModulePaths.cpp', 'lib/Plugin/ModuleSafeLoad.cpp', 'lib/Plugin/Registry.cpp'],
      mechanism=[('PluginModule', 'lib/Plugin/Module.cpp'), ('PluginRegistry::add, remove', 'lib/Plugin/Registry.cpp'), ('updatePluginAssociation', 'lib/Plugin/ModulePaths.cpp'), ('safeLoad cache', 'lib/Plugin/ModuleSafeLoad.cpp')],
      technique='typestate and attribution analysis over all IR paths, typed exceptions included', level_note=NOTE),
 dict(id='C14', title='What is archived is what is restored',
      statement='Saving a value to an archive and loading it again gives the same value, for every type with serialization code: loading reads the items that saving wrote, in the same order and under the same archived flags; each item goes back to the member it came from; every member of a serialized class is archived; '
                'containers come back with exactly their elements, whatever the target held before; raw data is read with the byte count it was written with; integers, booleans and complex numbers survive for every value, negative and large ones included.',
      over=['inputs'], forall='every value of every archived type',
      why='The tests archive a few small values of some types.',
      files=['include/Pothos/Archive/*.hpp', 'include/Pothos/Object/Serialize.hpp', 'lib/Archive/*', 'lib/Framework/BufferChunk.cpp', 'lib/Framework/Label.cpp', 'lib/Framework/DType.cpp', 'lib/Proxy/Proxy.cpp'],
      mechanism=[('save/load pairs', 'include/Pothos/Archive/Numbers.hpp'), ('serialize', 'lib/Framework/Label.cpp')],
      technique='abstract interpretation of both instantiations (affine values); comparison of their item sequences, members, loop counts and byte counts', level_note=NOTE),
 dict(id='C15', title='A truncated or corrupt archive or datagram ends in an error',
      statement='Bytes read from a stream are used only after it was checked that they were all there; the marker words of a remote datagram are compared before it is deserialized; reading never loops for as long as the data says so without a bound; '
                'a failed load leaks nothing and leaves no dangling pointer; every failure of Object::deserialize is reported as ObjectSerializeError, none is swallowed.',
      over=['inputs', 'faults'], forall='every stream contents, every point at which the stream ends',
      why='The tests read complete, well-formed archives only.',
      files=['lib/Archive/StreamArchiver.cpp', 'lib/Object/Serialize.cpp', 'lib/Remote/RemoteProxyDatagram.cpp', 'include/Pothos/Archive/*.hpp'],
      mechanism=[('readBytes', 'lib/Archive/StreamArchiver.cpp'), ('PRPCDatagramIbuf', 'lib/Remote/RemoteProxyDatagram.cpp')],
      technique='typestate of stream reads, loop bounds and ownership over all IR paths, exceptional ones included', level_note=NOTE),
 dict(id='C16', title='Every remote request gets exactly one matching reply; failures are reported',
      statement='The server answers every request exactly once, with the thread id of the request, and any failure (unknown object, exception of the called code, result that cannot be serialised) becomes an error reply, not a dead session. '
                'Client and server agree on actions and on the keys of requests and replies; the client throws on an error reply and never uses a value the reply may lack. '
                'Concurrent callers on one connection each get their own reply: one at a time reads the stream, no reply is dropped, and waiting callers are woken on every way out. '
                'Server objects are dropped exactly on destruction requests and the session ends exactly with its environment.',
      over=['schedules', 'inputs', 'histories'], forall='every action, every failure of the called code, every interleaving of callers on a connection',
      why='The tests run one client thread with successful calls.',
      files=['lib/Remote/ServerHandler.cpp', 'lib/Remote/RemoteProxy.cpp', 'lib/Remote/RemoteProxyHandle.cpp'],
      mechanism=[('runHandlerOnce', 'lib/Remote/ServerHandler.cpp'), ('transact', 'lib/Remote/RemoteProxy.cpp')],
      technique='protocol (key set) conformance and typestate over all IR paths, exceptional ones included', level_note=NOTE),
 dict(id='C17', title='A committed topology is exactly the connections that were asked for',
      statement='A connection is recorded exactly when both blocks have the ports and it is not there yet, and removed exactly when it is there; a refused connect or disconnect changes nothing in the topology. The port names of a topology are those of its connections to itself, and disconnectAll leaves neither connections nor names. '
                'Flattening a hierarchy keeps every connection: each end is resolved on its own side through inner topologies, pass-through connections are completed at both ends, and no connection is dropped or crossed. '
                'A commit subscribes both ends of every new flow, unsubscribes both ends of every flow that is gone, installs buffer managers before activation, activates exactly the blocks that had no flow before, deactivates exactly those that have none left, and records the flows; any failure in a parallel step ends in an exception.',
      over=['histories', 'inputs', 'faults'], forall='every sequence of connect, disconnect, disconnectAll and commit on every hierarchy of topologies',
      why='The tests build a few topologies and rarely change them after the first commit.',
      files=['lib/Framework/Topology.cpp', 'lib/Framework/TopologyCommit.cpp', 'lib/Framework/TopologySquashFlows.cpp', 'lib/Framework/TopologyImpl.hpp', 'lib/Framework/PortsAndFlows.hpp', 'lib/Framework/WorkerActor.cpp'],
      mechanism=[('_connect/_disconnect', 'lib/Framework/Topology.cpp'), ('topologySubCommit', 'lib/Framework/TopologyCommit.cpp'), ('squashFlows', 'lib/Framework/TopologySquashFlows.cpp')],
      technique='abstract interpretation with terms for flows and lists: set equations of every loop, effects and their order over all IR paths', level_note=NOTE),
 dict(id='C19', title='System resources are released exactly once and mapped where they are used',
      statement='Every file descriptor, memory mapping, NUMA block, CPU or node mask and allocation that the library obtains is released exactly once, with the matching function and length, whatever fails afterwards, and not used when the system did not provide it. '
                'The halves of a circular buffer are shared mappings of the same memory, side by side. An error carries the reason of the call that failed. A file lock that is remembered as held is held, exclusively, and one that is not is not.',
      over=['faults', 'inputs'], forall='every outcome of every system call, and every exception between obtaining a resource and handing it over',
      why='Tests run with system calls that succeed; a leak or a half mapped buffer shows only after a failure, and often much later.',
      files=['lib/Framework/SharedBufferUnix.cpp', 'lib/Framework/MemoryMappedBufferContainer.cpp', 'lib/Util/FileLockUnix.cpp', 'lib/Framework/ThreadConfigUnix.cpp', 'lib/System/NumaInfoLinux.cpp'],
      mechanism=[('CircularBufferContainer', 'lib/Framework/SharedBufferUnix.cpp'), ('MemoryMappedBufferContainer::Impl', 'lib/Framework/MemoryMappedBufferContainer.cpp'), ('FileLock', 'lib/Util/FileLockUnix.cpp')],
      technique='ownership (typestate) analysis of system resources over all IR paths, exceptional ones included', level_note=NOTE),
 dict(id='C25', title='Looking up something unknown never uses an entry that is not there',
      statement='Wherever the library looks up a name, key or object in one of its containers, the result is used or removed only when it was found; an unknown name, port, plugin path, key or handle is answered by an error or a default.',
      over=['inputs', 'histories'], forall='every name or key passed to any lookup of the library',
      why='The tests look up what exists.',
      files=['lib/Framework/*', 'lib/Plugin/*', 'lib/Object/*', 'lib/Managed/*', 'lib/Util/*'],
      mechanism=[('find() compared with end()', 'lib/Plugin/Registry.cpp')],
      technique='typestate of lookup results over all IR paths', level_note=NOTE),
 dict(id='C26', title='Elements of containers are used only where they exist',
      statement='Wherever the library indexes a standard container or string, the index is below its size; front, back, top and pop are used only on a container that is not empty; and an element of a map of pointers is used by operator[] only for a key that is in the map. This holds for every argument a caller may pass (port index, argument number, expression text, number of buffers).',
      over=['inputs', 'histories'], forall='every index, size, text and history that reaches an element access of the library',
      why='The tests pass sizes and indices that fit.',
      files=['lib/Framework/*', 'lib/Callable/*', 'lib/Object/*', 'lib/Managed/*', 'lib/Util/*', 'include/Pothos/Framework/*Impl.hpp'],
      mechanism=[('checks of index and size before use', 'include/Pothos/Framework/BlockImpl.hpp'), ('expression splitter', 'lib/Util/EvalEnvironmentListParsers.cpp')],
      technique='difference-bound analysis of element accesses over all IR paths', level_note=NOTE),
 dict(id='C27', title='Work, activation and deactivation follow the life cycle of a block',
      statement='A block does its work (work, label propagation, preparation, queued slot calls) only in a pass that saw it active. A block is active from a successful activate() on and only then: a failed activation leaves it inactive, deactivate() is called only on an active block and leaves it inactive even when it throws, and a new block is inactive.',
      over=['histories', 'schedules'], forall='every order of activation, deactivation and worker passes, and every way the callbacks can end',
      why='The tests activate blocks whose callbacks succeed, and stop them in the usual order.',
      files=['lib/Framework/WorkerActor.cpp', 'lib/Framework/WorkerActor.hpp'],
      mechanism=[('test of the active state in the worker pass', 'lib/Framework/WorkerActor.cpp'), ('reset when activate() throws', 'lib/Framework/WorkerActor.cpp')],
      technique='typestate of the active flag over all IR paths, exceptions included', level_note=NOTE),
]

NA = [
 dict(id='N01', title='Data reaches every sink eventually and at full rate',
      statement='Every element produced in a connected topology is delivered to its sinks within a bounded time, and no block is starved while it has work.',
      over=['schedules', 'programs'], forall='every topology and schedule', why='Depends on the scheduler and the user blocks.', files=[FW + 'WorkerActor.cpp', FW + 'ThreadEnvironment.cpp'],
      reason='Liveness and throughput depend on user work() code and on operating system scheduling; no static bound exists. The safety half (marks are never lost) is C02.'),
 dict(id='N02', title='Sample conversion is numerically exact',
      statement='Converting buffers and objects between numeric types yields the mathematically expected value for every input value.',
      over=['inputs'], forall='every value of every type pair', why='The tests sample values.', files=['lib/Framework/BufferConvert.cpp', 'lib/Object/Builtin/ConvertCommonImpl.hpp'],
      reason='A statement about computed numeric values (rounding, saturation) over all inputs; deciding it needs arithmetic reasoning on values, i.e. a solver or execution, not static dataflow. '),
 dict(id='N03', title='Expressions evaluate to the right value',
      statement='Evaluating an expression yields the value defined by the arithmetic of its operands.',
      over=['inputs'], forall='every expression', why='The tests sample expressions.', files=['lib/Util/EvalEnvironment.cpp'],
      reason='The result is computed by the third-party parser library from run-time strings; no static argument about its values is in reach.'),
]
