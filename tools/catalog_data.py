BC = 'src/arpc/binary_codecs.h'
SER_FILES = [BC, 'src/arpc/serializable_base.h', 'src/arpc/mpt.h', 'src/arpc/traits/container_traits.h', 'src/arpc/traits/serialization_traits.h']
prop('S01', 'Decoding what was encoded yields equal values',
     'Whatever values of serializable types are written one after another to an encoder, a decoder of the same byte order that reads the same sequence of types from those bytes produces equal values, including when it reads into objects that already held something else. '
     'It consumes exactly the bytes that were written, none of what follows them.',
     ['inputs', 'programs'],
     'For every serializable type (scalars, enums, strings, sequences, arrays, sets and maps of all kinds, tuples, structs, classes with bases, fields and custom parts, optionals, chrono types, pointers), value, sequence of values and byte order.',
     'Tests round-trip a few hand-picked types and values in one byte order into fresh objects; the guarantee is over all compositions of types and all values.',
     SER_FILES,
     [('binary_encoder/binary_decoder operator() overloads', BC), ('containers: classification traits', 'src/arpc/traits/container_traits.h'), ('bases, fields, custom save/load', 'src/arpc/serializable_base.h')],
     'Random types are generated as C++ and random values of them encoded and decoded by the real code; TLC evaluates the specification of the decoder on the same bytes and the equality of the values. Trusts TLC, the value dumper and generators of the harness.')
prop('S02', 'Encoded data has the documented, portable layout',
     'The bytes an encoder writes for a value are determined by the value, its type and the byte order chosen: fixed-width scalars in that order, lengths and identifiers as little endian base-128 integers in every byte order, elements, bases, fields and custom parts in order, one byte for presence, and, if verification was asked for, the structure hash first. '
     'Different C++ types with the same structure have the same encoding.',
     ['inputs', 'programs', 'configurations'],
     'For every serializable type and value, both byte orders, and sequences of values that share an encoder.',
     'Tests compare a handful of encodings; programs of different versions and platforms only understand each other if all of them keep the layout.',
     SER_FILES, [('write_variant, write_block, maybe_write_size', BC), ('verify_structure', BC)],
     'Every recorded encoding must be exactly the byte string the specification computes. Exploration of types and values is random (seeded).')
prop('S03', 'Shared, weak and polymorphic objects keep identity and type',
     'After decoding, two pointers refer to the same object exactly if they did when they were encoded with the same encoder, whatever static types they have, cycles included; null pointers stay null, and every object has the dynamic class and contents of the original. '
     'Each shared object and each class description is written once per encoder and referred to by number after that.',
     ['inputs', 'histories', 'programs'],
     'For every graph of objects reachable through unique, shared and weak pointers, over all values written with one encoder.',
     'Tests encode two or three pointers; sharing across values, through base classes, cycles and addresses reused during encoding are not reached.',
     [BC, 'src/arpc/registry.h', 'src/arpc/dynamic_base_class.h'],
     [('shared_object_map_ / shared_object_vector_', BC), ('class_info_map_ / class_info_vector_', BC), ('registries of dynamic classes', 'src/arpc/registry.h')],
     'Random object graphs; the specification decodes the same bytes into an abstract heap and TLC looks for the bijection between both heaps.')
prop('S04', 'Malformed input is rejected, and never taken for something else',
     'Decoding any byte string as any sequence of types either produces the values the layout assigns to it or reports end of input, data mismatch or an unknown class, as the first offending byte determines; it never crashes, runs on, or takes truncated data for complete. '
     'Memory is only used in proportion to the input that actually arrives.',
     ['inputs', 'fault_sequences'],
     'For every byte string, in particular truncated and corrupted encodings, and every type it may be decoded as.',
     'Tests feed the decoders next to no malformed data.',
     [BC, 'src/arpc/io_adapters.cpp', 'src/arpc/registry.h'],
     [('read_variant, read_fully', BC), ('checks of object and class identifiers, subclass and hash checks', BC)],
     'Damaged encodings and random bytes are decoded; outcome, number of values decoded, position and values must be the ones the specification of the decoder computes. Booleans other than 0 and 1 are outside the layout.')
prop('S05', 'The structure hash identifies the structure of a type',
     'The structure hash of a type is the same in all programs that agree on its structure and depends on all of it: the families, widths and signedness of scalars, element types, array lengths, multiplicity of keys, order of tuple elements, bases and fields, custom serialization, time units and pointer kinds, and recursion, as well as the signatures of functions. '
     'Reading verified data as a type with another hash fails with a data mismatch before any of the value is read.',
     ['programs', 'inputs'],
     'For every serializable type, recursive ones included, and every pair of types of writer and reader.',
     'Tests pin the hashes of some twenty types.',
     ['src/arpc/type_hash.h', 'src/arpc/mpt.h', BC],
     [('type_hash, Seen back references', 'src/arpc/type_hash.h'), ('verify_structure', BC)],
     'The hashes the compiler computes for hundreds of random types must be the ones the specification computes from their descriptions; verified data is read as random other types.')
prop('S06', 'COBS coding is reversible and free of zero bytes',
     'The COBS codec turns any data into data without zero bytes, at most one byte longer for every 254 bytes and one more, and decoding that yields the original. '
     'Decoding anything that is not an encoding of some data reports a data mismatch.',
     ['inputs'],
     'For every byte string, in particular lengths of runs around 254, and every byte string as input of the decoder.',
     'Tests code a few short strings; runs of 254 bytes, empty data and malformed input are where such codecs fail.',
     ['src/arpc/packet_codecs.cpp', 'src/arpc/packet_codecs.h'],
     [('cobs_codec::encode / decode', 'src/arpc/packet_codecs.cpp')],
     'The specification (as a relation: encoders may differ in a trailing empty block) is model-checked for short runs and evaluated on what the real codec does to exhaustive short and random long inputs.')
prop('S07', 'Message authentication detects any change and any other key',
     'The MAC codec appends the 8 byte HighwayHash of the data under its key, accepts exactly the data with the right hash at its end, which it removes, and reports a data mismatch for all other data. '
     'HighwayHash results of 64, 128 and 256 bits are those of the published function, however the data is divided into calls and whether or not results are taken in between.',
     ['inputs', 'histories', 'configurations'],
     'For every key, byte string, division into calls and size of the result.',
     'Tests have vectors for one key and lengths up to 64 bytes, in one piece.',
     ['src/arpc/highway_hash.cpp', 'src/arpc/highway_hash.h', 'src/arpc/packet_codecs.cpp'],
     [('highway_hash_state', 'src/arpc/highway_hash.cpp'), ('mac_codec', 'src/arpc/packet_codecs.cpp')],
     'HighwayHash is specified from its paper on 8-byte words as byte tuples; every hash the code computes must equal it.')
prop('S08', 'Packets arrive once, whole, in order, and damage stays local',
     'Packets sent over a byte stream with one of the packet protocols are received one by one in the order they were sent with the data they were sent with. '
     'With the protocol for serial lines, packets whose bytes and delimiters are undamaged are received whatever happens to the others, and damaged ones, like those above the size limit, are reported and not delivered.',
     ['inputs', 'fault_sequences', 'histories'],
     'For every sequence of packets, every kind of damage to the bytes on the line, and every size limit.',
     'Tests send single undamaged packets.',
     ['src/arpc/packet_protocols.h', 'src/arpc/packet_codecs.cpp'],
     [('protocols with length prefix / COBS, MAC and zero delimiters', 'src/arpc/packet_protocols.h')],
     'The protocol with damage is model-checked with a toy MAC and short packets; what the real receiver makes of damaged lines must be what the specification makes of them.')
prop('S09', 'Flat maps and sets behave like the standard ordered containers',
     'Flat sets, multisets, maps and multimaps keep their elements in the order of their comparator and give every operation the result the standard container of that kind gives: what is inserted, which of several equivalent elements is kept, what is erased, looked up, counted and iterated, with the hint or without. '
     'Copying, moving, swapping and assigning takes elements and comparator along.',
     ['histories', 'inputs'],
     'For every history of operations on several containers with stateful comparators and keys with ties. Where multi containers put an element among its equivalents is not specified.',
     'Tests run each operation once on small containers with the default comparator.',
     ['src/arpc/container/flat_map.h', 'src/arpc/container/flat_set.h', 'src/arpc/container/detail/flat_tree.h'],
     [('flat_set / flat_map and their multi variants', 'src/arpc/container/flat_map.h')],
     'Random sessions of the real containers are checked operation by operation against the specification of the abstract containers.')
prop('S10', 'Errors keep class and message; results yield what they hold',
     'An exception of a registered error class is still of that class, with the same message, after being analysed, transported as name and message, and thrown again; exceptions of other classes become unknown errors with their message, and so do unknown names. '
     'A result holder yields the value or the exception it was given, before and after serialization, and an invalid state error when it has neither.',
     ['inputs', 'histories'],
     'For every exception class (library, user-defined, derived, standard, foreign), message, and history of operations on result holders.',
     'No test covers the transport of errors or result holders.',
     ['src/arpc/errors.h', 'src/arpc/errors.cpp', 'src/arpc/result_holder.h'],
     [('error_factory', 'src/arpc/errors.cpp'), ('result_holder', 'src/arpc/result_holder.h')],
     'Random sessions checked against the specification. Messages with zero bytes are outside of it.')
prop('S11', 'Streams deliver and accept exactly the bytes there are',
     'Input streams, be they over strings, standard streams or user classes that read single bytes or many, deliver each byte once and in order, fewer than asked for only at the end of input, and report the end of input or a broken stream as such; output streams append each byte once and in order or report an error. '
     'Positions in string streams are where reading goes on, and cannot lie past the end.',
     ['inputs', 'histories', 'fault_sequences'],
     'For every data, history of reads, writes and positionings, and every position at which the underlying stream breaks.',
     'Tests use the adapters with intact streams only.',
     ['src/arpc/io_adapters.cpp', 'src/arpc/iostream_adapters.cpp', 'src/arpc/string_adapters.cpp'],
     [('input_stream/output_stream defaults', 'src/arpc/io_adapters.cpp'), ('adapters', 'src/arpc/iostream_adapters.cpp')],
     'Random sessions with streams that break at random positions, checked against the specification.')
SCHED = ('Random programs run on the real code under a deterministic scheduler (every thread switch, wakeup, timer and memory access ordering decision is explored at random, data races and uses of freed memory are reported); '
         'TLC searches for an order of the specified steps that explains each recorded execution. Programs and schedules are samples; sequentially consistent interleavings only.')
prop("A01", "Mutexes admit one holder at a time and never strand a waiter",
     'At most one thread holds a mutex at any time, whether it was locked directly, tried, or selected together with other things, and a thread waiting for a mutex that is not held goes on. '
     'A selection takes the mutex exactly when it reports it as taken.',
     ['schedules', 'programs'],
     'For every program with threads that lock, try, select and unlock mutexes, with contexts cancelled and time limits passed meanwhile, and every schedule.',
     'Tests lock a mutex from two threads under whatever schedule the machine happens to produce.',
     ['src/arpc/mutex.h', 'src/arpc/mutex.cpp', 'src/arpc/flag.cpp', 'src/arpc/select.h'],
     [('mutex::lock, try_lock, async_lock, unlock', 'src/arpc/mutex.cpp')], SCHED)
prop('A02', 'Flags wake all their waiters, for as long as they are set',
     'Once a flag is set, every thread waiting for it goes on, and waiting for it succeeds until it is reset; nobody passes a flag that is not set. '
     'Setting, resetting and looking at flags always works, also in contexts that are cancelled or late.',
     ['schedules', 'programs'],
     'For every program with threads that set, reset, look at and wait for flags, and every schedule.',
     'Tests use a flag between two threads, never reset it concurrently, and never in a cancelled context.',
     ['src/arpc/flag.h', 'src/arpc/flag.cpp', 'src/arpc/pipe.cpp'],
     [('flag::set, reset, wait, async_wait', 'src/arpc/flag.cpp')], SCHED)
prop('A03', 'Queues and semaphores neither lose, duplicate nor reorder',
     'What is put in a queue is got exactly once and in the order it was put, never more is in it than its capacity, and sizes reported are those at some time during the call; the same holds for the units of semaphores. '
     'Threads wait only while the queue is empty or full, and try operations fail only then.',
     ['schedules', 'programs', 'histories'],
     'For every program that puts, gets, tries and selects with several producers and consumers, of every capacity, and every schedule.',
     'Tests pass a few elements through a queue between two threads.',
     ['src/arpc/queue.h', 'src/arpc/semaphore.h'],
     [('queue', 'src/arpc/queue.h'), ('semaphore', 'src/arpc/semaphore.h')], SCHED)
prop('A04', 'A promise makes its future ready, which delivers the result once',
     'A future becomes ready exactly when its promise is given a value or an exception or is abandoned, whichever is first, and delivers that to whoever gets it first, through the functions it was given. '
     'A promise takes one result only, and whoever waits for a future goes on when it is ready.',
     ['schedules', 'programs', 'histories'],
     'For every program that moves, sets, abandons, tries, gets and selects promises and futures in several threads, chains of then and except, and every schedule.',
     'Tests get single futures in one fixed order.',
     ['src/arpc/future.h', 'src/arpc/future.cpp', 'src/arpc/result_holder.h'],
     [('promise, future, future_result', 'src/arpc/future.h')], SCHED)
prop('A05', 'A select returns what was ready, and takes nothing else',
     'A select waits until at least one of the things given is ready, its time is up or its context is cancelled, and reports every one that was ready throughout; what it does not report it has not consumed or changed. '
     'In a cancelled context or past the deadline it fails without consuming anything; results and errors go through the functions attached to each.',
     ['schedules', 'programs', 'fault_sequences'],
     'For every combination of mutexes, flags, queues, semaphores, futures, timers, polls and contexts selected, by several threads at once, with signals interrupting, and every schedule.',
     'Tests select two or three things in one thread; concurrent consumers, cancellation at each point and signals are not reached.',
     ['src/arpc/select.h', 'src/arpc/awaitable.h', 'src/arpc/awaitable.cpp', 'src/arpc/wait.cpp'],
     [('select, poll loop', 'src/arpc/select.h'), ('awaitable::then, except, decorate', 'src/arpc/awaitable.h'), ('cv wait, pipe', 'src/arpc/wait.cpp')], SCHED)
prop('A06', 'Cancellation, deadlines and data follow the tree of contexts',
     'Cancelling a context cancels all its descendants that are not shielded, those made later included, and nothing else; a context has the earliest of its own and its parent\'s deadline and its parent\'s data at creation, and sees only changes made to itself after that. '
     'Whoever waits in a cancelled or late context is woken and told so; a context that goes away waits until its children are gone, and what is transported of a context arrives complete.',
     ['schedules', 'programs', 'histories'],
     'For every tree of contexts over several threads, with contexts made, cancelled, given deadlines and data, transported and destroyed concurrently, and every schedule.',
     'Tests make chains of two contexts in one thread.',
     ['src/arpc/context.h', 'src/arpc/context.cpp', 'src/arpc/thread.h'],
     [('context constructor, cancel, add_child, detach', 'src/arpc/context.cpp'), ('save/load of contexts', 'src/arpc/context.h'), ('thread, daemon_thread', 'src/arpc/thread.h')], SCHED)
prop('A07', 'Guarded objects outlive their users',
     'A usage lock hands out references only while it is armed, to the object it is armed with, and dropping it returns only once all references handed out before have been given back; after that nobody has one. '
     'Handing out, giving back, arming and dropping may happen in any threads at the same time.',
     ['schedules', 'programs'],
     'For every program with users, arming and dropping threads, and every schedule.',
     'No test covers it.',
     ['src/arpc/usage_lock.h'],
     [('usage_lock::get, arm, drop', 'src/arpc/usage_lock.h')], SCHED)
prop('A08', 'A thread pool runs every function it accepts exactly once',
     'Every function accepted by a thread pool is started exactly once, in the order accepted, by one of its threads, whatever earlier functions throw, and functions not accepted are never started. '
     'No more run at the same time than it has threads, calls wait only while its queue is full and all threads are busy, and destroying it cancels the functions that run and ends when they have, whatever is still queued being dropped.',
     ['schedules', 'programs', 'fault_sequences'],
     'For every number of threads, queue size, program of functions that wait, sleep, throw and submit others, callers that are cancelled, and every schedule.',
     'No test covers it.',
     ['src/arpc/executor.h', 'src/arpc/executor.cpp'],
     [('thread_pool', 'src/arpc/executor.cpp')], SCHED)
prop('A09', 'Connections carry bytes once, in order, and end cleanly',
     'What is written to a channel or connection arrives at the other end once, unchanged and in order, however reads and writes are split, and reads return what came before the end of the data, and only then report it. '
     'Reads and writes wait no longer than needed; closing a connection interrupts whoever uses it, cancelling interrupts who is cancelled, and a connection that reconnects makes one new link whenever it is asked to and has none, never mixing data of different links.',
     ['schedules', 'programs', 'fault_sequences', 'histories'],
     'For all concurrent readers, writers, closers and cancellers at both ends, short reads and writes, full buffers, interrupted calls, failing attempts to connect, and every schedule.',
     'No test covers channels or connections.',
     ['src/arpc/channel.cpp', 'src/arpc/connection.cpp', 'src/arpc/connection.h'],
     [('channel::read, write', 'src/arpc/channel.cpp'), ('channel_connection', 'src/arpc/connection.cpp'), ('reconnectable_connection', 'src/arpc/connection.h')], SCHED)
prop('A10', 'A remote call is executed at most once and ends as its execution did',
     'A remote call is executed at most once, by an object that has the name it asks for, with the arguments, context data and remaining time of the caller, and the caller gets the value or the error, with class and message, the execution ended with; every call gets its own result. '
     'Calls of names or methods (with that signature) the server does not have fail with not_found and are not executed; a call on an intact link to a running server is executed as soon as one of the worker threads is free, and its result is delivered at once.',
     ['schedules', 'programs', 'histories'],
     'For all programs of several clients and threads that make synchronous and asynchronous calls to several objects, interfaces and encodings, every number of workers, and every schedule.',
     'No test covers client or server: the RPC half is not built by the tests.',
     ['src/arpc/client.h', 'src/arpc/server.h', 'src/arpc/interface.h', 'src/arpc/message_defs.h', 'src/arpc/result_holder.h'],
     [('client_connection', 'src/arpc/client.h'), ('server::execute, queue_request, react', 'src/arpc/server.h')], SCHED)
prop('A11', 'Calls end in time, when they are cancelled, and when their link breaks',
     'A caller that is cancelled, or abandons its call, is told cancelled, and the method is interrupted if it is running; calls end with deadline_exceeded when, and not before, their time is over, at the caller and in the method. '
     'When a link breaks, every call that was sent over it ends with an error, and later calls use a new link; calls fail for such reasons only when there was such a reason during the call, and no failure makes a call be executed twice or get the result of another.',
     ['schedules', 'programs', 'fault_sequences', 'crash_points'],
     'For all programs of calls with time limits, cancellations and links that break or cannot be made at any point, with short reads and writes, and every schedule.',
     'No test covers client or server.',
     ['src/arpc/client.h', 'src/arpc/server.h', 'src/arpc/connection.h', 'src/arpc/context.h'],
     [('client_connection::send, receive, cancel_request', 'src/arpc/client.h'), ('connection_wrapper', 'src/arpc/server.h')], SCHED)
prop('A12', 'Servers may be stopped and restarted, objects added and removed, at any time',
     'Starting and stopping a server and registering and removing objects work at any time; stopping ends the calls in progress with an error at their callers and a server that is started again serves calls again. '
     'Calls begun after an object was removed are not executed by it, destroying an object waits for the methods it is executing and no others begin, and destroying a server waits for its methods.',
     ['schedules', 'programs', 'histories', 'fault_sequences'],
     'For all programs that start, stop and destroy servers and register, remove and destroy objects while calls are made, and every schedule.',
     'No test covers the server.',
     ['src/arpc/server.h', 'src/arpc/usage_lock.h', 'src/arpc/executor.cpp'],
     [('server::start, stop, register_object, unregister_object', 'src/arpc/server.h'), ('server_object', 'src/arpc/server.h')], SCHED)
prop('A13', 'Files, sockets and names are what they are opened, dialed and resolved as',
     'A file opened is the one named, created, emptied or appended to as its mode says, and a descriptor has one owner, a channel: it is closed when, and only when, that ends or is told to, and copies made of it work on alike. '
     'Dialing reaches one of the listeners at the addresses of the endpoint exactly if there is one; each connection is accepted once, with what was sent and the addresses of its ends, and options, shutting down, listening and accepting have the effects of the system\'s own. '
     'Names resolve to what the system says they are, every request to its own answer, and remote calls over such sockets end like over others.',
     ['histories', 'inputs', 'programs'],
     'For all sequences of opening, duplicating, moving, closing, dialing, accepting, reading and writing of several channels and listeners, IPv4 and IPv6, all modes and queries.',
     'No test covers files, sockets, listeners or names; what goes wrong depends on the history of descriptors and connections.',
     ['src/arpc/file.cpp', 'src/arpc/socket.cpp', 'src/arpc/channel.cpp', 'src/arpc/address.cpp', 'src/arpc/address_resolver.cpp', 'src/arpc/connection.cpp'],
     [('file', 'src/arpc/file.cpp'), ('dial, listener', 'src/arpc/socket.cpp'), ('channel', 'src/arpc/channel.cpp'), ('address_resolver::resolve', 'src/arpc/address_resolver.cpp')],
     'Random histories of files in a scratch directory and of sockets on the loopback network, with the real system underneath; TLC evaluates the specification on each. The schedule is whatever the machine produces (the other properties explore schedules); names are those that need no network.')
