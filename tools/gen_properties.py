#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one entry per property, see /root/.vp/PROPERTIES.schema.json)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


NETF = ["src/CCommMgr.cpp", "include/CCommMgr.h", "src/CNetWorker.cpp", "include/CNetWorker.h", "include/CSocketBuf.h", "include/Define.h"]

p("C01", "Inbound TCP: framed packages delivered exactly, however bytes are segmented",
  "However the network splits, coalesces or delays the bytes a client sends, a server hands the application exactly the packages its configured framing (raw, 16-bit or 32-bit length-prefixed, HTTP, or a user-supplied filter) defines on that connection: each once, whole, unaltered and in order, on the connection they were sent on, while an incomplete package is held and never delivered. "
  "Bytes the framing declares invalid, or a package larger than the configured receive limit, produce exactly one error report of the matching kind and close that connection, with nothing from it delivered afterwards. "
  "Packages completed before a peer closes or before the invalid bytes are still delivered.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "Every byte stream, every segmentation and arrival timing, every receive-buffer size, several concurrent connections, with short reads, interrupted or spurious wake-ups, resets and closes in between.",
  "The tests send a handful of small requests over loopback, which arrive in one segment; no test controls segmentation, buffer growth, errors or interleaving of connections.",
  NETF + ["include/CRawPackageFilter.h", "include/CH2ShortT3PackageFilter.h", "include/CH2T3PackageFilter.h", "include/CHttpPackageFilter.h"],
  [("read loop and package extraction (single-loop server)", "src/CCommMgr.cpp:onTcpRead"), ("read loop and package extraction (multi-thread workers)", "src/CNetWorker.cpp:onTcpRead"),
   ("receive buffer growth, compaction and removal", "include/CSocketBuf.h"), ("framing rules", "include/C*PackageFilter.h:isWholePkg")],
  [("per-connection receive buffer", "bytes received and not yet delivered", "include/Define.h:StClientInfo")])

p("C02", "Outbound TCP: accepted writes arrive intact and in order; close waits for them",
  "The bytes of the writes the library accepts on a connection reach a peer that keeps reading as their exact concatenation: nothing lost, duplicated, reordered or altered by short sends, would-block results, slow readers or interleaved writes. "
  "A write that does not fit within the configured send limit is refused with an error and contributes at most a leading part of its own bytes, never disturbing what was accepted before or after. "
  "A write that asks to close afterwards closes the connection only after everything accepted was handed to the network, and then does close it; without that request the connection stays open.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "Every sequence of write sizes and close requests, every send-buffer limit and peer reading pattern, every pattern of partial sends, would-block and interrupted sends, on many connections at once.",
  "Loopback sends in the tests are always accepted whole by the kernel, so the buffering, resume and deferred-close paths never run.",
  NETF + ["src/Utils.cpp"],
  [("write: direct send, then buffer the rest", "src/CCommMgr.cpp:write(const StSession&...)"), ("resume on writability, deferred close", "src/CCommMgr.cpp:write(int)"),
   ("same for worker threads", "src/CNetWorker.cpp:write"), ("send buffer with limit", "include/CSocketBuf.h:addData")],
  [("per-connection send buffer and close-after flag", "accepted bytes not yet handed to the network", "include/Define.h:StClientInfo")])

p("C03", "Connection life cycle: truthful connect results, one end notice, no fd leak",
  "For every connection the application sees a regular history: one connect notification first, then only data of that connection, and at most one end notification (peer close or error), none after the application itself closed it. Errors are only reported when something went wrong. "
  "An outgoing connection attempt that was started is reported as established exactly when the peer accepted it and as failed otherwise, exactly once, and data the peer then sends is delivered. "
  "When the peer goes away, the attempt fails, or the application closes it, the connection's descriptor and memory are released promptly.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of peer closes, resets, refusals, time-outs, application closes from inside any callback, descriptor-number reuse and resource errors.",
  "The tests open few connections sequentially and never observe resets, refused or immediately completed connects, closes inside callbacks, or descriptor reuse.",
  NETF + ["src/CEvent.cpp", "include/CEvent.h"],
  [("accept and connect-result handling", "src/CCommMgr.cpp:onAccept,connect,onConnect"), ("worker-side connect", "src/CNetWorker.cpp:connect,onTcpConnect"), ("close and slot release", "src/CCommMgr.cpp:close, src/CNetWorker.cpp:close"),
   ("event dispatch by descriptor", "src/CEvent.cpp:run")],
  [("connection table indexed by descriptor", "which connection a descriptor number currently denotes", "include/CCommMgr.h:m_vecClients")])

p("C04", "A saved session never reaches another client's connection",
  "Data written through, or a close issued on, a session the application kept from an earlier callback affects only the connection that callback was about. "
  "If that connection has ended, however it ended and whoever uses its descriptor now, the write is refused with an error and the close has no effect on any other connection.",
  ["schedules", "histories", "fault_sequences"],
  "Every history of connects, closes and descriptor reuse between saving a session and using it, from timers, messages, other connections' callbacks and worker pools.",
  "Needs a connection to end and another to take over its descriptor number between request and late answer, which the tests' request-response clients never do.",
  NETF + ["include/CRawWorkerPool.h", "include/CHttpWorkerPool.h", "include/CAnyWorkerPool.h"],
  [("session check on write and close", "src/CCommMgr.cpp:write,close; src/CNetWorker.cpp:write,close"), ("late answers of worker pools", "include/C*WorkerPool.h:onMessage")],
  [("session handle", "identifies one connection", "include/Define.h:StSession")])

p("C05", "No client behaviour or resource shortage takes the server down",
  "Whatever clients do (send garbage, oversize or half messages, stop reading, reset at any instant, open more connections than the configured maximum) and whichever descriptor or connection resources run out meanwhile, the server process does not crash, touch freed or foreign memory, or hang, and well-behaved clients keep being answered correctly. "
  "Once the disturbance stops, new clients are accepted and served again and the resources of the misbehaving ones have been released.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "Every sequence of hostile client actions, signals from writing to dead peers, accept/epoll/descriptor failures, and configured limits.",
  "The tests run with polite clients, far below every limit, with no failing system calls.",
  NETF + ["src/CEvent.cpp", "src/Utils.cpp", "include/CNetWorkerMgr.h"],
  [("accept limits and errors", "src/CCommMgr.cpp:onAccept, include/CNetWorkerMgr.h:onAccept"), ("error paths of read/write", "src/CCommMgr.cpp:onTcpRead,write"), ("send without process-killing signal", "src/Utils.cpp:Send"), ("event loop", "src/CEvent.cpp:run")])

p("C06", "Timers: once, never early, never after removal, in due order, not late",
  "A timer fires exactly once, in the loop's thread, with the id and data it was registered with, never before its delay has elapsed on the system clock and, while the clock is not adjusted and no handler is running, within a few milliseconds after it is due, for any delay up to the full 32-bit millisecond range. "
  "A timer that was removed, or replaced by a later registration of the same id, before it fired never fires; timers due at different times fire in that order, and timers registered or removed inside handlers behave the same way. "
  "Asking the loop to stop makes it return within its poll period.",
  ["schedules", "inputs", "histories", "fault_sequences"],
  "Every history of registrations, replacements and removals from inside and outside handlers, every delay, mixed with messages and I/O, interrupted waits and clock adjustments.",
  "Tests register two or three timers and wait in real time; ordering, replacement, long delays, clock jumps and interplay with other events are never reached.",
  ["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"],
  [("timer set and index", "src/CEvent.cpp:addTimer,delTimer"), ("expiry processing and wait computation", "src/CEvent.cpp:run")],
  [("timer queue ordered by due time", "pending timers", "include/CEvent.h:m_setStTimeEvents"), ("index by id", "due time of the live timer of each id", "include/CEvent.h:m_mapTimeEventIndexs")])

p("C07", "Cross-thread messages: delivered exactly once, intact, in order, in the loop",
  "Every message posted to an event loop from any thread, including the loop's own handlers and before the loop started, is delivered exactly once, with the type and data it was posted with, in the loop's thread, and a message whose post returned before another's post began is delivered first. "
  "Posting never blocks or fails because messages are pending, however many there are, and an idle loop delivers promptly rather than at its next periodic wake-up. ",
  ["schedules", "inputs", "fault_sequences"],
  "Every number of posting threads and messages, every interleaving with the loop, bursts larger than the wake-up channel, interrupted and spurious wake-ups.",
  "Tests post a few messages from one thread; lost wake-ups, full wake-up channels and concurrent posters need schedules they do not produce.",
  ["src/CEvent.cpp", "include/CEvent.h", "src/CCommMgr.cpp", "src/CNetWorker.cpp"],
  [("queue plus wake-up pipe under one lock", "src/CEvent.cpp:addMessage"), ("drain loop", "src/CEvent.cpp:run")],
  [("pending messages", "accepted, not yet delivered", "include/CEvent.h:m_queMsgEvents")])

p("C08", "Task pool: every accepted task runs exactly once on exactly one pool thread",
  "Every task a pool accepts is executed exactly once, with its type and data, by one of the pool's threads, whose index lies in range and is never used by two threads at the same time; tasks are started in the order they were accepted, and all of them complete without further stimulus as long as the pool runs, side by side while threads are free. "
  "A dispatch is refused only when at least the configured number of tasks is queued, the queue never holds more than one task beyond that number, and a refused task is never executed. "
  "Stopping the pool, at any moment, leaves no thread or caller blocked for ever and nothing running that uses the pool afterwards.",
  ["schedules", "inputs", "fault_sequences"],
  "Every interleaving of dispatching threads, pool threads, spurious wake-ups and stops, for every pool size and queue limit.",
  "The pool tests run a request at a time in real time; missed wake-ups, double execution, boundary sizes and stop races are schedule-dependent.",
  ["include/CTask.h", "src/CTask.cpp", "include/CThread.h", "src/CThread.cpp"],
  [("worker loop", "include/CTask.h:CTaskThread::run"), ("bounded dispatch", "src/CTask.cpp:dispatch"), ("thread start/stop", "src/CThread.cpp")],
  [("task queue", "accepted tasks not yet started", "include/CTask.h:m_queTaskQueue")])

p("C09", "Worker pools: each request gets its own answer once, or an error report",
  "Through a raw, HTTP or binary-package worker pool, every complete request is handed to exactly one worker object, no worker object ever handles two requests at once, and the worker's answer is delivered exactly once, unaltered, to the client that sent the request, closing the connection only if the worker asked for it. "
  "When a worker fails or the request queue is full, the error handler is told exactly once for that request and no answer is fabricated; a request that cannot be decoded is reported and its connection closed. "
  "Whether requests are answered, refused, failed or orphaned by a disconnect, nothing they used stays allocated.",
  ["schedules", "inputs", "fault_sequences"],
  "Every interleaving of clients, network loop and worker threads, worker failures, full queues and disconnects while a request is in progress.",
  "Tests send one request at a time to an idle pool.",
  ["include/CRawWorkerPool.h", "include/CHttpWorkerPool.h", "include/CAnyWorkerPool.h", "include/CTask.h", "src/CTask.cpp", "src/CCommMgr.cpp"],
  [("request hand-off", "include/C*WorkerPool.h:onRead"), ("execution and answer", "include/C*WorkerPool.h:onWork,onMessage")])

p("C10", "Multi-thread server: every accepted client is served by exactly one worker",
  "Every client connection the multi-threaded server accepts is handed to exactly one worker, which reports it connected exactly once with a session denoting that client's own connection and then receives all of that client's data; connections are spread over all workers in turn. "
  "A connection the server cannot take is closed and reported, and everything a worker sends or closes through the reported session acts on that client only. ",
  ["schedules", "configurations", "fault_sequences"],
  "Every interleaving of the accepting thread with the workers, any number of workers and clients, connection bursts, full hand-off queues and descriptor shortage.",
  "The one worker test uses few clients and no concurrency control; hand-off races need particular schedules.",
  ["include/CNetWorkerMgr.h", "src/CNetWorker.cpp", "include/CNetWorker.h", "include/CCircleQueue.h"],
  [("round-robin hand-off", "include/CNetWorkerMgr.h:onAccept"), ("hand-off queue and wake-up", "src/CNetWorker.cpp:watch,onEvent")],
  [("hand-off queue", "accepted connections not yet taken over", "include/CNetWorker.h:m_queConn")])

p("C11", "Blocking queue is one bounded FIFO under concurrency; timed waits bounded",
  "Operations of any number of threads on a blocking queue (push, pop, timed pop, peek at either end, size, full, empty, clear) take effect as if one at a time on a bounded FIFO of the configured capacity: no element is lost, duplicated, reordered or popped after being cleared, and the number of elements never exceeds the capacity. "
  "A blocked push or pop completes once space or an element is available, whichever thread provides it. "
  "A timed pop that finds no element returns failure no earlier than its timeout and promptly after it, and succeeds if an element is available meanwhile.",
  ["schedules", "inputs", "histories"],
  "Every interleaving of any mix of producers, consumers, observers and clears, spurious wake-ups, and every timeout relative to the clock's sub-second position.",
  "The existing test pushes and pops from one or two threads in real time; blocking paths and time-outs depend on schedule and clock.",
  ["include/CBlockQueue.h"],
  [("mutex and condition protected ring", "include/CBlockQueue.h:push,pop")],
  [("ring indices and size", "contents of the queue", "include/CBlockQueue.h:m_dwFront,m_dwBack,m_dwSize")])

p("C12", "Lock-free ring: one producer and one consumer exchange elements exactly",
  "With one producing and one consuming thread, the lock-free circular queue delivers every element whose insertion succeeded exactly once, unaltered and in insertion order, and never delivers anything else. "
  "An insertion fails only when the queue is full and a removal only when it is empty, the number of stored elements never exceeds the capacity, and after the producer stops the consumer obtains all of them.",
  ["schedules", "inputs"],
  "Every interleaving of the two threads at the granularity of single memory accesses, for every capacity and fill level.",
  "The existing test runs two threads at full speed with a large ring; boundary interleavings at full and empty are rare.",
  ["include/CCircleQueue.h"],
  [("head/tail publication", "include/CCircleQueue.h:enque,deque")],
  [("head and tail", "stored elements", "include/CCircleQueue.h")])

p("C13", "Shared-memory byte ring: records pass intact between writer and reader",
  "Records pushed by one writer into the shared buffer queue are popped by one reader, in another thread or an independently attached process, whole, unaltered, exactly once and in order, for records of every size that fits and at every wrap-around position. "
  "A push that does not fit is refused without disturbing the contents, and a pop into a buffer that is too small fails and drops that one record only. "
  "If reader or writer disappears between operations and another attaches to the same memory, what was stored and not yet taken is still delivered; a writer that disappears inside a push leaves no partial record visible. While only one of the two uses the queue, its answers about size, emptiness and room are exact.",
  ["schedules", "inputs", "crash_points"],
  "Every interleaving of writer and reader, every record-size sequence and buffer size, and process death at every point of an operation.",
  "The test pushes a few fixed records in one thread; wrap-around, concurrency and death mid-operation are not reached.",
  ["include/CBufferQueue.h"],
  [("two-piece record layout and index publication", "include/CBufferQueue.h:push,pop"), ("attach/create", "include/CBufferQueue.h:attach,create")],
  [("header with begin/end", "what is stored", "include/CBufferQueue.h")])

p("C14", "LRU cache equals a sequential cache model under concurrent use",
  "Operations of any number of threads on the cache behave as if executed one at a time: a lookup returns the value most recently set for that key or a miss, never a removed, cleared, overwritten or expired value, and an entry without expiry disappears only by removal, clearing or eviction. "
  "An entry with a lifetime is returned at every moment up to that lifetime and not once it has passed; eviction happens only when an insertion finds more entries than the configured capacity, removes the least recently used entries, and keeps the number of entries within one of the capacity. "
  "The cache never corrupts or leaks memory, in the single-lock and in the sharded variant.",
  ["schedules", "histories", "inputs", "configurations"],
  "Every history and interleaving of set, get, delete, clear and size from several threads, for every capacity including tiny ones, with time advancing arbitrarily.",
  "The test uses one thread, the default capacity and no expiry.",
  ["include/CLruCache.h", "include/CLock.h"],
  [("map plus recency list under a lock", "include/CLruCache.h:set,get,del,clear"), ("eviction", "include/CLruCache.h:set"), ("shards", "include/CLruCache.h:CLruCacheV2")],
  [("recency list and map", "entries and their order", "include/CLruCache.h:pstHead,pstTail,m_mapCache")])

p("C15", "Async log: every acknowledged line reaches the files once, whole, in order",
  "As long as the disk accepts writes, every line the asynchronous log accepts is written to its log files exactly once, unbroken, with the text given and the time of its writing, each thread's lines in the order it wrote them; a refused line does not appear. "
  "However long the log has been running or idle, accepted lines reach the file within the flush interval (plus its polling step), at the next explicit flush from whichever thread, or when the log is destroyed, and do so again once disk errors end, which cost at most lines whose flush met one; what has reached the file survives the death of the process. "
  "Rotation (with two or more files per day) lets no file grow past the configured size by more than one buffer, keeps at most the configured number of files and discards only the oldest.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "Every interleaving of writer threads, explicit flushes and the flushing thread, every buffer size relative to the lines, day changes, and disk errors that come and go.",
  "The log test writes from one thread into a large buffer on a healthy disk.",
  ["include/CAsyncLog.h", "src/CAsyncLog.cpp", "include/CLogBuffer.h", "include/CLog.h"],
  [("double buffer", "src/CAsyncLog.cpp:writeBuffer,flush"), ("flush thread", "src/CAsyncLog.cpp:run"), ("rotation", "src/CAsyncLog.cpp:shiftFiles")],
  [("two buffers and the current one", "accepted lines not yet on disk", "include/CAsyncLog.h")])

p("C16", "File log: successful writes are in the files, whole, in order; bounded rotation",
  "Every line a file log reports as written is present exactly once, unbroken, with the time of its writing and in writing order across its current and rotated files, even after the process dies, as long as it has not been rotated out; lines of concurrent writers never mix, and a write that could not be stored is reported as failed. "
  "Logging resumes by itself once disk errors end. "
  "With two or more files per day, a day's files never exceed the configured number, each stays within the configured size plus one line (and the remains of failed writes), rotation discards only the oldest, and a new day starts a new file.",
  ["schedules", "fault_sequences", "inputs", "configurations"],
  "Every interleaving of writing threads, every line and limit size, day changes, and full disks, I/O errors, failed renames and opens that come and go.",
  "The log test writes a few lines on a healthy disk from one thread.",
  ["include/CFileLog.h", "src/CFileLog.cpp"],
  [("write path", "src/CFileLog.cpp:writeFile"), ("rotation", "src/CFileLog.cpp:shiftFiles")])

p("C17", "Shared-memory arrays and bitmaps keep each slot's own value across attaches",
  "A value stored in a slot of a shared-memory array or bitmap is read back unchanged by every process attached to it, until that slot itself is overwritten or cleared, and writing one slot, with whatever value, never alters another (stores are made one at a time: the classes take no locks); bitmap positions outside the configured range, and any position of a bitmap whose init failed, are refused without touching memory. "
  "A process that attaches later, after its creator ended or crashed, finds the stored values; attaching with more slots than the memory was created for is refused, and attaching to memory whose creation was cut short is refused or starts from clean memory. Only an init that asks for it creates memory, and one object may be initialised again, for the same or another key.",
  ["histories", "crash_points", "inputs", "configurations"],
  "Every history of stores, reads, clears, detaches, re-attaches and crashes of several processes, every size and width, shared-memory system calls failing.",
  "The bitmap test uses one process and a few in-range positions.",
  ["include/CShm.h", "include/CShmArray.h", "include/CBitMap.h"],
  [("create or attach", "include/CShm.h"), ("slot access", "include/CShmArray.h, include/CBitMap.h")])

p("C18", "Blocking TCP client: calls transfer exactly the bytes, within their time limits",
  "A connect call succeeds when the server accepts the connection within the (positive) time limit and no system call fails or is interrupted, and otherwise fails no later than shortly after the limit, leaving nothing open. "
  "Read and write calls move exactly the bytes they report, in order, against servers that split, delay, stall, reset or close at any point; each wait for the peer ends within the call's time limit, failure is reported rather than data invented (what an n-byte read that fails had already taken is dropped), and the process is never terminated. "
  "After a failure, reconnecting yields a clean connection.",
  ["schedules", "fault_sequences", "inputs"],
  "Every segmentation and delay of the peer, refusals, silent peers, resets and interrupts at every point, any descriptor number.",
  "No test covers the connector's error or time-out paths.",
  ["include/CTcpConnector.h", "src/CTcpConnector.cpp", "src/Utils.cpp"],
  [("timed connect", "src/CTcpConnector.cpp:connect"), ("read/write loops", "src/CTcpConnector.cpp:read,readn,write")])

p("C19", "UDP: each received datagram is one event with its sender; sends go out whole",
  "A UDP server reports every non-empty datagram it receives exactly once, as the package its framing finds at the datagram's start, with the sender's address, or as exactly one error when the framing does not accept it or it exceeds the configured receive limit, and one datagram's bytes never influence another's; loss, duplication and reordering by the network change nothing else. "
  "Datagrams sent by the server or by the UDP client leave whole, to the given address, or the call reports failure; the client's reads return one datagram each (its leading part, if the caller's buffer is smaller) or fail, within the time limit, and reconnecting leaves no descriptor behind.",
  ["inputs", "schedules", "fault_sequences"],
  "Every sequence and size of datagrams from any number of senders, network loss, duplication and reordering, interrupted and failing calls.",
  "No test exercises the UDP paths.",
  ["src/CCommMgr.cpp", "include/CUdpConnector.h", "src/CUdpConnector.cpp", "src/Utils.cpp"],
  [("datagram read", "src/CCommMgr.cpp:onUdpRead"), ("datagram send", "src/CCommMgr.cpp:writeTo"), ("client", "src/CUdpConnector.cpp")])

p("C20", "MySQL access: transparent reconnect, no statement silently lost or repeated",
  "A query against a reachable database returns exactly the rows, columns and counts the server produced for it, executed in the database and with the character set selected last; when the server dropped the connection beforehand, the library reconnects and repeats the query by itself, and the caller sees either the complete result or an error, never a partial or another query's result (of several statements in one query, the first one's). "
  "After any error, including SQL errors and failed reconnects, later queries work again as soon as the server is reachable. "
  "A statement whose answer arrived is not sent again, one query executes it at most twice, and the loss of an open transaction with its connection is reported before anything further is executed; an SQL error does not end the connection. Calls end within a small multiple of the configured time limits, and the library never uses a closed handle or leaks results or connections.",
  ["fault_sequences", "histories"],
  "Every sequence of queries with connection drops at any byte, SQL errors, stalls, refused reconnects and server restarts at every call.",
  "No database is available to the tests.",
  ["include/CMysql.h", "src/CMysql.cpp"],
  [("query with retry", "src/CMysql.cpp:CMySql::query"), ("connect, select database", "src/CMysql.cpp:CMySql::Connect,Select,Init,setCharSet"), ("results", "src/CMysql.cpp:MySqlData,MySqlBasicData")])

p("C21", "Singleton: constructed once, the same object for every thread, usable at once",
  "However many threads first ask for a singleton at the same time, exactly one object is constructed, every caller receives that same object, and none receives it before its construction has finished. ",
  ["schedules"],
  "Every interleaving of the first calls at the granularity of single memory accesses.",
  "Construction races need particular schedules; no test starts competing first calls.",
  ["include/CSingleton.h"],
  [("double-checked creation", "include/CSingleton.h:Instance")])

p("C22", "Locks exclude; condition waits end on notify or at their time limit, not before",
  "At most one thread is inside sections protected by the same lock, readers-writer locks admit either several readers or a single writer, and every release lets a waiting thread proceed. "
  "A condition wait returns only after the condition was signalled, or woke spuriously, and a timed wait returns by its time limit, not before it unless woken, whatever the clock's sub-second position; a thread that is waiting when the condition is signalled is woken.",
  ["schedules", "inputs"],
  "Every interleaving of contending threads, and every timeout relative to the clock's sub-second position.",
  "No test uses the lock classes under contention or with time limits.",
  ["include/CLock.h"],
  [("mutex, read-write lock, condition wrappers", "include/CLock.h")])

p("C23", "Removing a listener or stopping the server is safe with clients connected",
  "Removing a server or client group while connections of it are open closes those connections, stops accepting on it, releases its descriptors and memory, and does not disturb other servers, timers or messages of the same process. "
  "Stopping the loop returns from it within its poll period from any thread or handler. "
  "Creating a listener on an occupied address, or when descriptors or registrations fail, reports failure and leaves nothing behind.",
  ["histories", "schedules"],
  "Every point of a connection's life at which the removal can happen, from any callback, with data in flight in either direction.",
  "No test removes a server.",
  ["src/CCommMgr.cpp", "include/CCommMgr.h"],
  [("rmSrv", "src/CCommMgr.cpp:rmSrv"), ("stop", "src/CCommMgr.cpp:stop"), ("failing creation", "src/CCommMgr.cpp:createSrv, include/CNetWorkerMgr.h:createSrv")])

p("C24", "Binary, HTTP, URL and configuration codecs round-trip",
  "Encoding a value, package, URL or HTTP message and decoding the result yields an equal value, and decoding arbitrary bytes either yields a value or reports an error.",
  ["inputs"],
  "Every value and every byte string.",
  "Tests convert a handful of documents.",
  ["include/CAnyValue.h", "include/CAnyPackage.h", "include/CPackage.h", "src/CHttpReader.cpp", "src/CHttpWriter.cpp", "src/CConfig.cpp", "include/StringHelper.h", "src/Utils.cpp"],
  [("codecs", "include/CAnyValue.h:encode,decode")])

p("C25", "Whoever has nothing to do sleeps: no busy loop, however long nothing happens",
  "While no descriptor is ready, no timer is due and no message or task is waiting, the event loop, both network engines with all their threads, task pools, blocked queue consumers and the asynchronous log's thread wait without using the processor, apart from a bounded number of wake-ups per second. "
  "This includes the time after connections were opened, written to, half read, closed or refused, while unsent data waits for a peer that does not read, after timers and messages were handled, removed or the clock was set, and after weeks without an event, after which everything works as before. "
  "(Running out of descriptors while clients queue at a listener is excepted.)",
  ["histories", "schedules", "fault_sequences"],
  "Every history of connections, writes, timers, messages and tasks, with every segmentation and socket fault, that ends in a quiet period; quiet periods up to two months.",
  "A test cannot see that a correct answer was produced by a loop that never sleeps, nor wait for weeks.",
  ["src/CEvent.cpp", "src/CCommMgr.cpp", "src/CNetWorker.cpp", "include/CNetWorkerMgr.h", "include/CTask.h", "include/CBlockQueue.h", "src/CAsyncLog.cpp"],
  [("wait of the loop", "src/CEvent.cpp:run"), ("interest in writability ends with the backlog", "src/CCommMgr.cpp:write,onWrite,onConnect; src/CNetWorker.cpp:write,onWrite,onConnect"), ("wake-up descriptors are drained", "src/CEvent.cpp:run, src/CNetWorker.cpp")])

p("C26", "Message objects: threads do not disturb each other, nothing carries over",
  "Threads that each use their own HTTP writers, HTTP readers, value packages and the date, address and form-encoding helpers get the results they would get alone: a response contains exactly the status, headers, cookies and body put into it, a reader yields exactly the method, URI, parameters, headers, cookies and uploaded files of the message it was given, a package yields exactly the entries or values and the header fields encoded into it; a value that several threads only read or copy stays unchanged. "
  "An object that is used again for the next message shows nothing of the previous ones, and every message's memory is released with its object.",
  ["schedules", "histories", "inputs"],
  "Every interleaving of 1-4 threads at single memory accesses, every sequence of well-formed messages through the same or fresh objects.",
  "No test uses these objects from two threads or twice.",
  ["include/CHttpWriter.h", "src/CHttpWriter.cpp", "include/CHttpReader.h", "src/CHttpReader.cpp", "include/CAnyPackage.h", "include/CAnyValue.h", "include/CPackage.h", "src/Utils.cpp", "include/Utils.h", "include/StringHelper.h"],
  [("response reuse", "src/CHttpWriter.cpp:begin,end"), ("request reuse", "src/CHttpReader.cpp:setData,clear"), ("packages", "include/CAnyPackage.h:encode,decode,AnyHeader; include/CPackage.h:write,operator>>,setPkgData"), ("helpers", "src/Utils.cpp:GetGMTDate,GetTimeString,InetNtoA")])

p("C27", "Configuration loading: success means the whole file was read, else it fails",
  "Loading a configuration file succeeds exactly if the file could be opened and read to its end, however the reads are split: afterwards every name=value entry of every section of the file as it was when it was opened is returned as written, without surrounding blanks, by each typed getter, names that are not in the file yield the caller's default, and loading a file again makes its entries win. "
  "If the file is missing, cannot be opened or a read fails, loading reports failure and no value is invented; no descriptor stays open either way.",
  ["fault_sequences", "inputs", "histories"],
  "Every file of sections and name=value lines with comments, blank lines, either line ending and any length, every split of its reads, failing opens and reads at any point, and replacement of the file meanwhile.",
  "No test loads a configuration, and none fails a read.",
  ["include/CConfig.h", "src/CConfig.cpp", "include/StringHelper.h"],
  [("load", "src/CConfig.cpp:loadConfig"), ("getters", "src/CConfig.cpp:getValue,getIPAndPort")])

p("C28", "Fairness: whatever keeps a loop busy, everything else is still served",
  "However busy the event loop is kept - handlers that send further messages or add further timers without end, clients that send without pause, storms of connections, threads that keep posting - every other party still makes progress within a bounded number of handler calls: connected clients are answered, new clients are accepted and served, posted messages are delivered, timers fire and stop() makes run() return.",
  ["schedules", "histories"],
  "Every combination of sources of load, handler durations, message orders and event orders, in both network engines.",
  "Starvation needs load that never ends and shows as something that never happens, which a test cannot wait for.",
  ["src/CEvent.cpp", "src/CCommMgr.cpp", "src/CNetWorker.cpp", "include/CNetWorkerMgr.h"],
  [("one round of the loop is bounded", "src/CEvent.cpp:run"), ("one event is bounded", "src/CCommMgr.cpp:onRead,onAccept; src/CNetWorker.cpp:onRead,onEvent")])

p("C29", "Signals: each reaches its processor, disturbs nothing, and may stop the loop",
  "A signal registered with CCommMgr::addSigHandler is handed over, each time it arrives and wherever in the program it interrupts, to the processor registered for it last and with its number; while a processor is being replaced it is handed to the old or the new one, and registering a handler without a processor fails and changes nothing. "
  "Signals disturb nothing else, even if what the handler calls fails and leaves an error number: connections, data, timers, messages and other signals behave as without them. "
  "A handler may call stop(): start() then returns within the loop's polling interval, nothing pending is lost, and calling start() again goes on where it left off; start() does not return otherwise.",
  ["schedules", "fault_sequences", "histories"],
  "Every moment at which signals arrive, in any thread and including between a system call and the look at its result, every set of signals and processors, every order of registration, every traffic of the server.",
  "A signal that arrives within a few instructions of a system call cannot be arranged by a test.",
  ["src/CCommMgr.cpp", "include/CCommMgr.h", "src/CEvent.cpp"],
  [("registration", "src/CCommMgr.cpp:addSigHandler"), ("hand-over", "src/CCommMgr.cpp:onSignal"), ("stopping", "src/CEvent.cpp:run,stop")])

p("C30", "Thread objects: run() exactly once per start(), joined, stopped, released",
  "Each successful start() of a CThread has run() executed exactly once, in a new thread; a start() that fails says so, has nothing executed, and may be tried again. "
  "join() returns only when that execution is over - run() has returned, or the thread has ended at one of its waits after stop() - and does return then; afterwards the object can be started again. "
  "stop() ends a waiting thread within bounded time and isStoped() tells. "
  "Destroying the object of a thread that has ended, joined or not, gives everything the thread held back to the system and touches no other thread; a thread that writes to a pipe nobody reads gets an error and does not take the process down.",
  ["schedules", "fault_sequences", "histories"],
  "Every interleaving of 1-3 owners and their threads at single memory accesses, every sequence of starts, joins, stops and destructions, every point at which a thread cannot be created.",
  "That nothing is released twice, too early or never, and that no foreign thread is hit, shows only in particular orders of a thread's end and its owner's calls.",
  ["include/CThread.h", "src/CThread.cpp"],
  [("start", "src/CThread.cpp:start,procThread"), ("end", "src/CThread.cpp:join,stop,~CThread,detach")])

p("C31", "Descriptor events: each readiness reaches its present handler, no other",
  "While a descriptor is registered with the event loop for reading or writing and is readable or writable, the handler registered for that purpose last is called in the loop's thread, with that descriptor and the data it was registered with, again and again until the readiness is gone. "
  "A handler that was removed or replaced is never called afterwards - not for an event the loop had already collected, and not when the descriptor's number has meanwhile been given to another file. "
  "Adding or removing one purpose leaves the other one and all other descriptors alone; a registration that fails, because the descriptor is out of range or the system refuses, says so and can be made later. "
  "run() may be stopped by a handler and called again, and then goes on where it left off, messages included.",
  ["schedules", "fault_sequences", "histories"],
  "Every sequence of registrations, replacements, removals, closes and reopenings made by the handlers themselves, every order and grouping in which the system reports readiness, every failing registration, every moment at which others write.",
  "Whether a collected event outlives its registration depends on the order in which the system reports events within one round, which no test controls.",
  ["src/CEvent.cpp", "include/CEvent.h"],
  [("registration", "src/CEvent.cpp:addFdEvent,delFdEvent"), ("dispatch", "src/CEvent.cpp:run; include/CEvent.h:isCurrentEvent")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        x["statement"] = x["statement"].strip()
        x["quantifier"]["text"] = x["quantifier"]["text"].strip()
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
