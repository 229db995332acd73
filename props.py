# property -> workloads, budgets and descriptive fields used by run_check.py
NET = "src/CCommMgr.cpp, src/CNetWorker.cpp, include/CNetWorkerMgr.h, src/CEvent.cpp, include/CSocketBuf.h, package filters, src/Utils.cpp, src/CThread.cpp"
CST = "(kind, terminal, end, error, packages, writes, peer behaviour) of a connection"
PROPS = {
    "C01": dict(work=["c01.cpp"], real=NET, states=CST),
    "C02": dict(work=["c02.cpp"], real=NET, states=CST),
    "C03": dict(work=["c03.cpp"], real=NET, states=CST),
    "C04": dict(work=["c04.cpp"], real=NET, states=CST),
    "C05": dict(work=["c05.cpp"], real=NET, states=CST),
    "C10": dict(work=["c10.cpp"], real=NET, states=CST),
    "C23": dict(work=["c23.cpp"], real=NET, states=CST),
    "C06": dict(work=["c06.cpp"], real="src/CEvent.cpp, src/CCommMgr.cpp, src/CNetWorker.cpp", states="(timers registered, messages, backend)"),
    "C07": dict(work=["c07.cpp"], real="src/CEvent.cpp", states="(messages delivered, producers, per-producer count)"),
    "C08": dict(work=["c08.cpp"], real="include/CTask.h, src/CTask.cpp, src/CThread.cpp", states="(threads busy, tasks queued, threads, running)"),
    "C09": dict(work=["c09.cpp"], real="worker pools, CTask, CThread, CCommMgr, CEvent, package filters, CHttpReader, CHttpWriter, CAnyPackage/CAnyValue, Utils", states="(outcomes of a client's requests, ending, closing)"),
    "C11": dict(work=["c11.cpp"], real="include/CBlockQueue.h", states="(capacity, threads, mix, results) and sequences of operation kinds and outcomes"),
    "C12": dict(work=["c12.cpp"], real="include/CCircleQueue.h", states="(capacity, elements stored, pacing)"),
    "C13": dict(work=["c13.cpp"], real="include/CBufferQueue.h", states="(buffer size, fate of every record) and (deaths, variant)"),
    "C14": dict(work=["c14.cpp"], real="include/CLruCache.h, include/CLock.h", states="sequences of (operation, hit or miss, lifetime) per capacity"),
    "C21": dict(work=["c21.cpp"], real="include/CSingleton.h", states="(threads, construction time)"),
    "C22": dict(work=["c22.cpp"], real="include/CLock.h", states="(threads, operations, readers inside, tokens taken and given)"),
    "C17": dict(work=["c17.cpp"], real="include/CShm.h, include/CShmArray.h, include/CBitMap.h", stubbed="the kernel's shared-memory segments (shmget, shmat, shmdt, shmctl)", states="(class, flags, size against the existing one, outcome of attaching)"),
    "C16": dict(work=["c16.cpp"], real="include/CFileLog.h, src/CFileLog.cpp, include/CLock.h, libstdc++ file streams", stubbed="the file system", states="(files of a day, days, disk errors so far, lines present)"),
    "C15": dict(work=["c15.cpp"], real="include/CAsyncLog.h, src/CAsyncLog.cpp, include/CLogBuffer.h, include/CLog.h, src/CThread.cpp, include/CLock.h, libstdc++ file streams", stubbed="the file system", states="(files of a day, days, disk errors so far, lines present)"),
    "C18": dict(work=["c18.cpp"], real="include/CTcpConnector.h, src/CTcpConnector.cpp", stubbed="the server (harness) and the kernel's sockets", states="the last four operations and whether each left a connection"),
    "C19": dict(work=["c19.cpp"], real="src/CCommMgr.cpp, src/CEvent.cpp, include/CSocketBuf.h, package filters, src/CUdpConnector.cpp, src/Utils.cpp", stubbed="the other hosts and the kernel's UDP sockets and network interfaces", states="(framing, datagram size, errors so far) and (client, operation, connected, position)"),
    "C20": dict(work=["c20.cpp"], stub=["mystub.cpp"], mysql=True, libs=["-l:libmariadb.a", "-lz"], real="include/CMysql.h, src/CMysql.cpp, MariaDB Connector/C (libmariadb)", stubbed="the database server (harness, speaks the MySQL protocol), the kernel's sockets, the library's TLS back end", states="(in transaction, database, character set, connections, disturbances)"),
    "C25": dict(work=["c25.cpp"], real=NET + ", include/CTask.h, src/CTask.cpp, include/CBlockQueue.h, src/CAsyncLog.cpp", states="(calls made while idle, threads)"),
    "C26": dict(work=["c26.cpp"], real="include/CHttpWriter.h, src/CHttpWriter.cpp, include/CHttpReader.h, src/CHttpReader.cpp, include/CAnyValue.h, include/CAnyPackage.h, include/CPackage.h, src/Utils.cpp, include/Utils.h", states="(kind and shape of the message, times its object was used before)"),
    "C27": dict(work=["c27.cpp"], real="include/CConfig.h, src/CConfig.cpp, include/StringHelper.h, include/Utils.h, src/Utils.cpp, ifstream of libstdc++", states="(outcome, file missing, replaced meanwhile, size, faults, load number)"),
    "C28": dict(work=["c28.cpp"], real="src/CEvent.cpp, src/CCommMgr.cpp, src/CNetWorker.cpp, include/CNetWorkerMgr.h, CSocketBuf, CThread", states="(sources of load: message chains, timer chains, flooding clients, connection storms, posting threads; engine)"),
    "C29": dict(work=["c29.cpp"], real="src/CCommMgr.cpp, src/CEvent.cpp, include/CSocketBuf.h, package filters", states="(signals, registered early, errno disturbed, stops, restarts, signals injected)"),
    "C31": dict(work=["c31.cpp"], real="include/CEvent.h, src/CEvent.cpp", states="(descriptors, runs of the loop, messages delivered)"),
    "C30": dict(work=["c30.cpp"], real="include/CThread.h, src/CThread.cpp", states="(started, kind of run(), stopped, entered, left)"),
}
NA = {
    "C24": "pure functions of their input: no schedule, clock, I/O, fault or second party takes part, so simulation with fault injection has nothing to vary; input generation would be a different technique",
}
