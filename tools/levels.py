"""level notes per property (what assurance each check gives) and the properties not claimed"""
_ts = ("The design in specs/TaskSched.tla is model-checked exhaustively for 3 tasks and 2 engines; the real scheduler object is then "
       "driven through stub sockets on a virtual clock with spec-generated and seeded random histories (up to 14 tasks, 8 engines) and every "
       "recorded execution is validated step by step. Trusted: the stub sockets and clock, and that messages on one stream arrive in order.")
for i in range(1, 8):
    LN[f"T0{i}"] = _ts
_hub = ("The design in specs/Hub.tla is model-checked exhaustively for a small instance; the real Hub (with its DictDB or SQLite database) is driven "
        "through stub streams on a virtual clock by spec-generated scripts and seeded random histories, including restarts from saved state, and every "
        "recorded execution is validated. Trusted: stub sockets and clock; per-channel message order.")
for i in range(1, 6):
    LN[f"H0{i}"] = _hub
LN["H06"] = ("specs/HeartMon.tla is model-checked; every answer pattern of one heart up to the bound and sampled patterns of several hearts are replayed "
             "into the real HeartMonitor on a virtual clock and validated. Trusted: stub sockets and clock.")
for i in range(1, 4):
    LN[f"D0{i}"] = ("specs/TaskDB.tla is model-checked for 3 records; spec-generated scripts and seeded random histories are replayed into the real DictDB, SQLiteDB "
                    "(real files, reopened and crashed) and NoDB, and every result is compared with the specification. MongoDB is not covered (pymongo is absent).")
for i in range(1, 3):
    LN[f"B0{i}"] = ("specs/BroadcastMC.tla (the scheduler tree) is model-checked against specs/Broadcast.tla; the tree that the real IPController lays out is driven over an "
                    "in-process network with spec-generated scripts and seeded random message interleavings, and every recorded execution is validated. Trusted: the "
                    "in-process network (FIFO per connection).")
_client = ("specs/ClientMC.tla (client, engine queues, task pool, replies and death notices in flight) is model-checked; the real Client, Hub, schedulers, heart monitor and engine "
           "kernels run together in one process over a simulated network and clock (harness/simsys.py), driven by spec-generated scripts and seeded random histories, and "
           "everything users can observe is validated against specs/Client.tla. Trusted: the in-process network (FIFO per connection), the stand-ins for sockets, threads, "
           "IPython's shell and kernel base classes.")
for i in "C01 C02 C03 C04 C05 C09 E01".split():
    LN[i] = _client
_map = ("specs/MappingMC.tla (partitioning for all sizes up to the bound, and the lazy map with a feeder, finishing calls and a consumer) is model-checked; maps of the real Client and views run "
        "on the simulated whole system (harness/simsys.py), driven by spec-generated scripts and seeded random histories, and the calls made and values returned are validated against specs/Mapping.tla. "
        "Trusted: as for the C properties, and that the thread feeding a lazy map can be run when the driver chooses.")
for i in "C07 C08".split():
    LN[i] = _map
_ns = ("specs/NamespaceMC.tla (engines that run small programs on their namespaces in order, and clears that overtake them) is model-checked; programs are carried out by the real views, serialization "
       "and engine kernels on the simulated whole system (harness/simsys.py), from spec-generated scripts and seeded random histories; the namespace of the engine after every request and every result are validated "
       "against specs/Namespace.tla. Trusted: as for the C properties.")
for i in "E02 C10".split():
    LN[i] = _ns
NA = {}
LN["S01"] = ("specs/WireMC.tla (the message format: holes in pickles and the buffers that follow them; all messages of small shapes are unpacked again to what was packed) is model-checked; "
             "values of those shapes and seeded random values are packed and unpacked by the real serialization, and what arrives is validated against specs/Wire.tla (values as trees, references "
             "replaced by what they name). Trusted: the encoding of values as trees in harness/h_wire.py.")
LN["C06"] = ("specs/RetrievalMC.tla (hub, two clients, requests and retrievals in flight) is model-checked; spec-generated scripts and seeded random histories of retrievals, queries, resubmissions and purges are "
             "carried out by the real Client and Hub on the simulated whole system, and every answer is validated against specs/Retrieval.tla. Trusted: as for the C properties.")
LN["X01"] = ("specs/AuthMC.tla (signed and forged messages through copying schedulers, hub, engines and clients; leaving out any one receiver's check breaks it) is model-checked; harness/intruder.py sends messages "
             "without a valid signature to every port of the simulated whole system while clients work, and everything that happens is validated against specs/Client.tla and specs/Retrieval.tla, in which such "
             "a message changes nothing. Trusted: jupyter_client's signing and digest history (replays of genuine messages and reuse of a signature before its message arrives are left out).")
LN["L01"] = LN["L02"] = ("specs/ClusterMC.tla (components, deaths, notices, stops, crashes of the manager, takeover from the file; writing the file in place breaks it) is model-checked; spec-generated scripts and seeded "
             "random histories of overlapping calls, deaths, failing launches, crashes and takeovers are carried out by real Cluster and launcher objects over a simulated operating system, and what happens to processes, "
             "file and callbacks is validated against specs/Cluster.tla. Trusted: the simulated processes, psutil, threads and clock of harness/h_cluster.py.")
