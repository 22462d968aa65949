T["edge-sim"] = "deterministic simulation with fault injection: seeded interleavings of the real code's threads at every pool, metric, file-system and guest operation, with injected refusals, system-call failures, short transfers, crashes and guest faults; checked against exact models during and after each run"
CLAIMED["F01"] = ("edge-sim", "sampled schedules and faults; a crash is a process kill (no power loss)")
CLAIMED["M01"] = ("edge-sim", "sampled schedules; preemption at every pool and metric operation")
CLAIMED["W01"] = ("edge-sim", "sampled guests, arguments and schedules; preemption at guest yield points and between evaluations")
CLAIMED["W02"] = ("edge-sim", "sampled guest faults; guests that never end are out of scope (the code has no limit)")
T["cache-sim"] = "deterministic simulation with fault injection: the real object cache on a simulated runtime, where every object store request, cache file operation, task start and step of time is scheduled by a seeded PRNG, with injected store and disk faults, lost cache files and abandoned reads; checked against the objects' bytes, the cache directory and what is served with the store unreachable"
CLAIMED["K01"] = ("cache-sim", "sampled schedules, ranges and faults; chunks of 1 to 16 bytes")
CLAIMED["K02"] = ("cache-sim", "sampled schedules and faults; compared once the cache is quiet")
CLAIMED["K03"] = ("cache-sim", "sampled schedules and faults; bounded progress in steps and simulated time")
T["full-sim"] = "deterministic simulation with fault injection: the real server code (replication front end, writer, planner, DataFusion, catalog) on a simulated runtime and object store, where every request, commit, task start and step of time is scheduled by a seeded PRNG, with injected store faults, lost answers and crashes; checked against an executable model of the change stream"
for r, note in [("R01", "sampled streams, schedules and faults"), ("R02", "sampled streams, schedules and faults"), ("R03", "sampled streams, schedules, faults and crash points"), ("R04", "sampled streams, schedules and faults"), ("R05", "sampled streams and schedules; bounds in simulated time"), ("R06", "sampled streams, schedules, faults and crash points")]:
    CLAIMED[r] = ("full-sim", note + "; the Delta Lake library is a stand-in with its commit protocol")
T["dml"] = "deterministic simulation with fault injection: SQL clients of one or more real servers (planner, physical execution, DataFusion, real SQLite catalog) on a simulated runtime and object store, where every object request, catalog call, task start and step of time is scheduled by a seeded PRNG, with injected store and catalog faults, lost answers and crashes; every committed table version, query and deletion is judged against an executable model of SQL's effects"
for r, note in [("D01", "sampled statements, schedules, faults and crash points"), ("D02", "sampled statements and schedules"), ("D05", "sampled statements, schedules, faults and crash points"), ("D06", "sampled statements, timestamps and schedules")]:
    CLAIMED[r] = ("full-sim", note + "; the Delta Lake library is a stand-in with its commit protocol")
    TECH[r] = T["dml"]
T["ddl"] = T["dml"].replace("every committed table version, query and deletion is judged against an executable model of SQL's effects", "every acknowledgement, refusal, listing, catalog state and deletion is judged against the set of states the statements so far can have led to")
for r, note in [("D03", "sampled histories, schedules, faults and crash points"), ("D04", "sampled histories, schedules, faults and crash points")]:
    CLAIMED[r] = ("full-sim", note + "; clients on one server one after the other; the Delta Lake library is a stand-in with its commit protocol")
    TECH[r] = T["ddl"]
