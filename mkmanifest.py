import json
T="deterministic simulation with fault injection (seeded schedules, I/O, cancellation and restart faults; executable reference model as oracle)"
notes={
"C01":"Seeded search over histories of add/clone/load/build/parse on both matchers with short and interrupted reads, cancelled parses and preemption; every match is recomputed by the reference model (one pattern, one message). Sampling, not proof; trusts the model of SET/INT/GREEDY in sim/src/model.rs.",
"C02":"Same histories; every no-match answer is checked against each held pattern on its own, and every held pattern is asked for with messages made from it at the end of the run.",
"C03":"Same histories restricted to patterns the language can express; the winner is recomputed by a reference resolver. Trusts that resolver as the meaning of the documented precedence.",
"C04":"Seeded histories over families of clones; after each mutation all relatives must repeat every recorded answer.",
"C05":"Seeded histories of repeated, cancelled and interleaved parses; each repetition must equal the recorded answer and that of a fresh matcher with the same patterns.",
"C06":"open/read are decided by the simulator: sizes, EINTR, errno, premature end, torn or concurrently rewritten files. Success must equal decoding the bytes the simulated kernel delivered, all of them; any hard error must surface as an I/O error.",
"C07":"Seeded faulty sources and files; success, first error and consumption compared with the model.",
"C08":"Seeded faulty sources and files; consumption, retained patterns and error-level records compared with the model.",
"C09":"Seeded test messages with each kind of discrepancy in growing matchers; accept/reject and its content compared with the model.",
"C10":"Seeded hostile messages, pattern texts and damaged stored files; panics are caught, aborts and hangs end a worker process and are reported with the run that did it (40 s without progress, 6 GB limit).",
"C11":"Seeded sequences of failing, torn, cancelled loads and repairs followed by a clean load; descriptors tracked through open/close, reads counted.",
"C12":"Both matchers run the same seeded history; complete answers compared.",
"C13":"The same document is rendered in both formats in random layouts and loaded under independent read schedules; complete contents and answers compared.",
"C14":"Histories as in C01 with dense metadata; everything visible through a match compared with what was supplied.",
"C15":"Two to four real threads, exactly one released at a time by the seeded scheduler at allocations, log records, system calls, callbacks and lock waits; each thread's complete outcome sequence compared with its solo run.",
"C16":"Threads drawing ids while getrandom is simulated with interruptions and short deliveries, across restarts; form and distinctness checked. Collisions by chance (about 2^-100 per run) are neglected.",
"C17":"Workloads of all other properties, each repeated in one process until the live bytes (counted in the allocator) settle, at most 96 times, plus growth over the varied runs of a worker process; descriptors and files checked too. A leak rarer than one run in a worker's share (1000 in quick) is missed.",
"C18":"Workloads of all other properties executed three times in one process with other simulated clocks, entropy, process id and heap layout, and a share of them in two processes with another environment, directory and address space; complete outcomes compared. Executions with several threads are compared without cancellations.",
}
na={
"N01":"a pure function of one text: no schedule, clock, fault or interleaving for a simulator to control; its effects on loads and matching are exercised inside C01, C02, C09 and C10",
"N02":"internal pure functions without faults, time or concurrency; their effects are observed through C01-C03 and C10",
"N03":"an offline Perl conversion script outside the library: one deterministic pass over one input, nothing to schedule or inject that a property depends on",
"N04":"a pure function of two parser values; its effects on which patterns share an entry are observed through C02 and C03",
}
m=dict(version=1,setup_cmd="bash setup.sh",checks=[dict(property=k,quick_cmd=f"bash run.sh {k} quick",thorough_cmd=f"bash run.sh {k} thorough",evidence_file=f"evidence/{k}.json",technique=T,level="exploration",level_note=v) for k,v in notes.items()],
 not_applicable=[dict(property=k,reason=v) for k,v in na.items()],
 notes="No hooks in /repo: every seam (libc entry points, allocator, logger, getrandom, futex, parser and source callbacks) is taken at link time by the simulator executable, which compiles /repo unmodified.")
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
