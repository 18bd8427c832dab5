def _t(spec, how):
    return "TLA+ (%s) checked with TLC; %s, recorded traces validated with TLC" % (spec, how)


T = {
 "C01": (_t("Scheduler", "TLC-generated request histories replayed on the real queue and engine"),
         "Exhaustive for the design (4 requests, 6 acceptances) and for all queue histories of length 6; random longer histories and concurrent runs of the real engine. Trusts that the first selection message marks the start of a work."),
 "C02": (_t("Scheduler", "generated histories and concurrent submissions on the real engine"),
         "Exhaustive for the design; sampled histories and schedules of the real engine with perturbation at its log calls. Running works are observed from selection start to outcome."),
 "C04": (_t("MsgCache", "generated add/pop histories, sequential and concurrent, on the real cache"),
         "Exhaustive for the design with small bounds; all short and sampled long histories on the code, including more than 64 messages of a sender."),
 "C05": (_t("WorkCache, Resend", "generated store/lookup histories on the real cache and whole question histories answered by a real engine"),
         "Exhaustive for the design with small bounds; all short and sampled long histories on the code, at the cache and at a running engine whose answers are read from the network."),
 "C06": (_t("Presign", "generated histories of hand-outs, announcements, database faults, single database steps and crashes, and concurrent runs, on the real manager, member selection and SQLite database"),
         "Exhaustive for the design (crash at any step, two leaders); sampled histories and schedules on the code. SQLite in memory stands for the database."),
 "C07": (_t("Selection", "scripted leaders and whole selections of several real nodes"),
         "Exhaustive for the design with 4 parties; sampled scripts and network schedules on the code."),
 "C08": (_t("Selection", "scripted announcements to a real member"),
         "Exhaustive for the design with 4 parties; sampled announcements (well-formed, malformed, of other nodes, repeated, late) on the code."),
 "C09": (_t("Selection", "scripted and whole selections with lost, repeated, delayed and late messages"),
         "Exhaustive for the design with 4 parties (loss, delay, offline parties); sampled schedules on the code with scaled time limits."),
 "C16": (_t("DbStore", "generated store/load histories, idle and concurrent use of the real database layer"),
         "Exhaustive for the design with small bounds; sampled histories on SQLite. The MySQL dialect cannot run here."),
 "C19": (_t("Quorum", "all committee sizes of a range through the real threshold functions"),
         "Arithmetic rules checked for all committees of the range in the specification and in the code."),
 "C21": (_t("Blame", "generated record/query histories, sequential and concurrent, on the real manager"),
         "Exhaustive for the design with small bounds; sampled histories on the code."),
 "C23": (_t("EncStore", "generated histories with reopening, tampering and truncation on the real store"),
         "Exhaustive for the design with small bounds; sampled histories and every truncation of sampled ciphertexts on the code."),
 "C10": (_t("Exec, Proto", "generated and concurrent productions of a batch's jobs on a real executor, and whole protocol runs of real executors"),
         "Exhaustive for the design and for all orders of two jobs and two destinations; sampled longer and concurrent orders and protocol runs (four protocols, up to 4 parties) on the code."),
 "C11": (_t("Exec, Proto", "generated job results and time-outs, sequential and concurrent, on a real executor, and protocol runs with rejected messages and jobs that cannot start"),
         "Exhaustive for the design and for all orders of three results; sampled protocol runs on the code. That a key share is stored first is observed in whole engines with a database that fails."),
 "C12": (_t("Job, Proto", "real jobs of all parties with slow receivers, silent parties and short time limits, and whole protocol runs"),
         "Exhaustive for the design with safety and liveness; sampled timings on the code for all protocols."),
 "C13": (_t("Monitor, Recovery, Proto", "generated histories of a real monitor, questions of a real executor, and whole protocol runs over a network that loses first transmissions"),
         "Recovery proved for the design (3 nodes, any losses, liveness); sampled histories and losses on the code for all protocols."),
 "C03": (_t("WorkLife", "works of up to five real engines with missing, silent, slow, failing and misbehaving nodes"),
         "Exhaustive for the design (one work, three nodes, all faults, safety and liveness); sampled works, faults and network schedules on the code."),
 "C18": (_t("WorkLife", "signings and key generations of real engines with all kinds of message contents; every signature verified"),
         "Exhaustive for the design; sampled messages, batches, participants and delivery orders on the code, all four work types."),
 "C24": (_t("Resend, Selection", "forged, altered, relayed and genuine envelopes given to a real engine, and every envelope a network of real engines sends"),
         "Exhaustive for the design; sampled forgeries (each part of the envelope altered, wrong signer, claimed sender, replay under another sender) on the code during selection and protocol rounds and in answers to questions."),
 "C14": (_t("Hostile", "generated sequences of hostile, altered, foreign and untimely messages given to networks of real engines with works under way, followed by honest works"),
         "Exhaustive for the design; sampled hostile contents (empty, altered and foreign protocol messages, malformed selections, shares and requests) for all protocols on the code."),
 "C20": (_t("Locks", "many threads calling into a real engine at once, with every kind of call and message, while works start and end, followed by a work of all nodes"),
         "Deadlock freedom, exclusion and lock order exhaustive for the lock programs of the engine's calls (3 concurrent calls); sampled schedules on the code with perturbation at its log calls, a call that takes 20 s counts as blocked."),
 "C15": (_t("P2P", "generated byte streams through the real reader and writer of a stream, and nodes in child processes that are killed, stopped, restarted and fed hostile streams while others write concurrently"),
         "Exhaustive for the design (two nodes, restarts, closed and hostile streams, safety and liveness); sampled byte streams, message sizes, restarts and thread schedules on the real network layer over the loopback network."),
 "C22": (_t("Single", "generated bursts of requests to the real service, by calls and through its RPC server and the real client"),
         "Exhaustive for the design (two key types, replaced keys); sampled histories on the code, every signature verified by two implementations for eddsa and with key recovery for ecdsa."),
 "C17": (_t("Heart", "generated calls to real nodes (lifecycle, keys that are right and wrong, requests of all kinds, alone and at the same time), by calls and through the RPC server"),
         "Exhaustive for the design (2-3 attempts to set a key, 2 requests, the host's state flipping); sampled histories of single nodes and of networks of 2 and 3 whole nodes."),
}
