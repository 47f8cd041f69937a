package main

func init() {
	na := func(id, title, statement, quant, why string, files []string, mech [][2]string, reason string) {
		register(&Prop{ID: id, Title: title, Statement: statement, Over: []string{"schedules", "fault_sequences"}, Quant: quant, Why: why, Files: files, Mech: mech, NA: reason})
	}
	na("N01", "Honest nodes converge to one snapshot chain",
		"Nodes that stay connected eventually agree on one snapshot chain, whatever forks existed before, and a node that was offline catches up with it.",
		"all message delays, losses, partitions and restarts", "Needs many nodes and arbitrary network behaviour over time.",
		[]string{"ledger/pool/chainpool.go", "ledger/pool/pool.go", "net/syncer.go"}, [][2]string{{"fork choice", "ledger/pool/pool.go"}, {"sync", "net/syncer.go"}},
		"a liveness property over message schedules of several nodes; no static argument in reach bounds them, and what a single node must accept (C01-C04, C23) is decided separately")
	na("N02", "A node does not deadlock and its tasks end when it is stopped",
		"Whatever messages arrive and in whatever order services are started and stopped, no two tasks of a node wait for each other forever, and stopping the node ends all of them.",
		"all schedules of all tasks", "Deadlocks need particular interleavings.",
		[]string{"ledger/pool", "net", "producer"}, [][2]string{{"pool locks", "ledger/pool/pool.go"}},
		"depends on channel capacities, timers and message counts at run time; a lock-order argument alone would not decide it because most waiting is on channels and condition variables")
	na("N03", "Resource use stays bounded under hostile peers",
		"Memory, disk and processor time used for peers and unconfirmed blocks stay within configured limits, however many messages hostile peers send.",
		"all message sequences", "Needs unbounded message sequences and measurements.",
		[]string{"net", "ledger/pool"}, [][2]string{{"message queues", "net/peer.go"}},
		"quantifies over run-time rates and sizes which the source does not bound by construction")
}
