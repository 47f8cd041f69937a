package main

import (
	"go/token"
	"regexp"
	"strconv"
	"strings"
)

const (
	flusherPkg = "ledger/chain/flusher"
	cdbPkg     = "ledger/chain/db"
)

func init() {
	register(&Prop{
		ID:    "C17",
		Title: "A flush changes all databases or none, across crashes",
		Statement: "A flush commits to the databases only after every store was prepared under the write lock, the redo log was emptied, one record (store id, big-endian 32-bit length, data) was written for every store with something to write, the start-commit flag was written after all records, every one of those writes succeeded, and the file was synced. Otherwise nothing is committed and every prepared store is cancelled under the write lock, so that a later flush writes the same data. " +
			"After a commit every store is told so under the write lock, a failed commit is repaired by replaying the whole redo log before it is discarded, and a failure of that replay stops the node instead of losing the log. Recovery replays every record of a log that carries the start-commit flag to the store it names, reports a failed replay while keeping the log, and replays nothing of a log without the flag. The records read back are exactly the ones written.",
		Over:      []string{"crash points", "inputs", "schedules"},
		Quant:     "all crash points and I/O failures of a flush, all store sets and log contents",
		Why:       "The guarantee is about failures between particular writes; tests cover a successful flush and two injected failures.",
		Files:     []string{"ledger/chain/flusher/flusher.go"},
		Mech:      [][2]string{{"flush protocol", "Flusher.flush, prepare, writeRedoLog, syncRedoLog, commit, afterCommit"}, {"recovery", "Flusher.Recover, loadRedo, redo"}},
		Technique: "typestate analysis of the flush and recovery protocols over all paths (goroutine bodies included), plus a writer/reader agreement check of the redo-log record format",
		Note:      "Durability of fsync, atomicity of one leveldb batch write and the storage device are trusted. A failed truncation of the redo log is tolerated by the code and by this check.",
		Run:       runC17,
	})
	register(&Prop{
		ID:    "C18",
		Title: "Ledger reads see every accepted write, flushed or not",
		Statement: "Reads of a ledger store combine one consistent in-memory table with the disk: whatever a block or snapshot wrote is visible at once and stays visible before, during and after a flush, a cancelled flush and a failed one. A write of an account block is kept as unconfirmed until its snapshot arrives; then, and only then, it moves in order to what the next flush writes, followed by the snapshot's own changes. Rolling back account blocks drops exactly their pending writes, rolling back snapshots keeps the not yet flushed writes in order followed by the rollback's own changes. " +
			"A cancelled flush puts its data back in front of what was written meanwhile. After a commit the in-memory table holds what has not been flushed, confirmed writes before unconfirmed ones. Missing keys read as absent, other read errors are reported. Later in-memory writes win over earlier ones and deletions hide what is on disk.",
		Over:      []string{"inputs", "histories", "schedules"},
		Quant:     "all interleavings of block writes, snapshots, rollbacks and flush phases",
		Why:       "Losing or reordering a pending batch shows only for specific sequences of writes, snapshots, rollbacks and flush phases.",
		Files:     []string{"ledger/chain/db/store.go", "ledger/chain/db/flush.go", "ledger/chain/db/write.go", "ledger/chain/db/rollback.go", "ledger/chain/db/unconfirmed_batch.go", "common/db/memdb.go"},
		Mech:      [][2]string{{"pending batches", "Store.Prepare, CancelPrepare, AfterCommit, WriteSnapshotByHash, RollbackSnapshot"}, {"unconfirmed list", "UnconfirmedBatchs"}, {"sequence numbers", "MemDB.Put, Delete"}},
		Technique: "path-sensitive effect analysis: for every operation of the store the exact ordered sequence of batch, list and table operations",
		Note:      "The vendored leveldb (batches, Get2/NewIterator2 merging table and disk) is trusted. Callers hold the chain's write lock where the code says so.",
		Run:       runC18,
	})
}

func fieldCall(ev *Event, name, recv string) bool {
	return ev.Kind == "call" && baseName(ev.Name) == name && len(ev.Args) > 0 && isT(stripDeref(ev.Args[0]), recv)
}

// stores classifies a loop over seq in which every completed iteration calls
// method on the element.
func allDo(p *Path, ev *Event, seq, method string, args ...string) bool {
	for _, l := range p.loopsOver(seq) {
		if l.ev != ev || !l.full || len(ev.Loop.Iters) == 0 {
			continue
		}
		ok := true
		for _, it := range ev.Loop.Iters {
			found := false
			for _, e := range iterEvents(ev, it) {
				if e.Kind == "call" && baseName(e.Name) == method && len(e.Args) > 0 && isT(e.Args[0], seq+"["+"I]") {
					if b, m := matchT(pat(seq+"[I]"), e.Args[0], Bind{}); m && b["I"] == l.idx {
						found = true
					}
				}
			}
			ok = ok && found
		}
		return ok
	}
	return false
}

func runC17(c *Ctx) {
	f := c.Func(flusherPkg, "Flusher.flush")
	if f == nil {
		return
	}
	e := c.Opts([]string{flusherPkg}, "loadRedo", "log15")
	step := func(p *Path, ev *Event) string {
		switch ev.Kind {
		case "call":
			switch {
			case fieldCall(ev, "Lock", "A0.mu"):
				return "L"
			case fieldCall(ev, "Unlock", "A0.mu"):
				return "U"
			case fieldCall(ev, "Truncate", "A0.fd"):
				if isZero(ev.Args[1]) {
					return "t"
				}
				return "?"
			case fieldCall(ev, "Seek", "A0.fd"):
				if isZero(ev.Args[1]) && isZero(ev.Args[2]) {
					return "k"
				}
				return "?"
			case fieldCall(ev, "Write", "A0.fd"):
				if isT(ev.Args[1], "A0.startCommitFlag") && p.Holds("Write(A0.fd, A0.startCommitFlag).R1 == nil") {
					return "F"
				}
				return "f"
			case fieldCall(ev, "Sync", "A0.fd"):
				if p.F.possible(ev.Res, kNil()) == EQ {
					return "S"
				}
				return "s"
			case fieldCall(ev, "WriteAt", "A0.fd"), fieldCall(ev, "WriteString", "A0.fd"), fieldCall(ev, "ReadFrom", "A0.fd"):
				return "?"
			case baseName(ev.Name) == "Wait":
				return "W"
			case baseName(ev.Name) == "loadRedo":
				return "o"
			}
			for _, m := range []string{"Prepare", "CancelPrepare", "AfterCommit", "Commit", "PatchRedoLog", "BeforeRecover", "AfterRecover"} {
				if baseName(ev.Name) == m && strings.Contains(ev.Name, "Storage") {
					return "!" // outside a loop over the stores
				}
			}
		case "loop":
			for k, m := range map[string]string{"P": "Prepare", "C": "CancelPrepare", "A": "AfterCommit", "V": "AfterRecover"} {
				if allDo(p, ev, "A0.storeList", m) {
					return k
				}
			}
			if allDo(p, ev, "_.R1", "PatchRedoLog") || patchAll(p, ev, "PatchRedoLog") {
				return "X"
			}
			if patchAll(p, ev, "BeforeRecover") {
				return "B"
			}
			if k := commitAll(p, ev); k != "" {
				return k
			}
			if k := recordsAll(p, ev); k != "" {
				return k
			}
			has := ""
			walkEvents([]*Event{ev}, func(x *Event) {
				if x.Kind == "call" && (strings.Contains(x.Name, "flusher.Storage.") || strings.Contains(x.Name, "os.File.")) && baseName(x.Name) != "Id" {
					has = "i" // incomplete: left early
				}
			})
			return has
		}
		return ""
	}
	word := func(p *Path) string {
		w := ""
		for _, ev := range p.Evs {
			w += step(p, ev)
		}
		return strings.ReplaceAll(w, "tk", "T")
	}
	if c.Ob(true, "flush-entry", fnName(f), c.where(f), "analysed") {
		outs := c.Paths(e, f)
		n := 0
		for _, p := range c.all(outs) {
			w := word(p)
			n++
			loc := p.where()
			if i := strings.IndexAny(w, "K!"); i >= 0 || strings.Contains(w, "K") {
				good := regexp.MustCompile(`^LPUT+RFSKWLAU(oX)?T*$`).MatchString(w) || p.o.panic && regexp.MustCompile(`^LPUT+RFSKWLAUo`).MatchString(w)
				c.Ob(good, "commit-only-after-synced-log", "Flusher.flush", loc, "a path commits as %s (wanted: lock, prepare all, unlock, empty log, one record per store, start flag, sync, commit all, wait, lock, after-commit all, unlock, replay if failed, empty log)", legend(w))
				if good && !p.o.panic {
					c.Ob(strings.HasSuffix(w, "T"), "log-cleared-after-commit", "Flusher.flush", loc, "%s", legend(w))
					failed := !commitOK(p)
					c.Ob(!failed || strings.Contains(w, "X"), "failed-commit-replayed", "Flusher.flush", loc, "a path where a store's commit may have failed ends without replaying the redo log")
				}
				if p.o.panic {
					c.Ob(!strings.HasSuffix(w, "T"), "log-kept-on-failed-replay", "Flusher.flush", loc, "%s", legend(w))
				}
				continue
			}
			if p.o.panic {
				continue
			}
			// not committed
			if strings.Contains(w, "P") || strings.Contains(w, "i") && !strings.Contains(w, "C") {
				c.Ob(regexp.MustCompile(`^LPU[^PAK]*LCUT*t?k?$`).MatchString(w), "prepared-then-cancelled", "Flusher.flush", loc, "a flush that does not commit goes %s (wanted: lock, cancel all, unlock at the end)", legend(w))
			}
			c.Ob(!strings.Contains(w, "A"), "no-after-commit-without-commit", "Flusher.flush", loc, "%s", legend(w))
		}
		c.Floor("commit-only-after-synced-log", 2)
		c.Floor("prepared-then-cancelled", 4)
		held := 0
		for _, p := range c.all(outs) {
			if fieldCall(first(p.Evs), "Lock", "&A0.flushingMu") || len(p.Evs) > 0 && isT(stripAddr(p.Evs[0].Args[0]), "A0.flushingMu") {
				held++
			}
		}
		c.Ob(held == n, "flushes-exclusive", "Flusher.flush", c.where(f), "%d of %d paths start by locking flushingMu", held, n)
	}
	// aborted flusher never prepares
	if f := c.Func(flusherPkg, "Flusher.prepare"); f != nil {
		ab := c.Const(flusherPkg, "aborted")
		ok := ab != nil
		np := 0
		for _, p := range c.all(c.Paths(e, f)) {
			if w := word(p); strings.Contains(w, "P") {
				np++
				ok = ok && p.Holds("LoadInt32(&A0.flusherStatus) != "+ab.Sym)
			}
		}
		c.Ob(ok && np > 0, "aborted-flusher-idle", "Flusher.prepare", c.where(f), "a path prepares without having excluded the aborted status")
	}
	c17Recover(c, word)
	c17Load(c)
}

func first(evs []*Event) *Event {
	if len(evs) == 0 {
		return &Event{}
	}
	return evs[0]
}
func stripAddr(t *Term) *Term { return stripDeref(t) }

func legend(w string) string {
	names := map[rune]string{'L': "lock", 'U': "unlock", 'P': "prepare-all", 'C': "cancel-all", 'A': "after-commit-all", 'K': "commit-all", 'W': "wait", 'T': "empty-log", 't': "truncate", 'k': "seek", 'R': "records", 'F': "flag", 'f': "failed-or-unchecked-write", 'S': "sync", 's': "unchecked-or-failed-sync", 'X': "replay-all", 'B': "before-recover", 'V': "after-recover", 'o': "load-log", 'i': "partial-loop", '?': "other-file-op", '!': "single-store-op"}
	var out []string
	for _, r := range w {
		out = append(out, names[r])
	}
	if len(out) == 0 {
		return "(nothing)"
	}
	return strings.Join(out, ",")
}

// patchAll: loop over the loaded records calling m(stores[i], log[i]).
func patchAll(p *Path, ev *Event, m string) bool {
	for _, seq := range []string{"loadRedo(___).R0", "A2", "loadRedo(___).R1", "A1"} {
		for _, l := range p.loopsOver(seq) {
			if l.ev != ev || !l.full || len(ev.Loop.Iters) == 0 {
				continue
			}
			ok := true
			for _, it := range ev.Loop.Iters {
				found := false
				for _, e := range iterEvents(ev, it) {
					if e.Kind == "call" && baseName(e.Name) == m && len(e.Args) == 2 {
						b, m1 := matchT(pat("loadRedo(___).R1[I]"), e.Args[0], Bind{})
						if !m1 {
							b, m1 = matchT(pat("A1[I]"), e.Args[0], Bind{})
						}
						if m1 && b["I"] == l.idx {
							if isTB(e.Args[1], "loadRedo(___).R0[I]", Bind{"I": l.idx}) || isTB(e.Args[1], "A2[I]", Bind{"I": l.idx}) {
								found = m == "BeforeRecover" || it.facts.possible(e.Res, kNil()) == EQ
							}
						}
					}
				}
				ok = ok && found
			}
			return ok
		}
	}
	return false
}

// commitAll: every store commits (directly or in a goroutine that signals the
// wait group on all its paths and keeps the error).
func commitAll(p *Path, ev *Event) string {
	for _, l := range p.loopsOver("A0.storeList") {
		if l.ev != ev {
			continue
		}
		any, ok := false, l.full
		for _, it := range ev.Loop.Iters {
			here := false
			for _, e := range iterEvents(ev, it) {
				if e.Kind == "call" && baseName(e.Name) == "Commit" {
					any, here = true, true
					ok = ok && isTB(e.Args[0], "A0.storeList[I]", Bind{"I": l.idx})
				}
				if e.Kind == "go" && e.Loop != nil {
					sub := len(e.Loop.Iters) > 0
					isCommit := false
					for _, g := range e.Loop.Iters {
						done, com, kept := false, (*Event)(nil), false
						for _, x := range iterEvents(e, g) {
							if x.Kind == "call" && baseName(x.Name) == "Commit" {
								com = x
								isCommit = true
							}
							if x.Kind == "call" && baseName(x.Name) == "Done" {
								done = true
							}
							if x.Kind == "send" && com != nil && x.Args[1] == com.Res {
								kept = true
							}
						}
						if com == nil {
							sub = false
							continue
						}
						ok = ok && isTB(com.Args[0], "A0.storeList[I]", Bind{"I": l.idx})
						for _, v := range g.mem {
							kept = kept || v == com.Res
						}
						if g.facts.possible(com.Res, kNil()) == EQ {
							kept = true
						}
						sub = sub && done && kept
					}
					if isCommit {
						any, here = true, true
						ok = ok && sub
					}
				}
			}
			ok = ok && here
		}
		if any && ok {
			return "K"
		}
		if any {
			return "!"
		}
	}
	return ""
}

// commitOK: the path has established that no commit failed.
func commitOK(p *Path) bool {
	for _, f := range p.F {
		if f.Mask == EQ && isNilT(f.B) {
			op := f.A.Op
			if op == "iterm" || op == "goval" || op == "recv" || op == "iter" {
				return true
			}
		}
	}
	return false
}

// recordsAll: every store with a non-empty log gets id, length, log.
func recordsAll(p *Path, ev *Event) string {
	for _, l := range p.loopsOver("A0.storeList") {
		if l.ev != ev {
			continue
		}
		any := false
		bad := false
		b := Bind{"I": l.idx}
		for _, it := range ev.Loop.Iters {
			var log *Event
			var wr []*Event
			for _, e := range iterEvents(ev, it) {
				if e.Kind == "call" && baseName(e.Name) == "RedoLog" {
					log = e
					any = true
				}
				if fieldCall(e, "Write", "A0.fd") {
					wr = append(wr, e)
				}
			}
			if log == nil {
				bad = true
				continue
			}
			F := it.facts
			d, er := ext(log.Res, 0), ext(log.Res, 1)
			if !isTB(log.Args[0], "A0.storeList[I]", b) || F.possible(er, kNil()) != EQ {
				bad = true
			}
			ln := mk("len", "", nil2, d)
			if len(wr) == 0 {
				bad = bad || F.possible(ln, kInt(0))&GT != 0
				continue
			}
			if len(wr) != 3 {
				bad = true
				continue
			}
			ok := isTB(wr[0].Args[1], "Id(A0.storeList[I])", b)
			lenArg := wr[1].Args[1]
			if lenArg.Op == "bytesw" {
				n, _ := i64(wr[1].St.lenOf(lenArg, "len", nil2))
				lo, _ := i64(lenArg.Args[1])
				if n == 4 && lo == 0 {
					lenArg = lenArg.Args[3]
				}
			}
			ok = ok && lenArg.Op == "be32" && isTB(lenArg.Args[0], "len(X)", Bind{"X": d}) && wr[2].Args[1] == d
			for _, w := range wr {
				x := ext(w.Res, 1)
				ok = ok && F.possible(x, kNil()) == EQ
			}
			bad = bad || !ok
		}
		if any && !bad && l.full {
			return "R"
		}
		if any {
			return "i"
		}
	}
	return ""
}

func c17Recover(c *Ctx, word func(*Path) string) {
	e := c.Opts([]string{flusherPkg}, "loadRedo", "log15")
	f := c.Func(flusherPkg, "Flusher.Recover")
	if f == nil {
		return
	}
	n := 0
	for _, p := range c.all(c.Paths(e, f)) {
		w := word(p)
		loc := p.where()
		if p.Holds("loadRedo(___).R2 == nil") && (p.Holds("len(loadRedo(___).R0) > 0") || p.Holds("len(loadRedo(___).R1) > 0")) {
			n++
			if len(p.o.res) == 1 && isNilT(p.o.res[0]) {
				c.Ob(regexp.MustCompile(`^LoBXT+VU$`).MatchString(w) || regexp.MustCompile(`^LoBXT*[tk]*VU$`).MatchString(w), "recovery-replays-all", "Flusher.Recover", loc, "recovery succeeds as %s (wanted: lock, load, before-recover, replay all, empty log, after-recover all)", legend(w))
			} else {
				c.Ob(!strings.ContainsAny(w, "Tt"), "log-kept-on-failed-replay", "Flusher.Recover", loc, "recovery reports a failure after %s", legend(w))
			}
			continue
		}
		c.Ob(!strings.ContainsAny(w, "XB"), "nothing-replayed-without-log", "Flusher.Recover", loc, "%s", legend(w))
	}
	c.Floor("recovery-replays-all", 1)
	c.Ob(n > 0, "recovery-paths", "Flusher.Recover", c.where(f), "no path with a non-empty redo log")
	if f := c.Func(flusherPkg, "Flusher.commitRedo"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			w := word(p)
			c.Ob(p.o.panic || strings.Contains(w, "oX") || !isNilT(p.o.res[0]) && !strings.ContainsAny(w, "Tt"), "failed-commit-replayed", "Flusher.commitRedo", p.where(), "%s", legend(w))
		}
	}
}

// c17Load: the reader walks id, length, data exactly as the writer wrote them.
func c17Load(c *Ctx) {
	e := c.Opts([]string{flusherPkg, "common/types"}, "FileSize")
	f := c.Func(flusherPkg, "Flusher.loadRedo")
	if f == nil {
		return
	}
	seen := map[*LoopInfo]bool{}
	nk := map[string]int{}
	for _, p := range c.all(c.Paths(e, f)) {
		if len(p.o.res) == 3 && isNilT(p.o.res[2]) && !isNilT(p.o.res[0]) {
			// records returned: the flag was seen
			okFlag := false
			for _, ev := range p.Evs {
				if ev.Kind == "loop" {
					for _, ph := range ev.Loop.Phis {
						if fl, isC := kBoolOf(ph.Init); isC && !fl {
							okFlag = okFlag || p.F.decide(ph.Iter) == 1
						}
					}
				}
			}
			c.Ob(okFlag, "records-only-with-flag", "Flusher.loadRedo", p.where(), "records are returned on a path that has not seen the start-commit flag")
			nk["ret"]++
		}
		for _, ev := range p.Evs {
			if ev.Kind != "loop" || seen[ev.Loop] || ev.Loop.Fn.Package() != f.Package() {
				continue
			}
			seen[ev.Loop] = true
			c17Machine(c, p, ev, nk)
		}
	}
	for _, k := range []string{"flag", "id", "length", "data", "ret"} {
		c.Ob(nk[k] > 0, "reader-accepts", "Flusher.loadRedo", c.where(f), "no iteration reads a %s", k)
	}
}

func kBoolOf(t *Term) (bool, bool) {
	if isTrueT(t) {
		return true, true
	}
	if isFalseT(t) {
		return false, true
	}
	return false, false
}

func c17Machine(c *Ctx, p *Path, ev *Event, nk map[string]int) {
	L := ev.Loop
	where := c.P.pos(L.Pos)
	// roles: position (init 0, advances by a phi), size (init 32), lists, status
	var pos, size, status, stores, logs *PhiInfo
	for i := range L.Phis {
		ph := &L.Phis[i]
		if isIntType(ph.Iter.Typ) {
			if n, ok := i64(ph.Init); ok && n == 32 {
				size = ph
			}
		}
	}
	if size == nil {
		c.Ob(false, "reader-shape", "Flusher.loadRedo", where, "no size variable starting at the id size")
		return
	}
	for i := range L.Phis {
		ph := &L.Phis[i]
		if ph == size {
			continue
		}
		if isIntType(ph.Iter.Typ) {
			adv, st := true, false
			for _, n := range ph.Next {
				adv = adv && n == mkBin(token.ADD, ph.Iter, size.Iter, ph.Iter.Typ)
				if _, ok := i64(n); ok {
					st = true
				}
			}
			if adv {
				pos = ph
			} else if st {
				status = ph
			}
		}
		for _, n := range ph.Next {
			if n.Op == "append" {
				if strings.Contains(n.Args[1].String(), "mapget") {
					stores = ph
				} else {
					logs = ph
				}
			}
		}
	}
	if !c.Ob(pos != nil && status != nil && stores != nil && logs != nil, "reader-shape", "Flusher.loadRedo", where, "the reading loop does not advance by what it read, or collects no stores or records") {
		return
	}
	n0, _ := i64(pos.Init)
	s0, okS := i64(status.Init)
	c.Ob(n0 == 0 && okS, "reader-starts-at-id", "Flusher.loadRedo", where, "starts at %s in state %s", pos.Init, status.Init)
	// states: infer from the transitions
	idSt := status.Init
	cs := func(t *Term) string {
		n, ok := i64(t)
		if !ok {
			return ""
		}
		return itoa(int(n))
	}
	var lenSt, dataSt string
	for j := range L.Iters {
		if n := size.Next[j]; n.Op == "conv" || strings.HasPrefix(n.Op, "rd") || strings.Contains(n.String(), "rdbe32(") {
			dataSt = cs(status.Next[j])
		} else if stores.Next[j].Op == "append" {
			lenSt = cs(status.Next[j])
		}
	}
	c.Ob(lenSt != "" && dataSt != "" && lenSt != dataSt && lenSt != itoa(int(s0)) && dataSt != itoa(int(s0)), "reader-shape", "Flusher.loadRedo", where, "states %d %s %s", s0, lenSt, dataSt)
	for j, it := range L.Iters {
		F := it.facts
		in := func(s string) bool {
			n, _ := strconv.ParseInt(s, 10, 64)
			return F.possible(status.Iter, kInt(n)) == EQ
		}
		chunk := func(t *Term) bool {
			t = stripConv(t)
			return (t.Op == "sub" || t.Op == "slice") && t.Args[1] == pos.Iter && t.Args[2] == mkBin(token.ADD, pos.Iter, size.Iter, nil2)
		}
		same := func(ph *PhiInfo) bool { return ph.Next[j] == ph.Iter }
		is := func(t *Term, n int64) bool { v, ok := i64(t); return ok && v == n }
		bound := false
		for _, f := range F {
			if f.A.Op != "len" && (f.B == mkBin(token.ADD, pos.Iter, size.Iter, nil2) && f.Mask&LT == 0 || f.A == mkBin(token.ADD, pos.Iter, size.Iter, nil2) && f.Mask&GT == 0) {
				bound = true
			}
		}
		c.Ob(bound, "reader-in-bounds", "Flusher.loadRedo", where, "an iteration reads past the end of the log")
		switch {
		case F.possible(status.Iter, idSt) == EQ:
			keep := same(size) || is(size.Next[j], 32)
			if stores.Next[j].Op == "append" {
				nk["id"]++
				el := stores.Next[j].Args[1]
				ok := el.Op == "mapget" && isT(el.Args[0], "A0.idMap") && cs(status.Next[j]) == lenSt && is(size.Next[j], 4) && same(logs)
				k := el.Args[1]
				ok = ok && (k.Op == "bytesw" && chunk(k.Args[3]) || chunk(k))
				ok = ok && c17Known(F, el)
				c.Ob(ok, "reader-id", "Flusher.loadRedo", where, "after an id: state %s, size %s", status.Next[j], size.Next[j])
			} else {
				nk["flag"]++
				okF := false
				for _, f := range F {
					if f.Mask == EQ && (isT(f.B, "A0.startCommitFlag") || isT(f.A, "A0.startCommitFlag")) {
						okF = true
					}
				}
				set := false
				for i := range L.Phis {
					if isTrueT(L.Phis[i].Next[j]) {
						set = true
					}
				}
				c.Ob(okF && set && keep && same(logs) && same(stores) && (same(status) || cs(status.Next[j]) == itoa(int(s0))), "reader-flag", "Flusher.loadRedo", where, "an id that is not the start-commit flag is taken for it, or the flag is not recorded")
			}
		case in(lenSt):
			nk["length"]++
			s := stripConv(size.Next[j])
			c.Ob(s.Op == "rdbe32" && chunk(s.Args[0]) && cs(status.Next[j]) == dataSt && same(stores) && same(logs), "reader-length", "Flusher.loadRedo", where, "after a length: size %s, state %s", size.Next[j], status.Next[j])
		case in(dataSt):
			nk["data"]++
			a := logs.Next[j]
			c.Ob(a.Op == "append" && len(a.Args) == 2 && a.Args[0] == logs.Iter && chunk(a.Args[1]) && same(stores) && cs(status.Next[j]) == itoa(int(s0)) && is(size.Next[j], 32), "reader-data", "Flusher.loadRedo", where, "after the data: size %s, state %s", size.Next[j], status.Next[j])
		}
	}
}

// c17Known: the looked-up id is in the map on this path.
func c17Known(F Facts, get *Term) bool {
	for _, f := range F {
		if f.A.Op == "mapok" && f.A.Args[0] == get.Args[0] && f.A.Args[1] == get.Args[1] && isTrueT(f.B) && f.Mask == EQ {
			return true
		}
	}
	return false
}

// ---- C18 -------------------------------------------------------------------

// streams renders what a path does to each batch, table, list and map, in
// order per object (the order across different objects is left open).
func c18Streams(p *Path, evs []*Event, ren [][2]string, out map[string][]string) (bad string) {
	str := func(t *Term) string { return c18Str(p, t, ren) }
	add := func(k, v string) { out[k] = append(out[k], v) }
	for _, ev := range evs {
		switch ev.Kind {
		case "call":
			n := baseName(ev.Name)
			switch {
			case strings.Contains(ev.Name, "leveldb.Batch."):
				switch n {
				case "Append":
					add("batch "+str(ev.Args[0]), str(ev.Args[1]))
				case "Replay":
					add("table "+str(ev.Args[1]), str(ev.Args[0]))
				case "Reset":
					if str(ev.Args[0]) != "NEW" {
						return "resets " + str(ev.Args[0])
					}
					add("reset", "NEW")
				case "Dump", "Len", "Size":
				default:
					return n + " on a batch"
				}
			case strings.HasPrefix(ev.Name, "list.List."):
				switch n {
				case "Front", "Len", "Back":
				case "PushBack", "Remove":
					add("list "+str(ev.Args[0]), n+" "+str(ev.Args[1]))
				default:
					return n + " on the list of unconfirmed batches"
				}
			case strings.Contains(ev.Name, "MemDB.") && (n == "Put" || n == "Delete"):
				return n + " on the table"
			}
		case "mapset":
			add("map "+str(ev.Args[0]), "set "+str(ev.Args[1])+" = "+str(ev.Args[2]))
		case "mapdel":
			add("map "+str(ev.Args[0]), "delete "+str(ev.Args[1]))
		case "loop":
			sub := map[string][]string{}
			label := ""
			var lren [][2]string
			for _, l := range p.loopsOver("_") {
				if l.ev == ev && l.full && l.idx != nil {
					label = "each " + str(l.seq)
					lren = append(ren, [2]string{l.idx.String(), "I"})
				}
			}
			for _, ph := range ev.Loop.Phis {
				if ph.Init.Op == "call" && baseName(symName(ph.Init)) == "Front" && p.F.possible(ph.Iter, kNil()) == EQ {
					adv := true
					for _, n := range ph.Next {
						adv = adv && n.Op == "call" && baseName(symName(n)) == "Next" && n.Args[0] == ph.Iter
					}
					if adv {
						label = "list " + str(ph.Init.Args[0])
						lren = append(ren, [2]string{ph.Iter.String(), "EL"})
					}
				}
			}
			for k, it := range ev.Loop.Iters {
				one := map[string][]string{}
				if b := c18Streams(p, iterEvents(ev, it), lren, one); b != "" {
					return b
				}
				if len(one) == 0 {
					miss := false
					for _, f := range it.facts {
						miss = miss || f.A.Op == "mapok" && isTrueT(f.B) && f.Mask == NE
					}
					if miss {
						continue
					}
				}
				if len(sub) > 0 && c18Flat(sub) != c18Flat(one) {
					return "iterations differ: " + c18Flat(sub) + " / " + c18Flat(one)
				}
				if k > 0 && len(sub) == 0 && len(one) > 0 {
					sub = one
				} else if len(one) > 0 {
					sub = one
				}
			}
			if len(sub) > 0 && label == "" {
				return "a loop that may stop early"
			}
			for k, v := range sub {
				add(k, label+" {"+strings.Join(v, "; ")+"}")
			}
		}
	}
	return ""
}

func c18Flat(m map[string][]string) string {
	var out []string
	for _, k := range sortedKeys(m) {
		out = append(out, k+": "+strings.Join(m[k], ", "))
	}
	return strings.Join(out, " | ")
}

func c18Str(p *Path, t *Term, ren [][2]string) string {
	for strings.HasPrefix(t.Op, "assert") || t.Op == "conv" || t.Op == "iface" {
		t = t.Args[0]
	}
	switch {
	case t.Op == "call" && strings.HasSuffix(symName(t), "Pool.Get"):
		return "NEW"
	case t.Op == "alloc" && strings.Contains(t.Typ.String(), "Batch"):
		return "NEW"
	case t.Op == "call" && baseName(symName(t)) == "NewMemDB":
		return "TABLE"
	case t.Op == "mkmap", t.Op == "call" && symName(t) == "list.New":
		return "EMPTY"
	case t.Op == "call" && baseName(symName(t)) == "PushBack":
		return "PUSHED"
	}
	s := t.String()
	for _, r := range ren {
		s = strings.ReplaceAll(s, r[0], r[1])
	}
	return strings.ReplaceAll(s, "A0.unconfirmedBatchs.", "U.")
}

func c18Seq(c *Ctx, e *Engine, fn string, want map[string][]string, final map[string]string, when ...string) {
	f := c.Func(cdbPkg, fn)
	if f == nil {
		return
	}
	n := 0
	for _, p := range c.all(c.Paths(e, f)) {
		if p.o.panic {
			continue
		}
		skip := false
		for _, w := range when {
			skip = skip || !p.Holds(w)
		}
		if skip {
			continue
		}
		n++
		got := map[string][]string{}
		if bad := c18Streams(p, p.Evs, nil, got); bad != "" {
			c.Ob(false, "ordered-effects", fn, p.where(), "%s", bad)
			continue
		}
		delete(got, "reset")
		c.Ob(c18Flat(got) == c18Flat(want), "ordered-effects", fn, p.where(), "does %s (wanted %s)", c18Flat(got), c18Flat(want))
		for _, k := range sortedKeys(final) {
			a := param(0, nil)
			for _, x := range strings.Split(k, ".") {
				if a.Op == "param" {
					a = mkFA(a, x, nil2)
				} else {
					a = mkFA(p.o.st.load(a), x, nil2)
				}
			}
			v := c18Str(p, p.o.st.load(a), nil)
			c.Ob(v == final[k], "final-state", fn, p.where(), "leaves %s = %s (wanted %s)", k, v, final[k])
			if v == "NEW" && p.o.st.load(a).Op != "alloc" {
				c.Ob(len(calls(p.Evs, "Reset")) > 0, "fresh-batch-empty", fn, p.where(), "a recycled batch is used without being emptied")
			}
		}
	}
	c.Ob(n > 0, "has-paths", fn, c.where(f), "no completing path")
}

func runC18(c *Ctx) {
	e := c.Opts([]string{cdbPkg, "common/db"}, "NewMemDB", "log15")
	type S = map[string][]string
	type M = map[string]string
	const mem, snap, ul, um = "table A0.memDb", "batch A0.snapshotBatch", "list U.batchList", "map U.batchMap"
	got := func(k string) string { return "mapget(U.batchMap, " + k + ").Value" }
	keep := M{"flushingBatch": "A0.flushingBatch", "snapshotBatch": "A0.snapshotBatch", "memDb": "A0.memDb"}
	c18Seq(c, e, "Store.Prepare", S{}, M{"flushingBatch": "A0.snapshotBatch", "snapshotBatch": "NEW", "memDb": "A0.memDb"}, "A0.flushingBatch == nil")
	if f := c.Func(cdbPkg, "Store.Prepare"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			if !p.Holds("A0.flushingBatch == nil") {
				c.Ob(p.o.panic, "no-double-prepare", "Store.Prepare", p.where(), "a flush in progress is overwritten")
			}
		}
	}
	c18Seq(c, e, "Store.CancelPrepare", S{"batch NEW": {"A0.flushingBatch", "A0.snapshotBatch"}}, M{"flushingBatch": "nil", "snapshotBatch": "NEW", "memDb": "A0.memDb"})
	c18Seq(c, e, "Store.AfterCommit", S{"table TABLE": {"A0.snapshotBatch", "list U.batchList {EL.Value}"}}, M{"flushingBatch": "nil", "snapshotBatch": "A0.snapshotBatch", "memDb": "TABLE"})
	c18Seq(c, e, "Store.WriteAccountBlockByHash", S{mem: {"A1"}, ul: {"PushBack A1"}, um: {"set A2 = PUSHED"}}, keep)
	c18Seq(c, e, "Store.WriteAccountBlock", S{mem: {"A1"}, ul: {"PushBack A1"}, um: {"set A2.Hash = PUSHED"}}, keep)
	c18Seq(c, e, "Store.WriteDirectly", S{mem: {"A1"}, snap: {"A1"}}, keep)
	c18Seq(c, e, "Store.WriteSnapshotByHash", S{mem: {"A1"}, snap: {"each A2 {" + got("A2[I]") + "}", "A1"}, ul: {"each A2 {Remove mapget(U.batchMap, A2[I])}"}, um: {"each A2 {delete A2[I]}"}}, keep)
	c18Seq(c, e, "Store.RollbackAccountBlocks", S{mem: {"A1"}, ul: {"each A2 {Remove mapget(U.batchMap, A2[I].Hash)}"}, um: {"each A2 {delete A2[I].Hash}"}}, keep)
	c18Seq(c, e, "Store.RollbackAccountBlockByHash", S{mem: {"A1"}, ul: {"each A2 {Remove mapget(U.batchMap, A2[I])}"}, um: {"each A2 {delete A2[I]}"}}, keep)
	c18Seq(c, e, "Store.RollbackSnapshot", S{mem: {"A1"}, snap: {"list U.batchList {EL.Value}", "A1"}}, M{"flushingBatch": "A0.flushingBatch", "snapshotBatch": "A0.snapshotBatch", "memDb": "A0.memDb", "unconfirmedBatchs.batchMap": "EMPTY", "unconfirmedBatchs.batchList": "EMPTY"})
	c18Rest(c, e)
}

func c18Rest(c *Ctx, e *Engine) {
	// a missing batch at a snapshot stops the node
	if f := c.Func(cdbPkg, "Store.WriteSnapshotByHash"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			for _, ev := range p.Evs {
				if ev.Kind != "loop" {
					continue
				}
				for _, it := range ev.Loop.Iters {
					ok := false
					for _, x := range it.facts {
						ok = ok || x.A.Op == "mapok" && isT(x.A.Args[0], "A0.unconfirmedBatchs.batchMap") && isTrueT(x.B) && x.Mask == EQ
					}
					c.Ob(ok, "snapshot-needs-its-blocks", "Store.WriteSnapshotByHash", p.where(), "a snapshot of a block without pending writes is accepted")
				}
			}
		}
	}
	if f := c.Func(cdbPkg, "Store.WriteSnapshot"); f != nil {
		e2 := c.Opts([]string{cdbPkg}, "WriteSnapshotByHash")
		for _, p := range c.all(c.Paths(e2, f)) {
			ev := lastEv(p.Evs, "WriteSnapshotByHash")
			ok := ev != nil && isT(ev.Args[0], "A0") && isT(ev.Args[1], "A1")
			if ok {
				ok = matchSegs(p.segs(ev.Args[2]), []sp{spEach("A2", spB("A2[I].Hash"))}, Bind{})
			}
			c.Ob(ok, "ordered-effects", "Store.WriteSnapshot", p.where(), "does not pass the hash of every block of the snapshot in order")
		}
	}
	// AfterCommit swaps and fills the table under the lock readers take
	if f := c.Func(cdbPkg, "Store.AfterCommit"); f != nil {
		for _, p := range c.all(c.Paths(e, f)) {
			held, ok, n := false, true, 0
			for _, ev := range p.Evs {
				if ev.Kind == "call" && len(ev.Args) > 0 && isT(stripDeref(ev.Args[0]), "A0.memDbMu") || ev.Kind == "call" && len(ev.Args) > 0 && strings.HasSuffix(ev.Args[0].String(), "A0.memDbMu") {
					switch baseName(ev.Name) {
					case "Lock":
						held = true
					case "Unlock":
						held = false
					}
				}
				rep := ev.Kind == "store" && ev.Name == "memDb"
				walkEvents([]*Event{ev}, func(x *Event) { rep = rep || x.Kind == "call" && baseName(x.Name) == "Replay" })
				if rep {
					n++
					ok = ok && held
				}
			}
			// the table may also be filled before it is published
			pub := -1
			late := false
			for i, ev := range p.Evs {
				if ev.Kind == "store" && ev.Name == "memDb" {
					pub = i
				}
				rep := false
				walkEvents([]*Event{ev}, func(x *Event) { rep = rep || x.Kind == "call" && baseName(x.Name) == "Replay" })
				late = late || rep && pub >= 0
			}
			c.Ob(n >= 3 && (ok || !late), "readers-see-a-full-table", "Store.AfterCommit", p.where(), "the new table is visible to readers before it holds the pending writes")
		}
	}
	for _, g := range []string{"Get", "Has", "GetOriginal", "NewIterator"} {
		f := c.Func(cdbPkg, "Store."+g)
		if f == nil {
			continue
		}
		eg := c.Opts([]string{cdbPkg}, "Get2", "NewIterator2", "GetDb", "GetSeq")
		const call = "Get2(A0.db, A1, nil, GetDb(A0.memDb), GetSeq(A0.memDb))"
		for _, p := range c.all(c.Paths(eg, f)) {
			ok := false
			switch g {
			case "NewIterator":
				ok = isT(p.o.res[0], "NewIterator2(A0.db, A1, nil, GetDb(A0.memDb), GetSeq(A0.memDb))")
			case "GetOriginal":
				ok = isT(p.o.res[0], call+".R0") && isT(p.o.res[1], call+".R1")
			default:
				er := p.o.res[1]
				switch {
				case p.Holds(call + ".R1 == nil"):
					ok = isNilT(er) && (g == "Get" && isT(p.o.res[0], call+".R0") || g == "Has" && isTrueT(p.o.res[0]))
				case p.Holds(call+".R1 == ErrNotFound") || p.Holds("Is("+call+".R1, ErrNotFound)"):
					ok = isNilT(er) && (g == "Get" && isNilT(p.o.res[0]) || g == "Has" && isFalseT(p.o.res[0]))
				default:
					ok = isT(er, call+".R1") && p.Holds(call+".R1 != nil")
				}
			}
			c.Ob(ok, "reads-see-pending-and-disk", "Store."+g, p.where(), "returns %s", joinT(p.o.res))
			// table and sequence number taken under one read lock
			held, under := false, 0
			for _, ev := range p.Evs {
				if ev.Kind == "call" && len(ev.Args) > 0 && strings.HasSuffix(ev.Args[0].String(), "A0.memDbMu") {
					held = strings.HasSuffix(ev.Name, "RLock") || strings.HasSuffix(ev.Name, ".Lock")
				}
				if ev.Kind == "call" && (baseName(ev.Name) == "GetDb" || baseName(ev.Name) == "GetSeq") && held {
					under++
				}
			}
			c.Ob(under == 2, "reads-one-table", "Store."+g, p.where(), "table and sequence number are not read under the lock that guards the swap")
		}
	}
	// flush callbacks
	ef := c.Opts([]string{cdbPkg}, "Write", "Load", "Dump")
	if f := c.Func(cdbPkg, "Store.RedoLog"); f != nil {
		for _, p := range c.all(c.Paths(ef, f)) {
			c.Ob(isT(p.o.res[0], "Dump(A0.flushingBatch)") && isNilT(p.o.res[1]), "redo-log-is-the-batch", "Store.RedoLog", p.where(), "returns %s", joinT(p.o.res))
		}
	}
	if f := c.Func(cdbPkg, "Store.Commit"); f != nil {
		const w = "Write(A0.db, A0.flushingBatch, nil)"
		for _, p := range c.all(c.Paths(ef, f)) {
			r := p.o.res[0]
			c.Ob(isT(r, w) || isNilT(r) && p.Holds(w+" == nil"), "commit-reports", "Store.Commit", p.where(), "returns %s", r)
		}
	}
	if f := c.Func(cdbPkg, "Store.PatchRedoLog"); f != nil {
		for _, p := range c.all(c.Paths(ef, f)) {
			r := p.o.res[0]
			ld, wr := lastEv(p.Evs, "Load"), lastEv(p.Evs, "Write")
			ok := ld != nil && isT(ld.Args[1], "A1")
			if ok && wr == nil {
				ok = r == ld.Res && p.F.possible(r, kNil())&EQ == 0
			} else if ok {
				ok = isT(wr.Args[0], "A0.db") && wr.Args[1] == ld.Args[0] && p.F.possible(ld.Res, kNil()) == EQ && (r == wr.Res || isNilT(r) && p.F.possible(wr.Res, kNil()) == EQ)
			}
			c.Ob(ok, "replay-reports", "Store.PatchRedoLog", p.where(), "returns %s", r)
		}
	}
	// the table: every write gets a new, larger sequence number
	em := c.Opts([]string{"common/db"}, "DB.Put", "MakeInternalKey", "memdb.New")
	for _, g := range []string{"Put", "Delete"} {
		f := c.Func("common/db", "MemDB."+g)
		if f == nil {
			continue
		}
		kt := "KeyTypeVal"
		if g == "Delete" {
			kt = "KeyTypeDel"
		}
		k := c.Const("common/db/xleveldb", kt)
		for _, p := range c.all(c.Paths(em, f)) {
			ev := lastEv(p.Evs, "Put")
			ok := ev != nil && k != nil && isT(ev.Args[0], "A0.storage")
			if ok {
				ik := ev.Args[1]
				_, ok = matchT(pat("MakeInternalKey(nil, A1, X, "+k.Sym+")"), ik, Bind{})
				add := lastEv(p.Evs, "AddUint64")
				ok = ok && add != nil && isOne(add.Args[1]) && strings.HasSuffix(add.Args[0].String(), "A0.seq")
				ok = ok && (g == "Put" && isT(ev.Args[2], "A2") || g == "Delete" && isNilT(ev.Args[2]))
			}
			c.Ob(ok, "table-writes-ordered", "MemDB."+g, p.where(), "does not write its key under a fresh sequence number with the right kind")
		}
	}
	if f := c.Func("common/db", "NewMemDB"); f != nil {
		for _, p := range c.all(c.Paths(em, f)) {
			seq := p.o.st.load(mkFA(p.o.res[0], "seq", nil2))
			mx := c.Const("common/db/xleveldb", "KeyMaxSeq")
			n, ok := i64(seq)
			var m int64
			if mx != nil {
				m, _ = i64(mx)
			}
			// above every sequence number on disk, with room for the writes of one flush
			c.Ob(ok && m > 0 && n >= m/2 && n < m, "table-above-disk", "NewMemDB", p.where(), "starts at sequence number %s", seq)
		}
	}
}

func isOne(t *Term) bool { n, ok := i64(t); return ok && n == 1 }

func joinT(ts []*Term) string {
	var out []string
	for _, t := range ts {
		out = append(out, t.String())
	}
	return strings.Join(out, ", ")
}

func lastEv(evs []*Event, name string) *Event {
	cs := calls(evs, name)
	if len(cs) == 0 {
		return nil
	}
	return cs[len(cs)-1]
}

// symName is the callee of a call term without its sequence number.
func symName(t *Term) string {
	if i := strings.IndexByte(t.Sym, '#'); i >= 0 {
		return t.Sym[:i]
	}
	return t.Sym
}
