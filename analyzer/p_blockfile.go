package main

import (
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	fmPkg = "ledger/chain/file_manager"
	bdPkg = "ledger/chain/block"
)

const fmSpec = `
fn NewLocation
 ret 0.FileId A0
 ret 0.Offset A1

fn Location.Compare
 case A0.FileId < A1.FileId
 ret 0 -1
 case A0.FileId > A1.FileId
 ret 0 1
 case A0.FileId == A1.FileId && A0.Offset < A1.Offset
 ret 0 -1
 case A0.FileId == A1.FileId && A0.Offset > A1.Offset
 ret 0 1
 case A0.FileId == A1.FileId && A0.Offset == A1.Offset
 ret 0 0

fn NewFdByBuffer
 ret 0.fdSet A0
 ret 0.cacheItem A1
 ret 0.fileId A1.FileId
 ret 0.writeMaxSize len(A1.Buffer)
 ret 0.fileReader ZERO

fn NewFdByFile
 ret 0.fileReader A0
 ret 0.cacheItem ZERO

fn fileDescription.Flush
 err 1
 def CI A0.cacheItem
 def N createNewFile(A0.fdSet, $CI.FileId)
 alt W $CI.FileWriter == nil ? $N.R0 : $CI.FileWriter
 ok $CI != nil
 ok A0.fileId == $CI.FileId
 ok $CI.FileWriter != nil || $N.R1 == nil
 ok $CI.FileWriter != nil || $N.R0 != nil
 ok Seek($W, A1, 0).R1 == nil
 ok Write($W, A2).R1 == nil
 ok Sync($W) == nil
 effects
 ordered
 watch Seek Write Sync Truncate WriteAt
 call Seek($W, A1, 0)
 call Write($W, A2)
 call Sync($W)
 ret 0 Write($W, A2).R0
 touch &A0.cacheItem.FileWriter
 post A0.cacheItem.FileWriter = $W

fn FileManager.write
 err 1
 def W Write(GetWriteFd(A0.fdSet), A1)
 ok $W.R1 == nil
 ok len(A1) <= $W.R0 || CreateNextFd(A0.fdSet) == nil
 effects
 ordered
 watch Write CreateNextFd
 call Write(GetWriteFd(A0.fdSet), A1)
 call if $W.R0 < len(A1) ? CreateNextFd(A0.fdSet)
 ret 0 $W.R0

fn FileManager.GetNextLocation
 err 1
 def R ReadRaw(A0, A1, _)
 def N (A1.Offset + rdbe32(out($R, _)) + 4)
 ok $R.R2 == nil
 ret 0.FileId A1.FileId + $N / A0.fileSize
 ret 0.Offset $N % A0.fileSize

fn FileManager.NextFlushStartLocation
 case A0.nextFlushStartLocation == nil
 ret 0 nil
 case A0.nextFlushStartLocation != nil
 ret 0.FileId A0.nextFlushStartLocation.FileId
 ret 0.Offset A0.nextFlushStartLocation.Offset

fn FileManager.LatestLocation
 ret 0 LatestLocation(A0.fdSet)

fn FileManager.DeleteTo
 err 0
 def C Compare(A1, LatestLocation(_))
 ok $C >= 0 || DeleteTo(A0.fdSet, A1) == nil
 effects
 watch DeleteTo
 call if $C < 0 ? DeleteTo(A0.fdSet, A1)
 touch &A0.nextFlushStartLocation
 alt D Compare(A1, A0.nextFlushStartLocation) < 0 ? A1 : A0.nextFlushStartLocation
 alt E $C < 0 ? $D : A0.nextFlushStartLocation
 post A0.nextFlushStartLocation = $E

fn fdManager.LatestLocation
 ret 0.FileId GetWriteFd(A0).cacheItem.FileId
 ret 0.Offset GetWriteFd(A0).cacheItem.BufferLen

fn fdManager.GetWriteFd
 ret 0 A0.writeFd

fn fdManager.GetFd
 err 1
 def F getFileFd(A0, A1)
 def L latestFileId(A0)
 def M mapok(A0.fileFdCache, A1)
 def C getCacheItem(A0, A1)
 skip mapget(A0.fileFdCache, A1) == nil
 skip NewFdByBuffer(_, _) == nil
 ok A1 > $L || $M || $C != nil || $F.R1 == nil
 case A1 > $L
 ret 0 nil
 case A1 <= $L && $M
 ret 0 mapget(A0.fileFdCache, A1)
 case A1 <= $L && !$M && $C != nil
 ret 0 NewFdByBuffer(A0, $C)
 case A1 <= $L && !$M && $C == nil && $F.R0 == nil
 ret 0 nil
 case A1 <= $L && !$M && $C == nil && $F.R0 != nil
 ret 0 NewFdByFile($F.R0)

fn fdManager.GetTmpFlushFd
 err 1
 def F getFileFd(A0, A1)
 def N createNewFile(A0, A1)
 ok $F.R1 == nil
 ok $F.R0 != nil || $N.R1 == nil
 case $F.R0 != nil
 ret 0 NewFdByBuffer(A0, X) where X obj FileId = A1; FileWriter = $F.R0; Buffer = ZERO
 case $F.R0 == nil && $N.R0 != nil
 ret 0 NewFdByBuffer(A0, X) where X obj FileId = A1; FileWriter = $N.R0; Buffer = ZERO
 case $F.R0 == nil && $N.R0 == nil
 ret 0 nil

fn fdManager.latestFileId
 ret 0 A0.writeFd.cacheItem.FileId

fn fdManager.getFileFd
 err 1
 def O OpenFile(fileIdToAbsoluteFilename(A0, A1), 2, _)
 ok $O.R1 == nil || IsNotExist($O.R1) == true
 case $O.R1 == nil
 ret 0 $O.R0
 case $O.R1 != nil
 ret 0 nil

fn fdManager.createNewFile
 err 1
 def O Create(fileIdToAbsoluteFilename(A0, A1))
 ok $O.R1 == nil
 ret 0 $O.R0

fn fdManager.isCorrectFile
 ret 0 HasPrefix(A1, A0.filenamePrefix)

fn fdManager.fileIdToAbsoluteFilename
 ret 0 Join(list(A0.dirName, A0.filenamePrefix + FormatUint(A1, 10)))

fn fdManager.filenameToFileId
 err 1
 def P ParseUint(A1[A0.filenamePrefixSize:], 10, 64)
 ok $P.R1 == nil
 ret 0 $P.R0

fn fdManager.CreateNextFd
 err 0
 def R resetWriteFd(A0, X)
 ok $R == nil
 effects
 ordered
 watch resetWriteFd Lock Unlock
 call Lock(&A0.changeFdMu)
 call resetWriteFd(A0, X) where X obj FileId = latestFileId(A0) + 1; Offset = 0
 call Unlock(&A0.changeFdMu)
 touch &A0.writeFd
`

const bdSpec = `
fn BlockDB.Read
 err 1
 def R Read(A0.fm, A1)
 def D Decode(nil, $R.R0[1:])
 ok $R.R2 == nil
 ok len($R.R0) <= 0 || $D.R1 == nil
 case len($R.R0) <= 0
 ret 0 nil
 case len($R.R0) > 0
 ret 0 $D.R0

fn BlockDB.ReadRaw
 ret 0 ReadRaw(A0.fm, A1, A2).R0
 ret 1 ReadRaw(A0.fm, A1, A2).R1
 ret 2 ReadRaw(A0.fm, A1, A2).R2

fn BlockDB.ReadUnitBytes
 err 2
 def R Read(A0.fm, A1)
 def D Decode(nil, $R.R0[1:])
 ok $R.R2 == nil
 ok len($R.R0) <= 0 || $D.R1 == nil
 ret 1 $R.R1
 case len($R.R0) <= 0
 ret 0 nil
 ret 1 $R.R1
 case len($R.R0) > 0
 ret 0 $D.R0
 ret 1 $R.R1

fn BlockDB.GetNextLocation
 err 1
 def N GetNextLocation(A0.fm, A1)
 ok $N.R1 == nil || $N.R1 == EOF
 case $N.R1 == nil
 ret 0 $N.R0
 case $N.R1 == EOF
 ret 0 nil

fn BlockDB.Rollback
 err 0
 ok DeleteTo(A0.fm, A1) == nil
 effects
 watch DeleteTo
 call DeleteTo(A0.fm, A1)

fn BlockDB.maxLocation
 def L LatestLocation(A0.fm)
 case A1 == nil
 ret 0 $L
 case A1 != nil && $L == nil
 ret 0 A1
 case A1 != nil && $L != nil && Compare(A1, $L) > 0
 ret 0 $L
 case A1 != nil && $L != nil && Compare(A1, $L) <= 0
 ret 0 A1

fn BlockDB.Write
 err 2
 def SS Serialize(A1.SnapshotBlock)
 def SW Write(A0.fm, makeWriteBytes(A0.snappyWriteBuffer, 2, $SS.R0))
 def AS Serialize(A1.AccountBlocks[I])
 def AW Write(A0.fm, makeWriteBytes(A0.snappyWriteBuffer, 1, $AS.R0))
 ok $SS.R1 == nil
 ok $SW.R1 == nil
 mayfail Serialize(_).R1 != nil
 mayfail Write(_, _).R1 != nil
 effects
 ordered
 watch Write
 call each A1.AccountBlocks : $AW
 call $SW
 ret 1 $SW.R0

fn BlockDB.Prepare
 skip panic
 effects
 ordered
 watch ReadRange SetNextFlushStartLocation
 call Reset(Get(_))
 call ReadRange(A0.fm, NextFlushStartLocation(A0.fm), LatestLocation(A0.fm), _)
 call SetNextFlushStartLocation(A0.fm, LatestLocation(A0.fm))
 post A0.flushStartLocation = NextFlushStartLocation(A0.fm)
 post A0.flushTargetLocation = LatestLocation(A0.fm)
 touch &A0.flushBuf

fn BlockDB.CancelPrepare
 def N NextFlushStartLocation(A0.fm)
 def C Compare($N, A0.flushStartLocation)
 effects
 watch SetNextFlushStartLocation Put
 call if $C > 0 ? SetNextFlushStartLocation(A0.fm, A0.flushStartLocation)
 call Put(_, A0.flushBuf.Buffer)
 post A0.flushStartLocation = nil
 post A0.flushTargetLocation = nil
 post A0.flushBuf = nil

fn BlockDB.RedoLog
 ret 0 bytes be64(A0.flushStartLocation.FileId); be32(A0.flushStartLocation.Offset); be64(A0.flushTargetLocation.FileId); be32(A0.flushTargetLocation.Offset); Bytes(A0.flushBuf.Buffer)
 ret 1 nil

fn BlockDB.Commit
 err 0
 ok Flush(A0.fm, A0.flushStartLocation, A0.flushTargetLocation, Bytes(A0.flushBuf.Buffer)) == nil
 effects
 watch Flush
 call Flush(A0.fm, A0.flushStartLocation, A0.flushTargetLocation, Bytes(A0.flushBuf.Buffer))

fn BlockDB.AfterCommit
 effects
 watch Put
 call Put(_, A0.flushBuf.Buffer)
 post A0.flushStartLocation = nil
 post A0.flushTargetLocation = nil
 post A0.flushBuf = nil

fn BlockDB.BeforeRecover
 skip panic
 def D DeleteTo(A0.fm, DeserializeLocation(A1[:12]))
 def W Write(A0.fm, A1[24:])
 effects
 ordered
 watch DeleteTo Write
 call $D
 call $W

fn BlockDB.PatchRedoLog
 err 0
 def F Flush(A0.fm, DeserializeLocation(A1[:12]), DeserializeLocation(A1[12:24]), A1[24:])
 ok $F == nil
 effects
 watch Flush
 call $F

fn BlockDB.GetAccountBlock
 err 1
 def R Read(A0, A1)
 ok $R.R1 == nil
 ok Deserialize(_, $R.R0) == nil
 only Deserialize(_, $R.R0)

fn BlockDB.GetSnapshotBlock
 err 1
 def R Read(A0, A1)
 ok $R.R1 == nil
 ok len($R.R0) <= 0 || Deserialize(_, $R.R0) == nil
 only Deserialize(_, $R.R0)
 case len($R.R0) <= 0
 ret 0 nil
 case len($R.R0) > 0
 ret 0 NEW

fn BlockDB.GetSnapshotHeader
 err 1
 def G GetSnapshotBlock(A0, A1)
 ok $G.R1 == nil
 case $G.R0 != nil
 ret 0 $G.R0
 case $G.R0 == nil
 ret 0 nil

fn blockFileParser.Close
 err 0
 ok !A0.closed
 post A0.closed = true

fn blockFileParser.Error
 ret 0 A0.err

fn blockFileParser.Iterator
 ret 0 A0.bytesBuffer

fn blockFileParser.WriteError
 effects
 watch close
 post A0.err = A1
 post A0.closed = true
 call if !A0.closed ? close(A0.bytesBuffer)

fn BufWriter.Write
 effects
 watch Write
 call Write(A0.Buffer, A1)
 ret 0 nil

fn BufWriter.WriteError
 post A0.Err = A1

fn NewBufWriter
 effects
 watch Reset
 call Reset(Get(_))
 ret 0.Buffer Get(_)
 ret 0.Err ZERO
`

func init() {
	register(&Prop{
		ID:    "C29",
		Title: "Block files: a block is read back from where it was written",
		Statement: "Blocks are appended to the block files as records of length, type and compressed bytes that may cross file boundaries; the location returned for a block is where its record starts, and reading at that location gives back that block and the location of the next record. " +
			"A flush writes exactly the bytes between its start and target location at those places and syncs them, and removes what lies behind a target that is lower than the last one; a redo log holds start, target and these bytes and restores them. " +
			"A rollback leaves exactly the records before the given location, and reading a range returns exactly the blocks of the range in order, grouped by snapshot block; missing or unreadable data is an error or end of file, never other data or a crash.",
		Over:      []string{"inputs", "histories", "crash points"},
		Quant:     "all block sizes, file sizes, locations, histories of writes, flushes and rollbacks",
		Why:       "Records that cross a file boundary, flushes over several files and rollbacks behind the cached files need particular sizes and histories that the tests do not produce.",
		Files:     []string{"ledger/chain/block/block_db.go", "ledger/chain/block/block_parser.go", "ledger/chain/block/buffer.go", "ledger/chain/block/flush.go", "ledger/chain/file_manager/file_manager.go", "ledger/chain/file_manager/fd_manager.go", "ledger/chain/file_manager/fd.go", "ledger/chain/file_manager/location.go"},
		Mech:      [][2]string{{"records", "ledger/chain/block/buffer.go makeWriteBytes"}, {"append", "ledger/chain/file_manager/file_manager.go Write"}, {"read", "ledger/chain/file_manager/file_manager.go ReadRaw"}, {"flush", "ledger/chain/file_manager/file_manager.go Flush"}, {"rollback", "ledger/chain/file_manager/fd_manager.go DeleteTo"}, {"range", "ledger/chain/block/block_parser.go Write"}},
		Technique: "path enumeration with loop recurrences: for every loop the values carried from one file or record to the next are compared with the specified recurrence (start value, step on every path, exit condition); other functions against acceptance conditions, ordered effects and results",
		Note:      "The operating system's files and snappy are trusted; concurrent readers of a cache item being recycled are not covered.",
		Run:       runC29,
	})
}

var fmOpaque = []string{"createNewFile", "readAt", "getFileFd", "Write", "GetWriteFd", "CreateNextFd", "ReadRaw", "Compare", "LatestLocation", "DeleteTo",
	"latestFileId", "getCacheItem", "NewFdByBuffer", "NewFdByFile", "fileIdToAbsoluteFilename", "resetWriteFd"}

var bdOpaque = []string{"Read", "Write", "ReadRaw", "DeleteTo", "Flush", "ReadRange", "Compare", "LatestLocation", "NextFlushStartLocation", "SetNextFlushStartLocation", "makeWriteBytes", "Serialize", "Deserialize", "GetNextLocation", "GetSnapshotBlock", "DeserializeLocation"}

func runC29(c *Ctx) {
	for _, s := range parseSpecs(fmSpec) {
		var opaque []string
		for _, n := range fmOpaque {
			if !strings.HasSuffix("."+s.fn, "."+n) || n == "LatestLocation" || n == "Write" || n == "DeleteTo" {
				opaque = append(opaque, n)
			}
		}
		c.specFn(c.Opts([]string{fmPkg}, opaque...), fmPkg, s, "file")
	}
	for _, s := range parseSpecs(bdSpec) {
		var opaque []string
		for _, n := range bdOpaque {
			if !strings.HasSuffix("."+s.fn, "."+n) || s.fn == "BlockDB.Read" || s.fn == "BlockDB.Write" || s.fn == "BufWriter.Write" || s.fn == "BlockDB.GetNextLocation" || s.fn == "BlockDB.ReadRaw" {
				opaque = append(opaque, n)
			}
		}
		c.specFn(c.Opts([]string{bdPkg}, opaque...), bdPkg, s, "block-file")
	}
	c.bdFlush()
	c.bdParse()
	c.bdGroup("BlockDB.ReadRange", "maxLocation(A0, A2)", true)
	c.bdGroup("BlockDB.PrepareRollback", "LatestLocation(A0.fm)", false)
	c.bdUnits()
	c.fmFd()
	c.fmRead()
	c.fmWrite()
	c.fmRange()
	c.fmFlush()
	c.fmDelete()
	c.fmReset()
	c.fmOpen()
}

// carried: a value of a loop, before the first and after the k-th kind of iteration.
func (p *Path) carried(ev *Event, k int, t *Term) *Term {
	m := map[*Term]*Term{}
	st := p.o.st
	at := func(ph PhiInfo) *Term {
		if k < 0 {
			if n, ok := i64(ph.Init); ok && n == -1 && stepOne(ph) {
				return kInt(0)
			}
			return ph.Init
		}
		return ph.Next[k]
	}
	for _, ph := range ev.Loop.Phis {
		m[ph.Iter] = at(ph)
	}
	for _, ph := range ev.Loop.Cells {
		m[ph.Iter] = at(ph)
	}
	if k >= 0 {
		st = ev.Loop.Iters[k]
	}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if t.Op == "field" && len(t.Args) == 1 {
			b := walk(t.Args[0])
			if b != t.Args[0] {
				if x := stripConv(b); localObj(x) {
					return st.load(mkFA(x, t.Sym, t.Typ))
				}
				return fieldOf(b, t.Sym, t.Typ)
			}
			return t
		}
		if len(t.Args) == 0 {
			return t
		}
		mm := map[*Term]*Term{}
		for _, a := range t.Args {
			if b := walk(a); b != a {
				mm[a] = b
			}
		}
		if len(mm) == 0 {
			return t
		}
		return subst(t, mm, map[*Term]*Term{})
	}
	return walk(stripConv(t))
}

// theLoop: the only loop of a path.
func (p *Path) theLoop() *Event {
	var out *Event
	for _, ev := range p.Evs {
		if ev.Kind == "loop" {
			if out != nil {
				return nil
			}
			out = ev
		}
	}
	return out
}

// anchored binds the metavariables of form to the arguments of a call.
func (p *Path) anchored(name, form string) (Bind, *Event) {
	for _, ev := range p.Evs {
		if ev.Kind == "call" && baseName(ev.Name) == name && ev.Res != nil {
			if b, ok := matchT(pat(form), ev.Res, Bind{}); ok {
				return b, ev
			}
		}
	}
	return nil, nil
}

// roles: the loop values named by the call in every iteration, the same in all.
func (p *Path) roles(ev *Event, vars, name, form string) Bind {
	var out Bind
	for _, st := range ev.Loop.Iters {
		q := p.iterPath(ev, st, nil)
		b, _ := q.anchored(name, form)
		if b == nil {
			return nil
		}
		if out == nil {
			out = b
		}
		for _, v := range strings.Fields(vars) {
			if stripConv(out[v]) != stripConv(b[v]) {
				return nil
			}
		}
	}
	r := Bind{}
	for _, v := range strings.Fields(vars) {
		r[v] = stripConv(out[v])
	}
	return r
}

type fnPaths struct {
	c    *Ctx
	f    *ssa.Function
	outs []Outcome
	w    string
}

func (c *Ctx) pathsOf(pkg, fn, opaque string) *fnPaths {
	f := c.Func(pkg, fn)
	if f == nil {
		return &fnPaths{c: c}
	}
	return &fnPaths{c, f, c.Paths(c.Opts([]string{pkg}, strings.Fields(opaque)...), f), c.where(f)}
}

func (x *fnPaths) tag(ps []*Path) []*Path {
	for _, p := range ps {
		p.fn = x.f
	}
	return ps
}

func (x *fnPaths) all() []*Path          { return x.tag(x.c.all(x.outs)) }
func (x *fnPaths) success(i int) []*Path { return x.tag(x.c.success(x.outs, i)) }
func (x *fnPaths) failure(i int) []*Path { return x.tag(x.c.failure(x.outs, i)) }

// underLock: every write of memory and every copy happens between mu's Lock
// and Unlock.
func (p *Path) underLock(mu string) bool {
	held := false
	for _, ev := range p.Evs {
		switch ev.Kind {
		case "call":
			if len(ev.Args) > 0 && isT(ev.Args[0], mu) {
				switch baseName(ev.Name) {
				case "Lock":
					held = true
				case "Unlock":
					held = false
				}
			}
		case "copy", "store":
			if !held {
				return false
			}
		}
	}
	return !held
}

func (c *Ctx) fmFd() {
	fn := "fileDescription.Write"
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "append", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	x := c.pathsOf(fmPkg, fn, "")
	n := 0
	for _, p := range x.success(1) {
		got := p.o.res[0]
		ob(p, p.rel("A0.fileId == A0.cacheItem.FileId"), "writes into the cache of another file")
		var cps, sts []*Event
		for _, ev := range p.Evs {
			switch ev.Kind {
			case "copy":
				cps = append(cps, ev)
			case "store":
				sts = append(sts, ev)
			}
		}
		if len(cps)+len(sts) == 0 {
			ob(p, p.eq(got, "0") && (p.rel("A0.cacheItem.BufferLen >= A0.writeMaxSize") || p.rel("len(A1) <= 0")), "does not append")
			continue
		}
		n++
		all := p.eq(got, "len(A1)") && p.rel("A0.writeMaxSize >= A0.cacheItem.BufferLen + len(A1)")
		part := p.eq(got, "A0.writeMaxSize - A0.cacheItem.BufferLen") && p.rel("A0.writeMaxSize <= A0.cacheItem.BufferLen + len(A1)") && p.rel("A0.cacheItem.BufferLen <= A0.writeMaxSize")
		ob(p, all || part, "the count %s is not what fits", got)
		ob(p, p.underLock("&A0.cacheItem.Mu"), "writes without the lock")
		if len(cps) != 1 || len(sts) != 1 {
			ob(p, false, "does not append the bytes once")
			continue
		}
		lo, ln := p.span(cps[0].Args[0], "A0.cacheItem.Buffer")
		slo, sln := p.span(cps[0].Args[1], "A1")
		ok := lo != nil && slo != nil && p.eq(lo, "A0.cacheItem.BufferLen") && p.eq(slo, "0")
		ok = ok && (ln == nil || p.order(ln, got)&LT == 0) && (sln == nil && all || sln != nil && p.order(sln, got)&LT == 0) &&
			(ln != nil && p.same(ln, got) || sln != nil && p.same(sln, got) || sln == nil && all)
		ob(p, ok, "copies %s from %s", cps[0].Args[0], cps[0].Args[1])
		ob(p, isT(sts[0].Args[0], "&A0.cacheItem.BufferLen") && p.eq(mkBinSub(sts[0].Args[1], got), "A0.cacheItem.BufferLen"), "the length becomes %s", sts[0].Args[1])
	}
	c.Ob(n > 0, "append", fn, x.w, "never writes")
	for _, p := range x.failure(1) {
		ob(p, p.Holds("A0.fileId != A0.cacheItem.FileId") && isZero(p.o.res[0]), "refuses to write")
	}

	fn = "fileDescription.readAt"
	x = c.pathsOf(fmPkg, fn, "getFileFd")
	n = 0
	for _, p := range x.all() {
		rn, re := stripConv(p.o.res[0]), stripConv(p.o.res[1])
		mine := p.rel("A0.fileId == A0.cacheItem.FileId")
		var cp *Event
		for _, ev := range p.Evs {
			if ev.Kind == "copy" {
				cp = ev
			}
		}
		const R = "ReadAt(getFileFd(A0.fdSet, A0.fileId).R0, A1, A2)"
		switch {
		case cp != nil:
			n++
			slo, sln := p.span(cp.Args[1], "A0.cacheItem.Buffer")
			dlo, dln := p.span(cp.Args[0], "A1")
			full := p.eq(rn, "len(A1)") && p.rel("A0.cacheItem.BufferLen >= A2 + len(A1)")
			rest := p.eq(rn, "A0.cacheItem.BufferLen - A2") && p.rel("A0.cacheItem.BufferLen <= A2 + len(A1)")
			ok := mine && p.rel("A2 <= A0.cacheItem.BufferLen") && slo != nil && dlo != nil && p.eq(slo, "A2") && p.eq(dlo, "0")
			ok = ok && (sln != nil && p.same(sln, rn) && (dln == nil || p.same(dln, rn)) || sln == nil && dln != nil && p.same(dln, rn))
			c.Ob(ok && (full || rest), "read", fn, p.where(), "does not copy the bytes at the offset: %s", p.Describe())
			c.Ob(isNilT(re) && full || isT(re, "EOF") && rest && p.rel("A0.cacheItem.BufferLen < A2 + len(A1)"), "read", fn, p.where(), "returns %s, %s: %s", rn, re, p.Describe())
		case isNilT(re) || isT(re, R+".R1"):
			n++
			ok := !mine && p.Holds("A0.fileId != A0.cacheItem.FileId") && isT(rn, R+".R0") && p.Holds("getFileFd(A0.fdSet, A0.fileId).R0 != nil") && (!isNilT(re) || p.Holds(R+".R1 == nil"))
			c.Ob(ok, "read", fn, p.where(), "reads another file: %s", p.Describe())
		case mine:
			c.Ob(isZero(rn) && isT(re, "EOF") && (p.rel("A2 > A0.cacheItem.BufferLen") || p.rel("A2 >= A0.cacheItem.BufferLen") && p.rel("len(A1) > 0")), "read", fn, p.where(), "wrong end of file: %s", p.Describe())
		default:
			c.Ob(isZero(rn) && (p.Holds("len(A0.cacheItem.Buffer) <= 0") || p.Holds("getFileFd(A0.fdSet, A0.fileId).R1 != nil") || p.Holds("getFileFd(A0.fdSet, A0.fileId).R0 == nil")), "read", fn, p.where(), "fails to read: %s", p.Describe())
		}
	}
	c.Ob(n >= 2, "read", fn, x.w, "never reads")

	fn = "fileDescription.ReadAt"
	for _, p := range c.pathsOf(fmPkg, fn, "readAt").all() {
		form := "readAt(A0, A1, A2)"
		if p.Holds("A0.fileReader != nil") {
			form = "ReadAt(A0.fileReader, A1, A2)"
		} else {
			c.Ob(p.Holds("A0.fileReader == nil"), "read", fn, p.where(), "reads an unknown file")
		}
		ok := isT(p.o.res[0], form+".R0") && (isT(p.o.res[1], form+".R1") || isNilT(p.o.res[1]) && p.Holds(form+".R1 == nil"))
		c.Ob(ok, "read", fn, p.where(), "returns %s, %s", p.o.res[0], p.o.res[1])
	}
}

// span: the start and length of a part of the named sequence (a nil length:
// up to the end).
func (p *Path) span(t *Term, seq string) (lo, n *Term) {
	t = stripConv(t)
	if isT(t, seq) {
		return kInt(0), nil
	}
	if (t.Op != "slice" && t.Op != "sub") || !isT(t.Args[0], seq) {
		return nil, nil
	}
	lo = t.Args[1]
	if isNilT(lo) {
		lo = kInt(0)
	}
	if isNilT(t.Args[2]) {
		return lo, nil
	}
	return lo, mkBinSub(t.Args[2], lo)
}

func mkBinSub(a, b *Term) *Term {
	return mkBin(token.SUB, stripConv(a), stripConv(b), types.Typ[types.Int])
}
func mkBinAdd(a, b *Term) *Term {
	return mkBin(token.ADD, stripConv(a), stripConv(b), types.Typ[types.Int])
}

// same: equal under the path's facts.
func (p *Path) same(a, b *Term) bool {
	return a != nil && b != nil && p.order(a, b) == EQ
}

// order: how two integers may compare, by linear arithmetic over up to two of
// the path's facts.
func (p *Path) order(a, b *Term) int {
	a, b = noConv(stripConv(a)), noConv(stripConv(b))
	one := constant.MakeInt64(1)
	minus := constant.MakeInt64(-1)
	d := linPlus(toLin(a), toLin(b), minus)
	var le []linForm // each is <= 0
	shift := func(l linForm, k int64) linForm {
		return linPlus(l, linForm{constant.MakeInt64(k), map[*Term]constant.Value{}}, one)
	}
	neg := func(l linForm) linForm {
		return linPlus(linForm{constant.MakeInt64(0), map[*Term]constant.Value{}}, l, minus)
	}
	for _, f := range p.F {
		if isNilT(f.A) || isNilT(f.B) || f.Mask == NE || isTrueT(f.B) || isFalseT(f.B) || isTrueT(f.A) || isFalseT(f.A) {
			continue
		}
		l := linPlus(toLin(noConv(f.A)), toLin(noConv(f.B)), minus)
		switch f.Mask {
		case LT:
			le = append(le, shift(l, 1))
		case LT | EQ:
			le = append(le, l)
		case EQ:
			le = append(le, l, neg(l))
		case GT | EQ:
			le = append(le, neg(l))
		case GT:
			le = append(le, shift(neg(l), 1))
		}
	}
	nonpos := func(l linForm) bool {
		for _, k := range l.ks {
			if constant.Sign(k) != 0 {
				return false
			}
		}
		return constant.Sign(l.c) <= 0
	}
	prove := func(l linForm) bool { // l <= 0
		if nonpos(l) {
			return true
		}
		for i, x := range le {
			r := linPlus(l, x, minus)
			if nonpos(r) {
				return true
			}
			for _, y := range le[i:] {
				if nonpos(linPlus(r, y, minus)) {
					return true
				}
			}
		}
		return false
	}
	m := LT | EQ | GT
	if prove(d) {
		m &^= GT
	}
	if prove(neg(d)) {
		m &^= LT
	}
	if prove(shift(d, 1)) {
		m &= LT
	}
	if prove(shift(neg(d), 1)) {
		m &= GT
	}
	return m
}

// expr builds the term a Go expression over the parameters (A0, A1, ...) and
// the bound names denotes.
func (p *Path) expr(s string) *Term {
	f := p.fn
	var ev func(x ast.Expr) *Term
	ev = func(x ast.Expr) *Term {
		switch x := x.(type) {
		case *ast.ParenExpr:
			return ev(x.X)
		case *ast.BasicLit:
			n, _ := strconv.ParseInt(x.Value, 0, 64)
			return kInt(n)
		case *ast.Ident:
			if t, ok := p.B[x.Name]; ok {
				return stripConv(t)
			}
			if n, err := strconv.Atoi(strings.TrimPrefix(x.Name, "A")); err == nil && f != nil && n < len(f.Params) {
				return param(n, f.Params[n].Type())
			}
		case *ast.SelectorExpr:
			b := ev(x.X)
			if localObj(b) {
				return p.o.st.load(mkFA(b, x.Sel.Name, nil))
			}
			return fieldOf(b, x.Sel.Name, nil)
		case *ast.IndexExpr:
			return mk("elem", "", nil, ev(x.X), ev(x.Index))
		case *ast.BinaryExpr:
			return mkBin(x.Op, ev(x.X), ev(x.Y), types.Typ[types.Int])
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "len" {
				return p.o.st.lenOf(ev(x.Args[0]), "len", types.Typ[types.Int])
			}
		}
		panic("expression " + s)
	}
	return noConv(ev(pat(s)))
}

// rel: the comparison holds on the path, by its facts.
func (p *Path) rel(s string) bool {
	x := pat(s).(*ast.BinaryExpr)
	m := p.order(p.expr(types.ExprString(x.X)), p.expr(types.ExprString(x.Y)))
	return m&^maskOf(x.Op) == 0
}

// eq: the value is the given expression, by the path's facts.
func (p *Path) eq(t *Term, s string) bool { return t != nil && p.same(t, p.expr(s)) }

func (c *Ctx) fmRead() {
	fn := "FileManager.ReadRaw"
	x := c.pathsOf(fmPkg, fn, "GetFd ReadAt Close")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "read", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	const form = "ReadAt(GetFd(A0.fdSet, X).R0, Y1, Z)"
	// bytes Y.. of the buffer from offset Z of file X, as many as the file has room for
	chunk := func(q *Path) (Bind, *Term, bool) {
		b, ev := q.anchored("ReadAt", form)
		if b == nil {
			return nil, nil, false
		}
		lo, ln := q.span(b["Y1"], "A2")
		if lo == nil {
			return nil, nil, false
		}
		b["Y"] = lo
		q.B = b
		if ln == nil {
			ln = q.expr("len(A2) - Y")
		}
		b["P"] = ln
		ok := q.rel("Y < len(A2)") && (q.rel("P == len(A2) - Y") && q.rel("P <= A0.fileSize - Z") || q.rel("P == A0.fileSize - Z") && q.rel("P <= len(A2) - Y")) &&
			q.Holds("GetFd(A0.fdSet, X).R1 == nil") && q.Holds("GetFd(A0.fdSet, X).R0 != nil")
		return b, mk("ext", "0", nil, ev.Res), ok
	}
	n := 0
	for _, p := range x.all() {
		ev := p.theLoop()
		rl, rn, re := p.o.res[0], p.o.res[1], stripConv(p.o.res[2])
		if ev == nil {
			ob(p, p.rel("len(A2) <= 0") && isNilT(re), "reads nothing")
			continue
		}
		var b Bind
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			qb, cnt, ok := chunk(q)
			ob(q, ok, "an iteration does not read the next bytes of a file")
			if qb == nil {
				continue
			}
			if b == nil {
				b = qb
			}
			ob(q, stripConv(b["X"]) == stripConv(qb["X"]) && stripConv(b["Y"]) == stripConv(qb["Y"]) && stripConv(b["Z"]) == stripConv(qb["Z"]), "iterations disagree")
			q.B["Q"] = cnt
			X, Y, Z := p.carried(ev, k, qb["X"]), p.carried(ev, k, qb["Y"]), p.carried(ev, k, qb["Z"])
			next := q.rel("Z + Q < A0.fileSize") && q.eq(X, "X") && q.eq(Z, "Z + Q") || q.rel("Z + Q >= A0.fileSize") && q.eq(X, "X + 1") && q.eq(Z, "0")
			ob(q, next && q.eq(Y, "Y + Q"), "goes on at %s, file %s, offset %s", Y, X, Z)
			ob(q, q.Holds("ReadAt(_, _, _).R1 == nil"), "goes on after an error")
		}
		if b == nil {
			continue
		}
		n++
		p.B = b
		ob(p, p.eq(p.carried(ev, -1, b["X"]), "A1.FileId") && p.eq(p.carried(ev, -1, b["Y"]), "0") && p.eq(p.carried(ev, -1, b["Z"]), "A1.Offset"), "does not start at the location")
		at := func(t *Term, id, off string) bool {
			t = stripConv(t)
			f, o := fieldOf(t, "FileId", nil), fieldOf(t, "Offset", nil)
			if localObj(t) {
				f, o = p.o.st.load(mkFA(t, "FileId", types.Typ[types.Uint64])), p.o.st.load(mkFA(t, "Offset", types.Typ[types.Int64]))
			}
			return p.eq(f, id) && p.eq(o, off)
		}
		switch {
		case isNilT(re):
			ob(p, p.rel("Y >= len(A2)") && p.eq(rn, "Y") && at(rl, "X", "Z"), "ends early or elsewhere")
		case isT(re, "EOF"):
			ob(p, p.Holds("GetFd(A0.fdSet, X).R1 == nil") && p.Holds("GetFd(A0.fdSet, X).R0 == nil"), "end of file")
		case p.Holds("GetFd(A0.fdSet, X).R1 != nil"):
			ob(p, isTB(re, "GetFd(A0.fdSet, X).R1", b), "hides an error")
		default:
			_, cnt, ok := chunk(p)
			ok = ok && isT(re, "ReadAt(_, _, _).R1")
			ob(p, ok, "fails with %s", re)
			if ok {
				p.B["Q"] = cnt
				ob(p, p.eq(rn, "Y + Q"), "counts %s", rn)
			}
		}
	}
	c.Ob(n > 0, "read", fn, x.w, "never reads")
}

// sameRoles: the bindings name the same values.
func sameRoles(a, b Bind, vars string) bool {
	for _, v := range strings.Fields(vars) {
		if stripConv(a[v]) != stripConv(b[v]) {
			return false
		}
	}
	return true
}

func (c *Ctx) fmWrite() {
	fn := "FileManager.Write"
	x := c.pathsOf(fmPkg, fn, "write LatestLocation")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "append", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	// what is still to be written, from Y on
	rest := func(q *Path) bool {
		q.B = nil
		for _, ev := range q.Evs {
			if ev.Kind == "call" && baseName(ev.Name) == "write" && isT(ev.Args[0], "A0") {
				lo, ln := q.span(ev.Args[1], "A1")
				if lo == nil || q.B != nil {
					return false
				}
				q.B = Bind{"Y": lo, "Q": mk("ext", "0", nil, ev.Res)}
				if ln != nil && !q.eq(ln, "len(A1) - Y") {
					return false
				}
			}
		}
		return q.B != nil
	}
	n := 0
	for _, p := range x.success(1) {
		ev := p.theLoop()
		first := calls(p.Evs, "LatestLocation")
		r := stripConv(p.o.res[0])
		ok := len(first) > 0 && r == first[0].Res && len(first[0].Args) == 1 && (isT(r, "LatestLocation(A0)") || isT(r, "LatestLocation(A0.fdSet)"))
		for _, e := range p.Evs {
			if len(first) > 0 && e == first[0] {
				break
			}
			ok = ok && e.Kind == "call" && baseName(e.Name) != "write"
		}
		ob(p, ok, "returns %s, not where the bytes were written", r)
		if ev == nil {
			ob(p, p.rel("len(A1) <= 0"), "does not write")
			continue
		}
		var b Bind
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			if !rest(q) {
				ob(q, false, "does not write the rest of the bytes")
				continue
			}
			if b == nil {
				b = q.B
			}
			ob(q, sameRoles(b, q.B, "Y") && q.rel("Y < len(A1)") && q.eq(p.carried(ev, k, q.B["Y"]), "Y + Q") && q.Holds("write(_, _).R1 == nil"), "goes on at %s", p.carried(ev, k, q.B["Y"]))
		}
		if b == nil {
			continue
		}
		n++
		p.B = b
		ob(p, p.eq(p.carried(ev, -1, b["Y"]), "0") && p.rel("Y >= len(A1)"), "does not write all bytes")
	}
	c.Ob(n > 0, "append", fn, x.w, "never writes")
	for _, p := range x.failure(1) {
		ob(p, rest(p) && p.Holds("write(_, _).R1 != nil"), "fails")
	}

	fn = "FileManager.Read"
	x = c.pathsOf(fmPkg, fn, "ReadRaw")
	const R1, R2 = "ReadRaw(A0, A1, _)", "ReadRaw(A0, ReadRaw(A0, A1, _).R0, _)"
	n = 0
	for _, p := range x.all() {
		cs := calls(p.Evs, "ReadRaw")
		re := stripConv(p.o.res[2])
		if len(cs) == 1 {
			c.Ob(isT(cs[0].Res, R1) && fixedLenT(cs[0].Args[2]) == 4 && isT(re, R1+".R2") && p.Holds(R1+".R2 != nil"), "read", fn, p.where(), "does not read a record's length: %s", p.Describe())
			continue
		}
		ok := len(cs) == 2 && isT(cs[0].Res, R1) && fixedLenT(cs[0].Args[2]) == 4 && p.Holds(R1+".R2 == nil") && isT(cs[1].Res, R2)
		ok = ok && (stripConv(re) == mk("ext", "2", nil, cs[1].Res) || isNilT(re) && p.Holds(R2+".R2 == nil")) && stripConv(p.o.res[1]) == mk("ext", "0", nil, cs[1].Res)
		if ok {
			n++
			l := p.o.st.lenOf(stripConv(p.o.res[0]), "len", types.Typ[types.Int])
			a := p.o.st.lenOf(stripConv(cs[1].Args[2]), "len", types.Typ[types.Int])
			ok = isT(l, "rdbe32(out("+R1+", _))") && isT(a, "rdbe32(out("+R1+", _))") && (strings.HasPrefix(stripConv(p.o.res[0]).Op, "mkslice") || stripConv(p.o.res[0]).Op == "out")
		}
		c.Ob(ok, "read", fn, p.where(), "does not return the record: %s %s", p.o.res[0], p.Describe())
	}
	c.Ob(n > 0, "read", fn, x.w, "never reads")
}

// fixedLenT: the length of an array-backed or constant-sized buffer.
func fixedLenT(t *Term) int64 {
	t = stripConv(t)
	for t.Op == "slice" || t.Op == "sub" {
		if !isNilT(t.Args[2]) {
			n, ok := i64(t.Args[2])
			if !ok {
				return -1
			}
			return n
		}
		t = stripConv(t.Args[0])
	}
	if t.Op == "zerobytes" {
		if n, ok := i64(t.Args[0]); ok {
			return n
		}
		return -1
	}
	if t.Typ == nil {
		return -1
	}
	typ := t.Typ
	if pt, ok := typ.Underlying().(*types.Pointer); ok {
		typ = pt.Elem()
	}
	if a, ok := typ.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return -1
}

func (c *Ctx) fmRange() {
	fn := "FileManager.ReadRange"
	x := c.pathsOf(fmPkg, fn, "GetFd ReadAt Close LatestLocation")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "range", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	n := 0
	for _, p := range x.all() {
		ev := p.theLoop()
		if ev == nil {
			ob(p, false, "reads nothing")
			continue
		}
		end := "A2"
		if p.Holds("A2 == nil") {
			end = "latest"
		} else {
			ob(p, p.Holds("A2 != nil"), "no end is decided")
		}
		bindEnd := func(q *Path) {
			b := Bind{}
			for k, v := range q.B {
				b[k] = v
			}
			q.B = b
			if end == "latest" {
				if ls := calls(p.Evs, "LatestLocation"); len(ls) == 1 {
					b["P"] = ls[0].Res
				}
			} else {
				b["P"] = param(2, x.f.Params[2].Type())
			}
		}
		// one file: its bytes from Z up to the end of the file or the range
		file := func(q *Path) bool {
			b, rd := q.anchored("ReadAt", "ReadAt(GetFd(A0.fdSet, X).R0, _, Z)")
			if b == nil {
				return false
			}
			q.B = b
			bindEnd(q)
			if q.B["P"] == nil {
				return false
			}
			q.B["Y"] = q.o.st.lenOf(stripConv(rd.Args[1]), "len", types.Typ[types.Int])
			q.B["Q"] = mk("ext", "0", nil, rd.Res)
			ok := q.Holds("GetFd(A0.fdSet, X).R1 == nil") && q.Holds("GetFd(A0.fdSet, X).R0 != nil")
			ok = ok && (q.rel("X < P.FileId") && q.rel("Y == A0.fileSize - Z") || q.rel("X <= P.FileId") && q.Holds("X != P.FileId") && q.rel("Y == A0.fileSize - Z") || q.rel("X == P.FileId") && q.rel("Y == P.Offset - Z"))
			ws := calls(q.Evs, "Write")
			if !ok || len(ws) != 1 || !isT(ws[0].Args[0], "A3") {
				return false
			}
			a := stripConv(ws[0].Args[1])
			if a.Op != "sub" && a.Op != "slice" {
				return false
			}
			return (isNilT(a.Args[1]) || isZero(a.Args[1])) && stripConv(a.Args[2]) == q.B["Q"] && isTB(stripConv(a.Args[0]), "out(ReadAt(GetFd(A0.fdSet, X).R0, _, Z), _)", q.B)
		}
		var b Bind
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			ob(q, file(q), "an iteration does not pass on the bytes of a file")
			if q.B["X"] == nil {
				continue
			}
			if b == nil {
				b = q.B
			}
			ob(q, sameRoles(b, q.B, "X Z") && q.eq(p.carried(ev, k, q.B["X"]), "X + 1") && q.eq(p.carried(ev, k, q.B["Z"]), "0"), "goes on at file %s, offset %s", p.carried(ev, k, q.B["X"]), p.carried(ev, k, q.B["Z"]))
			ob(q, q.Holds("ReadAt(_, _, _).R1 == nil") && q.Holds("Write(A3, _) == nil"), "goes on after an error")
		}
		if b == nil {
			continue
		}
		n++
		p.B = b
		bindEnd(p)
		if p.B["P"] == nil {
			ob(p, false, "no end")
			continue
		}
		ob(p, p.eq(p.carried(ev, -1, b["X"]), "A1.FileId") && p.eq(p.carried(ev, -1, b["Z"]), "A1.Offset"), "does not start at the location")
		es := calls(p.Evs, "WriteError")
		told := len(es) == 1 && isT(es[0].Args[0], "A3") && !isNilT(stripConv(es[0].Args[1]))
		switch {
		case p.rel("X > P.FileId"):
			ob(p, len(es) == 0, "reports an error")
		case p.Holds("GetFd(A0.fdSet, X).R1 != nil") || p.Holds("GetFd(A0.fdSet, X).R0 == nil"):
			ob(p, told, "hides a file that cannot be read")
		case p.Holds("Write(A3, _) != nil"):
			ob(p, file(p), "stops although the parser takes the bytes")
		default:
			ob(p, file(p) && p.Holds("ReadAt(_, _, _).R1 != nil") && told && isT(es[0].Args[1], "ReadAt(_, _, _).R1"), "stops early")
		}
	}
	c.Ob(n > 0, "range", fn, x.w, "never reads")
}

func (c *Ctx) fmFlush() {
	fn := "FileManager.Flush"
	x := c.pathsOf(fmPkg, fn, "GetFd GetTmpFlushFd Flush DiskDelete Close")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "flush", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	// bytes Y.. of the buffer to offset Z of file X
	chunk := func(q *Path) bool {
		q.B = nil
		for _, ev := range q.Evs {
			if ev.Kind != "call" || baseName(ev.Name) != "Flush" || len(ev.Args) != 3 {
				continue
			}
			if q.B != nil {
				return false
			}
			lo, ln := q.span(ev.Args[2], "A3")
			if lo == nil {
				return false
			}
			b := Bind{"Y": lo, "Z": ev.Args[1], "Q": mk("ext", "0", nil, ev.Res)}
			fd := stripConv(ev.Args[0])
			if bb, ok := matchT(pat("GetFd(A0.fdSet, X).R0"), fd, Bind{}); ok {
				b["X"] = bb["X"]
				q.B = b
				if !q.Holds("GetFd(A0.fdSet, X).R1 == nil") || !q.Holds("GetFd(A0.fdSet, X).R0 != nil") || !q.Holds("GetFd(A0.fdSet, X).R0.cacheItem != nil") {
					return false
				}
			} else if bb, ok := matchT(pat("GetTmpFlushFd(A0.fdSet, X).R0"), fd, Bind{}); ok {
				b["X"] = bb["X"]
				q.B = b
				if !q.Holds("GetTmpFlushFd(A0.fdSet, X).R1 == nil") || !q.Holds("GetTmpFlushFd(A0.fdSet, X).R0 != nil") || !(q.Holds("GetFd(A0.fdSet, X).R0 == nil") || q.Holds("GetFd(A0.fdSet, X).R0.cacheItem == nil")) {
					return false
				}
			} else {
				return false
			}
			b["P"] = ln
			if ln == nil {
				b["P"] = q.expr("len(A3) - Y")
			}
		}
		if q.B == nil {
			return false
		}
		return (q.rel("X < A2.FileId") && q.rel("P == A0.fileSize - Z")) || q.rel("X == A2.FileId") && q.rel("Z < A2.Offset") && q.rel("P == A2.Offset - Z")
	}
	n, del := 0, 0
	for _, p := range x.all() {
		ev := p.theLoop()
		if ev == nil {
			ob(p, false, "does not flush")
			continue
		}
		re := stripConv(p.o.res[0])
		var b Bind
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			ob(q, chunk(q), "an iteration does not flush a file's part of the bytes")
			if q.B["X"] == nil {
				continue
			}
			if b == nil {
				b = q.B
			}
			X, Y, Z := p.carried(ev, k, q.B["X"]), p.carried(ev, k, q.B["Y"]), p.carried(ev, k, q.B["Z"])
			next := q.rel("Z + Q < A0.fileSize") && q.eq(X, "X") && q.eq(Z, "Z + Q") || q.rel("Z + Q >= A0.fileSize") && q.eq(X, "X + 1") && q.eq(Z, "0")
			ob(q, sameRoles(b, q.B, "X Y Z") && next && q.eq(Y, "Y + Q") && q.Holds("Flush(_, _, _).R1 == nil"), "goes on at %s, file %s, offset %s", Y, X, Z)
		}
		if b == nil {
			continue
		}
		n++
		p.B = b
		ob(p, p.eq(p.carried(ev, -1, b["X"]), "A1.FileId") && p.eq(p.carried(ev, -1, b["Y"]), "0") && p.eq(p.carried(ev, -1, b["Z"]), "A1.Offset"), "does not start at the location")
		ds := calls(p.Evs, "DiskDelete")
		stored := false
		for _, e := range p.Evs {
			if e.Kind == "store" && isT(e.Args[0], "&A0.prevFlushLocation") {
				stored = isT(e.Args[1], "A2")
			}
		}
		if len(ds) > 0 || isNilT(re) {
			ob(p, p.rel("X > A2.FileId") || p.rel("X == A2.FileId") && p.rel("Z >= A2.Offset"), "ends before the target")
			higher := p.rel("A0.prevFlushLocation.FileId > A2.FileId") || p.rel("A0.prevFlushLocation.FileId == A2.FileId") && p.rel("A0.prevFlushLocation.Offset > A2.Offset")
			lower := p.rel("A0.prevFlushLocation.FileId < A2.FileId") || p.rel("A0.prevFlushLocation.FileId == A2.FileId") && p.rel("A0.prevFlushLocation.Offset <= A2.Offset")
			if len(ds) > 0 {
				del++
				ob(p, len(ds) == 1 && higher && isT(ds[0].Res, "DiskDelete(A0.fdSet, A0.prevFlushLocation, A2)"), "deletes other data")
			} else {
				ob(p, lower, "leaves data behind the target")
			}
		}
		if isNilT(re) {
			ob(p, stored && (len(ds) == 0 || p.Holds("DiskDelete(_, _, _) == nil")), "does not record the target")
			continue
		}
		bad := p.Holds("GetFd(A0.fdSet, X).R1 != nil") || p.Holds("GetTmpFlushFd(A0.fdSet, X).R1 != nil") || p.Holds("GetTmpFlushFd(A0.fdSet, X).R0 == nil") || p.Holds("DiskDelete(_, _, _) != nil")
		if !bad {
			bad = chunk(p) && p.Holds("Flush(_, _, _).R1 != nil")
		}
		ob(p, bad && !stored, "fails or records a target that is not flushed")
	}
	c.Ob(n > 0 && del > 0, "flush", fn, x.w, "never flushes or deletes")
}

func (c *Ctx) fmDelete() {
	fn := "fdManager.DeleteTo"
	x := c.pathsOf(fmPkg, fn, "resetWriteFd")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "rollback", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	const back = "Back(A0.fileCache)"
	n := 0
	for _, p := range x.all() {
		ev := p.theLoop()
		if ev == nil || len(ev.Loop.Phis) == 0 {
			ob(p, false, "does not go through the files")
			continue
		}
		// the file counter
		var b Bind
		for _, ph := range ev.Loop.Phis {
			if isT(stripConv(ph.Init), "A0.writeFd.cacheItem.FileId") {
				b = Bind{"X": ph.Iter}
			}
		}
		if b == nil {
			ob(p, false, "does not start at the latest file")
			continue
		}
		n++
		removed := 0
		step := func(q *Path, whole bool) {
			q.B = b
			var rm, md, sz *Event
			cleared := false
			for _, f := range q.F {
				cleared = cleared || f.Mask == EQ && (isNilT(f.B) && strings.HasSuffix(f.A.String(), "(&A0.writeFd)") || isNilT(f.A) && strings.HasSuffix(f.B.String(), "(&A0.writeFd)"))
			}
			for _, e := range q.Evs {
				switch {
				case e.Kind == "store" && isT(e.Args[0], "&A0.writeFd"):
					cleared = isNilT(e.Args[1])
				case e.Kind == "mapdel":
					md = e
					ob(q, isT(e.Args[0], "A0.fileFdCache") && strings.Contains(seqTag.ReplaceAllString(e.Args[1].String(), ""), "list.List.Back(A0.fileCache).Value).FileId") && sz == nil, "forgets %s", e.Args[1])
				case e.Kind == "store":
					sz = e
				case e.Kind == "call" && baseName(e.Name) == "Remove":
					rm = e
					ob(q, len(e.Args) == 2 && isT(e.Args[0], "A0.fileCache") && isT(e.Args[1], back), "removes %s", e.Args[1])
				}
			}
			if rm != nil || sz != nil || md != nil {
				removed++
				ob(q, q.Holds(back+" != nil"), "uses the back of an empty list")
			}
			ob(q, cleared, "keeps writing to a removed file")
			if whole {
				ob(q, rm != nil && md != nil || mentionsNilItem(q), "does not remove a file from the cache")
			}
		}
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			q.B = b
			ob(q, q.rel("X > A1.FileId") && q.eq(p.carried(ev, k, b["X"]), "X - 1"), "removes a file that is kept, or goes on at %s", p.carried(ev, k, b["X"]))
			step(q, true)
		}
		ob(p, removed > 0, "removes nothing")
		p.B = b
		ob(p, p.rel("X <= A1.FileId") || p.rel("X > A1.FileId") && p.Holds(back+" == nil"), "stops early")
		rs := calls(p.Evs, "resetWriteFd")
		re := stripConv(p.o.res[0])
		ok := len(rs) == 1 && isT(rs[0].Res, "resetWriteFd(A0, A1)") && (isNilT(re) && p.Holds("resetWriteFd(A0, A1) == nil") || isT(re, "resetWriteFd(A0, A1)"))
		ob(p, ok, "does not set the write position to the location")
		ob(p, p.lockedBy("&A0.changeFdMu"), "changes the files without the lock")
	}
	c.Ob(n > 0, "rollback", fn, x.w, "never deletes")

	x = c.pathsOf(fmPkg, "fdManager.CreateNextFd", "resetWriteFd latestFileId")
	for _, p := range x.all() {
		cleared := false
		for _, ev := range p.Evs {
			if ev.Kind == "store" && isT(ev.Args[0], "&A0.writeFd") {
				cleared = isNilT(ev.Args[1])
			}
			if ev.Kind == "call" && baseName(ev.Name) == "resetWriteFd" {
				c.Ob(cleared, "append", "fdManager.CreateNextFd", p.where(), "goes on in the full file")
			}
		}
	}

	fn = "fdManager.DiskDelete"
	x = c.pathsOf(fmPkg, fn, "getFileFd fileIdToAbsoluteFilename")
	n = 0
	const rm = "Remove(fileIdToAbsoluteFilename(A0, X))"
	const fd = "getFileFd(A0, A2.FileId)"
	for _, p := range x.all() {
		ev := p.theLoop()
		if ev == nil {
			ob(p, false, "does not go through the files")
			continue
		}
		b := p.roles(ev, "X", "Remove", rm)
		if b == nil {
			ob(p, false, "does not remove the files")
			continue
		}
		n++
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			q.B = b
			ob(q, q.rel("X > A2.FileId") && q.eq(p.carried(ev, k, b["X"]), "X - 1") && (q.Holds(rm+" == nil") || q.Holds("IsNotExist("+rm+")")), "removes a file that is kept, or goes on after an error")
		}
		p.B = b
		re := stripConv(p.o.res[0])
		ob(p, p.eq(p.carried(ev, -1, b["X"]), "A1.FileId"), "does not start at the high file")
		ts := calls(p.Evs, "Truncate")
		for _, t := range ts {
			ob(p, isT(t.Res, "Truncate("+fd+".R0, A2.Offset)") && p.Holds(fd+".R0 != nil"), "truncates %s", t.Res)
		}
		if isT(re, "Truncate("+fd+".R0, A2.Offset)") && !p.Holds("Truncate(_, _) != nil") {
			ob(p, p.rel("X <= A2.FileId") && p.Holds(fd+".R1 == nil") && len(ts) == 1, "leaves data behind the location")
		} else if isNilT(re) {
			ob(p, p.rel("X <= A2.FileId") && p.Holds(fd+".R1 == nil") && (len(ts) == 0 && p.Holds(fd+".R0 == nil") || len(ts) == 1 && p.Holds("Truncate(_, _) == nil")), "leaves data behind the location")
		} else {
			ob(p, p.Holds(rm+" != nil") && p.Holds("!IsNotExist("+rm+")") || p.Holds(fd+".R1 != nil") || len(ts) == 1 && p.Holds("Truncate(_, _) != nil"), "fails")
		}
	}
	c.Ob(n > 0, "rollback", fn, x.w, "never deletes")
}

// mentionsNilItem: the iteration found a nil entry in the cache list.
func mentionsNilItem(q *Path) bool {
	for _, f := range q.F {
		if f.Mask == EQ && isNilT(f.B) && strings.HasPrefix(f.A.Op, "assert") {
			return true
		}
	}
	return false
}

// lockedBy: the path takes the lock before anything else changes and releases
// it at the end.
func (p *Path) lockedBy(mu string) bool {
	held := false
	done := false
	for _, ev := range p.Evs {
		if ev.Kind == "call" && len(ev.Args) > 0 && isT(ev.Args[0], mu) {
			switch baseName(ev.Name) {
			case "Lock":
				held = true
				continue
			case "Unlock":
				held, done = false, true
				continue
			}
		}
		if ev.Kind == "loop" || ev.Kind == "store" || ev.Kind == "mapset" || ev.Kind == "mapdel" || ev.Kind == "call" && baseName(ev.Name) == "resetWriteFd" {
			if !held {
				return false
			}
		}
	}
	return done && !held
}

func (c *Ctx) fmReset() {
	fn := "fdManager.resetWriteFd"
	x := c.pathsOf(fmPkg, fn, "getFileFd NewFdByBuffer NextFlushStartLocation")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "write-position", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	const fd = "getFileFd(A0, A1.FileId)"
	const next = "NextFlushStartLocation(A0.fileManager).FileId"
	const cached = "mapget(A0.fileFdCache, A1.FileId)"
	kinds := map[string]int{}
	for _, p := range x.all() {
		re := stripConv(p.o.res[0])
		// what the path writes
		w := map[string]*Term{}
		var item *Term
		for _, ev := range p.Evs {
			switch ev.Kind {
			case "store":
				a := ev.Args[0]
				w[a.String()] = ev.Args[1]
				if a.Op == "fa" && !isT(a, "&A0.writeFd") {
					if item == nil {
						item = a.Args[0]
					}
				}
			}
		}
		val := func(addr string) *Term {
			for k, v := range w {
				if k == addr {
					return stripConv(v)
				}
			}
			return nil
		}
		if p.Holds("A0.writeFd != nil") {
			kinds["shrink"]++
			ok := isNilT(re)
			if len(w) == 0 {
				ok = ok && p.rel("A0.writeFd.cacheItem.BufferLen <= A1.Offset")
			} else {
				v := val("&A0.writeFd.cacheItem.BufferLen")
				ok = ok && len(w) == 1 && v != nil && isT(v, "A1.Offset") && p.rel("A0.writeFd.cacheItem.BufferLen > A1.Offset")
			}
			ob(p, ok, "does not cut the write file")
			continue
		}
		ob(p, p.Holds("A0.writeFd == nil"), "the write file is not decided")
		if p.Holds("mapok(A0.fileFdCache, A1.FileId)") {
			kinds["cached"]++
			ok := isNilT(re) && len(w) == 2 && val("&A0.writeFd") != nil && isT(val("&A0.writeFd"), cached)
			for k, v := range w {
				if k != "&A0.writeFd" {
					ok = ok && strings.HasSuffix(k, ".cacheItem.BufferLen") && strings.Contains(k, "fileFdCache") && isT(stripConv(v), "A1.Offset")
				}
			}
			ob(p, ok, "does not write on in the cached file")
			continue
		}
		ob(p, p.Holds("!mapok(A0.fileFdCache, A1.FileId)"), "the cache is not decided")
		// the cache gives up only files that are flushed
		give := func(q *Path) {
			var gone []*Term
			for _, ev := range q.Evs {
				switch {
				case ev.Kind == "call" && (baseName(ev.Name) == "Remove" || baseName(ev.Name) == "MoveToBack"):
					ob(q, len(ev.Args) == 2 && isT(ev.Args[1], "Front(A0.fileCache)"), "takes %s out of the cache", ev.Args[1])
					gone = append(gone, ev.Args[1])
				}
			}
			if len(gone) == 0 {
				return
			}
			ok, fresh := false, false
			for _, f := range q.F {
				a, b, m := f.A, f.B, f.Mask
				if isT(b, next) {
					a, b, m = b, a, flip(m)
				}
				if m == GT && isT(a, next) && frontItem(b) {
					ok = true
				}
			}
			for _, ev := range q.Evs {
				if ev.Kind == "mapdel" && isT(ev.Args[0], "A0.fileFdCache") && frontItem(ev.Args[1]) {
					fresh = true
				}
			}
			ob(q, ok, "gives up a file that is not flushed")
			ob(q, fresh, "the given up file is still found in the cache")
		}
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				for _, st := range ev.Loop.Iters {
					give(p.iterPath(ev, st, nil))
				}
			}
		}
		give(p)
		read := calls(p.Evs, "Read")
		for _, r := range read {
			a := stripConv(r.Args[1])
			ok := p.Holds(fd+".R1 == nil") && isT(r.Args[0], fd+".R0") && (a.Op == "sub" || a.Op == "slice" || a.Op == "zerobytes" || true)
			l := p.o.st.lenOf(a, "len", types.Typ[types.Int])
			ok = ok && (p.eq(l, "A1.Offset") || (a.Op == "sub" || a.Op == "slice") && (isNilT(a.Args[1]) || isZero(a.Args[1])) && p.eq(a.Args[2], "A1.Offset"))
			ob(p, ok, "reads %s", r.Res)
		}
		if !isNilT(re) {
			ob(p, p.Holds(fd+".R1 != nil") || p.Holds(fd+".R0 == nil") && p.rel("A1.Offset > 0") || len(read) == 1 && (p.Holds("Read(_, _).R1 != nil") || p.Holds("Read(_, _).R0 != A1.Offset")), "fails")
			continue
		}
		wf := val("&A0.writeFd")
		b, ok := Bind(nil), false
		if wf != nil {
			b, ok = matchT(pat("NewFdByBuffer(A0, X)"), wf, Bind{})
		}
		if !ok {
			ob(p, false, "sets no write file")
			continue
		}
		it := stripConv(b["X"])
		field := func(f string) *Term {
			if localObj(it) {
				return stripConv(p.o.st.load(mkFA(it, f, nil)))
			}
			return val(mkFA(it, f, nil).String())
		}
		var set *Event
		for _, ev := range p.Evs {
			if ev.Kind == "mapset" {
				set = ev
			}
		}
		ob(p, set != nil && isT(set.Args[0], "A0.fileFdCache") && isT(set.Args[1], "A1.FileId") && stripConv(set.Args[2]) == wf, "the write file is not found in the cache")
		fid, bl, fw := field("FileId"), field("BufferLen"), field("FileWriter")
		ob(p, fid != nil && isT(fid, "A1.FileId") && bl != nil && (isT(bl, "A1.Offset") || isZero(bl) && p.rel("A1.Offset <= 0")), "the write position is %v, %v", fid, bl)
		if p.rel("A1.Offset > 0") {
			kinds["load"]++
			ob(p, len(read) == 1 && p.Holds("Read(_, _).R1 == nil") && p.Holds("Read(_, _).R0 == A1.Offset") && fw != nil && isT(fw, fd+".R0"), "does not load the file")
			if len(read) == 1 {
				r := stripConv(read[0].Args[1])
				src := r
				if r.Op == "sub" || r.Op == "slice" {
					src = stripConv(r.Args[0])
				}
				if !localObj(it) {
					ob(p, src == fieldOf(it, "Buffer", nil) || strings.HasSuffix(src.String(), it.String()+".Buffer"), "loads into %s", src)
				}
			}
		} else {
			kinds["new"]++
			ob(p, p.rel("A1.Offset <= 0") && (fw == nil || isNilT(fw) || isZero(fw)), "a new file writes to %v", fw)
		}
		in := false
		if localObj(it) {
			kinds["fresh"]++
			l := p.o.st.lenOf(p.o.st.load(mkFA(it, "Buffer", nil)), "len", types.Typ[types.Int])
			for _, ev := range calls(p.Evs, "PushBack") {
				in = in || stripConv(ev.Args[1]) == it
			}
			ob(p, p.eq(l, "A0.fileSize"), "the buffer has %s bytes", l)
		} else {
			kinds["reuse"]++
			in = len(calls(p.Evs, "MoveToBack")) == 1 && frontItem(fieldOf(it, "FileId", nil))
		}
		ob(p, in, "the write file is not at the back of the cache")
	}
	for _, k := range []string{"shrink", "cached", "load", "new", "fresh", "reuse"} {
		c.Ob(kinds[k] > 0, "write-position", fn, x.w, "no path: %s", k)
	}
}

// frontItem: the FileId of the front of the cache list.
func frontItem(t *Term) bool {
	s := stripConv(t).String()
	return strings.Contains(s, "list.List.Front") && strings.HasSuffix(s, "(A0.fileCache).Value).FileId")
}

func (c *Ctx) fmOpen() {
	fn := "fdManager.getCacheItem"
	x := c.pathsOf(fmPkg, fn, "")
	n := 0
	const back, front = "Back(A0.fileCache)", "Front(A0.fileCache)"
	isItem := func(t *Term, of string) bool { // the item of a list element
		t = stripConv(t)
		return strings.HasPrefix(t.Op, "assert") && isT(t.Args[0], of+".Value")
	}
	idOf := func(t *Term, of string) bool {
		t = stripConv(t)
		return t.Op == "field" && t.Sym == "FileId" && isItem(t.Args[0], of)
	}
	for _, p := range x.all() {
		var loop *Event
		for _, ev := range p.Evs {
			if ev.Kind == "loop" {
				loop = ev
			}
		}
		walk := func(p *Path) (*Term, bool) {
			if loop == nil || len(loop.Loop.Phis) != 1 {
				return nil, false
			}
			ph := loop.Loop.Phis[0]
			dir := ""
			switch {
			case isT(ph.Init, back):
				dir = "Prev"
			case isT(ph.Init, front):
				dir = "Next"
			}
			ok := dir != ""
			for k, st := range loop.Loop.Iters {
				nx := stripConv(ph.Next[k])
				q := p.iterPath(loop, st, nil)
				miss := false
				for _, f := range q.F {
					miss = miss || f.Mask == NE && (isT(f.A, "A1") && idVar(f.B, ph.Iter) || isT(f.B, "A1") && idVar(f.A, ph.Iter))
				}
				ok = ok && miss && nx.Op == "call" && baseName(nx.Sym) == dir && nx.Args[0] == ph.Iter
			}
			return ph.Iter, ok
		}
		r := stripConv(p.o.res[0])
		if !isNilT(r) {
			n++
			it, ok := walk(p)
			hit := false
			for _, f := range p.F {
				hit = hit || it != nil && f.Mask == EQ && (isT(f.A, "A1") && idVar(f.B, it) || isT(f.B, "A1") && idVar(f.A, it))
			}
			ok = ok && hit && idVar(fieldOf(r, "FileId", nil), it)
			c.Ob(ok, "read", fn, p.where(), "returns another file: %s", p.Describe())
			continue
		}
		ok := p.rel0("Len(A0.fileCache)", LT|EQ)
		for _, f := range p.F {
			a, b, m := f.A, f.B, f.Mask
			if isT(b, "A1") {
				a, b, m = b, a, flip(m)
			}
			ok = ok || isT(a, "A1") && (m == LT && idOf(b, front) || m == GT && idOf(b, back))
		}
		if !ok {
			if it, all := walk(p); all {
				for _, f := range p.F {
					ok = ok || f.Mask == EQ && (f.A == it && isNilT(f.B) || f.B == it && isNilT(f.A))
				}
			}
		}
		c.Ob(ok, "read", fn, p.where(), "misses a cached file: %s", p.Describe())
	}
	c.Ob(n > 0, "read", fn, x.w, "never finds a file")

	fn = "FileManager.SetNextFlushStartLocation"
	x = c.pathsOf(fmPkg, fn, "")
	n = 0
	for _, p := range x.all() {
		for _, ev := range p.Evs {
			if ev.Kind == "store" && isT(ev.Args[0], "&A0.nextFlushStartLocation") {
				n++
				v := stripConv(ev.Args[1])
				f, o := fieldOf(v, "FileId", nil), fieldOf(v, "Offset", nil)
				if localObj(v) {
					f, o = p.o.st.load(mkFA(v, "FileId", nil)), p.o.st.load(mkFA(v, "Offset", nil))
				}
				c.Ob(isT(stripConv(f), "A1.FileId") && isT(stripConv(o), "A1.Offset"), "flush", fn, p.where(), "the next flush starts at %s, %s", f, o)
			}
		}
	}
	c.Ob(n == 1, "flush", fn, x.w, "does not set the location")

	fn = "NewFileManager"
	x = c.pathsOf(fmPkg, fn, "newFdManager LatestLocation")
	n = 0
	for _, p := range x.success(1) {
		n++
		r := stripConv(p.o.res[0])
		f := func(n string) *Term { return stripConv(p.o.st.load(mkFA(r, n, nil))) }
		const N = "newFdManager(_, A0, A1, A2)"
		ok := localObj(r) && p.Holds(N+".R1 == nil") && isT(f("fdSet"), N+".R0") && isT(f("fileSize"), "A1") && isT(f("nextFlushStartLocation"), "LatestLocation("+N+".R0)") && isT(f("prevFlushLocation"), "LatestLocation("+N+".R0)")
		c.Ob(ok, "open", fn, p.where(), "does not go on at the end of the files: %s", p.Describe())
	}
	c.Ob(n > 0, "open", fn, x.w, "never opens")

	fn = "newFdManager"
	x = c.pathsOf(fmPkg, fn, "loadLatestLocation resetWriteFd OpenOrCreateFd")
	n = 0
	for _, p := range x.success(1) {
		n++
		r := stripConv(p.o.res[0])
		f := func(n string) *Term { return stripConv(p.o.st.load(mkFA(r, n, nil))) }
		rs := calls(p.Evs, "resetWriteFd")
		ok := localObj(r) && len(rs) == 1 && stripConv(rs[0].Args[0]) == r && p.Holds("resetWriteFd(_, _) == nil") && p.Holds("loadLatestLocation(_).R1 == nil") && p.Holds("OpenOrCreateFd(A1).R1 == nil")
		if ok {
			l := stripConv(rs[0].Args[1])
			if p.Holds("loadLatestLocation(_).R0 == nil") {
				id, _ := i64(p.o.st.load(mkFA(l, "FileId", nil)))
				ok = localObj(l) && id == 1 && isZero(p.o.st.load(mkFA(l, "Offset", nil)))
			} else {
				ok = isT(l, "loadLatestLocation(_).R0") && p.Holds("loadLatestLocation(_).R0 != nil")
			}
			cs := rs[0].St
			g := func(n string) *Term {
				if cs != nil {
					return stripConv(cs.load(mkFA(r, n, nil)))
				}
				return f(n)
			}
			sz, _ := i64(g("filenamePrefixSize"))
			ok = ok && isT(g("dirName"), "A1") && isT(g("fileManager"), "A0") && isT(g("fileSize"), "A2") && constLen(g("filenamePrefix")) == sz && sz > 0
		}
		c.Ob(ok, "open", fn, p.where(), "does not go on at the end of the files: %s", p.Describe())
	}
	c.Ob(n > 0, "open", fn, x.w, "never opens")

	fn = "fdManager.loadLatestLocation"
	x = c.pathsOf(fmPkg, fn, "getFileFd isCorrectFile filenameToFileId FileSize")
	const names = "Readdirnames(A0.dirFd, 0)"
	n = 0
	for _, p := range x.success(1) {
		g := calls(p.Evs, "getFileFd")
		if len(g) != 1 {
			c.Ob(false, "open", fn, p.where(), "opens no file: %s", p.Describe())
			continue
		}
		id := stripConv(g[0].Args[1])
		ev := p.theLoop()
		ok := ev != nil && p.Holds(names+".R1 == nil")
		if ok {
			ok = len(p.loopsOver(names+".R0")) == 1
			for k, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				nx := stripConv(p.carried(ev, k, id))
				const f = "filenameToFileId(A0, " + names + ".R0[_])"
				switch {
				case q.Holds("!isCorrectFile(A0, " + names + ".R0[_])"):
					ok = ok && nx == id
				case nx == id:
					ok = ok && q.Holds(f+".R1 == nil") && q.above(id, f+".R0")
				default:
					ok = ok && q.Holds(f+".R1 == nil") && isT(nx, f+".R0") && q.below(id, f+".R0")
				}
			}
			ok = ok && isZero(p.carried(ev, -1, id))
		}
		c.Ob(ok, "open", fn, p.where(), "does not open the last file: %s", p.Describe())
		r := stripConv(p.o.res[0])
		if isNilT(r) {
			c.Ob(p.Holds("getFileFd(A0, _).R0 == nil"), "open", fn, p.where(), "forgets the files: %s", p.Describe())
			continue
		}
		n++
		a, b := p.o.st.load(mkFA(r, "FileId", nil)), p.o.st.load(mkFA(r, "Offset", nil))
		c.Ob(stripConv(a) == id && isT(stripConv(b), "FileSize(getFileFd(A0, _).R0).R0") && p.Holds("FileSize(_).R1 == nil"), "open", fn, p.where(), "the write position is %s, %s: %s", a, b, p.Describe())
	}
	c.Ob(n > 0, "open", fn, x.w, "never finds the last file")
}

// idVar: t is the FileId of the item of list element it.
func idVar(t, it *Term) bool {
	t = stripConv(t)
	if it == nil || t.Op != "field" || t.Sym != "FileId" {
		return false
	}
	a := stripConv(t.Args[0])
	return strings.HasPrefix(a.Op, "assert") && a.Args[0].Op == "field" && a.Args[0].Sym == "Value" && a.Args[0].Args[0] == it
}

// rel0: how the value of the given form compares with zero.
func (p *Path) rel0(form string, mask int) bool {
	for _, f := range p.F {
		a, b, m := f.A, f.B, f.Mask
		if isZero(a) {
			a, b, m = b, a, flip(m)
		}
		if isZero(b) && isT(a, form) && m&^mask == 0 {
			return true
		}
	}
	return false
}

func (p *Path) above(t *Term, form string) bool { return p.cmpForm(t, form, LT) }
func (p *Path) below(t *Term, form string) bool { return p.cmpForm(t, form, GT) }

func (p *Path) cmpForm(t *Term, form string, not int) bool {
	for _, f := range p.F {
		a, b, m := f.A, f.B, f.Mask
		if stripConv(b) == t {
			a, b, m = b, a, flip(m)
		}
		if stripConv(a) == t && isT(stripConv(b), form) && m&not == 0 {
			return true
		}
	}
	return false
}

// bdFlush: what a flush collects is what it writes.
func (c *Ctx) bdFlush() {
	fn := "BlockDB.Prepare"
	x := c.pathsOf(bdPkg, fn, "ReadRange NextFlushStartLocation SetNextFlushStartLocation LatestLocation")
	n := 0
	for _, p := range x.all() {
		rr := calls(p.Evs, "ReadRange")
		var buf *Term
		for _, ev := range p.Evs {
			if ev.Kind == "store" && isT(ev.Args[0], "&A0.flushBuf") {
				buf = stripConv(ev.Args[1])
			}
		}
		n++
		ok := len(rr) == 1 && buf != nil && stripConv(rr[0].Args[3]) == buf
		good := false
		for _, f := range p.F {
			if f.Mask == EQ && (isNilT(f.B) && f.A.Op == "field" || isNilT(f.A) && f.B.Op == "field") {
				s := f.A.String() + f.B.String()
				good = good || strings.Contains(s, ".Err") && strings.Contains(s, "ReadRange")
			}
		}
		c.Ob(ok, "flush", fn, p.where(), "the bytes to flush are not those of the range: %s", p.Describe())
		c.Ob(good, "flush", fn, p.where(), "goes on although the range could not be read: %s", p.Describe())
	}
	c.Ob(n > 0, "flush", fn, x.w, "never prepares")

	fn = "makeWriteBytes"
	x = c.pathsOf(bdPkg, fn, "")
	const enc = "Encode(A0[5:], A2)"
	for _, p := range x.all() {
		r := stripConv(p.o.res[0])
		ok := (r.Op == "slice" || r.Op == "sub") && isT(r.Args[0], "A0") && (isNilT(r.Args[1]) || isZero(r.Args[1])) && isT(noConv(r.Args[2]), "len("+enc+") + 5")
		typ, ln := false, false
		for _, ev := range p.Evs {
			switch {
			case ev.Kind == "store":
				typ = isT(ev.Args[0], "&A0[4]") && isT(ev.Args[1], "A1")
				ok = ok && typ
			case ev.Kind == "copy":
				t := stripConv(ev.Args[1])
				ln = (isT(ev.Args[0], "A0") || isT(ev.Args[0], "A0[:4]") || isT(ev.Args[0], "A0[0:4]")) && t.Op == "be32" && isT(noConv(stripConv(t.Args[0])), "len("+enc+") + 1")
				ok = ok && ln
			case ev.Kind == "call" && baseName(ev.Name) == "Encode":
				ok = ok && isT(ev.Res, enc)
			}
		}
		c.Ob(ok && typ && ln, "record", fn, p.where(), "a record is not length, type and compressed bytes: %s %s", r, p.Describe())
	}

	fn = "BlockDB.Write"
	x = c.pathsOf(bdPkg, fn, "makeWriteBytes Serialize Write")
	n = 0
	for _, p := range x.success(2) {
		ev := p.theLoop()
		m := stripConv(p.o.res[0])
		ok := ev != nil && len(p.loopsOver("A1.AccountBlocks")) == 1 && len(ev.Loop.Iters) > 0 && strings.HasPrefix(m.Op, "mkmap")
		if ok {
			for _, st := range ev.Loop.Iters {
				n++
				q := p.iterPath(ev, st, nil)
				var set *Event
				for _, e := range q.Evs {
					if e.Kind == "mapset" {
						ok = ok && set == nil
						set = e
					}
				}
				ok = ok && set != nil && stripConv(set.Args[0]) == m && isT(set.Args[1], "A1.AccountBlocks[_].Hash") && isT(set.Args[2], "Write(A0.fm, makeWriteBytes(A0.snappyWriteBuffer, 1, Serialize(A1.AccountBlocks[_]).R0)).R0")
			}
		}
		c.Ob(ok, "record", fn, p.where(), "a block is not found under its location: %s", p.Describe())
	}
	c.Ob(n > 0, "record", fn, x.w, "never writes")
}

// loopCell: the value a loop keeps at an address.
func loopCell(ev *Event, addr string) *Term {
	for _, ph := range ev.Loop.Cells {
		if ph.Iter != nil && len(ph.Iter.Args) == 1 && isT(ph.Iter.Args[0], addr) {
			return ph.Iter
		}
	}
	return nil
}

// bdParse: the parser cuts the bytes into records of length, type and data,
// however they are split over the writes.
func (c *Ctx) bdParse() {
	fn := "blockFileParser.Write"
	x := c.pathsOf(bdPkg, fn, "")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "range", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	kinds := map[string]int{}
	for _, p := range x.all() {
		ev := p.theLoop()
		re := stripConv(p.o.res[0])
		if ev == nil {
			ob(p, isT(re, "ClosedErr") && p.Holds("A0.closed") || isNilT(re) && p.rel("len(A1) <= 0"), "takes no bytes")
			continue
		}
		b := Bind{"S": loopCell(ev, "&A0.blockSizeBufferPointer"), "T": loopCell(ev, "&A0.blockType"), "P": loopCell(ev, "&A0.blockBufferPointer"), "N": loopCell(ev, "&A0.blockSize"), "V": loopCell(ev, "&A0.blockBuffer")}
		for _, ph := range ev.Loop.Phis {
			if isZero(ph.Init) {
				b["R"] = ph.Iter
			}
		}
		miss := b["R"] == nil
		for _, v := range b {
			miss = miss || v == nil
		}
		if miss {
			ob(p, false, "keeps no position in the record")
			continue
		}
		p.B = b
		ob(p, isNilT(re) && p.rel("R >= len(A1)") && p.Holds("!A0.closed"), "leaves bytes unread")
		// data of the record so far, with the bytes A1[R:..] behind it
		joined := func(q *Path, t, to *Term) bool {
			t = stripConv(t)
			if t.Op == "append" {
				if len(t.Args) != 2 {
					return false
				}
				base := stripConv(t.Args[0])
				if base != b["V"] && !(isNilT(base) || strings.HasPrefix(base.Op, "mkslice") && isZero(base.Args[0])) {
					return false
				}
				if base != b["V"] && !q.rel0T(q.o.st.lenOf(b["V"], "len", types.Typ[types.Int])) {
					return false
				}
				t = stripConv(t.Args[1])
				if t.Op == "spread" {
					t = stripConv(t.Args[0])
				}
			} else if !q.rel0T(q.o.st.lenOf(b["V"], "len", types.Typ[types.Int])) {
				return false
			}
			lo, ln := q.span(t, "A1")
			if lo == nil || !q.same(lo, b["R"]) {
				return false
			}
			if ln == nil {
				return q.eq(to, "len(A1)")
			}
			return q.same(mkBinAdd(lo, ln), to)
		}
		for k, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, nil)
			q.B = b
			q.fn = x.f
			nx := func(v string) *Term { return p.carried(ev, k, b[v]) }
			same := func(vs string) bool {
				for _, v := range strings.Fields(vs) {
					if nx(v) != b[v] {
						return false
					}
				}
				return true
			}
			var sends, copies []*Event
			for _, e := range q.Evs {
				switch e.Kind {
				case "send":
					sends = append(sends, e)
				case "copy":
					copies = append(copies, e)
				}
			}
			ob(q, q.rel("R < len(A1)"), "reads behind the bytes")
			switch {
			case q.rel("S < 4"):
				kinds["size"]++
				ok := len(sends) == 0 && len(copies) == 1 && same("T P V")
				if ok {
					dlo, dln := q.span(copies[0].Args[0], "A0.blockSizeBuffer")
					slo, sln := q.span(copies[0].Args[1], "A1")
					ok = dlo != nil && slo != nil && dln == nil && q.same(dlo, b["S"]) && q.same(slo, b["R"]) && sln != nil
					if ok {
						q.B["K"] = sln
						ok = (q.rel("K == 4 - S") && q.rel("K <= len(A1) - R") || q.rel("K == len(A1) - R") && q.rel("K <= 4 - S")) && q.eq(nx("S"), "S + K") && q.eq(nx("R"), "R + K")
						full := q.rel("S + K >= 4")
						ok = ok && (full && isT(noConv(nx("N")), "rdbe32(A0.blockSizeBuffer) - 1") || q.rel("S + K < 4") && same("N"))
						delete(q.B, "K")
					}
				}
				ob(q, ok, "does not take the length")
			case q.rel("S >= 4") && q.rel("T == 0"):
				kinds["type"]++
				ob(q, len(sends) == 0 && len(copies) == 0 && same("S P N V") && q.eq(nx("R"), "R + 1") && isTB(nx("T"), "A1[I]", Bind{"I": b["R"]}), "does not take the type: %s", nx("T"))
			case q.rel("S >= 4") && q.F.possible(b["T"], kInt(0))&EQ == 0 && q.rel("N - P > len(A1) - R"):
				kinds["part"]++
				ob(q, len(sends) == 0 && len(copies) == 0 && same("S T N") && q.eq(nx("P"), "P + len(A1) - R") && q.eq(nx("R"), "len(A1)") && joined(q, nx("V"), nx("R")), "does not keep the part of a record: %s", nx("V"))
			case q.rel("S >= 4") && q.F.possible(b["T"], kInt(0))&EQ == 0 && q.rel("N - P <= len(A1) - R"):
				kinds["whole"]++
				ok := len(sends) == 1 && len(copies) == 0 && isT(sends[0].Args[0], "A0.bytesBuffer") && isZero(nx("S")) && isZero(nx("T")) && isZero(nx("P")) && (isNilT(nx("V")) || isZero(nx("V"))) && q.eq(nx("R"), "R + N - P")
				if ok {
					o := stripConv(sends[0].Args[1])
					f := func(n string) *Term { return stripConv(st.load(mkFA(o, n, nil))) }
					ok = localObj(o) && f("BlockType") == b["T"] && joined(q, f("Buffer"), nx("R")) && q.eq(f("Size"), "N + 5")
				}
				ob(q, ok, "does not pass on the record")
			default:
				ob(q, false, "does something else")
			}
		}
	}
	for _, k := range []string{"size", "type", "part", "whole"} {
		c.Ob(kinds[k] > 0, "range", fn, x.w, "no path: %s", k)
	}
	fn = "newBlockFileParser"
	x = c.pathsOf(bdPkg, fn, "")
	for _, p := range x.all() {
		r := stripConv(p.o.res[0])
		ok := localObj(r)
		if ok {
			f := func(n string) *Term { return stripConv(p.o.st.load(mkFA(r, n, nil))) }
			l, _ := i64(p.o.st.lenOf(f("blockSizeBuffer"), "len", types.Typ[types.Int]))
			ok = l == 4 && strings.HasPrefix(f("bytesBuffer").Op, "mkchan") && (isFalseT(f("closed")) || isZero(f("closed")))
		}
		c.Ob(ok, "range", fn, p.where(), "a new parser is not empty: %s", p.Describe())
	}
}

// rel0T: the value is known to be at most zero.
func (p *Path) rel0T(t *Term) bool { return p.order(t, kInt(0))&GT == 0 }

// bdGroup: the blocks of the range in order, grouped by snapshot block.
func (c *Ctx) bdGroup(fn, end string, last bool) {
	x := c.pathsOf(bdPkg, fn, "ReadRange Read maxLocation Deserialize Write Close WriteError")
	ob := func(p *Path, ok bool, f string, a ...interface{}) {
		c.Ob(ok, "range", fn, p.where(), f+": %s", append(a, p.Describe())...)
	}
	n := 0
	seen := map[string]int{}
	for _, p := range x.all() {
		var prod, cons *Event
		for _, ev := range p.Evs {
			if ev.Loop == nil {
				continue
			}
			isProd := false
			for _, st := range ev.Loop.Iters {
				isProd = isProd || len(calls(iterEvents(ev, st), "ReadRange")) > 0
			}
			if isProd {
				prod = ev
			} else {
				cons = ev
			}
		}
		if prod == nil || cons == nil {
			ob(p, false, "does not read the range")
			continue
		}
		n++
		// the reader
		for _, st := range prod.Loop.Iters {
			q := p.iterPath(prod, st, nil)
			rr := calls(q.Evs, "ReadRange")
			ok := len(rr) == 1 && isT(rr[0].Args[0], "A0.fm") && isT(rr[0].Args[1], "A1") && isT(rr[0].Args[2], end)
			if ok {
				parser := stripConv(rr[0].Args[3])
				ws := calls(q.Evs, "Write")
				if last && !q.Holds(end+" == nil") {
					ok = len(ws) == 2 && stripConv(ws[0].Args[0]) == parser && stripConv(ws[1].Args[0]) == parser &&
						isT(ws[1].Args[1], "Read(A0.fm, "+end+").R0") && isT(ws[0].Args[1], "bytesw(_, 0, 4, be32(len(Read(A0.fm, "+end+").R0)))")
				} else {
					ok = len(ws) == 0
				}
				es, cl := calls(q.Evs, "WriteError"), calls(q.Evs, "Close")
				if last && q.Holds("Read(A0.fm, _).R2 != nil") && q.Holds("Read(A0.fm, _).R2 != EOF") {
					ok = ok && len(es) == 1 && stripConv(es[0].Args[0]) == parser && isT(es[0].Args[1], "Read(A0.fm, _).R2")
				} else {
					ok = ok && len(es) == 0 && len(cl) == 1 && stripConv(cl[0].Args[0]) == parser
				}
			}
			ob(q, ok, "the reader does not pass on the range")
		}
		// the list L and the open group G
		var L, G *Term
		for _, ph := range cons.Loop.Phis {
			list := false
			for _, nx := range ph.Next {
				list = list || stripConv(nx).Op == "append"
			}
			if list {
				L = ph.Iter
			} else {
				G = ph.Iter
			}
		}
		if L == nil || G == nil {
			ob(p, false, "does not collect groups")
			continue
		}
		ob(p, isNilT(p.carried(cons, -1, L)) && isNilT(p.carried(cons, -1, G)), "does not start empty")
		added := func(t, g *Term) bool {
			t = stripConv(t)
			return t.Op == "append" && len(t.Args) == 2 && stripConv(t.Args[0]) == L && stripConv(t.Args[1]) == g
		}
		for k, st := range cons.Loop.Iters {
			q := p.iterPath(cons, st, nil)
			l, g := p.carried(cons, k, L), p.carried(cons, k, G)
			var rc *Term
			for _, ev := range q.Evs {
				if ev.Kind == "recv" {
					rc = ev.Args[0]
				}
			}
			if rc == nil {
				ob(q, false, "takes no record")
				continue
			}
			typ := 0
			for _, f := range q.F {
				if v, ok := i64(f.B); ok && f.Mask == EQ && strings.HasSuffix(f.A.String(), ".BlockType") {
					typ = int(v)
				}
			}
			var cur *Term // the group the record belongs to
			if q.isNilF(G, true) {
				cur = nil
			} else {
				cur = G
			}
			val := func(o *Term, f string) *Term { return stripConv(st.load(mkFA(o, f, nil))) }
			obj := func(t *Term, kind string) bool {
				t = stripConv(t)
				for _, d := range calls(q.Evs, "Deserialize") {
					if stripConv(d.Args[0]) == t && strings.Contains(d.Name, kind) && isT(d.Args[1], "Decode(_, X.Buffer).R0") && q.Holds("Deserialize(_, _) == nil") {
						return localObj(t)
					}
				}
				return false
			}
			dec := q.Holds("Decode(_, _).R1 == nil")
			switch typ {
			case 2:
				seen["snapshot"]++
				grp := cur
				if grp == nil && stripConv(l).Op == "append" && len(stripConv(l).Args) == 2 {
					grp = stripConv(stripConv(l).Args[1])
				}
				ob(q, dec && isNilT(g) && grp != nil && added(l, grp) && obj(val(grp, "SnapshotBlock"), "SnapshotBlock"), "a snapshot block does not close its group")
			case 1:
				seen["account"]++
				grp := cur
				if grp == nil {
					grp = stripConv(g)
				}
				ok := dec && l == L && stripConv(g) == grp && (cur != nil || localObj(grp))
				if ok {
					a := val(grp, "AccountBlocks")
					ok = a.Op == "append" && len(a.Args) == 2 && obj(a.Args[1], "AccountBlock")
					if cur == nil {
						ok = ok && isNilT(stripConv(a.Args[0]))
					} else {
						ok = ok && strings.HasSuffix(a.Args[0].String(), ".AccountBlocks)")
					}
				}
				ob(q, ok, "an account block is not added to its group")
			default:
				ob(q, dec && l == L && (cur != nil && stripConv(g) == cur || cur == nil && (isNilT(g) || localObj(stripConv(g)))), "an unknown record changes the groups")
			}
		}
		if isNilT(stripConv(p.o.res[1])) {
			r := stripConv(p.o.res[0])
			closed, noErr := false, false
			for _, f := range p.F {
				s := f.A.String() + f.B.String()
				closed = closed || strings.Contains(s, "recvok") && (f.Mask == NE && isTrueT(f.B) || f.Mask == EQ && isFalseT(f.B) || f.Mask == EQ && isFalseT(f.A))
				noErr = noErr || strings.Contains(s, ".err") && f.Mask == EQ && (isNilT(f.A) || isNilT(f.B))
			}
			ob(p, closed, "ends before the range is read")
			ob(p, noErr, "hides a read error")
			if p.isNilF(G, true) {
				ob(p, r == L, "returns %s", r)
			} else {
				ob(p, added(r, G), "drops the last group")
			}
			seen["ret"]++
		}
	}
	for _, k := range []string{"snapshot", "account", "ret"} {
		c.Ob(seen[k] > 0, "range", fn, x.w, "no path: %s", k)
	}
}

// isNilF: t is known to be nil (or, with nil false, not nil).
func (p *Path) isNilF(t *Term, isnil bool) bool {
	for _, f := range p.F {
		if (f.A == t && isNilT(f.B) || f.B == t && isNilT(f.A)) && (isnil && f.Mask == EQ || !isnil && f.Mask == NE) {
			return true
		}
	}
	return false
}

// bdUnits: single records and chunks.
func (c *Ctx) bdUnits() {
	fn := "BlockDB.ReadUnit"
	x := c.pathsOf(bdPkg, fn, "Read Deserialize")
	const R, D = "Read(A0.fm, A1)", "Decode(nil, Read(A0.fm, A1).R0[1:])"
	seen := map[string]int{}
	obj := func(p *Path, t *Term, kind string) bool {
		t = stripConv(t)
		for _, d := range calls(p.Evs, "Deserialize") {
			if stripConv(d.Args[0]) == t && strings.Contains(d.Name, kind) && isT(d.Args[1], D+".R0") && p.Holds("Deserialize(_, "+D+".R0) == nil") {
				return localObj(t)
			}
		}
		return false
	}
	for _, p := range x.all() {
		sb, ab, next, re := stripConv(p.o.res[0]), stripConv(p.o.res[1]), stripConv(p.o.res[2]), stripConv(p.o.res[3])
		if !isNilT(re) {
			c.Ob(p.Holds(R+".R2 != nil") || p.Holds(D+".R1 != nil") || p.Holds("Deserialize(_, "+D+".R0) != nil"), "read", fn, p.where(), "fails: %s", p.Describe())
			continue
		}
		ok := p.Holds(R+".R2 == nil") && isT(next, R+".R1")
		switch {
		case p.Holds("len(" + R + ".R0) <= 0"):
			ok = ok && isNilT(sb) && isNilT(ab)
		case p.Holds(R + ".R0[0] == 2"):
			seen["sb"]++
			ok = ok && p.Holds(D+".R1 == nil") && isNilT(ab) && obj(p, sb, "SnapshotBlock")
		case p.Holds(R + ".R0[0] == 1"):
			seen["ab"]++
			ok = ok && p.Holds(D+".R1 == nil") && isNilT(sb) && obj(p, ab, "AccountBlock")
		default:
			ok = ok && isNilT(sb) && isNilT(ab) && p.Holds(R+".R0[0] != 2") && p.Holds(R+".R0[0] != 1")
		}
		c.Ob(ok, "read", fn, p.where(), "does not return the record: %s", p.Describe())
	}
	c.Ob(seen["sb"] > 0 && seen["ab"] > 0, "read", fn, x.w, "never reads a block")

	fn = "BlockDB.ReadChunk"
	x = c.pathsOf(bdPkg, fn, "ReadUnit")
	n := 0
	for _, p := range x.success(2) {
		ev := p.theLoop()
		b, _ := p.anchored("ReadUnit", "ReadUnit(A0, X)")
		if ev == nil || b == nil {
			c.Ob(false, "read", fn, p.where(), "does not read records: %s", p.Describe())
			continue
		}
		n++
		X := stripConv(b["X"])
		r := stripConv(p.o.res[0])
		ok := localObj(r) && isTB(p.o.res[1], "ReadUnit(A0, X).R2", b)
		if ok {
			list := stripConv(p.o.st.load(mkFA(r, "AccountBlocks", nil)))
			ok = isTB(p.o.st.load(mkFA(r, "SnapshotBlock", nil)), "ReadUnit(A0, X).R0", b) && p.Holds("ReadUnit(A0, _).R0 != nil") && p.Holds("ReadUnit(A0, _).R3 == nil")
			for k, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				nx := stripConv(p.carried(ev, k, list))
				ok = ok && isTB(p.carried(ev, k, X), "ReadUnit(A0, X).R2", b) && q.Holds("ReadUnit(A0, _).R3 == nil") && q.Holds("ReadUnit(A0, _).R1 != nil") &&
					nx.Op == "append" && len(nx.Args) == 2 && stripConv(nx.Args[0]) == list && isTB(nx.Args[1], "ReadUnit(A0, X).R1", b)
			}
			ok = ok && isNilT(p.carried(ev, -1, list))
		}
		c.Ob(ok, "read", fn, p.where(), "does not return the blocks up to the next snapshot block: %s", p.Describe())
	}
	c.Ob(n > 0, "read", fn, x.w, "never reads a chunk")
}

// constLen: the length of a constant string, -1 for anything else.
func constLen(t *Term) int64 {
	t = stripConv(t)
	if t.Op == "const" {
		if u, err := strconv.Unquote(t.Sym); err == nil {
			return int64(len(u))
		}
	}
	return -1
}
