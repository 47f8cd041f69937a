package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"regexp"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A function specification in text form (one per function):
//
//	fn MethodReIssue.DoReceive          function (package fixed by the caller)
//	def T GetTokenByID(A1, $P.TokenId).R0
//	err 1                               index of the error result
//	ok COND                             success iff all ok-conditions hold
//	case COND && COND                   effects on success paths where the conditions hold
//	set KEY = VALUE                     exactly these storage writes
//	log ARGS                            exactly these logs
//	call CALL                           exactly these other effect calls
//	send TO; TYPE; AMOUNT; TOKEN; DATA  exactly these send blocks (result 0)
//	ret I PATTERN                       result I
//	data PATTERN                        A2.Data after the call (DoSend)
//	post A1.F = PATTERN                 what an input holds in the end
//	at NAME A1.F = PATTERN              what an input holds when NAME is called
//	alt NAME COND ? A : B               $NAME is A where COND holds and B elsewhere (every combination is a variant)
type fnSpec struct {
	fn      string
	err     int // -1: no error result
	oks     []string
	cases   []*caseSpec
	eff     bool // check effects exactly
	send    bool // result 0 lists send blocks
	data    bool // A2.Data is rewritten
	skip    []string
	mayfail []string // failing paths with this condition are right
	pos     []string // variant: only paths on which these conditions are not refuted
	neg     []string // variant: only paths on which these conditions are not established
	watch   []string // further calls that count as effects
	order   bool     // effects in the given order
	touch   []string // inputs that may be written
	only    []string // every call of this name is this one
}

type caseSpec struct {
	when  []string
	sets  [][2]string
	logs  []string
	calls []string
	sends [][]string
	rets  [][2]string
	data  string
	posts [][2]string
	ats   [][3]string
}

var macroRe = regexp.MustCompile(`\$[A-Za-z][A-Za-z0-9]*`)

func parseSpecs(text string) []*fnSpec {
	text = strings.ReplaceAll(text, "\\\n", " ")
	var out []*fnSpec
	head, block := "", ""
	lines := strings.Split(text, "\n")
	i := 0
	for ; i < len(lines) && !strings.HasPrefix(strings.TrimSpace(lines[i]), "fn "); i++ {
		head += lines[i] + "\n"
	}
	emit := func() {
		if block == "" {
			return
		}
		var conds []string
		seen := map[string]int{}
		for _, l := range strings.Split(block, "\n") {
			if l = strings.TrimSpace(l); strings.HasPrefix(l, "alt ") {
				_, rest, _ := strings.Cut(l[4:], " ")
				cond, _, _ := strings.Cut(rest, " ? ")
				if _, ok := seen[strings.TrimSpace(cond)]; !ok {
					seen[strings.TrimSpace(cond)] = len(conds)
					conds = append(conds, strings.TrimSpace(cond))
				}
			}
		}
		for m := 0; m < 1<<len(conds); m++ {
			out = append(out, parseSpecs1(head+block, seen, m)...)
		}
	}
	for ; i < len(lines); i++ {
		if strings.HasPrefix(strings.TrimSpace(lines[i]), "fn ") {
			emit()
			block = ""
		}
		block += lines[i] + "\n"
	}
	emit()
	return out
}

func parseSpecs1(text string, alts map[string]int, choice int) []*fnSpec {
	var out []*fnSpec
	global := map[string]string{}
	var local map[string]string
	var cur *fnSpec
	var cs *caseSpec
	var exp func(s string) string
	exp = func(s string) string {
		return macroRe.ReplaceAllStringFunc(s, func(m string) string {
			if v, ok := local[m[1:]]; ok {
				return v
			}
			if v, ok := global[m[1:]]; ok {
				return v
			}
			panic("spec macro " + m)
		})
	}
	acase := func() *caseSpec {
		if cs == nil {
			cs = &caseSpec{}
			cur.cases = append(cur.cases, cs)
		}
		return cs
	}
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		if l == "" || strings.HasPrefix(l, "#") {
			continue
		}
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		if kw == "def" {
			n, v, _ := strings.Cut(rest, " ")
			if cur == nil {
				global[n] = exp(strings.TrimSpace(v))
			} else {
				local[n] = exp(strings.TrimSpace(v))
			}
			continue
		}
		if kw == "alt" {
			n, v, _ := strings.Cut(rest, " ")
			cond, v, ok1 := strings.Cut(v, " ? ")
			a, b, ok2 := strings.Cut(v, " : ")
			if !ok1 || !ok2 {
				panic("spec alt " + l)
			}
			cond = strings.TrimSpace(cond)
			if choice>>alts[cond]&1 == 0 {
				local[n] = exp(strings.TrimSpace(a))
				cur.pos = append(cur.pos, exp(cond))
			} else {
				local[n] = exp(strings.TrimSpace(b))
				cur.neg = append(cur.neg, exp(cond))
			}
			continue
		}
		if kw == "fn" {
			cur = &fnSpec{fn: rest, err: -1}
			local = map[string]string{}
			cs = nil
			out = append(out, cur)
			if strings.HasSuffix(rest, ".DoReceive") {
				cur.err, cur.eff, cur.send = 1, true, true
			}
			if strings.HasSuffix(rest, ".DoSend") {
				cur.err, cur.eff, cur.data = 0, true, true
			}
			if strings.HasSuffix(rest, ".GetFee") || strings.HasSuffix(rest, ".GetSendQuota") {
				cur.err, cur.eff = 1, true
			}
			continue
		}
		rest = exp(rest)
		switch kw {
		case "err":
			cur.err = atoi(rest)
		case "plain":
			// no convention about results: every path is judged by its case
			cur.err, cur.send = -1, false
		case "mayfail":
			cur.mayfail = append(cur.mayfail, rest)
		case "skip":
			cur.skip = append(cur.skip, rest)
		case "ok":
			cur.oks = append(cur.oks, rest)
		case "effects":
			cur.eff = true
		case "watch":
			cur.eff = true
			cur.watch = append(cur.watch, strings.Fields(rest)...)
		case "touch":
			cur.touch = append(cur.touch, rest)
		case "ordered":
			cur.order = true
		case "only":
			cur.only = append(cur.only, rest)
		case "post":
			k, v, _ := strings.Cut(rest, " = ")
			acase().posts = append(acase().posts, [2]string{strings.TrimSpace(k), strings.TrimSpace(v)})
		case "at":
			n, kv, _ := strings.Cut(rest, " ")
			k, v, _ := strings.Cut(kv, " = ")
			acase().ats = append(acase().ats, [3]string{n, strings.TrimSpace(k), strings.TrimSpace(v)})
		case "case":
			cs = &caseSpec{}
			if rest != "" {
				cs.when = strings.Split(rest, " && ")
			}
			cur.cases = append(cur.cases, cs)
		case "set":
			k, v, _ := strings.Cut(rest, " = ")
			if strings.TrimSpace(v) == "nil" {
				v = "empty"
			}
			acase().sets = append(acase().sets, [2]string{strings.TrimSpace(k), strings.TrimSpace(v)})
		case "log":
			acase().logs = append(acase().logs, rest)
		case "call":
			acase().calls = append(acase().calls, rest)
		case "send":
			f := strings.Split(rest, ";")
			for i := range f {
				f[i] = strings.TrimSpace(f[i])
			}
			if len(f) == 5 {
				f = append(f, "A2.AccountAddress")
			}
			if len(f) != 6 {
				panic("spec send " + rest)
			}
			acase().sends = append(acase().sends, f)
			cur.send = true
		case "ret":
			i, v, _ := strings.Cut(rest, " ")
			acase().rets = append(acase().rets, [2]string{i, strings.TrimSpace(v)})
		case "data":
			acase().data = rest
		default:
			panic("spec keyword " + kw)
		}
	}
	return out
}

func atoi(s string) int {
	n, err := strconv.Atoi(strings.TrimSpace(s))
	if err != nil {
		panic("spec number " + s)
	}
	return n
}

var effectCalls = []string{"SetValue", "SubBalance", "AddBalance", "AddLog", "SetBalance", "SetContractMeta", "SetContractCode", "AddUnconfirmed", "SetCallDepth", "Reset", "saveWithdrawRewardAddress", "addWithdrawRewardAddress", "deleteWithdrawRewardAddress"}

func (c *Ctx) mayFail(s *fnSpec, ps []*Path) []*Path {
	var out []*Path
next:
	for _, p := range ps {
		for _, k := range s.mayfail {
			if k == "true" || whenHolds(p.norm().Path, strings.Split(k, " && ")) {
				continue next
			}
		}
		out = append(out, p)
	}
	return out
}

// specFn decides one function specification.
func (c *Ctx) specFn(e *Engine, pkg string, s *fnSpec, rule string) {
	f := c.Func(pkg, s.fn)
	if f == nil {
		return
	}
	c.specOuts(f, c.Paths(e, f), s, rule)
}

// specOuts compares the outcomes of f (or of a function value built by f) with the specification.
func (c *Ctx) specOuts(f *ssa.Function, outs []Outcome, s *fnSpec, rule string) {
	for _, o := range s.only {
		name, _, _ := strings.Cut(o, "(")
		n := 0
		for _, p := range c.all(outs) {
			walkEvents(p.Evs, func(ev *Event) {
				if ev.Kind == "call" && baseName(ev.Name) == name {
					n++
					c.Ob(p.callIs(ev, o), rule+"-key", s.fn, c.P.pos(ev.Pos), "%s", trunc(name+"("+joinT(ev.Args)+")", 400))
				}
			})
		}
		c.Ob(n > 0, rule+"-key", s.fn, c.P.pos(f.Pos()), "no call %s", o)
	}
	var yes []*Path
	if s.err >= 0 {
		yes = c.success(outs, s.err)
		no := c.failure(outs, s.err)
		if len(s.oks) == 1 && s.oks[0] == "false" {
			c.Ob(len(c.skipPaths(s, yes)) == 0 && len(no) > 0, rule+"-guard", s.fn, c.P.pos(f.Pos()), "the method can succeed")
			return
		}
		c.iff(rule+"-guard", s.fn, c.skipPaths(s, yes), c.mayFail(s, c.skipPaths(s, no)), s.oks...)
		for _, p := range no {
			if s.send {
				r := stripConv(p.o.res[0])
				c.Ob(isNilT(r), rule+"-guard", s.fn, p.where(), "a failing call returns send blocks: %v", r)
			}
		}
	} else {
		yes = c.all(outs)
	}
	checked := 0
	defer func() {
		c.Ob(checked > 0, rule, s.fn, c.P.pos(f.Pos()), "no path can be compared with the specification")
	}()
	for _, p := range c.skipPaths(s, yes) {
		if !hashLen(p) {
			continue
		}
		checked++
		n := p.norm()
		cases := s.cases
		if len(cases) == 0 {
			cases = []*caseSpec{{}}
		}
		why := ""
		ok := false
		for _, k := range cases {
			if !whenHolds(n.Path, k.when) {
				continue
			}
			w := c.caseMatches(p, s, k)
			if w == "" {
				w = c.inputsUntouched(p, f, s, k)
			}
			if w == "" {
				ok = true
				break
			}
			why += w + "; "
		}
		if why == "" && !ok {
			why = "no specified case applies"
		}
		if len(why) > 700 {
			why = why[:700] + "…"
		}
		c.Ob(ok, rule, s.fn, p.where(), "%s: %s", why, p.Describe())
	}
}

// neverFlipped: the path needs a flag to differ from the only value that loops
// ever give it.
func (p *Path) neverFlipped() bool {
	for _, f := range p.F {
		if f.A.Op != "iter" || f.Mask != EQ && f.Mask != NE || !isTrueT(f.B) {
			continue
		}
		v := p.o.st.flagOf(f.A, map[*Term]bool{})
		if v != nil && isTrueT(v) != (f.Mask == EQ) {
			return true
		}
	}
	return false
}

// flagOf: the constant that a loop-carried flag always is.
func (st *State) flagOf(t *Term, seen map[*Term]bool) *Term {
	if t.Op == "const" {
		return t
	}
	if t.Op != "iter" {
		return nil
	}
	li, ph := st.cellPhi(t)
	if ph == nil || seen[t] || len(ph.Next) != len(li.Iters) {
		return nil
	}
	seen[t] = true
	defer delete(seen, t)
	v := st.flagOf(ph.Init, seen)
	for i, it := range li.Iters {
		n := ph.Next[i]
		if n == t || v == nil {
			continue
		}
		if w := it.flagIn(n, t, v, seen); w != v {
			return nil
		}
	}
	return v
}

// flagIn: the value of n inside the loop that carries acc, given that acc is v.
func (st *State) flagIn(n, acc, v *Term, seen map[*Term]bool) *Term {
	if n == acc {
		return v
	}
	if n.Op != "iter" {
		return st.flagOf(n, seen)
	}
	li, ph := st.cellPhi(n)
	if ph == nil || len(ph.Next) != len(li.Iters) {
		return nil
	}
	w := st.flagIn(ph.Init, acc, v, seen)
	for i, it := range li.Iters {
		if m := ph.Next[i]; m != n && it.flagIn(m, n, w, seen) != w {
			return nil
		}
	}
	return w
}

func (c *Ctx) skipPaths(s *fnSpec, ps []*Path) []*Path {
	var out []*Path
next:
	for _, p := range ps {
		if p.neverFlipped() {
			continue
		}
		for _, k := range s.skip {
			if k == "panic" {
				if recovered(p) {
					continue next
				}
				continue
			}
			if p.Holds(k) {
				continue next
			}
		}
		if len(s.pos)+len(s.neg) > 0 {
			n := p.norm().Path
			for _, k := range s.pos {
				for _, k := range strings.Split(k, " && ") {
					if condFails(n, k) {
						continue next
					}
				}
			}
			for _, k := range s.neg {
				if whenHolds(n, strings.Split(k, " && ")) {
					continue next
				}
			}
		}
		out = append(out, p)
	}
	return out
}

func whenHolds(p *Path, when []string) bool {
	for _, w := range when {
		w = strings.TrimSpace(w)
		if !condHolds(p, w) {
			return false
		}
	}
	return true
}

// loadPath: the value of A1.F.G in a state; embedded structs are parts of the
// object, pointers are followed.
func (c *Ctx) loadPath(st *State, f *ssa.Function, path string) *Term {
	path = strings.TrimPrefix(path, "*")
	n := atoi(path[1:2])
	t := param(n, nil)
	var v *Term
	fs := strings.Split(path, ".")[1:]
	var typ types.Type
	if n < len(f.Params) {
		typ = f.Params[n].Type()
	}
	for i, name := range fs {
		if pt := pointee(typ); pt != nil {
			typ = pt
		}
		var ft types.Type
		if typ != nil {
			if str, ok := typ.Underlying().(*types.Struct); ok {
				for j := 0; j < str.NumFields(); j++ {
					if str.Field(j).Name() == name {
						ft = str.Field(j).Type()
					}
				}
			}
		}
		if typ = ft; i == len(fs)-1 {
			break
		}
		if ft != nil {
			if _, ok := ft.Underlying().(*types.Struct); ok {
				t = mkFA(t, name, ft)
				continue
			}
		}
		t = st.load(mkFA(t, name, nil2))
	}
	if len(fs) == 0 {
		v = st.load(t)
	} else {
		v = st.load(mkFA(t, fs[len(fs)-1], nil2))
	}
	if isBigPtr(v.Typ) {
		if b := st.big(v); b != nil {
			v = b
		}
	} else if b := st.big(v); b != nil && b.Op != "field" && b != v && b.Op != "bigc" {
		v = b
	}
	return v
}

// inputsUntouched: the call writes its inputs and shared state only as
// specified (A2.Data in DoSend, and the post lines).
func (c *Ctx) inputsUntouched(p *Path, f *ssa.Function, s *fnSpec, k *caseSpec) string {
	why := ""
	walkEvents(p.Evs, func(ev *Event) {
		if ev.Kind != "store" && ev.Kind != "bigset" && ev.Kind != "copy" {
			return
		}
		r := ev.Args[0].root()
		if r.Op != "param" && r.Op != "global" {
			return
		}
		if s.data && ev.Kind == "store" && ev.Args[0].String() == "&A2.Data" {
			return
		}
		for _, q := range k.posts {
			if isT(ev.Args[0], q[0]) || isT(ev.Args[0], "&"+q[0]) || strings.TrimLeft(ev.Args[0].String(), "&") == q[0] || "*"+ev.Args[0].String() == q[0] {
				return
			}
		}
		for _, q := range k.ats {
			if strings.TrimLeft(ev.Args[0].String(), "&") == q[1] || "*"+ev.Args[0].String() == q[1] {
				return
			}
		}
		for _, q := range s.touch {
			if isT(ev.Args[0], q) {
				return
			}
		}
		why = "writes its input or shared state: " + ev.Kind + " " + ev.Name + trunc(joinT(ev.Args), 200) + " at " + c.P.pos(ev.Pos)
	})
	if why != "" {
		return why
	}
	for _, q := range k.ats {
		n := 0
		for _, ev := range p.Evs {
			if ev.Kind == "call" && baseName(ev.Name) == q[0] {
				n++
				if v := c.loadPath(ev.St, f, q[1]); !p.isV(v, q[2]) {
					return q[1] + " is " + p.showV(v) + " when " + q[0] + " is called"
				}
			}
		}
		if n == 0 {
			return q[0] + " is not called"
		}
	}
	for _, q := range k.posts {
		v := c.loadPath(p.o.st, f, q[0])
		if !p.isV(v, q[1]) {
			return q[0] + " becomes " + p.showV(v)
		}
	}
	return ""
}

// effectsMatch: the effect calls of the path are exactly the specified ones.
func (c *Ctx) effectsMatch(p *Path, s *fnSpec, k *caseSpec) string {
	watched := func(n string) bool {
		for _, l := range [][]string{effectCalls, s.watch} {
			for _, w := range l {
				if n == w {
					return true
				}
			}
		}
		return false
	}
	has := func(evs []*Event) string {
		r := ""
		walkEvents(evs, func(ev *Event) {
			if n := effectName(ev); n != "" && watched(n) {
				r = n
			}
		})
		return r
	}
	// "if COND ? CALL": only where the conditions hold; "last CALL": after
	// everything else
	var want []string
	after := map[int]bool{}
	for _, a := range k.calls {
		if strings.HasPrefix(a, "if ") {
			cs, body, _ := strings.Cut(a[3:], " ? ")
			n := p.norm().Path
			holds, fails := true, false
			for _, x := range strings.Split(cs, " && ") {
				holds = holds && condHolds(n, strings.TrimSpace(x))
				fails = fails || condFails(n, strings.TrimSpace(x))
			}
			if fails {
				continue
			}
			if !holds {
				return "not decided: " + cs
			}
			a = strings.TrimSpace(body)
		}
		if strings.HasPrefix(a, "last ") {
			a = a[5:]
			after[len(want)] = true
		}
		want = append(want, a)
	}
	usedS, usedL, usedC := make([]bool, len(k.sets)), make([]bool, len(k.logs)), make([]bool, len(want))
	last := -1
	closed := false
next:
	for _, ev := range p.Evs {
		if ev.Kind == "loop" {
			n := has([]*Event{ev})
			if n == "" {
				continue
			}
			if closed {
				return "too late: " + n + " in a loop"
			}
			var idx []int
			var bodies []string
			for i, a := range want {
				if !usedC[i] && isLoopSpec(a) {
					idx, bodies = append(idx, i), append(bodies, a)
				}
			}
			m := c.loopMatch(p, ev, bodies, has, 0)
			if len(m) == 0 {
				return n + " inside a loop: " + loopTrace
			}
			for _, j := range m {
				i := idx[j]
				if s.order && i < last {
					return "out of order: " + n + " in a loop"
				}
				last, usedC[i] = i, true
			}
			continue next
		}
		if n := effectName(ev); n == "" || !watched(n) {
			continue
		}
		if closed && len(after) > 0 {
			ok := false
			for i := range after {
				ok = ok || !usedC[i] && p.callIs(ev, want[i])
			}
			if !ok {
				return "too late: " + effectName(ev) + trunc(joinT(ev.Args), 300)
			}
		}
		switch baseName(ev.Name) {
		case "SetValue":
			for i, kv := range k.sets {
				if !usedS[i] && len(ev.Args) == 3 && p.isV(ev.Args[1], kv[0]) && p.isV(ev.Args[2], kv[1]) {
					usedS[i] = true
					continue next
				}
			}
			return "unspecified storage write " + trunc(ev.Args[1].String(), 200) + " = " + trunc(ev.Args[2].String(), 400)
		case "AddLog":
			if len(ev.Args) != 2 {
				break // another method of that name
			}
			for i, a := range k.logs {
				if !usedL[i] && len(ev.Args) == 2 && isT(ev.Args[1], "NewLog("+a+")") {
					usedL[i] = true
					continue next
				}
			}
			if len(k.logs) > 0 || len(k.calls) == 0 {
				return "unspecified log " + trunc(ev.Args[1].String(), 400)
			}
		}
		for i, a := range want {
			if !usedC[i] && !isLoopSpec(a) && p.callIs(ev, a) {
				if s.order && i < last {
					return "out of order: " + baseName(ev.Name) + trunc(joinT(ev.Args), 300)
				}
				last, usedC[i] = i, true
				closed = closed || after[i]
				continue next
			}
		}
		return "unspecified effect " + baseName(ev.Name) + trunc(joinT(ev.Args), 300)
	}
	for i, u := range usedS {
		if !u {
			return "storage is not written: " + trunc(k.sets[i][0], 100) + " = " + trunc(k.sets[i][1], 300)
		}
	}
	for i, u := range usedL {
		if !u {
			return "no log " + trunc(k.logs[i], 300)
		}
	}
	for i, u := range usedC {
		if !u && !p.loopEmpty(want[i]) {
			return "missing " + trunc(want[i], 300)
		}
	}
	return ""
}

// effectName: the name under which an event counts as an effect.
func effectName(ev *Event) string {
	switch ev.Kind {
	case "call":
		return baseName(ev.Name)
	case "mapset", "mapdel", "close":
		return ev.Kind
	}
	return ""
}

func isLoopSpec(a string) bool {
	return strings.HasPrefix(a, "each ") || strings.HasPrefix(a, "range ") || strings.HasPrefix(a, "scan ")
}

// loopEmpty: the path knows that the sequence or map of the loop has nothing.
func (p *Path) loopEmpty(a string) bool {
	kind, rest, _ := strings.Cut(a, " ")
	if kind != "each" && kind != "range" {
		return false
	}
	seq, _, _ := strings.Cut(rest, " : ")
	seq = strings.TrimSpace(seq)
	n := p.norm().Path
	return condHolds(n, "len("+seq+") == 0") || condHolds(n, seq+" == nil")
}

// scanOf: the loop visits every entry of a store iterator; back: from the last
// to the first.
func (p *Path) scanOf(ev *Event) (it *Term, back bool) {
	if ev.Kind != "loop" || len(ev.Loop.Iters) == 0 {
		return nil, false
	}
	is := func(t *Term, n string) *Term {
		if t.Op == "call" && baseName(t.Sym) == n && len(t.Args) == 1 {
			return t.Args[0]
		}
		return nil
	}
	moves := func(st *State, x *Term) (n int) {
		walkEvents(iterEvents(ev, st), func(e *Event) {
			if e.Kind == "call" && len(e.Args) > 0 && e.Args[0] == x {
				switch baseName(e.Name) {
				case "Next", "Prev", "Seek", "Last", "First":
					n++
				}
			}
		})
		return
	}
	// for iter.Next()
	for _, f := range p.F {
		x := is(f.A, "Next")
		if x == nil || !isTrueT(f.B) || f.Mask != NE {
			continue
		}
		ok := true
		for _, st := range ev.Loop.Iters {
			t := false
			for _, g := range st.facts {
				t = t || is(g.A, "Next") == x && isTrueT(g.B) && g.Mask == EQ
			}
			ok = ok && t && moves(st, x) == 1
		}
		if ok {
			return x, false
		}
	}
	// for ok := iter.Last(); ok; ok = iter.Prev()
	for _, ph := range ev.Loop.Phis {
		x := is(ph.Init, "Last")
		if x == nil || len(ph.Next) != len(ev.Loop.Iters) || p.F.decide(ph.Iter) != 0 {
			continue
		}
		ok := true
		for i, st := range ev.Loop.Iters {
			ok = ok && is(ph.Next[i], "Prev") == x && moves(st, x) == 1 && st.facts.decide(ph.Iter) == 1
		}
		if ok {
			return x, true
		}
	}
	return nil, false
}

// scanList: t is the list that INIT becomes when for every entry of a store
// iterator (back: from the last) the element of the first alternative
// {condition, element} that holds is appended.
func (p *Path) scanList(t *Term, init string, it string, back bool, alts [][2]string) string {
	v := stripConv(t)
	for _, ev := range p.Evs {
		x, b := p.scanOf(ev)
		if x == nil {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			if ph.Iter != v {
				continue
			}
			if !p.isV(x, it) {
				return "the list is made from " + trunc(x.String(), 200)
			}
			if b != back {
				return "the order is reversed"
			}
			if init == "empty" && len(p.segs(ph.Init)) != 0 || init != "empty" && !p.isV(ph.Init, init) {
				return "the list starts as " + ph.Init.String()
			}
			for i, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				n := q.norm().Path
				nx := stripConv(ph.Next[i])
				ok := false
				for _, a := range alts {
					if a[0] != "" && condFails(n, a[0]) {
						continue
					}
					ok = a[0] == "" || condHolds(n, a[0])
					if a[1] == "" {
						ok = ok && nx == ph.Iter
					} else {
						ok = ok && nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == ph.Iter && q.isV(nx.Args[1], a[1])
					}
					break
				}
				if !ok {
					return "an entry becomes " + trunc(nx.String(), 300)
				}
			}
			return ""
		}
	}
	return "not a list of all entries: " + trunc(t.String(), 100)
}

// extremum: t is the smallest (op "<") or largest (">") of INIT and the value
// VAL of every entry of the loops.
func (p *Path) extremum(t *Term, op, init, val string) bool {
	v := stripConv(t)
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			if ph.Iter != v {
				continue
			}
			if !p.isV(ph.Init, init) {
				return false
			}
			for i, st := range ev.Loop.Iters {
				q := p.iterPath(ev, st, nil)
				nx := stripConv(ph.Next[i])
				switch {
				case nx == ph.Iter:
					found := false
					for _, f := range q.F {
						a, b, m := f.A, f.B, f.Mask
						if b == ph.Iter {
							a, b, m = b, a, flip(m)
						}
						if a == ph.Iter && q.isV(b, val) {
							found = found || op == "<" && m&GT == 0 || op == ">" && m&LT == 0
						}
					}
					if !found {
						return false
					}
				case q.isV(nx, val):
					found := false
					for _, f := range q.F {
						a, b, m := f.A, f.B, f.Mask
						if b == ph.Iter {
							a, b, m = b, a, flip(m)
						}
						if a == ph.Iter && q.isV(b, val) {
							found = found || op == "<" && m&LT == 0 || op == ">" && m&GT == 0
						}
					}
					if !found {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

// loopTrace says why the last loop that was looked at does not fit.
var loopTrace string

// loopMatch: the loop visits every element of a sequence (each SEQ) or map
// (range M), and the effects of its body are exactly those of the specs whose
// conditions hold for the element; returns the specs that this loop meets
// ("each SEQ : [COND && COND ?] CALL" or a nested "each"), none if it does
// anything else.
func (c *Ctx) loopMatch(p *Path, ev *Event, specs []string, has func([]*Event) string, depth int) []int {
	type cand struct {
		i     int
		conds []string
		body  string
	}
	var cs []cand
	var idx *Term
	for i, s := range specs {
		kind, rest, _ := strings.Cut(s, " ")
		seq, body, _ := strings.Cut(rest, " : ")
		if kind == "scan" {
			if it, _ := p.scanOf(ev); it != nil && p.isV(it, strings.TrimSpace(seq)) {
				x := cand{i: i, body: strings.TrimSpace(body)}
				if a, b, ok := strings.Cut(body, " ? "); ok {
					x.conds, x.body = strings.Split(a, " && "), strings.TrimSpace(b)
				}
				cs = append(cs, x)
			}
			continue
		}
		for _, l := range p.loopsOver(strings.TrimSpace(seq)) {
			if l.ev != ev || !l.full || (kind == "range") != (l.idx == nil) {
				continue
			}
			x := cand{i: i, body: strings.TrimSpace(body)}
			if a, b, ok := strings.Cut(body, " ? "); ok && (!isLoopSpec(x.body) || strings.Index(body, " ? ") < strings.Index(body, " : ")) {
				x.conds, x.body = strings.Split(a, " && "), strings.TrimSpace(b)
			}
			cs = append(cs, x)
			idx = l.idx
			break
		}
	}
	if len(cs) == 0 {
		loopTrace = "no specified loop"
		return nil
	}
	var got []map[int]bool
	var fails []map[int]bool
	for _, st := range ev.Loop.Iters {
		q := p.iterPath(ev, st, idx)
		n := q.norm().Path
		g, f, h := map[int]bool{}, map[int]bool{}, map[int]bool{}
		for _, x := range cs {
			h[x.i] = true
			for _, k := range x.conds {
				f[x.i] = f[x.i] || condFails(n, strings.TrimSpace(k))
				h[x.i] = h[x.i] && condHolds(n, strings.TrimSpace(k))
			}
		}
		for _, e := range q.Evs {
			if has([]*Event{e}) == "" {
				continue
			}
			hit := false
			if e.Kind == "loop" {
				var ids []int
				var nested []string
				for _, x := range cs {
					if h[x.i] && !g[x.i] && isLoopSpec(x.body) {
						ids, nested = append(ids, x.i), append(nested, x.body)
					}
				}
				for _, j := range c.loopMatch(q, e, nested, has, depth+1) {
					g[ids[j]], hit = true, true
				}
				if !hit {
					return nil
				}
				continue
			}
			for _, x := range cs {
				if h[x.i] && !g[x.i] && !isLoopSpec(x.body) && q.callIs(e, x.body) {
					g[x.i], hit = true, true
					break
				}
			}
			if !hit {
				loopTrace = effectName(e) + " " + trunc(joinT(e.Args), 400)
				return nil
			}
		}
		got, fails = append(got, g), append(fails, f)
	}
	var out []int
	for _, x := range cs {
		any := false
		for _, g := range got {
			any = any || g[x.i]
		}
		if !any {
			continue
		}
		for k, g := range got {
			if !g[x.i] && !fails[k][x.i] {
				loopTrace = "not done for every element: " + x.body
				return nil
			}
		}
		out = append(out, x.i)
	}
	return out
}

// iterPath: one way through a loop body, as a path; the loop index is bound
// to I (J, P in nested loops).
func (p *Path) iterPath(ev *Event, st *State, idx *Term) *Path {
	q := &Path{c: p.c, fn: p.fn, o: Outcome{st: st, pos: ev.Pos}, F: st.facts, Evs: iterEvents(ev, st)}
	if idx != nil {
		b := Bind{}
		for k, v := range p.B {
			b[k] = v
		}
		for _, n := range []string{"I", "J", "P"} {
			if _, used := b[n]; !used {
				b[n] = idx
				break
			}
		}
		q.B = b
	} else {
		q.B = p.B
	}
	return q
}

// isList: t is the list described by the parts (separated by ";;"):
//
//	ELEM                              one element
//	all SEQ                           the elements of SEQ
//	each SEQ : ELEM                   one for every element of SEQ (index I)
//	each SEQ : C && C ? ELEM | C ? E  the first alternative whose conditions hold, none otherwise
func (p *Path) isList(t *Term, spec string) bool {
	var parts []string
	for _, x := range strings.Split(spec, ";;") {
		if x = strings.TrimSpace(x); x != "" {
			parts = append(parts, x)
		}
	}
	if u := stripConv(t); u.Op == "list" {
		var ss []Seg
		for _, a := range u.Args {
			ss = append(ss, Seg{T: a, Byte: true})
		}
		if p.segsAre(ss, parts) {
			return true
		}
	}
	return p.segsAre(dropEmpty(p.segs(t)), parts)
}

func (p *Path) segsAre(ss []Seg, parts []string) bool {
	if len(ss) != len(parts) {
		return false
	}
	for i, s := range ss {
		w := parts[i]
		switch {
		case strings.HasPrefix(w, "each "), strings.HasPrefix(w, "times "):
			if s.Loop == nil || !p.eachIs(s.Loop, w) {
				return false
			}
		case s.Loop != nil:
			return false
		case strings.HasPrefix(w, "all "):
			if s.Byte || !p.isV(s.T, w[4:]) {
				return false
			}
		default:
			if !s.Byte || !p.isV(s.T, w) {
				return false
			}
		}
	}
	return true
}

func (p *Path) eachIs(l *seqSegs, spec string) bool {
	seq, body, _ := strings.Cut(spec, " : ")
	if !l.Full || len(l.Its) == 0 || len(l.Body) != len(l.Its) {
		return false
	}
	if n := strings.TrimPrefix(seq, "times "); n != seq {
		if l.Bound == nil {
			return false
		}
		b, ok := matchT(pat(strings.TrimSpace(n)), l.Bound, p.B.copy())
		if !ok {
			return false
		}
		p.bindAll(b)
	} else {
		seq = strings.TrimSpace(strings.TrimPrefix(seq, "each "))
		if l.Over == nil {
			return false
		}
		b, ok := p.matchV(l.Over, seq)
		if !ok {
			b, ok = matchT(pat(seq), stripDeref(l.Over), p.B.copy())
		}
		if !ok {
			return false
		}
		p.bindAll(b)
	}
	alts := strings.Split(body, " | ")
	for k, st := range l.Its {
		q := p.iterPath(l.Ev, st, l.Idx)
		n := q.norm().Path
		ok := false
		none := true
		for _, a := range alts {
			var conds []string
			el := a
			if x, y, cut := strings.Cut(a, " ? "); cut {
				conds, el = strings.Split(x, " && "), y
			}
			holds, fails := true, false
			for _, c := range conds {
				holds = holds && condHolds(n, strings.TrimSpace(c))
				fails = fails || condFails(n, strings.TrimSpace(c))
			}
			none = none && fails
			if holds && q.segsAre(dropEmpty(l.Body[k]), []string{strings.TrimSpace(el)}) {
				ok = true
				break
			}
		}
		if !ok && !(none && len(dropEmpty(l.Body[k])) == 0) {
			return false
		}
	}
	return true
}

func linPlus(a, b linForm, k constant.Value) linForm {
	r := linForm{constant.BinaryOp(a.c, token.ADD, constant.BinaryOp(b.c, token.MUL, k)), map[*Term]constant.Value{}}
	for t, v := range a.ks {
		r.ks[t] = v
	}
	for t, v := range b.ks {
		w := constant.BinaryOp(v, token.MUL, k)
		if o, ok := r.ks[t]; ok {
			w = constant.BinaryOp(o, token.ADD, w)
		}
		if constant.Sign(w) == 0 {
			delete(r.ks, t)
		} else {
			r.ks[t] = w
		}
	}
	return r
}

func mentions(t, x *Term) bool {
	if t == x {
		return true
	}
	for _, a := range t.Args {
		if mentions(a, x) {
			return true
		}
	}
	return false
}

func (p *Path) bindAll(b Bind) {
	if p.B == nil {
		p.B = Bind{}
	}
	for k, v := range b {
		p.B[k] = v
	}
}

// sums rewrites loop accumulators into SUM(seq, step) terms.
func (p *Path) sums(t *Term) *Term {
	t = stripConv(t)
	switch t.Op {
	case "lin", "iter", "iterm":
	case "bin", "prod", "call", "big", "un":
		var as []*Term
		ch := false
		for _, a := range t.Args {
			b := p.sums(a)
			ch = ch || b != a
			as = append(as, b)
		}
		if ch {
			return mk(t.Op, t.Sym, t.Typ, as...)
		}
		return t
	default:
		return t
	}
	if t.Op == "lin" {
		l := toLin(t)
		r := linForm{l.c, map[*Term]constant.Value{}}
		for a, k := range l.ks {
			r = linPlus(r, toLin(p.sums(a)), k)
		}
		return fromLin(r, t.Typ)
	}
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		over, idx, full := p.loopSubject(ev)
		if over == nil || !full {
			continue
		}
		for _, ph := range append(append([]PhiInfo{}, ev.Loop.Phis...), ev.Loop.Cells...) {
			if ph.Iter != t || len(ph.Next) == 0 || len(ph.Next) != len(ev.Loop.Iters) || ph.Iter == idx {
				continue
			}
			var step *Term
			for _, n := range ph.Next {
				d := fromLin(linPlus(toLin(stripConv(n)), toLin(ph.Iter), constant.MakeInt64(-1)), nil)
				if step != nil && step != d {
					return t
				}
				step = d
			}
			if mentions(step, ph.Iter) {
				return t
			}
			ini := ph.Init
			if ini != nil && (ini.Op == "bigc" || ini.Op == "deref" && ini.Args[0].Op == "bigc") {
				ini = stripDeref(ini).Args[0]
			}
			return fromLin(linPlus(toLin(p.sums(ini)), toLin(mk("call", "SUM", nil, over, idx, step)), constant.MakeInt64(1)), nil)
		}
	}
	return t
}

func (p *Path) isV(t *Term, ps string) bool {
	if ps == "empty" {
		if isT(t, "Bytes(0)") {
			return true
		}
		if u := stripConv(t); u.Op == "slice" || u.Op == "mkslice" || u.Op == "zero" {
			if u.Typ == nil {
				return false
			}
			if n, ok := arrayLen(u.Typ); ok && n == 0 {
				return true
			}
			if u.Op == "zero" {
				return len(p.segs(t)) == 0
			}
			if isZero(p.o.st.lenOf(u, "len", nil)) {
				return true
			}
			if n, ok := arrayLen(u.Args[0].Typ); ok && n == 0 {
				return true
			}
		}
		return len(p.segs(t)) == 0
	}
	if w, cl, ok := strings.Cut(ps, " where "); ok {
		q := *p
		q.B = p.B.copy()
		if strings.HasPrefix(w, "list ") {
			if !q.isV(t, w) {
				return false
			}
		} else {
			b, ok := q.matchV(t, w)
			if !ok {
				return false
			}
			q.B = b
		}
		for _, x := range strings.Split(cl, " where ") {
			n, form, _ := strings.Cut(strings.TrimSpace(x), " ")
			if q.B[n] == nil || !q.isV(q.B[n], strings.TrimSpace(form)) {
				return false
			}
		}
		return true
	}
	if w, cl, ok := strings.Cut(ps, " given "); ok {
		// some map of the path has the given form
		n, form, _ := strings.Cut(strings.TrimSpace(cl), " ")
		seen := map[*Term]bool{}
		found := false
		walkEvents(p.Evs, func(ev *Event) {
			if ev.Kind != "mapset" || seen[ev.Args[0]] || found {
				return
			}
			seen[ev.Args[0]] = true
			q := *p
			q.B = p.B.copy()
			if q.isV(ev.Args[0], strings.TrimSpace(form)) {
				q.B[n] = ev.Args[0]
				found = q.isV(t, w)
			}
		})
		return found
	}
	if strings.HasPrefix(ps, "list ") || ps == "list" {
		return p.isList(t, ps[4:])
	}
	if strings.HasPrefix(ps, "any ") {
		return p.isAny(t, ps[4:])
	}
	if strings.HasPrefix(ps, "pick ") {
		return p.isPick(t, ps[5:])
	}
	if strings.HasPrefix(ps, "iff ") {
		// true exactly when the condition holds
		u := stripConv(t)
		for _, want := range []bool{true, false} {
			q := *p
			if u.Op == "const" {
				if (u.Sym == "true") != want {
					continue
				}
			} else {
				f, ok := p.F.add(u, want)
				if !ok {
					continue
				}
				q.F = f
			}
			holds, fails := true, false
			n := q.norm().Path
			for _, c := range strings.Split(ps[4:], " && ") {
				holds = holds && condHolds(n, strings.TrimSpace(c))
				fails = fails || condFails(n, strings.TrimSpace(c))
			}
			if want && !holds || !want && !fails {
				return false
			}
		}
		return true
	}
	if strings.HasPrefix(ps, "cond ") {
		// cond C && C ?? A :: B: A when the conditions hold, B otherwise
		cs, ab, _ := strings.Cut(ps[5:], " ?? ")
		a, b, _ := strings.Cut(ab, " :: ")
		holds, fails := true, false
		n := p.norm().Path
		for _, c := range strings.Split(cs, " && ") {
			holds = holds && condHolds(n, strings.TrimSpace(c))
			fails = fails || condFails(n, strings.TrimSpace(c))
		}
		return holds && p.isV(t, strings.TrimSpace(a)) || fails && (p.isV(t, strings.TrimSpace(b)) || strings.TrimSpace(b) == "nil" && isZero(t))
	}
	if strings.HasPrefix(ps, "map ") {
		return p.isMap(t, ps[4:])
	}
	if strings.HasPrefix(ps, "ptr ") {
		// a pointer to the value
		o := stripConv(t)
		if o.Op == "alloc" && p.isV(p.o.st.load(o), ps[4:]) {
			return true
		}
		return o.Op != "alloc" && p.isV(mk("deref", "", nil2, o), ps[4:])
	}
	if strings.HasPrefix(ps, "bytes ") {
		var sps []sp
		for _, x := range strings.Split(ps[6:], ";") {
			x = strings.TrimSpace(x)
			if x == "" {
				continue
			}
			if _, err := strconv.Atoi(x); err == nil {
				sps = append(sps, spB(x))
				continue
			}
			if b, ok := strings.CutPrefix(x, "byte "); ok {
				sps = append(sps, spB(b))
				continue
			}
			sps = append(sps, spS(x))
		}
		return isBytes(p, t, sps...)
	}
	if strings.HasPrefix(ps, "rng ") {
		// the key range [lo, hi)
		lo, hi, _ := strings.Cut(ps[4:], " .. ")
		o := stripConv(t)
		return p.isV(p.o.st.load(mkFA(o, "Start", nil2)), "bytes "+strings.TrimSpace(lo)) && p.isV(p.o.st.load(mkFA(o, "Limit", nil2)), "bytes "+strings.TrimSpace(hi))
	}
	if strings.HasPrefix(ps, "sum ") {
		f := strings.SplitN(ps[4:], ";", 2)
		return p.isSum(t, strings.TrimSpace(f[0]), strings.TrimSpace(f[1]))
	}
	if strings.HasPrefix(ps, "collect ") {
		f := strings.SplitN(ps[8:], ";", 3)
		return p.isCollect(t, strings.TrimSpace(f[0]), strings.Split(strings.TrimSpace(f[1]), " && "), strings.TrimSpace(f[2]))
	}
	if strings.HasPrefix(ps, "obj ") {
		o := stripConv(t)
		for _, kv := range strings.Split(ps[4:], ";") {
			k, v, _ := strings.Cut(kv, "=")
			k = strings.TrimSpace(k)
			f := o
			for _, k := range strings.Split(k, ".") {
				if o := f; o.Op == "upd" || o.Op == "zero" || o.Typ != nil && !isPtrLike(o.Typ) {
					f = fieldOf(o, k, nil2)
				} else {
					f = p.o.st.load(mkFA(o, k, nil2))
				}
			}
			if strings.TrimSpace(v) == "nil" && isZero(f) {
				continue
			}
			if !p.isV(f, strings.TrimSpace(v)) {
				loopTrace = k + " is " + trunc(f.String(), 200)
				return false
			}
		}
		return true
	}
	if strings.Contains(ps, "SUM(") {
		u := stripConv(t)
		if isBigPtr(u.Typ) || u.Op == "alloc" {
			if b := p.o.st.big(u); b != nil {
				u = b
			}
		}
		_, ok := matchT(pat(ps), p.sums(u), p.B.copy())
		return ok
	}
	if _, ok := p.matchV(t, ps); ok {
		return true
	}
	if ps == "true" || ps == "false" {
		d := p.norm().F.decide(stripConv(t))
		return ps == "true" && d == 1 || ps == "false" && d == 0
	}
	if u := stripConv(t); u.Op != "const" {
		// a value the path found equal
		for _, f := range p.F {
			if f.Mask != EQ {
				continue
			}
			if f.A == u && !isConst(f.B) {
				if _, ok := p.matchV(f.B, ps); ok {
					return true
				}
			} else if f.B == u {
				if _, ok := p.matchV(f.A, ps); ok {
					return true
				}
			}
		}
	}
	if isTrueT(t) && condHolds(p.norm().Path, ps) || isFalseT(t) && strings.ContainsAny(ps, "=<>(") && condFails(p.norm().Path, ps) {
		return true
	}
	return false
}

// isAny: t is true iff some element of SEQ satisfies all conditions (index I):
// "SEQ : C && C".
func (p *Path) isAny(t *Term, spec string) bool {
	seq, body, _ := strings.Cut(spec, " : ")
	seq = strings.TrimSpace(seq)
	conds := strings.Split(body, " && ")
	hold := func(q *Path) bool {
		n := q.norm().Path
		for _, c := range conds {
			if !condHolds(n, strings.TrimSpace(c)) {
				return false
			}
		}
		return true
	}
	fail := func(q *Path) bool {
		n := q.norm().Path
		for _, c := range conds {
			if condFails(n, strings.TrimSpace(c)) {
				return true
			}
		}
		return false
	}
	d := p.norm().F.decide(stripConv(t))
	if d == 1 {
		for _, ev := range p.Evs {
			if ev.Kind != "loop" {
				continue
			}
			for _, ph := range ev.Loop.Phis {
				q := *p
				q.B = p.B.copy()
				q.B["I"] = ph.Iter
				if q.Holds("I < len("+seq+")") && hold(&q) {
					return true
				}
			}
		}
		return false
	}
	if d == 0 {
		return p.forAll(seq, func(it *Path, l seqLoop) bool {
			it.B = p.B.copy()
			it.B["I"] = l.idx
			return fail(it)
		})
	}
	for _, l := range p.loopsOver(seq) {
		if !l.full {
			continue
		}
		for _, ph := range l.ev.Loop.Phis {
			if ph.Iter != stripConv(t) || !isFalseT(ph.Init) || len(ph.Next) != len(l.ev.Loop.Iters) {
				continue
			}
			for k, st := range l.ev.Loop.Iters {
				q := p.iterPath(l.ev, st, l.idx)
				switch {
				case isTrueT(ph.Next[k]) && hold(q), ph.Next[k] == ph.Iter && fail(q):
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

// isPick: t is VAL for an element of SEQ that satisfies the conditions
// (index I): "SEQ : C && C ? VAL".
func (p *Path) isPick(t *Term, spec string) bool {
	seq, body, _ := strings.Cut(spec, " : ")
	seq = strings.TrimSpace(seq)
	cs, val, _ := strings.Cut(body, " ? ")
	conds := strings.Split(cs, " && ")
	hold := func(q *Path) bool {
		n := q.norm().Path
		for _, c := range conds {
			if !condHolds(n, strings.TrimSpace(c)) {
				return false
			}
		}
		return true
	}
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			q := *p
			q.B = p.B.copy()
			q.B["I"] = ph.Iter
			if q.Holds("I < len("+seq+")") && hold(&q) && q.isV(t, val) {
				return true
			}
		}
	}
	for _, l := range p.loopsOver(seq) {
		for _, ph := range l.ev.Loop.Phis {
			if !l.full || ph.Iter != stripConv(t) || !isNilT(ph.Init) && !isZero(ph.Init) || len(ph.Next) != len(l.ev.Loop.Iters) {
				continue
			}
			for k, st := range l.ev.Loop.Iters {
				q := p.iterPath(l.ev, st, l.idx)
				if ph.Next[k] == ph.Iter {
					n := q.norm().Path
					f := false
					for _, c := range conds {
						f = f || condFails(n, strings.TrimSpace(c))
					}
					if !f {
						return false
					}
				} else if !hold(q) || !q.isV(ph.Next[k], val) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// isMap: t is a map filled by one loop: "each SEQ : [C && C ?] KEY => VAL",
// "range M : [C && C ?] KEY => VAL" (rkey(M), rval(M)), and nothing else.
func (p *Path) isMap(t *Term, spec string) bool {
	t = stripConv(t)
	seq, body, _ := strings.Cut(spec, " : ")
	kind, seq, _ := strings.Cut(strings.TrimSpace(seq), " ")
	seq = strings.TrimSpace(seq)
	var conds []string
	if x, y, cut := strings.Cut(body, " ? "); cut {
		conds, body = strings.Split(x, " && "), y
	}
	key, val, _ := strings.Cut(body, " => ")
	sets := func(evs []*Event) (out []*Event) {
		walkEvents(evs, func(ev *Event) {
			if (ev.Kind == "mapset" || ev.Kind == "mapdel") && ev.Args[0] == t {
				out = append(out, ev)
			}
		})
		return
	}
	if kind == "one" {
		// exactly one entry
		key, val, _ := strings.Cut(seq, " => ")
		ss := sets(p.Evs)
		return len(ss) == 1 && ss[0].Kind == "mapset" && t.Op == "mkmap" && len(calls(p.Evs, "loop")) == 0 && p.isV(ss[0].Args[1], strings.TrimSpace(key)) && p.isV(ss[0].Args[2], strings.TrimSpace(val))
	}
	found := 0
	for _, ev := range p.Evs {
		if len(sets([]*Event{ev})) == 0 {
			continue
		}
		found++
		if ev.Kind != "loop" || found > 1 {
			return false
		}
		var idx *Term
		ok := false
		for _, l := range p.loopsOver(seq) {
			if l.ev == ev && l.full {
				ok = true
				if kind == "each" {
					idx = l.idx
				}
			}
		}
		if !ok || len(ev.Loop.Iters) == 0 {
			return false
		}
		for _, st := range ev.Loop.Iters {
			q := p.iterPath(ev, st, idx)
			n := q.norm().Path
			ss := sets(q.Evs)
			holds, fails := true, false
			for _, c := range conds {
				holds = holds && condHolds(n, strings.TrimSpace(c))
				fails = fails || condFails(n, strings.TrimSpace(c))
			}
			switch {
			case len(ss) == 0 && fails:
			case len(ss) == 1 && ss[0].Kind == "mapset" && holds && q.isV(ss[0].Args[1], strings.TrimSpace(key)) && q.isV(ss[0].Args[2], strings.TrimSpace(val)):
			default:
				return false
			}
		}
	}
	return found == 1
}

// matchV matches a value, the object it points to, or its big-integer content.
func (p *Path) matchV(t *Term, ps string) (Bind, bool) {
	if b, ok := matchT(pat(ps), t, p.B.copy()); ok {
		return b, true
	}
	t2 := stripConv(t)
	if t2.Op == "assert" {
		return p.matchV(t2.Args[0], ps)
	}
	if t2.Op == "alloc" && !isBigPtr(t2.Typ) {
		if b, ok := matchT(pat(ps), p.o.st.load(t2), p.B.copy()); ok {
			return b, true
		}
	}
	if isBigPtr(t2.Typ) || t2.Op == "alloc" {
		if v := p.o.st.big(t2); v != nil {
			if b, ok := matchT(pat(ps), v, p.B.copy()); ok {
				return b, true
			}
		}
	}
	return nil, false
}

func (p *Path) showV(t *Term) string {
	s := trunc(t.String(), 400)
	if t2 := stripConv(t); isBigPtr(t2.Typ) || t2.Op == "alloc" {
		if b := p.o.st.big(t2); b != nil {
			s += " (" + trunc(b.String(), 400) + ")"
		}
	}
	return s
}

func (c *Ctx) caseMatches(p *Path, s *fnSpec, k *caseSpec) string {
	if s.eff {
		if w := c.effectsMatch(p, s, k); w != "" {
			return w
		}
	}
	if s.send {
		if w := c.sendsMatch(p, p.o.res[0], k.sends); w != "" {
			return w
		}
	}
	if s.data {
		v := p.o.st.load(mkFA(param(2, nil), "Data", nil2))
		want := k.data
		if want == "" {
			want = "A2.Data"
		}
		if !p.isV(v, want) {
			return "the send block's data becomes " + trunc(v.String(), 300)
		}
	}
	for _, r := range k.rets {
		is, field, dotted := strings.Cut(r[0], ".")
		i := atoi(is)
		if i >= len(p.o.res) {
			return "no result " + r[0]
		}
		v := p.o.res[i]
		if dotted {
			for _, f := range strings.Split(field, ".") {
				if o := stripConv(v); o.Op == "upd" || o.Op == "zero" || o.Typ != nil && !isPtrLike(o.Typ) {
					v = fieldOf(o, f, nil2)
				} else {
					v = p.o.st.load(mkFA(o, f, nil2))
				}
			}
		}
		if !p.isV(v, r[1]) {
			return "result " + r[0] + " is " + p.showV(v)
		}
	}
	return ""
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func (p *Path) callIs(ev *Event, ps string) bool {
	name := ev.Name
	if ev.Kind != "call" {
		name = ev.Kind
	}
	if p.isV(mk("call", name, nil, ev.Args...), ps) {
		return true
	}
	if ev.St != nil {
		// objects as they are when the call is made
		q := *p
		q.o.st = ev.St
		if q.isV(mk("call", name, nil, ev.Args...), ps) {
			return true
		}
	}
	// big.Int arguments by content
	args := make([]*Term, len(ev.Args))
	for i, a := range ev.Args {
		args[i] = a
		if isBigPtr(a.Typ) && ev.St != nil {
			if b := ev.St.big(a); b != nil {
				args[i] = b
			}
		}
	}
	return p.isV(mk("call", name, nil, args...), ps)
}

func (c *Ctx) sendsMatch(p *Path, r *Term, sends [][]string) string {
	r = stripConv(r)
	var els []*Term
	if !isNilT(r) {
		for _, sg := range p.segs(r) {
			if sg.Loop != nil {
				return "send blocks are built in a loop"
			}
			els = append(els, sg.T)
		}
	}
	if len(els) != len(sends) {
		return itoa(len(els)) + " send blocks instead of " + itoa(len(sends))
	}
	for i, el := range els {
		ld := func(n string) *Term { return p.o.st.load(mkFA(stripConv(el), n, nil2)) }
		s := sends[i]
		if !p.isV(ld("AccountAddress"), s[5]) {
			return "send block " + trunc(el.String(), 200) + " has account " + trunc(ld("AccountAddress").String(), 200)
		}
		for j, n := range []string{"ToAddress", "BlockType", "Amount", "TokenId", "Data"} {
			want := s[j]
			if n == "BlockType" {
				v := c.Const("interfaces/core", want)
				if v == nil {
					return "no constant " + want
				}
				want = v.String()
			}
			if !p.isV(ld(n), want) {
				return "send block " + itoa(i) + ": " + n + " is " + trunc(ld(n).String(), 300)
			}
		}
	}
	return ""
}

// isSum: t starts at zero and a loop over every element of seq adds step
// (in which I is the index) exactly once per element.
func (p *Path) isSum(t *Term, seq, step string) bool {
	v := stripConv(t)
	if v.Op != "iter" && v.Op != "iterm" {
		v = p.o.st.big(v)
	}
	if v == nil {
		return false
	}
	for _, l := range p.loopsOver(seq) {
		if !l.full {
			continue
		}
		for _, ph := range append(append([]PhiInfo{}, l.ev.Loop.Phis...), l.ev.Loop.Cells...) {
			if ph.Iter != v || !isZero(ph.Init) || len(ph.Next) != len(l.ev.Loop.Iters) {
				continue
			}
			ok := true
			for _, n := range ph.Next {
				ok = ok && isTB(n, "X + "+step, Bind{"X": v, "I": l.idx})
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// recovered: a path on which a deferred function stopped a panic.
func recovered(p *Path) bool {
	for _, f := range p.F {
		if f.A.Op == "recover" && isNilT(f.B) && f.Mask&EQ == 0 || f.B.Op == "recover" && isNilT(f.A) && f.Mask&EQ == 0 {
			return true
		}
	}
	return false
}

// isCollect: t is the list of elem for exactly the entries of a storage
// iterator that satisfy conds, in iteration order.
func (p *Path) isCollect(t *Term, it string, conds []string, elem string) bool {
	if !p.Holds("!Next("+it+")") || !p.Holds("Error("+it+") == nil") {
		return false
	}
	v := stripConv(t)
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			if ph.Iter != v || len(p.segsIn(p.o.st, ph.Init, 0)) != 0 || len(ph.Next) != len(ev.Loop.Iters) || len(ph.Next) == 0 {
				continue
			}
			for i, st := range ev.Loop.Iters {
				q := &Path{c: p.c, o: Outcome{st: st, pos: ev.Pos}, F: st.facts, Evs: iterEvents(ev, st)}
				n := q.norm().Path
				if !q.Holds("Next(" + it + ")") {
					return false
				}
				nx := stripConv(ph.Next[i])
				switch {
				case nx == ph.Iter:
					f := false
					for _, k := range conds {
						f = f || condFails(n, k)
					}
					if !f {
						return false
					}
				case nx.Op == "append" && len(nx.Args) == 2 && nx.Args[0] == ph.Iter:
					for _, k := range conds {
						if !condHolds(n, k) {
							return false
						}
					}
					if !q.isV(nx.Args[1], elem) {
						return false
					}
				default:
					return false
				}
			}
			return true
		}
	}
	return false
}

func isPtrLike(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct:
		return false
	}
	return true
}
