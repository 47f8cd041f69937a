package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Path is one abstract path of an analysed function.
type Path struct {
	c   *Ctx
	o   Outcome
	F   Facts
	Evs []*Event
	B   Bind          // pattern variables fixed by the context (loop indices)
	fn  *ssa.Function // where known
}

// success keeps the paths on which result i may be nil, with that fact added.
func (c *Ctx) success(outs []Outcome, i int) []*Path {
	return c.withRes(outs, i, kNil())
}

// withRes keeps the paths on which result i may equal v.
func (c *Ctx) withRes(outs []Outcome, i int, v *Term) []*Path {
	var out []*Path
	for _, o := range outs {
		if o.panic || i >= len(o.res) {
			continue
		}
		f, ok := o.st.facts.add(mkCmp(o.res[i], v, EQ), true)
		if !ok {
			continue
		}
		out = append(out, &Path{c: c, o: o, F: f, Evs: o.st.Events()})
	}
	return out
}

func (c *Ctx) all(outs []Outcome) []*Path {
	var out []*Path
	for _, o := range outs {
		if !o.panic {
			out = append(out, &Path{c: c, o: o, F: o.st.facts, Evs: o.st.Events()})
		}
	}
	return out
}

func (p *Path) where() string { return p.c.P.pos(p.o.pos) }

// Holds: the facts of the path entail the pattern.
func (p *Path) Holds(ps string) bool { _, ok := p.F.Find(ps, p.B); return ok }

func (p *Path) Bind(ps string) (Bind, bool) { return p.F.Find(ps, nil) }

// Excludes: the path contradicts "t rel const".
func (p *Path) Excludes(t *Term, v *Term) bool { return p.F.possible(t, v)&EQ == 0 }

func (p *Path) Describe() string {
	var s []string
	for _, f := range p.F {
		x := f.String()
		if len(x) > 160 {
			x = x[:160] + "…"
		}
		s = append(s, x)
	}
	if len(s) > 25 {
		s = append(s[:25], "…")
	}
	return fmt.Sprintf("path returning at %s with facts: %s", p.where(), strings.Join(s, "; "))
}

func param(i int, t types.Type) *Term { return mk("param", itoa(i), t) }

func fld(t *Term, names ...string) *Term {
	for _, n := range names {
		t = mk("field", n, nil, t)
	}
	return t
}

// calls returns call events (loops' bodies excluded) whose base name is one of names.
func calls(evs []*Event, names ...string) []*Event {
	var out []*Event
	for _, ev := range evs {
		if ev.Kind != "call" {
			continue
		}
		for _, n := range names {
			if baseName(ev.Name) == n || ev.Name == n {
				out = append(out, ev)
			}
		}
	}
	return out
}

// callsDeep also descends into loop iterations.
func callsDeep(evs []*Event, names ...string) []*Event {
	var out []*Event
	walkEvents(evs, func(ev *Event) {
		if ev.Kind == "call" {
			for _, n := range names {
				if baseName(ev.Name) == n || ev.Name == n {
					out = append(out, ev)
				}
			}
		}
	})
	return out
}

func walkEvents(evs []*Event, f func(*Event)) {
	for _, ev := range evs {
		f(ev)
		if ev.Kind == "loop" {
			for _, it := range ev.Loop.Iters {
				walkEvents(iterEvents(ev, it), f)
			}
		}
	}
}

// iterEvents: the events of one loop iteration.
func iterEvents(loop *Event, it *State) []*Event {
	var stop *evList
	for x := it.ev; x != nil; x = x.prev {
		if x.ev == loop {
			stop = x
			break
		}
	}
	if stop == nil {
		return nil
	}
	return it.ev.slice(stop)
}

// seqLoop describes a counted loop over a sequence.
type seqLoop struct {
	ev   *Event
	idx  *Term // iteration index term
	seq  *Term
	full bool // left only when every index 0..len-1 was visited (on this path)
}

// loopsOver finds loops on the path that visit seq (matched by pattern) by
// index; full is set when the path left the loop by exhausting it.
func (p *Path) loopsOver(seqPat string) []seqLoop {
	var out []seqLoop
	pe := pat(seqPat)
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range ev.Loop.Phis {
			// exit fact: idx >= len(seq)
			for _, f := range p.F {
				var l *Term
				switch {
				case f.B.Op == "len" && f.A == ph.Iter && f.Mask&LT == 0:
					l = f.B
				case f.A.Op == "len" && f.B == ph.Iter && f.Mask&GT == 0:
					l = f.A
				default:
					continue
				}
				if _, ok := matchT(pe, l.Args[0], Bind{}); !ok {
					continue
				}
				if n, ok := i64(ph.Init); !ok || n != 0 && n != -1 {
					continue
				}
				out = append(out, seqLoop{ev, ph.Iter, l.Args[0], stepOne(ph)})
			}
			// descending: init = len(seq)-1, exit idx < 0
			if ph.Init.Op == "lin" && len(ph.Init.Args) == 1 && ph.Init.Args[0].Op == "len" && ph.Init.Sym == "-1,1" {
				if _, ok := matchT(pe, ph.Init.Args[0].Args[0], Bind{}); ok {
					if p.F.possible(ph.Iter, kInt(0)) == LT {
						out = append(out, seqLoop{ev, ph.Iter, ph.Init.Args[0].Args[0], true})
					}
				}
			}
		}
		// map range: exit fact !rok(range m)
		for _, f := range p.F {
			if f.A.Op == "rok" && isTrueT(f.B) && f.Mask == NE {
				m := f.A.Args[0].Args[0]
				if _, ok := matchT(pe, m, Bind{}); ok && inLoopOf(ev, f.A) {
					out = append(out, seqLoop{ev, nil, m, true})
				}
			}
		}
	}
	return out
}

func inLoopOf(ev *Event, rok *Term) bool {
	for _, it := range ev.Loop.Iters {
		for _, f := range it.facts {
			if f.A == rok && f.Mask == EQ {
				return true
			}
		}
	}
	return false
}

func stepOne(ph PhiInfo) bool {
	for _, n := range ph.Next {
		// next value is iter+1 (or iter itself when numbered from the pre-increment)
		l := toLin(n)
		if len(l.ks) != 1 {
			return false
		}
		k, ok := l.ks[ph.Iter]
		if !ok || k.ExactString() != "1" {
			return false
		}
		c := l.c.ExactString()
		ini, _ := i64(ph.Init)
		if ini == -1 && c != "0" || ini == 0 && c != "1" {
			return false
		}
	}
	return true
}

// forAll: on this path some loop visited every element of seq and every
// completed iteration satisfies pred.
func (p *Path) forAll(seqPat string, pred func(it *Path, l seqLoop) bool) bool {
	for _, l := range p.loopsOver(seqPat) {
		if !l.full {
			continue
		}
		ok := true
		for _, it := range l.ev.Loop.Iters {
			q := &Path{c: p.c, o: Outcome{st: it, pos: l.ev.Pos}, F: it.facts, Evs: iterEvents(l.ev, it)}
			if !pred(q, l) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

var nil2 types.Type = types.Typ[types.Int]

func (p *Path) mayEq(a, b *Term) bool { return p.F.possible(a, b)&EQ != 0 }

// Const is the value of a package-level constant.
func (c *Ctx) Const(rel, name string) *Term {
	if pk := c.P.ByRel[rel]; pk != nil {
		if o, ok := pk.Types.Scope().Lookup(name).(*types.Const); ok {
			return kVal(o.Val(), o.Type())
		}
	}
	c.Ob(false, "anchor", rel+"."+name, "", "constant not found")
	return kInt(-999999)
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
