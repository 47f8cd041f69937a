package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"
)

// Seg is one piece of a byte string under construction.
type Seg struct {
	T    *Term    // value of the piece (one byte, or a byte string)
	Byte bool     // a single byte
	Loop *seqSegs // repetition
}

type seqSegs struct {
	Over  *Term   // sequence or map visited
	Bound *Term   // number of iterations of a counted loop
	Idx   *Term   // index term of the iteration, if any
	Full  bool    // every element is visited
	Body  [][]Seg // one per way through the body
	Info  *LoopInfo
	Its   []*State
	Ev    *Event
}

// segs flattens a byte string value into its pieces.
func (p *Path) segs(t *Term) []Seg { return p.segsIn(p.o.st, t, 0) }

func (p *Path) segsIn(st *State, t *Term, depth int) []Seg {
	if t == nil || depth > 60 {
		return []Seg{{T: t}}
	}
	if isNilT(t) {
		return nil
	}
	t = stripConv(t)
	if w := p.wholeOf(t); w != t {
		return p.segsIn(st, w, depth+1)
	}
	switch t.Op {
	case "bin":
		if t.Sym == "+" && t.Typ != nil && isStringT(t.Typ) {
			return append(p.segsIn(st, t.Args[0], depth+1), p.segsIn(st, t.Args[1], depth+1)...)
		}
	case "global":
		if bs, ok := globalBytesOf[t.Sym]; ok {
			var out []Seg
			for _, b := range bs {
				out = append(out, Seg{T: b, Byte: true})
			}
			return out
		}
	case "call", "pcall":
		if baseName(t.Sym) == "JoinBytes" && len(t.Args) == 1 {
			return p.segsIn(st, t.Args[0], depth+1)
		}
		if t.Sym == "bytes.Join" && len(t.Args) == 2 && isNilT(t.Args[1]) {
			return p.segsIn(st, t.Args[0], depth+1)
		}
		if baseName(t.Sym) == "RightPadBytes" && len(t.Args) == 2 {
			return []Seg{{T: mk("call", t.Sym, t.Typ, p.wholeOf(t.Args[0]), t.Args[1])}}
		}
	case "list":
		var out []Seg
		for _, a := range t.Args {
			out = append(out, p.segsIn(st, a, depth+1)...)
		}
		return out
	case "spread":
		return p.segsIn(st, t.Args[0], depth+1)
	case "append":
		out := p.segsIn(st, t.Args[0], depth+1)
		for _, a := range t.Args[1:] {
			if a.Op == "spread" {
				out = append(out, p.segsIn(st, a.Args[0], depth+1)...)
			} else {
				out = append(out, Seg{T: a, Byte: true})
			}
		}
		return out
	case "mkslice":
		if len(t.Args) > 0 && t.Args[0].Op == "const" && t.Args[0].Sym == "0" {
			return nil
		}
		if v, ok := st.mem[t]; ok && v != t {
			return p.segsIn(st, v, depth+1)
		}
		if out := p.filled(st, t); out != nil {
			return out
		}
	case "bytesw":
		// all of an array overwritten with the start of something longer
		if n := fixedLen(t.Typ); n > 0 && isZero(t.Args[1]) && t.Args[2].Op == "len" && t.Args[2].Args[0] == t.Args[3] && p.F.possible(t.Args[2], kInt(n))&LT == 0 {
			return []Seg{{T: mk("sub", "", t.Typ, t.Args[3], kNil(), kInt(n))}}
		}
		// a fixed buffer written piece by piece, in order
		if out, ok := p.writeSegs(st, t, depth); ok {
			return out
		}
	case "slice", "sub":
		full := isNilT(t.Args[1]) || t.Args[1].Op == "const" && t.Args[1].Sym == "0"
		full = full && (isNilT(t.Args[2]) || t.Args[2].Op == "len" && t.Args[2].Args[0] == t.Args[0])
		if full && t.Op == "slice" && t.Args[0].Op == "alloc" {
			if at, ok := pointee(t.Args[0].Typ).Underlying().(*types.Array); ok && !isByteSeq(at) {
				if els := st.sliceElems(t); els != nil || at.Len() == 0 {
					var out []Seg
					for _, el := range els {
						out = append(out, Seg{T: el, Byte: true})
					}
					return out
				}
			}
		}
		if full {
			v := st.bytesVal(t)
			if v != t {
				return p.segsIn(st, v, depth+1)
			}
		}
		if b := t.Args[0]; t.Op == "sub" && (b.Op == "bytesw" || b.Op == "iterm") {
			lo, ok := i64(t.Args[1])
			if isNilT(t.Args[1]) {
				lo, ok = 0, true
			}
			hi, ok2 := i64(t.Args[2])
			if isNilT(t.Args[2]) {
				hi, ok2 = fixedLen(b.Typ), fixedLen(b.Typ) > 0
			}
			if ok && ok2 && lo <= hi {
				return p.bufSegs(st, b, lo, hi, depth)
			}
		}
	case "deref":
		if v := st.load(t.Args[0]); v != nil && v != t {
			return p.segsIn(st, v, depth+1)
		}
	case "iter", "iterm":
		if out, ok := p.loopSegs(st, t, depth); ok {
			return out
		}
	}
	return []Seg{{T: t}}
}

// filled: a slice whose elements are all set by loops over sequences, each
// writing behind the previous one, that together have the slice's length.
func (p *Path) filled(st *State, t *Term) []Seg {
	if len(t.Args) == 0 {
		return nil
	}
	for k := range st.mem {
		if k.Op == "ia" && k.Args[0] == t {
			return nil
		}
	}
	type part struct {
		off *Term
		l   *seqSegs
	}
	var parts []part
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		l := &seqSegs{Info: ev.Loop, Its: ev.Loop.Iters, Ev: ev}
		l.Over, l.Idx, l.Full = p.loopSubject(ev)
		l.countLoop(p, ev)
		var off *Term
		touched := false
		for _, it := range l.Its {
			n := 0
			for k, v := range it.mem {
				if k.Op != "ia" || k.Args[0] != t {
					continue
				}
				touched = true
				if l.Over == nil && l.Bound == nil {
					return nil
				}
				at := lockstep(ev, l.Idx, stripConv(k.Args[1]))
				d := fromLin(linPlus(toLin(at), toLin(l.Idx), constant.MakeInt64(-1)), nil)
				if off != nil && off != d {
					return nil
				}
				off = d
				n++
				l.Body = append(l.Body, []Seg{{T: v, Byte: true}})
			}
			if touched && n != 1 {
				return nil
			}
		}
		if touched {
			if len(l.Body) != len(l.Its) || mentions(off, l.Idx) {
				return nil
			}
			parts = append(parts, part{off, l})
		}
	}
	if len(parts) == 0 {
		return nil
	}
	var out []Seg
	end := toLin(kInt(0))
	for len(parts) > 0 {
		hit := -1
		for i, x := range parts {
			if d := linPlus(toLin(x.off), end, constant.MakeInt64(-1)); len(d.ks) == 0 && constant.Sign(d.c) == 0 {
				hit = i
			}
		}
		if hit < 0 {
			return nil
		}
		l := parts[hit].l
		out = append(out, Seg{Loop: l})
		if l.Over != nil {
			end = linPlus(end, toLin(mk("len", "", nil2, l.Over)), constant.MakeInt64(1))
		} else {
			end = linPlus(end, toLin(l.Bound), constant.MakeInt64(1))
		}
		parts = append(parts[:hit:hit], parts[hit+1:]...)
	}
	if d := linPlus(toLin(stripConv(t.Args[0])), end, constant.MakeInt64(-1)); len(d.ks) != 0 || constant.Sign(d.c) != 0 {
		return nil
	}
	return out
}

// writeSegs reads bytesw(bytesw(zero, 0, a, x), a, b, y) as x, y.
func (p *Path) writeSegs(st *State, t *Term, depth int) ([]Seg, bool) {
	var rev []*Term
	for t.Op == "bytesw" {
		rev = append(rev, t)
		t = t.Args[0]
	}
	if t.Op != "zero" && t.Op != "zerobytes" {
		if n := fixedLen(rev[0].Typ); n > 0 {
			return p.bufSegs(st, rev[0], 0, n, depth), true
		}
		return nil, false
	}
	var out []Seg
	var end *Term = kInt(0)
	for i := len(rev) - 1; i >= 0; i-- {
		w := rev[i]
		lo := w.Args[1]
		if isNilT(lo) {
			lo = kInt(0)
		}
		if lo != end && p.F.possible(lo, end) != EQ {
			if n := fixedLen(rev[0].Typ); n > 0 {
				return p.bufSegs(st, rev[0], 0, n, depth), true
			}
			return nil, false
		}
		if v := stripConv(w.Args[3]); v.Typ != nil && isByteT(v.Typ) {
			out = append(out, Seg{T: v, Byte: true})
		} else {
			out = append(out, p.segsIn(st, w.Args[3], depth+1)...)
		}
		end = w.Args[2]
	}
	// what follows the last piece in the buffer belongs to the value too
	if n := fixedLen(rev[0].Typ); n > 0 {
		if e, ok := i64(end); ok && e != n {
			return p.bufSegs(st, rev[0], 0, n, depth), true
		}
	} else if t.Op == "zerobytes" && len(t.Args) == 1 {
		if p.F.possible(stripConv(end), stripConv(t.Args[0])) != EQ && fromLin(linPlus(toLin(stripConv(t.Args[0])), toLin(stripConv(end)), constant.MakeInt64(-1)), nil).Sym != "0" {
			return nil, false
		}
	}
	return out, true
}

func (p *Path) loopSegs(st *State, t *Term, depth int) ([]Seg, bool) {
	for _, ev := range p.Evs {
		if ev.Kind != "loop" {
			continue
		}
		for _, ph := range append(append([]PhiInfo{}, ev.Loop.Phis...), ev.Loop.Cells...) {
			if ph.Iter != t {
				continue
			}
			out := p.segsIn(st, ph.Init, depth+1)
			l := &seqSegs{Info: ev.Loop, Its: ev.Loop.Iters, Ev: ev}
			l.Over, l.Idx, l.Full = p.loopSubject(ev)
			l.countLoop(p, ev)
			for k, n := range ev.Loop.Iters {
				if k >= len(ph.Next) {
					return nil, false
				}
				q := &Path{c: p.c, o: Outcome{st: n, pos: ev.Pos}, F: n.facts, Evs: iterEvents(ev, n)}
				body := q.segsAfter(n, ph.Next[k], t, depth+1)
				if body == nil {
					return nil, false
				}
				l.Body = append(l.Body, *body)
			}
			return append(out, Seg{Loop: l}), true
		}
	}
	return nil, false
}

// segsAfter: what an iteration appends to the accumulator acc.
func (p *Path) segsAfter(st *State, t, acc *Term, depth int) *[]Seg {
	all := p.segsIn(st, t, depth)
	if len(all) == 0 || all[0].T != acc {
		return nil
	}
	r := all[1:]
	return &r
}

// loopSubject: the sequence or map a loop visits.
func (p *Path) loopSubject(ev *Event) (over, idx *Term, full bool) {
	for _, ph := range ev.Loop.Phis {
		for _, f := range p.F {
			var l *Term
			switch {
			case f.B.Op == "len" && f.A == ph.Iter && f.Mask&LT == 0:
				l = f.B
			case f.A.Op == "len" && f.B == ph.Iter && f.Mask&GT == 0:
				l = f.A
			default:
				continue
			}
			if n, ok := i64(ph.Init); !ok || n != 0 && n != -1 {
				continue
			}
			return l.Args[0], ph.Iter, stepOne(ph)
		}
	}
	for _, f := range p.F {
		for _, t := range []*Term{f.A, f.B} {
			if t.Op == "rok" && len(t.Args) == 1 && t.Args[0].Op == "range" && inLoopOf(ev, t) {
				return t.Args[0].Args[0], t, true
			}
		}
	}
	return nil, nil, false
}

// countLoop: the number of iterations of a loop that counts up from zero.
func (l *seqSegs) countLoop(p *Path, ev *Event) {
	for _, ph := range ev.Loop.Phis {
		if n, ok := i64(ph.Init); !ok || n != 0 && n != -1 {
			continue
		}
		if !stepOne(ph) {
			continue
		}
		for _, f := range p.F {
			d := linPlus(toLin(stripConv(f.A)), toLin(stripConv(f.B)), constant.MakeInt64(-1)) // A-B
			k, ok := d.ks[ph.Iter]
			if !ok {
				continue
			}
			m := f.Mask
			if constant.Sign(k) < 0 {
				d = linPlus(toLin(kInt(0)), d, constant.MakeInt64(-1))
				m = flip(m)
				k = d.ks[ph.Iter]
			}
			if k.ExactString() != "1" {
				continue
			}
			// idx + r  m  0
			r := linPlus(d, toLin(ph.Iter), constant.MakeInt64(-1))
			switch m {
			case GT | EQ: // idx >= -r
			case GT: // idx >= -r+1
				r.c = constant.BinaryOp(r.c, token.SUB, constant.MakeInt64(1))
			default:
				continue
			}
			if l.Over == nil {
				l.Idx, l.Full = ph.Iter, true
			}
			if l.Idx == ph.Iter {
				l.Bound = fromLin(linPlus(toLin(kInt(0)), r, constant.MakeInt64(-1)), nil)
				return
			}
		}
	}
}

// segString renders pieces for comparison and messages.
func segString(ss []Seg) string {
	var b []string
	for _, s := range ss {
		switch {
		case s.Loop != nil:
			var body []string
			for _, x := range s.Loop.Body {
				body = append(body, segString(x))
			}
			o := "?"
			if s.Loop.Over != nil {
				o = s.Loop.Over.String()
			}
			b = append(b, "each("+o+"){"+strings.Join(body, " or ")+"}")
		case s.Byte:
			b = append(b, "byte("+s.T.String()+")")
		default:
			b = append(b, s.T.String())
		}
	}
	return strings.Join(b, " ++ ")
}

// sp is one expected piece: a pattern for a byte string, a single byte, or a
// repetition over a sequence (index bound to I, nested to J).
type sp struct {
	pat  string
	kind string // "", "byte", "each"
	body []sp
}

func spB(p string) sp             { return sp{pat: p, kind: "byte"} }
func spS(p string) sp             { return sp{pat: p} }
func spEach(o string, b ...sp) sp { return sp{pat: o, kind: "each", body: b} }

func emptySeg(s Seg) bool {
	if s.Loop != nil || s.Byte || s.T == nil {
		return false
	}
	t := s.T
	if isNilT(t) {
		return true
	}
	if t.Op == "zero" && t.Typ != nil {
		if a, ok := t.Typ.Underlying().(*types.Array); ok && a.Len() == 0 {
			return true
		}
	}
	if (t.Op == "slice" || t.Op == "sub") && t.Args[2].Op == "const" && t.Args[2].Sym == "0" {
		return true
	}
	return t.Op == "const" && t.Sym == `""`
}

func dropEmpty(ss []Seg) []Seg {
	var out []Seg
	for _, s := range ss {
		if !emptySeg(s) {
			out = append(out, s)
		}
	}
	return out
}

// matchSegs: the pieces are exactly those of the specification.
func matchSegs(ss []Seg, spec []sp, b Bind) bool {
	ss = dropEmpty(ss)
	if len(ss) != len(spec) {
		return false
	}
	for i, s := range ss {
		w := spec[i]
		if w.kind == "each" {
			l := s.Loop
			if l == nil || !l.Full || l.Over == nil || len(l.Body) == 0 {
				return false
			}
			nb, ok := matchT(pat(w.pat), stripDeref(l.Over), b)
			if !ok {
				return false
			}
			c := Bind{}
			for k, v := range nb {
				c[k] = v
			}
			if _, used := c["I"]; !used {
				c["I"] = l.Idx
			} else {
				c["J"] = l.Idx
			}
			for _, body := range l.Body {
				if !matchSegs(body, w.body, c) {
					return false
				}
			}
			continue
		}
		if s.Loop != nil {
			return false
		}
		if (w.kind == "byte") != s.Byte && !oneByte(s.T) {
			return false
		}
		if _, ok := matchT(pat(w.pat), s.T, b); ok {
			continue
		}
		if _, ok := matchT(pat(w.pat), stripDeref(s.T), b); ok {
			continue
		}
		return false
	}
	return true
}

func oneByte(t *Term) bool { return t != nil && t.Op == "const" }

func stripDeref(t *Term) *Term {
	for t.Op == "deref" || t.Op == "conv" {
		t = t.Args[0]
	}
	return t
}

// fixedLen: the length of an array type, of what a pointer to one points to,
// or 0.
func fixedLen(t types.Type) int64 {
	if t == nil {
		return 0
	}
	if p := pointee(t); p != nil {
		t = p
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return a.Len()
	}
	return 0
}

// wholeOf: what a copy of all of a byte string, or all of it sliced, is a
// copy of.
func (p *Path) wholeOf(t *Term) *Term {
	for {
		t = stripConv(t)
		switch t.Op {
		case "bytesw":
			if t.Args[0].Op == "zerobytes" && isZero(t.Args[1]) && t.Args[2] == t.Args[0].Args[0] {
				t = t.Args[3]
				continue
			}
		case "sub", "slice":
			lo, hi := t.Args[1], t.Args[2]
			if (isNilT(lo) || isZero(lo)) && !isNilT(hi) {
				h := stripConv(hi)
				if h.Op == "len" && h.Args[0] == t.Args[0] && (h == hi || p.F.possible(h, kInt(256))&^LT == 0) {
					t = t.Args[0]
					continue
				}
			}
		}
		return t
	}
}

func isByteT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// lockstep rewrites counters that go up by one in every round, as the index
// does, in terms of the index.
func lockstep(ev *Event, idx, t *Term) *Term {
	m := map[*Term]*Term{}
	for _, ph := range ev.Loop.Phis {
		if ph.Iter == idx || idx == nil || !isIntType(ph.Iter.Typ) {
			continue
		}
		ok := len(ph.Next) > 0
		for _, n := range ph.Next {
			d := linPlus(toLin(n), toLin(ph.Iter), constant.MakeInt64(-1))
			ok = ok && len(d.ks) == 0 && d.c.ExactString() == "1"
		}
		if ok {
			m[ph.Iter] = fromLin(linPlus(toLin(ph.Init), toLin(idx), constant.MakeInt64(1)), idx.Typ)
		}
	}
	if len(m) == 0 {
		return t
	}
	return subst(t, m, map[*Term]*Term{})
}
