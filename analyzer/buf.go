package main

// A fixed buffer written at constant offsets: the pieces it holds, looked up
// through the writes and, for a buffer that loops write again and again,
// through the parts no iteration touches.

type bufPiece struct {
	lo, hi int64
	src    *Term // nil: zero bytes
	off    int64
	whole  bool
}

type bufKey struct {
	t      *Term
	lo, hi int64
}

func (st *State) cellPhi(t *Term) (*LoopInfo, *PhiInfo) {
	for x := st.ev; x != nil; x = x.prev {
		if x.ev.Kind != "loop" || x.ev.Loop == nil {
			continue
		}
		for i := range x.ev.Loop.Cells {
			if x.ev.Loop.Cells[i].Iter == t {
				return x.ev.Loop, &x.ev.Loop.Cells[i]
			}
		}
		for i := range x.ev.Loop.Phis {
			if x.ev.Loop.Phis[i].Iter == t {
				return x.ev.Loop, &x.ev.Loop.Phis[i]
			}
		}
	}
	return nil, nil
}

// bufAt: the pieces of t's bytes lo..hi.
func bufAt(st *State, t *Term, lo, hi int64, seen map[bufKey]bool, depth int) []bufPiece {
	if lo >= hi {
		return nil
	}
	t = stripConv(t)
	if depth < 60 {
		switch t.Op {
		case "zero", "zerobytes":
			return []bufPiece{{lo: lo, hi: hi}}
		case "bytesw":
			wlo, whi, ok := bufWrite(st, t)
			if ok {
				var out []bufPiece
				out = append(out, bufAt(st, t.Args[0], lo, min(hi, wlo), seen, depth+1)...)
				if a, b := max(lo, wlo), min(hi, whi); a < b {
					out = append(out, bufPiece{lo: a, hi: b, src: t.Args[3], off: a - wlo, whole: a == wlo && b == whi})
				}
				return append(out, bufAt(st, t.Args[0], max(lo, whi), hi, seen, depth+1)...)
			}
		case "iter", "iterm":
			k := bufKey{t, lo, hi}
			li, ph := st.cellPhi(t)
			if ph != nil && !seen[k] && len(ph.Next) == len(li.Iters) {
				seen[k] = true
				// the parts every iteration leaves alone
				keep := make([]bool, hi-lo)
				for i := range keep {
					keep[i] = true
				}
				for i, it := range li.Iters {
					for j := range keep {
						if !keep[j] {
							continue
						}
						at := lo + int64(j)
						keep[j] = bufKept(it, ph.Next[i], t, at, depth+1)
					}
				}
				delete(seen, k)
				var out []bufPiece
				for i := int64(0); i < hi-lo; {
					j := i
					for j < hi-lo && keep[j] == keep[i] {
						j++
					}
					if keep[i] {
						out = append(out, bufAt(st, ph.Init, lo+i, lo+j, seen, depth+1)...)
					} else {
						out = append(out, bufPiece{lo: lo + i, hi: lo + j, src: t, off: lo + i})
					}
					i = j
				}
				return out
			}
		}
	}
	return []bufPiece{{lo: lo, hi: hi, src: t, off: lo}}
}

// bufKept: byte i of t is byte i of acc.
func bufKept(st *State, t, acc *Term, i int64, depth int) bool {
	for {
		t = stripConv(t)
		if t == acc {
			return true
		}
		depth++
		if depth > 60 {
			return false
		}
		switch t.Op {
		case "bytesw":
			wlo, whi, ok := bufWrite(st, t)
			if !ok || i >= wlo && i < whi {
				return false
			}
			t = t.Args[0]
			continue
		case "iter", "iterm":
			li, ph := st.cellPhi(t)
			if ph == nil || len(ph.Next) != len(li.Iters) {
				return false
			}
			for k, it := range li.Iters {
				if !bufKept(it, ph.Next[k], t, i, depth+1) {
					return false
				}
			}
			t = ph.Init
			continue
		}
		return false
	}
}

// bufSegs: the pieces of a buffer from lo to hi.
func (p *Path) bufSegs(st *State, t *Term, lo, hi int64, depth int) []Seg {
	var out []Seg
	for _, b := range bufAt(st, t, lo, hi, map[bufKey]bool{}, 0) {
		switch {
		case b.src == nil:
			for i := b.lo; i < b.hi; i++ {
				out = append(out, Seg{T: kInt(0), Byte: true})
			}
		case b.whole:
			out = append(out, p.segsIn(st, b.src, depth+1)...)
		default:
			out = append(out, Seg{T: mk("sub", "", t.Typ, b.src, kInt(b.off), kInt(b.off+b.hi-b.lo))})
		}
	}
	return out
}

// bufWrite: the constant range a write covers.
func bufWrite(st *State, t *Term) (int64, int64, bool) {
	lo, ok := i64(t.Args[1])
	if isNilT(t.Args[1]) {
		lo, ok = 0, true
	}
	if !ok {
		return 0, 0, false
	}
	if hi, ok := i64(t.Args[2]); ok {
		return lo, hi, true
	}
	if n := fixedLen(t.Typ); n > 0 && t.Args[2].Op == "len" {
		if st.facts.possible(t.Args[2], kInt(n)) == EQ {
			return lo, n, true
		}
		if lo == 0 && t.Args[0].Op == "zero" && t.Args[2].Args[0] == t.Args[3] {
			return lo, n, true // a short source leaves the rest zero
		}
	}
	// copy(buf[lo:], RightPadBytes(x, n))
	if b, okp := matchT(pat("RightPadBytes(_, X)"), stripConv(t.Args[3]), Bind{}); okp {
		if n, okn := i64(b["X"]); okn {
			return lo, lo + n, true
		}
	}
	return 0, 0, false
}
