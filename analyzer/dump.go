package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func dumpCmd(p *Prog, args []string) {
	fn := p.Func(args[0], args[1])
	if fn == nil {
		fmt.Println("no such function")
		return
	}
	e := newEngine(p, args[0])
	for _, a := range args[2:] {
		if strings.HasPrefix(a, "-o=") {
			l := map[string]bool{}
			for _, x := range strings.Split(a[3:], ",") {
				l[x] = true
			}
			e.opaque = func(name string, f *ssa.Function) bool { return l[baseName(name)] }
		}
		if a == "-v" {
			e.outVals = true
		}
		if a == "-p" {
			e.modParams = true
		}
		if a == "-c" {
			e.collapse = true
		}
		if strings.HasPrefix(a, "-i=") {
			for _, x := range strings.Split(a[3:], ",") {
				e.home[x] = true
			}
		}
	}
	outs, err := e.Run(fn)
	fmt.Println("paths:", len(outs), "steps:", e.steps, "err:", err, "lossy", e.lossy)
	for i, o := range outs {
		fmt.Printf("--- path %d panic=%v ret=%v at %s\n", i, o.panic, o.res, p.pos(o.pos))
		dumpPath(p, o.st.facts, o.st.Events(), "  ")
		if os.Getenv("VC_MEM") != "" {
			for a, v := range o.st.mem {
				fmt.Println("  mem", a, "=", v)
			}
		}
	}
}

func dumpPath(p *Prog, fs Facts, evs []*Event, ind string) {
	for _, f := range fs {
		fmt.Println(ind+"fact", f)
	}
	for _, ev := range evs {
		dumpEv(p, ev, ind)
	}
}

func dumpEv(p *Prog, ev *Event, ind string) {
	if ev.Loop != nil {
		fmt.Println(ind+"loop", p.pos(ev.Pos))
		for _, ph := range ev.Loop.Phis {
			fmt.Println(ind+"   phi", ph.Iter, "init", ph.Init, "next", ph.Next)
		}
		for k, it := range ev.Loop.Iters {
			fmt.Println(ind+"   iter", k)
			n := len(ev.Facts)
			fs := it.facts
			if len(fs) >= n {
				fs = fs[n:]
			}
			var stop *evList
			for x := it.ev; x != nil; x = x.prev {
				if x.ev == ev {
					stop = x
				}
			}
			dumpPath(p, fs, it.ev.slice(stop), ind+"      ")
		}
		return
	}
	fmt.Println(ind+ev.Kind, ev.Name, ev.Args)
}
