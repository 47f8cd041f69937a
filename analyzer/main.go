package main

import (
	"fmt"
	"os"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vitecheck check ID [tier] | gen | dump pkg fn | list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(runCheck(os.Args[2], tier))
	case "gen":
		generate()
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Title)
		}
	case "lockorder":
		lockOrderReport()
	case "locks":
		locksReport(os.Args[2:])
	case "dump":
		root := "/repo"
		if r := os.Getenv("VC_REPO"); r != "" {
			root = r
		}
		p, err := load(root)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		if os.Args[2] == "-vm" {
			vmDebugOps(p, os.Args[3])
			return
		}
		dumpCmd(p, os.Args[2:])
	}
}
