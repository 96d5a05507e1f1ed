// verif run PROP TIER | shard ... | replay FILE | probe PROP ID | list
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"

	"verif/pbt"
	"verif/props"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: verif run PROP TIER | replay FILE | list")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "list":
		for _, p := range props.All() {
			fmt.Println(p.ID)
			for _, f := range p.Families {
				fmt.Printf("  %-22s quick=%d thorough=%d\n", f.Name, f.Quick, f.Thorough)
			}
		}
	case "run":
		p := find(os.Args[2])
		verif := os.Getenv("VERIF_DIR")
		if verif == "" {
			verif = "/verif"
		}
		seed, e := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		if e != nil {
			seed = 1
		}
		os.Exit(pbt.Run(p, os.Args[3], seed, verif))
	case "shard":
		a := os.Args[2:]
		p := find(a[0])
		seed, _ := strconv.ParseInt(a[2], 10, 64)
		i, _ := strconv.Atoi(a[3])
		n, _ := strconv.Atoi(a[4])
		dl, _ := strconv.ParseInt(a[6], 10, 64)
		pbt.RunShard(p, a[1], seed, i, n, a[5], time.Unix(dl, 0), a[7])
	case "replay":
		b, e := os.ReadFile(os.Args[2])
		if e != nil {
			fmt.Println(e)
			os.Exit(3)
		}
		var cf pbt.CaseFile
		if e := json.Unmarshal(b, &cf); e != nil {
			fmt.Println(e)
			os.Exit(3)
		}
		if err := pbt.RunReplay(find(cf.Property), cf); err != nil {
			fmt.Fprintln(pbt.RealStdout, "REPRODUCED: "+strings.ToValidUTF8(err.Error(), "\uFFFD"))
			fmt.Fprintf(pbt.RealStdout, "VIOLATION property=%s replay=%s\n", cf.Property, os.Args[2])
			os.Exit(1)
		}
		fmt.Fprintln(pbt.RealStdout, "the case passes")
	case "probe":
		p := find(os.Args[2])
		for _, f := range p.Findings {
			if f.ID == os.Args[3] {
				pbt.Mute()
				if err := f.Probe(); err != nil {
					fmt.Fprintln(pbt.RealStdout, err)
					os.Exit(10)
				}
				os.Exit(0)
			}
		}
		fmt.Println("unknown probe " + os.Args[3])
		os.Exit(3)
	default:
		fmt.Println("unknown command " + os.Args[1])
		os.Exit(3)
	}
}

func find(id string) *pbt.Prop {
	for _, p := range props.All() {
		if p.ID == id {
			return p
		}
	}
	fmt.Println("unknown property " + id)
	os.Exit(3)
	return nil
}
