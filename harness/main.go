// Command vh runs the checks: vh check ID, vh replay FILE, vh list, vh selftest.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"

	"vharness/mon"
	"vharness/props"
	"vharness/ref"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: vh check ID | replay FILE | list | selftest")
		os.Exit(2)
	}
	seed, err := strconv.ParseUint(mon.Getenv("VERIF_SEED", "1"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := mon.Getenv("VERIF_TIER", "quick")
	if tier != "thorough" {
		tier = "quick"
	}
	workers := runtime.NumCPU()
	if v, err := strconv.Atoi(os.Getenv("VH_WORKERS")); err == nil && v > 0 {
		workers = v
	}
	self, err := os.Executable()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		p := props.Get(os.Args[2])
		s, _ := strconv.ParseUint(os.Args[4], 10, 64)
		mon.Child(p, os.Args[3], s, os.Args[5])
	case "cold":
		s, _ := strconv.ParseUint(os.Args[2], 10, 64)
		i, _ := strconv.Atoi(os.Args[3])
		props.Cold(s, i)
	case "echo":
		s, _ := strconv.ParseUint(os.Args[2], 10, 64)
		i, _ := strconv.Atoi(os.Args[3])
		props.Echo(s, i, os.Args[4])
	case "list":
		for _, p := range props.All() {
			race := ""
			if p.Race {
				race = " race"
			}
			fmt.Println(p.ID + race)
		}
	case "selftest":
		if err := ref.SelfTest(); err != nil {
			fmt.Println("selftest:", err)
			os.Exit(2)
		}
		fmt.Println("selftest ok")
	case "check":
		p := props.Get(os.Args[2])
		if p == nil {
			fmt.Println("no property", os.Args[2])
			os.Exit(2)
		}
		if err := ref.SelfTest(); err != nil {
			fmt.Println("selftest:", err)
			os.Exit(2)
		}
		os.Exit(mon.Main(self, p, tier, seed, mon.Getenv("VERIF_DIR", "/verif"), workers))
	case "replay":
		b, err := os.ReadFile(os.Args[2])
		var v mon.Violation
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		p := props.Get(v.Prop)
		if p == nil {
			fmt.Println("no property", v.Prop)
			os.Exit(2)
		}
		out, err := mon.ExecuteOne(self, p, v)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		j, _ := json.MarshalIndent(out, "", " ")
		fmt.Println(string(j))
		if len(out.Violations) > 0 {
			os.Exit(1)
		}
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}
