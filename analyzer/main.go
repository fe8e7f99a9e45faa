package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type rule struct {
	level string
	run   func(p *Prog, r *Report)
}

var debugs = map[string]func(p *Prog){}

var rules = map[string]rule{}

func register(id, level string, run func(p *Prog, r *Report)) { rules[id] = rule{level, run} }

func main() {
	prop := flag.String("prop", "", "property, or a comma separated list, or all")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "", "the /verif directory")
	flag.Parse()
	if *verif == "" {
		exe, _ := os.Executable()
		*verif = filepath.Dir(filepath.Dir(exe))
	}
	ids := strings.Split(*prop, ",")
	if *prop == "all" {
		ids = nil
		for id := range rules {
			ids = append(ids, id)
		}
		sort.Strings(ids)
	}
	start := time.Now()
	if os.Getenv("KD_DEBUG") == "names" {
		pkgs, err := loadPackages(nil)
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		writeNames(pkgs)
		return
	}
	p, err := load()
	if err != nil {
		for _, id := range ids {
			p := filepath.Join(*verif, "evidence", id+".violations.txt")
			os.MkdirAll(filepath.Dir(p), 0o755)
			os.WriteFile(p, []byte("the repository does not load: "+err.Error()+"\n"), 0o644)
			fmt.Printf("undecided: the repository does not load: %v\n", err)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		}
		os.Exit(1)
	}
	if d := os.Getenv("KD_DEBUG"); d != "" {
		debugs[d](p)
		return
	}
	code := 0
	for _, id := range ids {
		ru, ok := rules[id]
		if !ok {
			fmt.Printf("no rule for %s\n", id)
			os.Exit(2)
		}
		t0 := time.Now()
		if len(ids) == 1 {
			t0 = start
		}
		r := newReport(p, id, *tier)
		r.guard(id, func() { ru.run(p, r) })
		if c := r.finish(*verif, t0, ru.level); c != 0 {
			code = c
		}
	}
	os.Exit(code)
}
