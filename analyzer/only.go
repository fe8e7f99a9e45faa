package main

import (
	"sync"

	"golang.org/x/tools/go/ssa"
)

var (
	theProg     *Prog
	callers     map[*ssa.Function][]*ssa.Function
	callersOnce sync.Once
)

// onlyFrom tells whether a function is, or is only called by ones that are, as is says:
// a part of such a function that was given a name of its own.
func onlyFrom(f *ssa.Function, is func(*ssa.Function) bool) bool {
	callersOnce.Do(func() {
		callers = map[*ssa.Function][]*ssa.Function{}
		for _, g := range theProg.Funcs {
			for _, c := range callsIn(g) {
				if h := c.Common().StaticCallee(); h != nil {
					callers[h] = append(callers[h], g)
				}
			}
		}
	})
	seen := map[*ssa.Function]bool{}
	var ok func(f *ssa.Function) bool
	ok = func(f *ssa.Function) bool {
		if is(f) || seen[f] {
			return true
		}
		seen[f] = true
		if len(callers[f]) == 0 {
			return false
		}
		for _, g := range callers[f] {
			if !ok(g) {
				return false
			}
		}
		return true
	}
	return ok(f)
}
