package main

import (
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// simEach summarises a loop over a sequence: for every way the function can return, the set of classes of the
// elements that were looked at, and whether every element was.
type eachOutcome struct {
	Seen      map[string]bool // classes of the elements passed; "?" for one that was not classified
	Exhausted bool            // the loop ran to the end of the sequence
	Rets      []*Term
	Pos       tokenPos
	St        *State
}

type eachResult struct {
	Out  []eachOutcome
	Errs []simErr
	// Loops is false when no loop over the sequence was seen
	Loops bool
}

// classify is asked after every branch what the facts on the path say about the element; "" means nothing yet.
func simEach(p *Prog, fn *ssa.Function, args []*Term, seq *Term, classify func(st *State, e *Term) string, setup func(*Sim)) *eachResult {
	res := &eachResult{}
	s := &Sim{P: p, NoHavoc: true}
	if setup != nil {
		setup(s)
	}
	// Mon: <phase>|<seen,...>   phase: i (idle) p (pending) e (exhausted)
	get := func(st *State) (string, map[string]bool) {
		parts := strings.SplitN(st.Mon, "|", 2)
		m := map[string]bool{}
		if len(parts) == 2 && parts[1] != "" {
			for _, x := range strings.Split(parts[1], ",") {
				m[x] = true
			}
		}
		return parts[0], m
	}
	set := func(st *State, ph string, m map[string]bool) {
		var ks []string
		for k := range m {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		st.Mon = ph + "|" + strings.Join(ks, ",")
	}
	upd := func(st *State) {
		ph, m := get(st)
		if ph == "p" {
			if c := classify(st, st.Data["elem"]); c != "" {
				m[c] = true
				set(st, "i", m)
			}
		}
	}
	base := seq
	ln := tLen(base)
	s.OnBranch = func(st *State, cond *Term, taken bool) {
		if cond.Op == "un" && cond.Name == "!" {
			cond, taken = cond.Args[0], !taken
		}
		upd(st)
		var idx *Term
		more := false
		if cond.Op == "bin" && cond.Name == "<" && cond.Args[1] == ln {
			idx, more = cond.Args[0], taken
		} else if cond.Op == "bin" && cond.Name == "<" && cond.Args[1] == tInt(0) && cond.Args[0].mentions(ln) {
			idx, more = cond.Args[0], !taken
		} else if cond.Op == "bin" && cond.Name == "==" && (cond.Args[0] == ln || cond.Args[1] == ln) {
			o := cond.Args[0]
			if o == ln {
				o = cond.Args[1]
			}
			if o == tInt(0) {
				if taken {
					_, m := get(st)
					set(st, "e", m)
				}
				return
			}
			idx, more = o, !taken
		} else {
			return
		}
		res.Loops = true
		ph, m := get(st)
		if ph == "p" {
			m["?"] = true
		}
		if ph == "" && more {
			// first element
			if !(idx == tInt(0) || idx.mentions(ln)) {
				m["?"] = true
			}
		}
		if more {
			set(st, "p", m)
			st.Data["elem"] = tIndex(base, idx)
		} else {
			set(st, "e", m)
		}
	}
	s.OnWiden = func(st *State, ph *ssa.Phi, old, nw, w *Term) {
		upd(st)
		if !isIntType(ph.Type()) {
			return
		}
		_, m := get(st)
		// stride
		one := tBin(tokADD, old, tInt(1), true)
		minus := tBin(tokSUB, old, tInt(1), true)
		if nw != one && nw != minus {
			m["?stride"] = true
			st.Mon = strings.SplitN(st.Mon, "|", 2)[0] + "|"
			ph2 := strings.SplitN(st.Mon, "|", 2)[0]
			set(st, ph2, m)
		}
	}
	s.OnReturn = func(st *State, rets []*Term, pos tokenPos) {
		upd(st)
		ph, m := get(st)
		if ph == "p" {
			m["?"] = true
		}
		rs := make([]*Term, len(rets))
		for i, x := range rets {
			rs[i] = st.Resolve(x)
		}
		res.Out = append(res.Out, eachOutcome{Seen: m, Exhausted: ph == "e", Rets: rs, Pos: pos, St: st.clone()})
	}
	s.Run(fn, args, func(st *State) { st.Mon = "|" })
	res.Errs = s.Errs
	return res
}

// quantifier says what a boolean function computes of the class of the elements: "all" (true when every element
// is T), "any" (true when some element is T), or "" with the reason.
func (res *eachResult) quantifier(ret int) (string, string) {
	if len(res.Errs) > 0 {
		return "", res.Errs[0].Msg
	}
	if !res.Loops {
		return "", "it does not loop over the sequence"
	}
	all, any := true, true
	why := ""
	for _, o := range res.Out {
		v := o.Rets[ret]
		if !v.isTrue() && !v.isFalse() {
			if k, ok := o.St.Fact(v); ok {
				v = tBool(k)
			} else {
				return "", "it returns " + v.String()
			}
		}
		for k := range o.Seen {
			if strings.HasPrefix(k, "?") {
				return "", "an element may be passed without being looked at"
			}
		}
		onlyT := !o.Seen["F"]
		onlyF := !o.Seen["T"]
		if v.isTrue() {
			if !(o.Exhausted && onlyT) {
				all = false
				why = "it can return true before every element is known to hold"
			}
			if !o.Seen["T"] {
				any = false
			}
		} else {
			if !o.Seen["F"] {
				all = false
			}
			if !(o.Exhausted && onlyF) {
				any = false
			}
		}
	}
	switch {
	case all && !any:
		return "all", ""
	case any && !all:
		return "any", ""
	}
	return "", why
}
