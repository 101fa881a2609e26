package main

import (
	"bufio"
	"bytes"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// The paths of a harness form a tree: a choice (an input alternative, a
// schedule step, an iteration order) has one child per value below its
// domain, a branch on data has one per side; sides that the solver refuted
// are not in it. After the exploration the solver is asked for values of all
// choices that are outside of the paths which passed. "unsat" says that the
// verdict covers every value: no path was lost by the explorer.

const skipDecision = 255

type coverNode struct {
	n    uint8 // domain; 0: a leaf
	pass bool
	kids []*coverNode
}

type coverTree struct {
	root  *coverNode
	nodes int
	full  bool // too large, given up
}

const coverMax = 4_000_000

func (t *coverTree) add(trace []decision, pass bool) {
	if t.full {
		return
	}
	if t.root == nil {
		t.root = &coverNode{}
		t.nodes++
	}
	x := t.root
	for _, d := range trace {
		if d.forced || d.n == skipDecision {
			continue
		}
		v, n := int(d.v), int(d.n)
		if n == 0 {
			v, n = int(d.v&1), 2
		}
		if x.n == 0 {
			x.n = uint8(n)
			x.kids = make([]*coverNode, n)
		}
		if v >= len(x.kids) {
			t.full = true
			return
		}
		if x.kids[v] == nil {
			x.kids[v] = &coverNode{}
			t.nodes++
		}
		x = x.kids[v]
	}
	x.pass = x.n == 0 && pass
	if t.nodes > coverMax {
		t.full = true
		t.root = nil
	}
}

type coverResult struct {
	answer string
	vars   int
	terms  int
	time   time.Duration
}

// check asks the solver for uncovered values.
func (t *coverTree) check(kind string, limit time.Duration) coverResult {
	var r coverResult
	if t.full || t.root == nil {
		r.answer = "not asked: too many paths"
		return r
	}
	start := time.Now()
	ids := map[string]int{}
	var defs []string
	depth := 0
	// the post-order is iterative: schedules can be long
	type frame struct {
		x    *coverNode
		d    int
		i    int
		kids []int
	}
	done := -1
	st := []*frame{{x: t.root}}
	for len(st) > 0 {
		f := st[len(st)-1]
		if done >= 0 {
			f.kids = append(f.kids, done)
			done = -1
		}
		if f.x.n == 0 {
			done = 1 // 0: false (covered), 1: true
			if f.x.pass {
				done = 0
			}
			st = st[:len(st)-1]
			continue
		}
		if f.i < int(f.x.n) {
			k := f.x.kids[f.i]
			f.i++
			if k == nil {
				f.kids = append(f.kids, 1)
			} else {
				st = append(st, &frame{x: k, d: f.d + 1})
			}
			continue
		}
		if f.d+1 > depth {
			depth = f.d + 1
		}
		var b strings.Builder
		fmt.Fprintf(&b, "(and (bvult d%d (_ bv%d 8))", f.d, f.x.n)
		for v, k := range f.kids {
			fmt.Fprintf(&b, " (=> (= d%d (_ bv%d 8)) u%d)", f.d, v, k)
		}
		b.WriteString(")")
		s := b.String()
		id, ok := ids[s]
		if !ok {
			id = len(defs) + 2
			ids[s] = id
			defs = append(defs, s)
		}
		done = id
		st = st[:len(st)-1]
	}
	if kind == "cvc5" {
		kind = "z3-new"
	}
	var b bytes.Buffer
	w := bufio.NewWriter(&b)
	fmt.Fprintf(w, "(set-logic QF_BV)\n(set-option :timeout %d)\n", limit.Milliseconds())
	for i := 0; i < depth; i++ {
		fmt.Fprintf(w, "(declare-const d%d (_ BitVec 8))\n", i)
	}
	// named constants, so that shared subtrees stay shared
	fmt.Fprint(w, "(define-fun u0 () Bool false)\n(define-fun u1 () Bool true)\n")
	for i, s := range defs {
		fmt.Fprintf(w, "(define-fun u%d () Bool %s)\n", i+2, s)
	}
	fmt.Fprintf(w, "(assert u%d)\n(check-sat)\n", done)
	w.Flush()
	cmd := exec.Command(kind, "-in", "-smt2", fmt.Sprintf("-T:%d", int(limit.Seconds())+1))
	cmd.Stdin = &b
	out, _ := cmd.Output()
	r.answer = strings.TrimSpace(string(out))
	r.vars, r.terms, r.time = depth, len(defs), time.Since(start)
	return r
}
