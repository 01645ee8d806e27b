package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// Op is one completed operation of a history.
type Op struct {
	Call, Ret int64
	In, Out   any
	Desc      string
	From, To  time.Duration // simulated time of call and return
}

// Hist records a concurrent history.
type Hist struct {
	w   *W
	Ops []*Op
}

// Begin records an invocation.
func (h *Hist) Begin(in any, desc string) *Op {
	o := &Op{Call: h.w.Seq(), Ret: 1 << 62, In: in, Desc: desc, From: h.w.Now(), To: 1 << 62}
	h.Ops = append(h.Ops, o)
	return o
}

// End records the response.
func (h *Hist) End(o *Op, out any) {
	o.Out = out
	o.To = h.w.Now()
	o.Ret = h.w.Seq()
}

// Linearizable checks the history against a sequential model: step returns
// whether the output is legal in the state and the successor state; states are
// identified by key.  Returns false when no linearization exists, and true when
// one exists or the search exceeded its budget (second result false).
func Linearizable(ops []*Op, init any, step func(st any, o *Op) (bool, any), key func(any) string) (bool, bool) {
	n := len(ops)
	if n == 0 {
		return true, true
	}
	if n > 62 {
		panic("history too long")
	}
	sorted := append([]*Op(nil), ops...)
	sort.SliceStable(sorted, func(i, j int) bool { return sorted[i].Call < sorted[j].Call })
	seen := map[string]bool{}
	budget := 400000
	var rec func(done uint64, st any) bool
	rec = func(done uint64, st any) bool {
		if done == 1<<uint(n)-1 {
			return true
		}
		budget--
		if budget < 0 {
			return true
		}
		k := fmt.Sprintf("%x|%s", done, key(st))
		if seen[k] {
			return false
		}
		seen[k] = true
		minRet := int64(1 << 62)
		for i, o := range sorted {
			if done&(1<<uint(i)) == 0 && o.Ret < minRet {
				minRet = o.Ret
			}
		}
		for i, o := range sorted {
			if done&(1<<uint(i)) != 0 || o.Call > minRet {
				continue
			}
			ok, ns := step(st, o)
			if ok && rec(done|1<<uint(i), ns) {
				return true
			}
		}
		return false
	}
	r := rec(0, init)
	return r, budget >= 0
}

// sortedKeys lists the keys of a map in a fixed order: the harness itself must
// not depend on map order.
func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// Format prints a history.
func (h *Hist) Format() string {
	var b strings.Builder
	for _, o := range h.Ops {
		fmt.Fprintf(&b, "\n  [%d,%d %v-%v] %s -> %v", o.Call, o.Ret, o.From, o.To, o.Desc, o.Out)
	}
	return b.String()
}
