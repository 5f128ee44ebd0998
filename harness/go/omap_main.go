// Replays histories of spec/OMap.tla in util.OrderedMap.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"reflect"

	"github.com/xaxys/bubbler/util"
)

type obs struct {
	Keys, Vals, Rank, Get []int
}
type entry struct {
	Op            string
	A, B, V, Ret  int
	Obs           obs
}

func key(k int) string {
	if k == 0 {
		return ""
	}
	return fmt.Sprintf("key%d", k)
}

func eq(what string, got, want any) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	return fmt.Sprintf("%s is %v, not %v", what, got, want)
}

func look(m *util.OrderedMap[string, int], o obs) string {
	n := len(o.Keys)
	ks := make([]string, n)
	es := make([]util.Entry[string, int], n)
	for i, k := range o.Keys {
		ks[i] = key(k)
		es[i] = util.Entry[string, int]{Key: key(k), Value: o.Vals[i]}
	}
	if s := eq("Len", m.Len(), n); s != "" {
		return s
	}
	if s := eq("Keys", m.Keys(), ks); s != "" {
		return s
	}
	if s := eq("Values", append([]int{}, m.Values()...), append([]int{}, o.Vals...)); s != "" {
		return s
	}
	if s := eq("Entries", append([]util.Entry[string, int]{}, m.Entries()...), es); s != "" {
		return s
	}
	for i := range es {
		if s := eq("Index", m.Index(i), es[i]); s != "" {
			return s
		}
	}
	if n > 0 {
		if s := eq("First", m.First(), es[0]); s != "" {
			return s
		}
		if s := eq("Last", m.Last(), es[n-1]); s != "" {
			return s
		}
	}
	for i := range o.Rank {
		k := key(i)
		live := o.Rank[i] >= 0
		if s := eq("Has "+k, m.Has(k), live); s != "" {
			return s
		}
		if s := eq("Rank "+k, m.Rank(k), o.Rank[i]); s != "" {
			return s
		}
		v, ok := m.Get(k)
		if s := eq("Get "+k, []any{v, ok}, []any{o.Get[i], live}); s != "" {
			return s
		}
		if s := eq("MustGet "+k, m.MustGet(k), o.Get[i]); s != "" {
			return s
		}
	}
	return ""
}

func run(h []entry) (bad string) {
	i := 0
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("step %d: panic: %v", i+1, e)
		}
	}()
	m := util.NewOrderedMap[string, int]()
	for i = range h {
		e := h[i]
		switch e.Op {
		case "put":
			if r := m.Put(key(e.A), e.V); r != (e.Ret == 1) {
				return fmt.Sprintf("step %d: Put(%q) returns %v", i+1, key(e.A), r)
			}
		case "must":
			m.MustPut(key(e.A), e.V)
		case "remove":
			m.Remove(key(e.A))
		case "anon":
			m.PutAnonymous(e.V)
		case "clear":
			m.Clear()
		case "sub":
			old := m
			m = m.Sub(e.A, e.B)
			if m == nil {
				return fmt.Sprintf("step %d: Sub(%d,%d) is nil", i+1, e.A, e.B)
			}
			// the part does not follow the whole
			for _, k := range old.Keys() {
				if k != "" {
					old.MustPut(k, -7)
				}
			}
			old.Put("other", -8)
		}
		if s := look(m, e.Obs); s != "" {
			return fmt.Sprintf("step %d (%s): %s", i+1, e.Op, s)
		}
	}
	return ""
}

func main() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	n := 0
	for sc.Scan() {
		var h []entry
		if err := json.Unmarshal(sc.Bytes(), &h); err != nil {
			panic(err)
		}
		n++
		if s := run(h); s != "" {
			fmt.Printf("BAD %s\t%s\n", s, sc.Text())
		}
	}
	fmt.Printf("DONE %d\n", n)
}
