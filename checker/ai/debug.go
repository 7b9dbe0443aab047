package ai

import (
	"fmt"
	"sort"
	"strings"
)

// Profile summarises where the exploration spent its states.
func (e *Engine) Profile(n int) []string {
	type row struct {
		name                          string
		acts, states, results, maxres int
	}
	m := map[string]*row{}
	for _, a := range e.acts {
		k := a.Fn.String()
		r := m[k]
		if r == nil {
			r = &row{name: k}
			m[k] = r
		}
		r.acts++
		r.states += len(a.visited)
		r.results += len(a.Results)
		r.maxres = max(r.maxres, len(a.Results))
	}
	var rs []*row
	for _, r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i].states > rs[j].states })
	var out []string
	for i, r := range rs {
		if i >= n {
			break
		}
		out = append(out, fmt.Sprintf("%-70s acts %5d states %6d results %6d max %5d", r.name, r.acts, r.states, r.results, r.maxres))
	}
	return out
}

// Dump lists some of the states visited in a function.
func (e *Engine) Dump(fn string, n int) []string {
	var out []string
	for _, a := range e.acts {
		if !strings.HasSuffix(a.Fn.String(), fn) {
			continue
		}
		var l []string
		for v := range a.visited {
			l = append(l, v)
		}
		sort.Slice(l, func(i, j int) bool { return len(l[i]) > len(l[j]) })
		out = append(out, fmt.Sprint("ACT ", len(l)))
		for i := 0; i < n && len(l) > 0; i++ {
			out = append(out, "  VIS "+strings.ReplaceAll(l[i*(len(l)-1)/n], "github.com/webrpc/webrpc/schema.", ""))
		}
	}
	return out
}

// Vary shows how the states visited in a function differ.
func (e *Engine) Vary(fn string, n int) []string {
	var out []string
	for _, a := range e.acts {
		if !strings.HasSuffix(a.Fn.String(), fn) || len(a.visited) < 200 {
			continue
		}
		var l []string
		for v := range a.visited {
			l = append(l, v)
		}
		sort.Strings(l)
		for i := 1; i < len(l) && n > 0; i += max(1, len(l)/n) {
			x, y := l[i-1], l[i]
			p := 0
			for p < len(x) && p < len(y) && x[p] == y[p] {
				p++
			}
			cut := func(s string) string {
				b := max(0, p-60)
				return s[b:min(len(s), p+100)]
			}
			out = append(out, "A "+cut(x), "B "+cut(y))
		}
	}
	return out
}

// VaryActs shows how the entry states of a function differ.
func (e *Engine) VaryActs(fn string, n int) []string {
	var out, l []string
	for k, a := range e.acts {
		if strings.HasSuffix(a.Fn.String(), fn) {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	for i := 1; i < len(l) && len(out) < 2*n; i += max(1, len(l)/n) {
		x, y := l[i-1], l[i]
		p := 0
		for p < len(x) && p < len(y) && x[p] == y[p] {
			p++
		}
		cut := func(s string) string {
			b := max(0, p-100)
			return s[b:min(len(s), p+100)]
		}
		out = append(out, "A "+cut(x), "B "+cut(y))
	}
	return out
}
