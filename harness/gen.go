package main

import (
	"math/rand"
	"sort"
	"strings"
)

type M = map[string]any

// gen collects the cases of one property.
type gen struct {
	r     *rand.Rand
	scale int // 1 quick, more for thorough
	cases []*Case
}

func (g *gen) add(tag string, steps ...Step) {
	g.cases = append(g.cases, &Case{ID: len(g.cases) + 1, Tag: tag, Steps: steps})
}
func (g *gen) pick(ss ...string) string { return ss[g.r.Intn(len(ss))] }
func (g *gen) from(ss []string) string  { return ss[g.r.Intn(len(ss))] }
func (g *gen) coin() bool               { return g.r.Intn(2) == 0 }
func (g *gen) oneIn(n int) bool         { return g.r.Intn(n) == 0 }
func (g *gen) n(lo, hi int) int         { return lo + g.r.Intn(hi-lo+1) }
func (g *gen) count(quick int) int      { return quick * g.scale }

// word concatenates lo..hi random pieces.
func (g *gen) word(pieces []string, lo, hi int) string {
	var b strings.Builder
	for i, n := 0, g.n(lo, hi); i < n; i++ {
		b.WriteString(g.from(pieces))
	}
	return b.String()
}

func opts(kv ...any) M {
	o := M{}
	for i := 0; i < len(kv); i += 2 {
		o[kv[i].(string)] = kv[i+1]
	}
	return o
}
func text(s string) M { return M{"k": "text", "t": enc(s)} }
func textVia(via, s string) M {
	return M{"k": "text", "t": enc(s), "via": via}
}
func load(o M, s string) Step { return Step{"op": "load", "o": o, "srcs": []any{text(s)}} }
func loads(o M, srcs ...any) Step {
	return Step{"op": "load", "o": o, "srcs": srcs}
}
func obs() Step { return Step{"op": "obs"} }
func op(name string, kv ...any) Step {
	s := Step{"op": name}
	for i := 0; i < len(kv); i += 2 {
		switch v := kv[i+1].(type) {
		case string:
			s[kv[i].(string)] = enc(v)
		case []string:
			t := make([]string, len(v))
			for j := range v {
				t[j] = enc(v[j])
			}
			s[kv[i].(string)] = t
		default:
			s[kv[i].(string)] = v
		}
	}
	return s
}

// sequences enumerates all sequences of length lo..hi over the alphabet.
func sequences(alpha []string, lo, hi int, sep string, f func(string)) {
	var rec func(prefix string, left int)
	rec = func(prefix string, left int) {
		if left == 0 {
			f(prefix)
			return
		}
		for _, a := range alpha {
			rec(prefix+a+sep, left-1)
		}
	}
	for n := lo; n <= hi; n++ {
		rec("", n)
	}
}

// some keeps each value with probability 1/n.
func (g *gen) some(n int, f func(string)) func(string) {
	return func(s string) {
		if g.oneIn(n) {
			f(s)
		}
	}
}

// Formats of the writer.
func (g *gen) format() M {
	m := M{}
	for _, f := range []string{"prettySection", "prettyFormat", "prettyEqual", "defaultHeader"} {
		if g.coin() {
			m[f] = true
		}
	}
	if g.oneIn(3) {
		m["left"] = g.pick("", " ", "  ")
		m["right"] = g.pick("", " ", "\t")
	}
	if g.oneIn(10) {
		m["lb"] = "\r\n"
	}
	return m
}

func defaultFormat() M { return M{"prettySection": true, "prettyFormat": true} }

// subset turns each of the named options on with probability 1/n.
func (g *gen) subset(o M, n int, names ...string) M {
	for _, k := range names {
		if g.oneIn(n) {
			o[k] = true
		}
	}
	return o
}

var generators = map[string]func(g *gen){}

func generatorNames() []string {
	var out []string
	for k := range generators {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func sortedKeys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (g *gen) pickN(ns ...int) int { return ns[g.r.Intn(len(ns))] }

// note is a comment line, now and then a long one.
func (g *gen) note() string {
	if g.oneIn(8) {
		return g.pick("# ", ";") + g.filler(g.n(1, 300))
	}
	return g.pick("# c", "; d")
}
