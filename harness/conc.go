package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/go-ini/ini"
	"github.com/go-ini/ini/vsync"
)

// A Prog is what several goroutines do to one document: first the setup, by
// one goroutine; then each of the threads.  A call leaves the sections and
// keys it returned under its label ("a0", "a1"... for the setup, "t1.0" for
// the first call of the second thread); "on" names the label of the section
// or key that a call is made on.
type Prog struct {
	Opts    map[string]any `json:"o"`
	Setup   []Step         `json:"setup"`
	Threads [][]Step       `json:"threads"`
	Reps    int            `json:"reps,omitempty"`
}

// A ConcCase is one run of a Prog; Sched repeats it.
type ConcCase struct {
	ID    int            `json:"id"`
	Tag   string         `json:"tag"`
	Opts  map[string]any `json:"o"`
	Evs   []Step         `json:"evs"`
	NS    int            `json:"ns"`
	NK    int            `json:"nk"`
	Kind  string         `json:"kind,omitempty"`
	What  string         `json:"what,omitempty"`
	Prog  *Prog          `json:"prog"`
	Sched []int          `json:"sched"`
}

type handles struct {
	ss []*ini.Section
	ks []*ini.Key
}

var secOps = map[string]bool{"newkey": true, "newbool": true, "key": true, "getkey": true, "haskey": true, "delkey": true,
	"keylist": true, "keys": true, "hash": true, "hasvalue": true, "body": true, "setbody": true, "childnames": true, "parentkeys": true}
var keyOps = map[string]bool{"value": true, "string": true, "setval": true, "addshadow": true, "shadows": true,
	"addnested": true, "nested": true, "must": true, "int": true, "strings": true}

// concCall makes one call; ok is false when there is nothing to call it on.
func concCall(f *ini.File, regs func(string) handles, op Step) (out any, h handles, s *ini.Section, k *ini.Key, ok bool) {
	name, _ := op["op"].(string)
	n, v := txt(op["n"]), txt(op["v"])
	if secOps[name] {
		r := regs(op["on"].(string))
		// Lookups in a child section are several calls.
		for _, x := range r.ss {
			if x == nil || !strings.Contains(x.Name(), ".") {
				s = x
				break
			}
		}
		if s == nil {
			return nil, h, nil, nil, false
		}
	}
	if keyOps[name] {
		r := regs(op["on"].(string))
		if len(r.ks) == 0 {
			return nil, h, nil, nil, false
		}
		k = r.ks[0]
	}
	out = true
	sec := func(s *ini.Section) { h.ss = []*ini.Section{s} }
	key := func(k *ini.Key) { h.ks = []*ini.Key{k} }
	switch name {
	case "newsec":
		x, err := f.NewSection(n)
		if out = err == nil; err == nil {
			sec(x)
		}
	case "newraw":
		x, err := f.NewRawSection(n, v)
		if out = err == nil; err == nil {
			sec(x)
		}
	case "newsecs":
		out = f.NewSections(n, v) == nil
	case "section":
		sec(f.Section(n))
	case "getsec":
		x, err := f.GetSection(n)
		if out = err == nil; err == nil {
			sec(x)
		}
	case "hassec":
		out = f.HasSection(n)
	case "delsec":
		f.DeleteSection(n)
	case "delsecidx":
		out = f.DeleteSectionWithIndex(n, 0) == nil
	case "secidx":
		sec(f.SectionWithIndex(n, 0))
	case "secsby":
		x, err := f.SectionsByName(n)
		if out = err == nil; err == nil {
			h.ss = x
		}
	case "seclist":
		out = f.SectionStrings()
	case "sections":
		h.ss = f.Sections()
	case "newkey":
		x, err := s.NewKey(n, v)
		if out = err == nil; err == nil {
			key(x)
		}
	case "newbool":
		x, err := s.NewBooleanKey(n)
		if out = err == nil; err == nil {
			key(x)
		}
	case "key":
		key(s.Key(n))
	case "getkey":
		x, err := s.GetKey(n)
		if out = err == nil; err == nil {
			key(x)
		}
	case "haskey":
		out = s.HasKey(n)
	case "delkey":
		s.DeleteKey(n)
	case "keylist":
		out = s.KeyStrings()
	case "keys":
		h.ks = s.Keys()
	case "hash":
		out = pairs(s.KeysHash())
	case "hasvalue":
		out = s.HasValue(v)
	case "body":
		out = s.Body()
	case "setbody":
		s.SetBody(v)
	case "childnames":
		l := []string{}
		for _, c := range s.ChildSections() {
			l = append(l, c.Name())
		}
		out = l
	case "parentkeys":
		out = len(s.ParentKeys())
	case "value":
		out = k.Value()
	case "string":
		out = k.String()
	case "int":
		x, err := k.Int()
		out = fmt.Sprint(x, err == nil)
	case "strings":
		out = k.Strings(",")
	case "must":
		out = k.MustString(v)
	case "setval":
		k.SetValue(v)
	case "addshadow":
		out = k.AddShadow(v) == nil
	case "shadows":
		out = k.ValueWithShadows()
	case "addnested":
		out = k.AddNestedValue(v) == nil
	case "nested":
		out = append([]string{}, k.NestedValues()...)
	default:
		panic("driver: unknown call " + name)
	}
	return out, h, s, k, true
}

func pairs(m map[string]string) [][]string {
	l := [][]string{}
	for k, v := range m {
		l = append(l, []string{k, v})
	}
	sort.Slice(l, func(i, j int) bool { return l[i][0] < l[j][0] })
	return l
}

type doneCall struct {
	thread, inv, resp int
	op                Step
	out               any
	h                 handles
	s                 *ini.Section
	k                 *ini.Key
}

// runSchedule runs the program once; choose picks the goroutine that goes on.
func runSchedule(p *Prog, choose func([]int) int) (c *ConcCase) {
	c = &ConcCase{Opts: p.Opts, Prog: p}
	f := ini.Empty(optsOf(p.Opts))
	clock := 0
	regs := map[string]handles{}
	get := func(l string) handles { return regs[l] }
	var calls []*doneCall
	per := make([][]*doneCall, len(p.Threads))
	one := func(thread int, label string, op Step) *doneCall {
		clock++
		d := &doneCall{thread: thread, inv: clock, op: op}
		var ok bool
		d.out, d.h, d.s, d.k, ok = concCall(f, get, op)
		if !ok {
			return nil
		}
		clock++
		d.resp = clock
		regs[label] = d.h
		return d
	}
	for i, op := range p.Setup {
		if d := one(0, fmt.Sprintf("a%d", i), op); d != nil {
			calls = append(calls, d)
		}
	}
	var bodies []func()
	for t := range p.Threads {
		t := t
		bodies = append(bodies, func() {
			for i, op := range p.Threads[t] {
				if i > 0 {
					vsync.Point()
				}
				if d := one(t+1, fmt.Sprintf("t%d.%d", t, i), op); d != nil {
					per[t] = append(per[t], d)
				}
			}
		})
	}
	o := vsync.Run(bodies, choose)
	switch {
	case o.Stuck:
		c.Kind = "hang"
	case o.Deadlock:
		c.Kind = "deadlock"
	default:
		for t, what := range o.Panics {
			if what != "" {
				c.Kind, c.What = "panic", fmt.Sprintf("thread %d: %s", t+1, what)
			}
		}
	}
	if strings.Contains(c.What, "driver:") {
		panic(c.What)
	}
	for _, l := range per {
		calls = append(calls, l...)
	}
	sid := map[*ini.Section]int{nil: 0}
	kid := map[*ini.Key]int{nil: 0}
	secs, keys := []*ini.Section{}, []*ini.Key{}
	sn := func(s *ini.Section) int {
		if _, ok := sid[s]; !ok {
			secs = append(secs, s)
			sid[s] = len(secs)
		}
		return sid[s]
	}
	kn := func(k *ini.Key) int {
		if _, ok := kid[k]; !ok {
			keys = append(keys, k)
			kid[k] = len(keys)
		}
		return kid[k]
	}
	sns := func(l []*ini.Section) []int {
		r := []int{}
		for _, s := range l {
			r = append(r, sn(s))
		}
		return r
	}
	kns := func(l []*ini.Key) []int {
		r := []int{}
		for _, k := range l {
			r = append(r, kn(k))
		}
		return r
	}
	for _, d := range calls {
		ev := Step{}
		for k, v := range d.op {
			ev[k] = v
		}
		ev["t"], ev["inv"], ev["resp"], ev["out"] = d.thread, d.inv, d.resp, d.out
		delete(ev, "on")
		if secOps[d.op["op"].(string)] {
			ev["on"] = sn(d.s)
		} else if keyOps[d.op["op"].(string)] {
			ev["on"] = kn(d.k)
		}
		ev["ss"], ev["ks"] = sns(d.h.ss), kns(d.h.ks)
		c.Evs = append(c.Evs, ev)
	}
	if c.Kind == "" {
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.Kind, c.What = "panic", fmt.Sprintf("looking at the final document: %v", r)
				}
			}()
			fin := Step{"op": "final", "t": 0, "inv": clock + 1, "resp": clock + 2, "out": true, "ss": sns(f.Sections()), "ks": []int{}}
			sd, kd := []any{}, []any{}
			for i := 0; i < len(secs); i++ {
				s := secs[i]
				sd = append(sd, map[string]any{"n": s.Name(), "body": s.Body(), "keys": kns(s.Keys()),
					"names": s.KeyStrings(), "hash": pairs(s.KeysHash())})
			}
			for _, k := range keys {
				kd = append(kd, map[string]any{"n": k.Name(), "v": k.Value(), "sh": k.ValueWithShadows(),
					"ne": append([]string{}, k.NestedValues()...)})
			}
			fin["sd"], fin["kd"] = sd, kd
			c.Evs = append(c.Evs, fin)
		}()
	}
	c.NS, c.NK = len(secs), len(keys)
	return c
}

// signature tells runs apart by what can be seen of them: the results and
// which call ended before which began.
func (c *ConcCase) signature() uint64 {
	h := fnv.New64a()
	for _, e := range c.Evs {
		x := Step{}
		for k, v := range e {
			if k != "inv" && k != "resp" {
				x[k] = v
			}
		}
		b, _ := json.Marshal(x)
		h.Write(b)
		for _, g := range c.Evs {
			if e["resp"].(int) < g["inv"].(int) {
				h.Write([]byte{1})
			} else {
				h.Write([]byte{0})
			}
		}
	}
	return h.Sum64()
}

// explore runs the program under all its schedules, or limit of them.
func explore(p *Prog, limit int, r *rand.Rand, emit func(*ConcCase) bool) int {
	type at struct{ pick, of int }
	var path []at
	n := 0
	for ; n < limit; n++ {
		var now []at
		random := n > limit*3/4 // the rest anywhere
		var sched []int
		c := runSchedule(p, func(rs []int) int {
			k := len(now)
			pick := 0
			if random {
				pick = r.Intn(len(rs))
			} else if k < len(path) {
				pick = path[k].pick
			}
			now = append(now, at{pick, len(rs)})
			sched = append(sched, pick)
			return rs[pick]
		})
		c.Sched = sched
		if !emit(c) {
			return n + 1
		}
		if random {
			continue
		}
		for len(now) > 0 && now[len(now)-1].pick+1 >= now[len(now)-1].of {
			now = now[:len(now)-1]
		}
		if len(now) == 0 {
			return n + 1
		}
		now[len(now)-1].pick++
		path = now
	}
	return n
}

// runFree lets the goroutines of the program run as they like.
func runFree(p *Prog) {
	f := ini.Empty(optsOf(p.Opts))
	regs := map[string]handles{}
	for i, op := range p.Setup {
		_, regs[fmt.Sprintf("a%d", i)], _, _, _ = concCall(f, func(l string) handles { return regs[l] }, op)
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	for t := range p.Threads {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			own := map[string]handles{}
			get := func(l string) handles {
				if h, ok := own[l]; ok {
					return h
				}
				return regs[l]
			}
			<-start
			for i, op := range p.Threads[t] {
				_, own[fmt.Sprintf("t%d.%d", t, i)], _, _, _ = concCall(f, get, op)
			}
		}(t)
	}
	close(start)
	wg.Wait()
	f.Sections()
}

// ---------------------------------------------------------------------------

var concFileOps = []Step{
	{"op": "newsec", "n": "a"}, {"op": "newsec", "n": "c"}, {"op": "newsec", "n": ""},
	{"op": "section", "n": "a"}, {"op": "section", "n": "c"}, {"op": "section", "n": ""},
	{"op": "getsec", "n": "a"}, {"op": "getsec", "n": "c"}, {"op": "getsec", "n": ""},
	{"op": "hassec", "n": "a"}, {"op": "hassec", "n": "c"},
	{"op": "delsec", "n": "a"}, {"op": "delsec", "n": "b"}, {"op": "delsec", "n": ""}, {"op": "delsecidx", "n": "a"},
	{"op": "secidx", "n": "c"}, {"op": "secidx", "n": "a"}, {"op": "secsby", "n": "a"},
	{"op": "seclist"}, {"op": "sections"},
	{"op": "newsec", "n": "a.q"}, {"op": "delsec", "n": "a.q"}, {"op": "section", "n": "a.r"}, {"op": "hassec", "n": "a.q"},
}
var concSecOps = []Step{
	{"op": "newkey", "n": "x", "v": "5"}, {"op": "newkey", "n": "z", "v": "5"}, {"op": "newkey", "n": "z", "v": "6"},
	{"op": "newkey", "n": "", "v": "6"},
	{"op": "key", "n": "x"}, {"op": "key", "n": "z"}, {"op": "getkey", "n": "x"}, {"op": "getkey", "n": "z"},
	{"op": "haskey", "n": "x"}, {"op": "haskey", "n": "z"}, {"op": "delkey", "n": "x"}, {"op": "delkey", "n": "z"},
	{"op": "keylist"}, {"op": "keys"}, {"op": "hash"}, {"op": "hasvalue", "v": "5"}, {"op": "hasvalue", "v": "1"},
	{"op": "childnames"}, {"op": "body"}, {"op": "setbody", "v": "q"}, {"op": "setbody", "v": "r"},
}
var concKeyOps = []Step{
	{"op": "value"}, {"op": "string"}, {"op": "setval", "v": "5"}, {"op": "setval", "v": "6"},
	{"op": "addshadow", "v": "5"}, {"op": "addshadow", "v": "6"}, {"op": "shadows"},
	{"op": "addnested", "v": "8"}, {"op": "addnested", "v": "9"}, {"op": "nested"},
}

// Calls that are several calls: only that they neither race nor block.
var concCompound = []Step{
	{"op": "newraw", "n": "c", "v": "q"}, {"op": "newraw", "n": "r", "v": "w"}, {"op": "newsecs", "n": "c", "v": "d"},
	{"op": "newbool", "n": "z"}, {"op": "newbool", "n": "x"}, {"op": "must", "v": "7"}, {"op": "int"}, {"op": "strings"},
	{"op": "parentkeys"},
}

func on(op Step, l string) Step {
	s := Step{}
	for k, v := range op {
		s[k] = v
	}
	s["on"] = l
	return s
}

// Setups: labels of sections and keys to work with.
type concSetup struct {
	steps      []Step
	secs, keys []string
}

func concSetups(r *rand.Rand) []concSetup {
	return []concSetup{
		{[]Step{{"op": "newsec", "n": "a"}, on(Step{"op": "newkey", "n": "x", "v": "1"}, "a0"),
			on(Step{"op": "newkey", "n": "y", "v": "2"}, "a0"), {"op": "newsec", "n": "b"},
			on(Step{"op": "newkey", "n": "x", "v": "3"}, "a3")}, []string{"a0", "a3"}, []string{"a1", "a2", "a4"}},
		{[]Step{{"op": "getsec", "n": ""}, on(Step{"op": "newkey", "n": "x", "v": "1"}, "a0"),
			{"op": "newraw", "n": "b", "v": "w"}}, []string{"a0", "a2"}, []string{"a1"}},
		{[]Step{{"op": "newsec", "n": "a"}, on(Step{"op": "newkey", "n": "x", "v": "1"}, "a0"),
			on(Step{"op": "newkey", "n": "z", "v": "2"}, "a0"), on(Step{"op": "newbool", "n": "t"}, "a0"),
			on(Step{"op": "delkey", "n": "z"}, "a0"), {"op": "newsec", "n": "b"},
			on(Step{"op": "newkey", "n": "x", "v": "4"}, "a5"), {"op": "delsec", "n": "b"}},
			[]string{"a0", "a5"}, []string{"a1", "a2", "a3", "a6"}},
		{[]Step{{"op": "section", "n": "a"}}, []string{"a0"}, nil},
	}
}

func concOpts(i int) map[string]any {
	return []map[string]any{
		{"nested": true},
		{"shadow": true, "nested": true},
		{"ins": true, "shadow": true, "dupShadow": true},
		{"insKey": true},
		{"insSec": true},
	}[i%5]
}

// changeCase gives some names capitals: with names folded they are the same.
func changeCase(r *rand.Rand, s Step) Step {
	if n, ok := s["n"].(string); ok && r.Intn(2) == 0 {
		s["n"] = strings.ToUpper(n)
	}
	return s
}

func concOp(r *rand.Rand, st concSetup, own []string, compound bool) Step {
	secs, keys := st.secs, st.keys
	if len(own) > 0 && r.Intn(3) == 0 {
		l := own[r.Intn(len(own))]
		switch l[0] {
		case 's':
			secs = []string{l[1:]}
		case 'k':
			keys = []string{l[1:]}
		}
	}
	for {
		switch x := r.Intn(10); {
		case compound && x < 3:
			op := concCompound[r.Intn(len(concCompound))]
			switch {
			case secOps[op["op"].(string)]:
				return on(op, secs[r.Intn(len(secs))])
			case keyOps[op["op"].(string)]:
				if len(keys) == 0 {
					continue
				}
				return on(op, keys[r.Intn(len(keys))])
			}
			return on(op, "")
		case x < 4:
			return on(concFileOps[r.Intn(len(concFileOps))], "")
		case x < 8:
			return on(concSecOps[r.Intn(len(concSecOps))], secs[r.Intn(len(secs))])
		default:
			if len(keys) == 0 {
				continue
			}
			return on(concKeyOps[r.Intn(len(concKeyOps))], keys[r.Intn(len(keys))])
		}
	}
}

func randomProg(r *rand.Rand, i int, compound bool) *Prog {
	setups := concSetups(r)
	st := setups[r.Intn(len(setups))]
	p := &Prog{Opts: concOpts(r.Intn(5)), Setup: st.steps}
	shape := [][]int{{2, 2}, {1, 1, 1}, {2, 1}, {3, 2}, {2, 1, 1}, {3, 3}, {2, 2, 1}}[r.Intn(7)]
	for t, n := range shape {
		var ops []Step
		var own []string
		for j := 0; j < n; j++ {
			op := concOp(r, st, own, compound)
			if len(p.Opts) > 0 && (p.Opts["ins"] != nil || p.Opts["insKey"] != nil || p.Opts["insSec"] != nil) {
				op = changeCase(r, op)
			}
			ops = append(ops, op)
			l := fmt.Sprintf("t%d.%d", t, j)
			switch op["op"] {
			case "newsec", "section", "getsec", "secidx", "sections", "secsby", "newraw":
				own = append(own, "s"+l)
			case "newkey", "key", "getkey", "keys", "newbool":
				own = append(own, "k"+l)
			}
		}
		p.Threads = append(p.Threads, ops)
	}
	return p
}

// pairProgs are all pairs of calls, each made by its own goroutine.
func pairProgs(o map[string]any, compound bool) []*Prog {
	st := concSetups(nil)[0]
	var ops []Step
	for _, op := range concFileOps {
		ops = append(ops, on(op, ""))
	}
	for _, op := range concSecOps {
		ops = append(ops, on(op, "a0"))
	}
	for _, op := range concKeyOps {
		ops = append(ops, on(op, "a1"))
	}
	if compound {
		for _, op := range concCompound {
			switch {
			case secOps[op["op"].(string)]:
				op = on(op, "a0")
			case keyOps[op["op"].(string)]:
				op = on(op, "a1")
			}
			ops = append(ops, on(op, txt(op["on"])))
		}
	}
	var l []*Prog
	for i := range ops {
		for j := 0; j <= i; j++ {
			l = append(l, &Prog{Opts: o, Setup: st.steps, Threads: [][]Step{{ops[i]}, {ops[j]}}})
		}
	}
	// the body of a raw section
	raw := concSetups(nil)[1]
	rawOps := []Step{on(Step{"op": "body"}, "a2"), on(Step{"op": "setbody", "v": "q"}, "a2"), on(Step{"op": "setbody", "v": "r"}, "a2"),
		{"op": "delsec", "n": "b"}, {"op": "section", "n": "b"}}
	for i := range rawOps {
		for j := 0; j <= i; j++ {
			l = append(l, &Prog{Opts: o, Setup: raw.steps, Threads: [][]Step{{rawOps[i]}, {rawOps[j]}}})
		}
	}
	return l
}

func concMain(mode, in, out string, seed int64, scale, shards int) {
	r := rand.New(rand.NewSource(seed*7919 + 17))
	current := func(id int, tag string, p *Prog) {
		b, _ := json.Marshal(ConcCase{ID: id, Tag: tag, Prog: p, Opts: p.Opts})
		fatal(os.WriteFile(filepath.Join(out, "current.json"), b, 0o600))
	}
	type job struct {
		tag   string
		p     *Prog
		sched []int
	}
	var jobs []job
	if in != "" {
		b, err := os.ReadFile(in)
		fatal(err)
		var c ConcCase
		fatal(json.Unmarshal(b, &c))
		jobs = append(jobs, job{c.Tag, c.Prog, c.Sched})
	} else {
		for i := 0; i < 2; i++ {
			for _, p := range pairProgs(concOpts(i), mode == "race") {
				jobs = append(jobs, job{"pair", p, nil})
			}
		}
		n := 400 * scale
		if mode == "race" {
			n = 300 * scale
		}
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{"random", randomProg(r, i, mode == "race"), nil})
		}
	}
	if mode == "race" {
		runs := 0
		for i, j := range jobs {
			current(i+1, j.tag, j.p)
			stepDeadline.Store(time.Now().Add(stepTimeout).UnixNano())
			reps := 6
			if in != "" {
				reps = 2000
			}
			for k := 0; k < reps; k++ {
				runFree(j.p)
				runs++
			}
		}
		stepDeadline.Store(0)
		fmt.Printf("{\"programs\":%d,\"runs\":%d}\n", len(jobs), runs)
		return
	}
	sw := newShards(out, shards)
	pf, err := os.Create(filepath.Join(out, "panics.ndjson"))
	fatal(err)
	seen := map[uint64]bool{}
	states := make([]int, shards)
	runs, id, bad, full := 0, 0, 0, 0
	limit := 150 * scale
	for _, j := range jobs {
		current(id+1, j.tag, j.p)
		stepDeadline.Store(time.Now().Add(4 * stepTimeout).UnixNano())
		emit := func(c *ConcCase) bool {
			id++
			c.ID, c.Tag = id, j.tag
			if c.Kind != "" {
				b, err := json.Marshal(c)
				fatal(err)
				pf.Write(append(b, '\n'))
				bad++
				return false
			}
			s := c.signature()
			if !seen[s] {
				seen[s] = true
				states[sw.n%shards]++
				sw.put(c)
			}
			return true
		}
		if j.sched != nil {
			k := 0
			c := runSchedule(j.p, func(rs []int) int {
				x := 0
				if k < len(j.sched) {
					x = j.sched[k] % len(rs)
				}
				k++
				return rs[x]
			})
			c.Sched = j.sched
			emit(c)
			runs++
			continue
		}
		n := explore(j.p, limit, r, emit)
		if n < limit {
			full++
		}
		runs += n
		if bad >= 5 {
			break
		}
	}
	stepDeadline.Store(0)
	sw.close()
	fatal(pf.Close())
	b, _ := json.Marshal(map[string]any{"cases": len(seen), "programs": len(jobs), "complete": full, "runs": runs,
		"states": states, "panics": bad})
	fmt.Println(string(b))
}
