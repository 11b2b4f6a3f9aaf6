package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"time"
)

var stepTimeout = 20 * time.Second

// watchdog ends the driver when a call does not return in time.
func watchdog() {
	for {
		time.Sleep(200 * time.Millisecond)
		if d := stepDeadline.Load(); d != 0 && time.Now().UnixNano() > d {
			b, _ := json.Marshal(stepNow.Load())
			fmt.Printf("HANG %s\n", b)
			os.Exit(3)
		}
	}
}

func fatal(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "driver:", err)
		os.Exit(4)
	}
}

type shardWriter struct {
	f []*os.File
	w []*bufio.Writer
	n int
}

func newShards(dir string, n int) *shardWriter {
	s := &shardWriter{}
	for i := 0; i < n; i++ {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("trace%d.ndjson", i)))
		fatal(err)
		s.f = append(s.f, f)
		s.w = append(s.w, bufio.NewWriterSize(f, 1<<20))
	}
	return s
}

func (s *shardWriter) put(v any) {
	b, err := json.Marshal(v)
	fatal(err)
	w := s.w[s.n%len(s.w)]
	w.Write(b)
	w.WriteByte('\n')
	s.n++
}

func (s *shardWriter) close() {
	for i := range s.w {
		fatal(s.w[i].Flush())
		fatal(s.f[i].Close())
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness gen|run|replay ...")
		os.Exit(4)
	}
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Int64("seed", 1, "seed")
	scale := fs.Int("scale", 1, "amount of cases")
	shards := fs.Int("shards", 8, "trace files")
	out := fs.String("out", ".", "output directory")
	in := fs.String("in", "", "input file")
	mode := fs.String("mode", "ctl", "conc: ctl or race")
	only := fs.Bool("list", false, "do not execute")
	fatal(fs.Parse(os.Args[2:]))
	dir := filepath.Join(*out, "files")
	fatal(os.MkdirAll(dir, 0o700))
	go watchdog()
	switch os.Args[1] {
	case "gen":
		h := fnv.New64a()
		fmt.Fprintf(h, "%s/%d", *prop, *seed)
		g := &gen{r: rand.New(rand.NewSource(int64(h.Sum64()))), scale: *scale}
		f := generators[*prop]
		if f == nil {
			fatal(fmt.Errorf("no generator for %q", *prop))
		}
		f(g)
		if b := bigs[*prop]; b != nil {
			b(g)
		}
		g.mix(mixes[*prop])
		if *only {
			for _, c := range g.cases {
				b, _ := json.Marshal(c)
				fmt.Println(string(b))
			}
			return
		}
		runCases(g.cases, dir, *out, *shards)
	case "run": // execute the cases of a file again
		fh, err := os.Open(*in)
		fatal(err)
		d := json.NewDecoder(bufio.NewReaderSize(fh, 1<<20))
		var cases []*Case
		for d.More() {
			c := &Case{}
			fatal(d.Decode(c))
			for _, s := range c.Steps {
				delete(s, "out")
				if s["op"] == "absent" || s["op"] == "long" {
					s["op"] = s["was"]
					delete(s, "was")
				}
			}
			c.Panic = ""
			cases = append(cases, c)
		}
		runCases(cases, dir, *out, *shards)
	case "conc":
		concMain(*mode, *in, *out, *seed, *scale, *shards)
	case "replay":
		replay(*in, dir)
	default:
		fatal(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

// runCases executes the cases and writes one trace file per shard; cases that
// panic go to panics.ndjson instead.
func runCases(cases []*Case, dir, out string, shards int) {
	sw := newShards(out, shards)
	pf, err := os.Create(filepath.Join(out, "panics.ndjson"))
	fatal(err)
	steps, states := 0, make([]int, shards)
	seen := map[uint64]bool{}
	panics := 0
	spent := map[string]time.Duration{}
	for _, c := range cases {
		in, _ := json.Marshal(c.Steps)
		fatal(os.WriteFile(filepath.Join(out, "current.json"),
			[]byte(fmt.Sprintf(`{"id":%d,"tag":%q,"steps":%s}`, c.ID, c.Tag, in)), 0o600))
		h := fnv.New64a()
		h.Write(in)
		seen[h.Sum64()] = true
		stepNow.Store(c)
		t0 := time.Now()
		runCase(c, dir)
		spent[c.Tag] += time.Since(t0)
		if c.Panic != "" {
			b, _ := json.Marshal(c)
			pf.Write(append(b, '\n'))
			panics++
			continue
		}
		steps += len(c.Steps)
		states[sw.n%shards] += len(c.Steps) + 1
		sw.put(c)
	}
	sw.close()
	fatal(pf.Close())
	if os.Getenv("VERIF_SPENT") != "" {
		fmt.Fprintln(os.Stderr, spent)
	}
	b, _ := json.Marshal(map[string]any{"cases": len(cases), "distinct": len(seen), "steps": steps,
		"states": states, "panics": panics})
	fmt.Println(string(b))
}
