package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"testing/iotest"
	"time"
	"unicode/utf8"

	"github.com/go-ini/ini"
)

// A Case is one history: steps executed in order against one document.
type Case struct {
	ID    int    `json:"id"`
	Tag   string `json:"tag,omitempty"`
	Steps []Step `json:"steps"`
	Panic string `json:"panic,omitempty"`
}

// A Step is one call: "op" names it, "out" is what the call returned.
type Step = map[string]any

// machine holds the real objects a history works on.
type machine struct {
	f              *ini.File
	opts           ini.LoadOptions
	alt            *ini.File
	altOpts        ini.LoadOptions
	held           []func() []string
	slices, copies [][]byte
	paths          []string // of the sources that are files
	altPaths       []string
	dir            string
	saved          string
	nfile          int
	closers        []*chunked // sources with a Close method
	handles        []handle
	by             *handle // what the present call is made through
	aux            map[string]any
}

// A handle is a section or key that the caller keeps.
type handle struct {
	sec *ini.Section
	key *ini.Key
}

func mapperOf(v any) func(string) string {
	switch v {
	case "upper":
		return strings.ToUpper
	case "wrap":
		return func(s string) string { return "<" + s + ">" }
	}
	return nil
}

var errFault = errors.New("injected read fault")
var errDenied = errors.New("injected open failure")

func optsOf(v any) ini.LoadOptions {
	o, _ := v.(map[string]any)
	var debug ini.DebugFunc
	if boolean(o["debug"]) {
		debug = func(string) {}
	}
	return ini.LoadOptions{
		DebugFunc:                   debug,
		Loose:                       boolean(o["loose"]),
		Insensitive:                 boolean(o["ins"]),
		InsensitiveSections:         boolean(o["insSec"]),
		InsensitiveKeys:             boolean(o["insKey"]),
		IgnoreContinuation:          boolean(o["ignCont"]),
		IgnoreInlineComment:         boolean(o["ignInline"]),
		SkipUnrecognizableLines:     boolean(o["skip"]),
		ShortCircuit:                boolean(o["short"]),
		AllowBooleanKeys:            boolean(o["bool"]),
		AllowShadows:                boolean(o["shadow"]),
		AllowNestedValues:           boolean(o["nested"]),
		AllowPythonMultilineValues:  boolean(o["py"]),
		SpaceBeforeInlineComment:    boolean(o["spaceInline"]),
		UnescapeValueDoubleQuotes:   boolean(o["unescDQ"]),
		UnescapeValueCommentSymbols: boolean(o["unescCS"]),
		UnparseableSections:         txts(o["unparse"]),
		KeyValueDelimiters:          txt(o["delims"]),
		KeyValueDelimiterOnWrite:    txt(o["wdelim"]),
		ChildSectionDelimiter:       txt(o["child"]),
		PreserveSurroundedQuote:     boolean(o["keepQ"]),
		ReaderBufferSize:            num(o["bufsz"]),
		AllowNonUniqueSections:      boolean(o["nonuniq"]),
		AllowDuplicateShadowValues:  boolean(o["dupShadow"]),
	}
}

// defaultOpts lists every option the specification knows, as JSON.
func defaultOpts() map[string]any {
	return map[string]any{
		"loose": false, "ins": false, "insSec": false, "insKey": false, "ignCont": false,
		"ignInline": false, "skip": false, "short": false, "bool": false, "shadow": false,
		"nested": false, "py": false, "spaceInline": false, "unescDQ": false, "unescCS": false,
		"unparse": []any{}, "delims": "=:", "wdelim": "=", "child": ".", "keepQ": false,
		"nonuniq": false, "dupShadow": false, "block": true,
	}
}

// chunked delivers data in the given piece sizes (repeating the last one).
type chunked struct {
	data   []byte
	sizes  []int
	n      int
	err    error // returned after the data instead of EOF
	zeros  bool  // deliver an empty read now and then
	reads  int
	closed int
}

func (c *chunked) Read(p []byte) (int, error) {
	c.reads++
	if len(c.data) == 0 {
		if c.err != nil {
			return 0, c.err
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	k := len(c.data)
	if len(c.sizes) > 0 {
		i := c.n
		if i >= len(c.sizes) {
			i = len(c.sizes) - 1
		}
		k = c.sizes[i]
	}
	c.n++
	if k == 0 {
		if c.zeros = !c.zeros; c.zeros {
			return 0, nil
		}
		k = 1
	}
	if k > len(c.data) {
		k = len(c.data)
	}
	if k > len(p) {
		k = len(p)
	}
	copy(p, c.data[:k])
	c.data = c.data[k:]
	return k, nil
}

func (c *chunked) Close() error { c.closed++; return nil }

type deniedReader struct{}

func (deniedReader) Read([]byte) (int, error) { return 0, errDenied }
func (deniedReader) Close() error             { return nil }

// place puts at a path in the scratch directory what a source says.
func (m *machine) place(name string, s map[string]any) {
	must := func(err error) {
		if err != nil {
			panic("driver: " + err.Error())
		}
	}
	for _, tail := range []string{"", ".to", ".nothing"} {
		must(os.RemoveAll(name + tail))
	}
	via, _ := s["via"].(string)
	switch {
	case s["k"] == "missing" && via == "dangling": // a link to nothing
		must(os.Symlink(name+".nothing", name))
	case s["k"] == "missing":
	case via == "dir": // a directory
		must(os.Mkdir(name, 0o700))
	case via == "loop": // a link to itself
		must(os.Symlink(name, name))
	case via == "below": // a file, taken for a directory
		must(os.WriteFile(name, nil, 0o600))
	case via == "link": // a link to the file
		must(os.WriteFile(name+".to", []byte(txt(s["t"])), 0o600))
		must(os.Symlink(name+".to", name))
	default:
		must(os.WriteFile(name, []byte(txt(s["t"])), 0o600))
	}
}

// sources builds the arguments and notes the paths of files.
func (m *machine) sources(v any) []any {
	out := []any{}
	for _, s := range arr(v) {
		x := m.source(s)
		name, _ := x.(string)
		m.paths = append(m.paths, name)
		out = append(out, x)
	}
	return out
}

// limited takes only so many bytes.
type limited struct {
	bytes.Buffer
	left int
}

func (l *limited) Write(p []byte) (int, error) {
	if len(p) <= l.left {
		l.left -= len(p)
		return l.Buffer.Write(p)
	}
	k := l.left
	for k > 0 && !utf8.RuneStart(p[k]) {
		k--
	}
	l.left = 0
	l.Buffer.Write(p[:k])
	return k, errFault
}

// source builds one data source argument.
func (m *machine) source(v any) any {
	s := v.(map[string]any)
	text := txt(s["t"])
	via, _ := s["via"].(string)
	switch s["k"] {
	case "missing":
		m.nfile++
		name := filepath.Join(m.dir, fmt.Sprintf("missing%d.ini", m.nfile))
		m.place(name, s)
		return name
	case "denied":
		if via == "" {
			return deniedReader{}
		}
		m.nfile++
		name := filepath.Join(m.dir, fmt.Sprintf("denied%d.ini", m.nfile))
		m.place(name, s)
		if via == "below" {
			return filepath.Join(name, "x.ini")
		}
		return name
	case "fault":
		c := &chunked{data: []byte(text), err: errFault}
		for _, n := range arr(s["cut"]) {
			c.sizes = append(c.sizes, num(n))
		}
		if via == "data+err" {
			return iotest.DataErrReader(c)
		}
		m.closers = append(m.closers, c)
		return c
	case "badtype":
		return 42
	}
	switch via {
	case "file", "link":
		m.nfile++
		name := filepath.Join(m.dir, fmt.Sprintf("src%d.ini", m.nfile))
		m.place(name, s)
		return name
	case "reader":
		return strings.NewReader(text)
	case "closer":
		c := &chunked{data: []byte(text)}
		for _, n := range arr(s["cut"]) {
			c.sizes = append(c.sizes, num(n))
		}
		m.closers = append(m.closers, c)
		return c
	case "chunk":
		c := &chunked{data: []byte(text)}
		for _, n := range arr(s["cut"]) {
			c.sizes = append(c.sizes, num(n))
		}
		return io.Reader(struct{ io.Reader }{c})
	case "dataerr":
		return iotest.DataErrReader(strings.NewReader(text))
	case "onebyte":
		return iotest.OneByteReader(strings.NewReader(text))
	}
	if via == "same" { // the slice an earlier source was given
		return m.slices[len(m.slices)-1]
	}
	b := []byte(text)
	m.slices = append(m.slices, b)
	m.copies = append(m.copies, []byte(text))
	return b
}

// missing tells whether the step is about a section or key that is not there.
func (m *machine) missing(st Step) bool {
	if v, ok := st["s"]; ok && num(v) != 0 && m.sec(st["s"]) == nil {
		return true
	}
	if _, ok := st["key"]; ok && m.ownKey(st) == nil {
		return true
	}
	return false
}

// listing takes one of the lists the library hands out: a function that shows
// its present contents, and one that overwrites it.
func (m *machine) listing(st Step) (show func() []string, spoil func()) {
	names := func(secs []*ini.Section) (func() []string, func()) {
		return func() []string {
				out := []string{}
				for _, s := range secs {
					out = append(out, enc(s.Name()))
				}
				return out
			}, func() {
				for i, j := 0, len(secs)-1; i < j; i, j = i+1, j-1 {
					secs[i], secs[j] = secs[j], secs[i]
				}
				if len(secs) == 1 {
					secs[0] = nil
				}
				_ = append(secs[:0], secs[:cap(secs)]...)
			}
	}
	keys := func(ks []*ini.Key) (func() []string, func()) {
		return func() []string {
				out := []string{}
				for _, k := range ks {
					out = append(out, enc(k.Name()))
				}
				return out
			}, func() {
				for i := range ks {
					ks[i] = nil
				}
			}
	}
	texts := func(l []string) (func() []string, func()) {
		return func() []string { return encs(l) }, func() {
			for i := range l[:cap(l)] {
				l[:cap(l)][i] = "SPOILED"
			}
		}
	}
	switch st["what"] {
	case "seclist":
		return texts(m.f.SectionStrings())
	case "sections":
		return names(m.f.Sections())
	case "secsby":
		l, _ := m.f.SectionsByName(txt(st["n"]))
		return names(l)
	case "children":
		return names(m.sec(st["s"]).ChildSections())
	case "keylist":
		return texts(m.sec(st["s"]).KeyStrings())
	case "keys":
		return keys(m.sec(st["s"]).Keys())
	case "parentkeys":
		return keys(m.sec(st["s"]).ParentKeys())
	case "hash":
		s := m.sec(st["s"])
		order := s.KeyStrings()
		h := s.KeysHash()
		return func() []string {
				out := []string{}
				for _, k := range order {
					out = append(out, enc(h[k]))
				}
				if len(h) != len(order) {
					out = append(out, fmt.Sprintf("<%d entries>", len(h)))
				}
				return out
			}, func() {
				for k := range h {
					h[k] = "SPOILED"
				}
				h["SPOILED"] = "SPOILED"
			}
	case "nested":
		return texts(m.ownKey(st).NestedValues())
	case "shadows":
		return texts(m.ownKey(st).ValueWithShadows())
	}
	panic("driver: unknown listing")
}

func arr(v any) []any {
	switch x := v.(type) {
	case nil:
		return nil
	case []any:
		return x
	case []int:
		out := make([]any, len(x))
		for i, n := range x {
			out[i] = n
		}
		return out
	}
	panic("driver: bad array argument")
}

func errKind(err error) string {
	switch {
	case err == nil:
		return ""
	case ini.IsErrDelimiterNotFound(err):
		return "delim"
	case ini.IsErrEmptyKeyName(err):
		return "empty"
	case os.IsNotExist(err):
		return "notexist"
	}
	// the error of the source, or one that tells it
	for _, k := range [][2]string{{errFault.Error(), "fault"}, {errDenied.Error(), "denied"}, {"is a directory", "denied"},
		{"not a directory", "denied"}, {"too many levels", "denied"}} {
		if strings.Contains(err.Error(), k[0]) {
			return k[1]
		}
	}
	return "other"
}

// mem keeps a copy of what the document under test shows through the API.
type keyView struct {
	N  string   `json:"n"`
	V  string   `json:"v"`
	Sh []string `json:"sh"`
	Ne []string `json:"ne"`
	C  string   `json:"c"`
}
type secView struct {
	N    string    `json:"n"`
	C    string    `json:"c"`
	Body string    `json:"body"`
	Keys []keyView `json:"keys"`
}

func encs(ss []string) []string {
	out := make([]string, len(ss))
	for i, s := range ss {
		out[i] = enc(s)
	}
	return out
}

func view(f *ini.File) []secView {
	out := []secView{}
	for _, s := range f.Sections() {
		sv := secView{N: enc(s.Name()), C: enc(s.Comment), Body: enc(s.Body()), Keys: []keyView{}}
		for _, n := range s.KeyStrings() {
			k, err := s.GetKey(n)
			if err != nil {
				// a listed key that cannot be found: show it as such
				sv.Keys = append(sv.Keys, keyView{N: "<lost " + enc(n) + ">", Sh: []string{}, Ne: []string{}})
				continue
			}
			sv.Keys = append(sv.Keys, keyView{N: enc(k.Name()), V: enc(k.Value()),
				Sh: encs(k.ValueWithShadows()), Ne: encs(k.NestedValues()), C: enc(k.Comment)})
		}
		// the other listings say the same
		hash, keys := s.KeysHash(), s.Keys()
		agree := len(hash) == len(sv.Keys) && len(keys) == len(sv.Keys)
		for i := 0; agree && i < len(keys); i++ {
			v, is := hash[keys[i].Name()]
			agree = is && v == keys[i].Value() && enc(keys[i].Name()) == sv.Keys[i].N
		}
		if !agree {
			sv.Keys = append(sv.Keys, keyView{N: "<listings differ>", Sh: []string{}, Ne: []string{}})
		}
		out = append(out, sv)
	}
	if l := f.SectionStrings(); len(l) != len(out) {
		out = append(out, secView{N: "<listings differ>", Keys: []keyView{}})
	}
	return out
}

func (m *machine) sec(pos any) *ini.Section {
	if m.by != nil {
		return m.by.sec
	}
	secs := m.f.Sections()
	i := num(pos)
	if i < 1 || i > len(secs) {
		return nil
	}
	return secs[i-1]
}

func (m *machine) posOf(s *ini.Section) int {
	if s == nil {
		return 0
	}
	for i, x := range m.f.Sections() {
		if x == s {
			return i + 1
		}
	}
	return -1
}

// keyPos locates a key by identity: <<section position, key position>>.
func (m *machine) keyPos(k *ini.Key) []int {
	if k == nil {
		return []int{0, 0}
	}
	for i, s := range m.f.Sections() {
		for j, n := range s.KeyStrings() {
			if x, err := s.GetKey(n); err == nil && x == k {
				return []int{i + 1, j + 1}
			}
		}
	}
	return []int{-1, -1}
}

// ownKey finds the key listed in the section itself.
func (m *machine) ownKey(st Step) *ini.Key {
	if m.by != nil {
		return m.by.key
	}
	s := m.sec(st["s"])
	if s == nil {
		return nil
	}
	want := txt(st["key"])
	for _, n := range s.KeyStrings() {
		if n == want {
			k, _ := s.GetKey(n)
			return k
		}
	}
	return nil
}

// revives tells of a key that is not in the document any more whether reading
// it may bring the default section back, in which it looks references up; no
// property speaks of that.
func (m *machine) revives() bool {
	if m.by.key == nil || !strings.Contains(strings.Join(m.by.key.ValueWithShadows(), ""), "%(") && !strings.Contains(m.by.key.Value(), "%(") {
		return false
	}
	for _, s := range m.f.Sections() {
		for _, k := range s.Keys() {
			if k == m.by.key {
				return false
			}
		}
	}
	return !m.f.HasSection("") || m.alt != nil && !m.alt.HasSection("")
}

func setFormat(v any) {
	g, _ := v.(map[string]any)
	ini.PrettySection = boolean(g["prettySection"])
	ini.PrettyFormat = boolean(g["prettyFormat"])
	ini.PrettyEqual = boolean(g["prettyEqual"])
	ini.DefaultHeader = boolean(g["defaultHeader"])
	ini.DefaultFormatLeft = txt(g["left"])
	ini.DefaultFormatRight = txt(g["right"])
	ini.LineBreak = "\n"
	if lb := txt(g["lb"]); lb != "" {
		ini.LineBreak = lb
	}
}

func (m *machine) write(st Step) string {
	setFormat(st["g"])
	indent := txt(st["indent"])
	chans, _ := st["chan"].(string)
	switch chans {
	case "savetoindent", "saveto":
		m.nfile++
		name := filepath.Join(m.dir, fmt.Sprintf("out%d.ini", m.nfile))
		if m.nfile%2 == 0 { // something longer was there
			m.place(name, Step{"k": "text", "t": strings.Repeat("[old]\nold = old\n", 3000)})
		}
		var err error
		if chans == "saveto" {
			err = m.f.SaveTo(name)
		} else {
			err = m.f.SaveToIndent(name, indent)
		}
		if err != nil {
			return "<error " + err.Error() + ">"
		}
		b, err := os.ReadFile(name)
		if err != nil {
			panic("driver: " + err.Error())
		}
		return string(b)
	case "writeto":
		var b bytes.Buffer
		n, err := m.f.WriteTo(&b)
		if err != nil {
			return "<error " + err.Error() + ">"
		}
		if n != int64(b.Len()) {
			return fmt.Sprintf("<count %d of %d>%s", n, b.Len(), b.String())
		}
		return b.String()
	}
	var b bytes.Buffer
	n, err := m.f.WriteToIndent(&b, indent)
	if err != nil {
		return "<error " + err.Error() + ">"
	}
	if n != int64(b.Len()) {
		return fmt.Sprintf("<count %d of %d>%s", n, b.Len(), b.String())
	}
	return b.String()
}

func b2e(err error) bool { return err != nil }

// loaded is the outcome of a load: its error, or that something was left open.
func (m *machine) loaded(err error) string {
	for _, c := range m.closers {
		if c.reads > 0 && c.closed == 0 {
			return "a reader was not closed"
		}
	}
	if m.nfile > 0 {
		fds, _ := os.ReadDir("/proc/self/fd")
		for _, fd := range fds {
			if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(filepath.Base(to), "src") && strings.HasSuffix(to, ".ini") {
				return "a file was not closed"
			}
		}
	}
	return errKind(err)
}

// exec performs one step and returns its observation.
func (m *machine) exec(st Step) any {
	switch st["op"] {
	case "load":
		m.paths = nil
		srcs := m.sources(st["srcs"])
		first, others := srcs[0], srcs[1:]
		m.opts = optsOf(st["o"])
		var f *ini.File
		var err error
		switch st["fn"] {
		case "Load":
			f, err = ini.Load(first, others...)
		case "LooseLoad":
			f, err = ini.LooseLoad(first, others...)
		case "InsensitiveLoad":
			f, err = ini.InsensitiveLoad(first, others...)
		case "ShadowLoad":
			f, err = ini.ShadowLoad(first, others...)
		default:
			f, err = ini.LoadSources(m.opts, first, others...)
		}
		m.f = f
		if err == nil && f == nil {
			return "nil document without error"
		}
		if err != nil && f != nil {
			return "document and error"
		}
		return m.loaded(err)
	case "append":
		srcs := m.sources(st["srcs"])
		return m.loaded(m.f.Append(srcs[0], srcs[1:]...))
	case "reload":
		return m.loaded(m.f.Reload())
	case "again":
		err := m.f.Reload()
		return map[string]any{"err": errKind(err), "view": view(m.f)}
	case "block":
		m.f.BlockMode = boolean(st["b"])
		return true
	case "mapper":
		m.f.ValueMapper = mapperOf(st["v"])
		return true
	case "rt":
		text := m.write(st)
		f, err := ini.LoadSources(m.opts, []byte(text))
		out := map[string]any{"text": enc(text), "err": errKind(err), "view": []secView{}}
		if err == nil {
			m.f = f
			out["view"] = view(f)
		}
		return out
	case "rt2":
		t1 := m.write(st)
		f, err := ini.LoadSources(m.opts, []byte(t1))
		out := map[string]any{"t1": enc(t1), "t2": "", "err": errKind(err)}
		if err == nil {
			m.f = f
			out["t2"] = enc(m.write(st))
		}
		return out
	case "swap":
		m.f, m.alt = m.alt, m.f
		m.opts, m.altOpts = m.altOpts, m.opts
		m.paths, m.altPaths = m.altPaths, m.paths
		return true
	case "intact":
		for i := range m.slices {
			if !bytes.Equal(m.slices[i], m.copies[i]) {
				return false
			}
		}
		return true
	case "hold":
		if m.missing(st) {
			m.held = append(m.held, func() []string { return []string{} })
			return absent{}
		}
		show, _ := m.listing(st)
		m.held = append(m.held, show)
		return show()
	case "grab":
		var h handle
		if gone := m.missing(st); gone {
			m.handles = append(m.handles, h)
			return absent{}
		}
		h.sec = m.sec(st["s"])
		if _, is := st["key"]; is {
			h.key = m.ownKey(st)
		}
		m.handles = append(m.handles, h)
		return true
	case "held":
		return m.held[num(st["i"])-1]()
	case "spoil":
		if m.missing(st) {
			return absent{}
		}
		show, spoil := m.listing(st)
		out := show()
		spoil()
		return out
	case "settle":
		m.settle(st["st"].(Step))
		return true
	case "obs":
		return view(m.f)
	case "write":
		m.saved = m.write(st)
		return enc(m.saved)
	case "writefail":
		setFormat(st["g"])
		w := &limited{left: num(st["at"])}
		var n int64
		var err error
		if indent := txt(st["indent"]); indent != "" || boolean(st["in"]) {
			n, err = m.f.WriteToIndent(w, indent)
		} else {
			n, err = m.f.WriteTo(w)
		}
		return map[string]any{"e": errKind(err), "n": n == int64(w.Len()), "t": enc(w.String())}
	case "savefail":
		setFormat(st["g"])
		m.nfile++
		name := filepath.Join(m.dir, fmt.Sprintf("nowhere%d", m.nfile))
		switch st["via"] {
		case "dir":
			m.place(name, Step{"k": "denied", "via": "dir"})
		case "below":
			m.place(name, Step{"k": "denied", "via": "below"})
			name = filepath.Join(name, "x.ini")
		default:
			m.place(name, Step{"k": "missing"})
			name = filepath.Join(name, "x.ini")
		}
		if boolean(st["in"]) {
			return m.f.SaveToIndent(name, " ") != nil
		}
		return m.f.SaveTo(name) != nil
	case "touch":
		name := m.paths[num(st["i"])-1]
		if name == "" {
			panic("driver: not a file")
		}
		if st["g"] != nil {
			setFormat(st["g"])
			if at, err := os.Stat(name); err == nil && at.IsDir() {
				m.place(name, Step{"k": "missing"}) // there can be no file
			}
			return m.f.SaveTo(name) == nil
		}
		m.place(name, st["src"].(map[string]any))
		return true
	case "newsec":
		s, err := m.f.NewSection(txt(st["n"]))
		return map[string]any{"e": b2e(err), "p": m.posOf(s)}
	case "newraw":
		s, err := m.f.NewRawSection(txt(st["n"]), txt(st["v"]))
		return map[string]any{"e": b2e(err), "p": m.posOf(s)}
	case "newsecs":
		return b2e(m.f.NewSections(txts(st["ns"])...))
	case "getsec":
		s, err := m.f.GetSection(txt(st["n"]))
		return map[string]any{"e": b2e(err), "p": m.posOf(s)}
	case "hassec":
		return m.f.HasSection(txt(st["n"]))
	case "section":
		return m.posOf(m.f.Section(txt(st["n"])))
	case "secidx":
		return m.posOf(m.f.SectionWithIndex(txt(st["n"]), num(st["k"])))
	case "secsby":
		ss, err := m.f.SectionsByName(txt(st["n"]))
		if err != nil {
			return []int{}
		}
		out := []int{}
		for _, s := range ss {
			out = append(out, m.posOf(s))
		}
		return out
	case "seclist":
		return encs(m.f.SectionStrings())
	case "delsec":
		m.f.DeleteSection(txt(st["n"]))
		return true
	case "delsecidx":
		return b2e(m.f.DeleteSectionWithIndex(txt(st["n"]), num(st["k"])))
	case "childsof":
		out := []int{}
		for _, s := range m.f.ChildSections(txt(st["n"])) {
			out = append(out, m.posOf(s))
		}
		return out
	case "map", "back", "mapsrc", "reflect":
		return m.execStruct(st)
	}

	if h, is := st["h"]; is {
		m.by = &m.handles[num(h)-1]
		defer func() { m.by = nil }()
		if m.by.sec == nil {
			return "nothing was there"
		}
		if m.revives() {
			return "not called"
		}
	}
	s := m.sec(st["s"])
	if s == nil {
		return absent{}
	}
	switch st["op"] {
	case "seccom":
		s.Comment = txt(st["v"])
		return true
	case "setbody":
		s.SetBody(txt(st["v"]))
		return true
	case "children":
		out := []int{}
		for _, x := range s.ChildSections() {
			out = append(out, m.posOf(x))
		}
		return out
	case "parentkeys":
		out := [][]int{}
		for _, k := range s.ParentKeys() {
			out = append(out, m.keyPos(k))
		}
		return out
	case "keylist":
		return encs(s.KeyStrings())
	case "keys":
		out := [][]int{}
		for _, k := range s.Keys() {
			out = append(out, m.keyPos(k))
		}
		return out
	case "hash":
		out := [][]string{}
		for k, v := range s.KeysHash() {
			out = append(out, []string{enc(k), enc(v)})
		}
		sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
		return out
	case "hasvalue":
		return s.HasValue(txt(st["v"]))
	case "newkey":
		k, err := s.NewKey(txt(st["n"]), txt(st["v"]))
		return map[string]any{"e": b2e(err), "p": m.keyPos(k)}
	case "newbool":
		k, err := s.NewBooleanKey(txt(st["n"]))
		return map[string]any{"e": b2e(err), "p": m.keyPos(k)}
	case "getkey":
		k, err := s.GetKey(txt(st["n"]))
		return map[string]any{"e": b2e(err), "p": m.keyPos(k)}
	case "haskey":
		if st["via"] == "Haskey" {
			return s.Haskey(txt(st["n"]))
		}
		return s.HasKey(txt(st["n"]))
	case "key":
		return m.keyPos(s.Key(txt(st["n"])))
	case "delkey":
		s.DeleteKey(txt(st["n"]))
		return true
	}

	k := m.ownKey(st)
	if k == nil {
		return absent{}
	}
	switch st["op"] {
	case "setval":
		k.SetValue(txt(st["v"]))
		return true
	case "value":
		return enc(k.Value())
	case "validate":
		return enc(k.Validate(func(s string) string { return "<" + s + ">" }))
	case "keycom":
		k.Comment = txt(st["v"])
		return true
	case "addshadow":
		return b2e(k.AddShadow(txt(st["v"])))
	case "addnested":
		return b2e(k.AddNestedValue(txt(st["v"])))
	case "shadows":
		return spent(k.ValueWithShadows())
	case "strsh":
		return spent(k.StringsWithShadows(txt(st["delim"])))
	case "string":
		s := k.String()
		if len(s) > longText {
			return long{}
		}
		return enc(s)
	case "term":
		_ = k.String()
		return "returned"
	case "strings":
		l := k.Strings(txt(st["delim"]))
		if len(strings.Join(l, "")) > longText {
			return long{}
		}
		return spent(l)
	}
	return m.execTyped(k, st)
}

// spent shows a list that a call returned and then overwrites it, as a caller
// to whom it belongs may.
func spent(l []string) any {
	out := encs(l)
	for i := range l[:cap(l)] {
		l[:cap(l)][i] = "SPOILED"
	}
	return out
}

// long is the outcome of a call with a result that is too long to record; the
// specification finds it long, too.
type long struct{}

const longText = 12000

// absent is the outcome of a call on a section or key that does not exist.
type absent struct{}

var stepDeadline atomic.Int64 // unix nanoseconds; 0 when idle
var stepNow atomic.Value

// settle turns the arguments of a step marked "near" into ones that name
// sections and keys that are there.
func (m *machine) settle(st Step) {
	if st["near"] == nil || m.f == nil {
		return
	}
	delete(st, "near")
	secs := m.f.Sections()
	if len(secs) == 0 {
		return
	}
	sum := func(s string) (n int) {
		for _, b := range []byte(s) {
			n += int(b)
		}
		return n
	}
	if _, byName := st["s"]; !byName {
		if v, is := st["n"]; is {
			st["n"] = enc(secs[sum(txt(v))%len(secs)].Name())
		}
		return
	}
	if num(st["s"]) < 1 {
		return
	}
	at := (num(st["s"]) - 1) % len(secs)
	arg := ""
	for _, a := range []string{"key", "n"} {
		if _, is := st[a]; is {
			arg = a
		}
	}
	if arg != "" {
		for j := 0; j < len(secs) && len(secs[at].KeyStrings()) == 0; j++ {
			at = (at + 1) % len(secs)
		}
		if l := secs[at].KeyStrings(); len(l) > 0 {
			st[arg] = enc(l[sum(txt(st[arg]))%len(l)])
		}
	}
	st["s"] = at + 1
}

func runCase(c *Case, dir string) {
	m := &machine{dir: dir, aux: map[string]any{}}
	for i, st := range c.Steps {
		if _, p := protect(m, Step{"op": "settle", "st": st}); p != "" {
			c.Panic = p
			c.Steps = c.Steps[:i+1]
			return
		}
		stepDeadline.Store(time.Now().Add(stepTimeout).UnixNano())
		out, p := protect(m, st)
		stepDeadline.Store(0)
		if p != "" {
			c.Panic = p
			c.Steps = c.Steps[:i+1]
			return
		}
		if _, gone := out.(absent); gone {
			// The section or key is not there: that is what gets recorded.
			st["was"], st["op"], out = st["op"], "absent", true
		}
		if _, is := out.(long); is {
			st["was"], st["op"], out = st["op"], "long", true
		}
		st["out"] = out
		if st["op"] == "load" && m.f == nil {
			c.Steps = c.Steps[:i+1]
			return
		}
	}
}

func protect(m *machine, st Step) (out any, p string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if strings.HasPrefix(s, "driver: ") {
				panic(r)
			}
			p = s
		}
	}()
	return m.exec(st), ""
}
