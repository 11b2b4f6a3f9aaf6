package main

import (
	"fmt"
	"strings"
)

func init() {
	generators["C15"] = genC15
	generators["C16"] = genC16
}

var fieldKinds = []string{"string", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint16", "uint32", "uint64", "float", "float32", "dur", "time"}
var elemKinds = []string{"string", "int", "int64", "uint", "uint64", "float", "bool", "time"}

// structGen makes types, documents for them and values of them.
type structGen struct {
	g     *gen
	n     int      // fields so far, for unique names
	back  bool     // only what survives reflecting and mapping back
	many  bool     // non-unique sections
	secs  []string // sections of the document, in order
	steps []Step
	nils  bool // nil pointers among elements
}

func (t *structGen) goName() string {
	t.n++
	if t.g.oneIn(3) { // any identifier
		all := strings.Split("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyzéÜàÉ_019", "")
		return t.g.from(all[:26]) + t.g.word(all, 0, 7) + "_" + fmt.Sprint(t.n)
	}
	return t.g.pick("F", "Ab", "MyKey", "X", "ÜName", "URL", "A_B", "X_y_", "HTTPPort") + fmt.Sprint(t.n)
}

// field makes one field; depth limits nesting.
func (t *structGen) field(depth int, inMany bool) M {
	g := t.g
	f := M{"go": t.goName()}
	if g.coin() {
		f["name"] = g.pick("key", "k=x", "two words", "é", "Name", "a.b", "-", "-") + fmt.Sprint(t.n)
		if t.n < 26 && g.oneIn(4) {
			f["name"] = string(rune('a' + t.n))
		}
	}
	if g.oneIn(3) {
		f["ord"] = g.n(1, 3)
	}
	if g.oneIn(10) { // options that mean nothing here
		f[g.pick("shadow", "ext")] = true
		f[g.pick("shadow", "ext")] = true
		if !t.back {
			f[g.pick("shadow", "ext", "many")] = true
		}
	}
	if g.oneIn(5) {
		f["omit"] = true
	}
	if g.oneIn(6) {
		f["com"] = g.pick("note", "# note", "two words; x")
	}
	switch k := g.r.Intn(20); {
	case k < 10:
		f["kind"] = g.from(fieldKinds)
		f["ptr"] = g.oneIn(4)
		f["named"] = g.oneIn(8)
		if t.back && f["kind"] == "string" && f["ptr"] == true {
			f["omit"] = true
		}
	case k < 14:
		f["kind"], f["elem"] = "slice", g.from(elemKinds)
		f["named"] = g.oneIn(8)
		f["shadow"] = g.oneIn(3)
		if !t.back && g.oneIn(8) {
			f["many"] = true
		}
		if g.oneIn(3) {
			f["delim"] = g.pick("|", ";", "::", " ", "、")
		}
	case k < 17 && depth > 0 && !(t.back && inMany):
		f["kind"] = "struct"
		f["ptr"] = g.coin()
		if g.oneIn(3) {
			f["emb"], f["ext"] = true, g.coin()
		} else if g.oneIn(6) {
			f["ext"] = true
		}
		if g.oneIn(8) {
			f["name"] = g.pick("p.q", "p", "p.q.r") + fmt.Sprint(t.n)
		}
		f["fs"] = t.fields(g.n(0, 3), depth-1, inMany)
		if t.back && f["ext"] == true && f["emb"] == true {
			delete(f, "name") // its keys stay in the section
		}
	case k == 17 && depth > 0 && t.many && !inMany:
		f["kind"], f["many"] = "structs", true
		f["ptrs"] = g.coin()
		f["fs"] = t.fields(g.n(1, 3), depth-1, true)
	case k == 18:
		f["kind"] = g.from(fieldKinds)
		f[g.pick("skip", "hidden")] = true
		if f["hidden"] == true {
			f["kind"] = g.pick("string", "int", "bool")
			f["go"] = "hidden" + fmt.Sprint(t.n)
			delete(f, "name")
		} else {
			delete(f, "name")
		}
	case k == 19 && !t.back && g.oneIn(2):
		switch g.r.Intn(5) {
		case 0:
			f["kind"] = "uint8"
		case 1:
			f["kind"] = "other"
		case 2:
			f["kind"], f["elem"] = "slice", g.pick("uint8", "int8", "float32", "other", "dur")
		case 3:
			f["kind"], f["ptrs"], f["fs"] = "structs", g.coin(), []any{}
		case 4:
			f["kind"], f["elem"], f["ptr"] = "slice", "int", true
		}
		if f["elem"] == "dur" { // a kind of int64
			f["elem"] = "int8"
		}
	default:
		f["kind"] = g.pick("string", "int", "bool")
	}
	if f["elem"] == "time" { // a struct of its own, with no fields
		delete(f, "many")
	}
	if f["kind"] == "struct" && g.oneIn(12) && f["emb"] == nil && !inMany {
		f["refl"], f["fs"] = true, []any{}
		f["fails"] = !t.back && g.oneIn(3)
		if t.back {
			delete(f, "ptr") // has no section of its own
		}
	}
	return f
}

func (t *structGen) fields(n, depth int, inMany bool) []any {
	fs := []any{}
	for i := 0; i < n; i++ {
		fs = append(fs, t.field(depth, inMany))
	}
	return fs
}

// nameOf is the name a field is mapped from.
func (t *structGen) nameOf(f M, namer string) string {
	if s := txt(f["name"]); s != "" {
		return s
	}
	raw := str(f["go"])
	if m := nameMapper(namer); m != nil {
		return m(raw)
	}
	return raw
}

var float32Texts = []string{"0", "1", "-1.5", "0.5", "1000", "1e39", "1e38", "-1e39", "340282350000000000000000000000000000000", "x", "", "0.1", "12.5", "1e400"}

func (t *structGen) textOf(f M) string {
	g := t.g
	switch kind := str(f["kind"]); kind {
	case "slice":
		d := str(f["delim"])
		if d == "" {
			d = ","
		}
		if g.oneIn(8) {
			return ""
		}
		elem := str(f["elem"])
		var parts []string
		for i, n := 0, g.n(1, 4); i < n; i++ {
			p := t.textOf(M{"kind": elem})
			if g.coin() && typedValues[elem] != nil {
				p = g.from(typedValues[elem])
			}
			parts = append(parts, g.pick("", "", " ")+p+g.pick("", "", " "))
		}
		return strings.Join(parts, d)
	case "int8", "int16", "int32":
		if g.coin() {
			return g.pick("127", "128", "-128", "-129", "32767", "32768", "-32768", "-32769", "2147483647", "2147483648", "-2147483648", "-2147483649", "0x7f", "7", "300", "99999999999999999999")
		}
		return g.from(textsFor("int"))
	case "uint8", "uint16", "uint32":
		if g.coin() {
			return g.pick("255", "256", "65535", "65536", "4294967295", "4294967296", "-1", "0", "7", "99999999999999999999")
		}
		return g.from(textsFor("int"))
	case "float32":
		return g.from(float32Texts)
	case "struct", "structs", "other":
		return g.pick("", "x", "2024-01-01T00:00:00Z", "1")
	case "time", "date":
		return g.from(append(textsFor("time"), typedValues["time"]...))
	case "dur":
		if g.oneIn(3) {
			return g.from(typedValues["dur"])
		}
		return g.from(textsFor("dur"))
	default:
		if g.oneIn(3) && typedValues[kind] != nil {
			return g.from(typedValues[kind])
		}
		return g.from(textsFor(kind))
	}
}

func (t *structGen) newsec(name string) int {
	if !t.many {
		for i, s := range t.secs {
			if s == name {
				return i + 1
			}
		}
	}
	t.secs = append(t.secs, name)
	t.steps = append(t.steps, op("newsec", "n", name))
	return len(t.secs)
}

// fill writes keys and sections for the fields into section si.
func (t *structGen) fill(fs []any, si int, namer, child string) {
	g := t.g
	for _, x := range fs {
		f := desc(x)
		if boolean(f["skip"]) || boolean(f["hidden"]) {
			if g.coin() && f["hidden"] == nil {
				t.steps = append(t.steps, op("newkey", "s", si, "n", str(f["go"]), "v", "ignored"))
			}
			continue
		}
		name := t.nameOf(f, namer)
		sub := arr(f["fs"])
		switch {
		case str(f["kind"]) == "struct" && boolean(f["ext"]) && boolean(f["emb"]):
			if n := txt(f["name"]); n != "" && g.coin() {
				t.fill(sub, t.newsec(t.secs[si-1]+child+n), namer, child)
			} else {
				t.fill(sub, si, namer, child)
			}
			continue
		case str(f["kind"]) == "struct":
			if g.oneIn(5) {
				if g.oneIn(3) {
					t.steps = append(t.steps, op("newkey", "s", si, "n", name, "v", t.textOf(f)))
				}
				continue
			}
			if i := strings.LastIndex(name, "."); i > 0 && g.coin() {
				t.fill(sub, t.newsec(name[:i]), namer, child)
			}
			t.fill(sub, t.newsec(name), namer, child)
			continue
		case boolean(f["many"]) && (str(f["kind"]) == "structs" || g.oneIn(6)):
			for j, n := 0, g.n(0, 3); j < n; j++ {
				t.fill(sub, t.newsec(name), namer, child)
			}
			continue
		}
		if g.oneIn(12) { // a section of the same name
			t.newsec(name)
		}
		if g.oneIn(6) {
			continue
		}
		for j, n := 0, 1+g.r.Intn(2)*g.r.Intn(2); j < n; j++ {
			t.steps = append(t.steps, op("newkey", "s", si, "n", name, "v", enc(t.textOf(f))))
		}
	}
}

var roundValues = map[string][]string{
	"int8": {"0", "127", "-128", "5"}, "int16": {"0", "32767", "-32768", "5"}, "int32": {"0", "2147483647", "-2147483648", "5"},
	"uint8": {"0", "255", "7"}, "uint16": {"0", "65535", "7"}, "uint32": {"0", "4294967295", "7"},
	"float32": {"0", "1", "-1.5", "0.5", "1000", "0.25", "12.5", "1048576", "-0.0078125"},
	"string":  {"", "a", "b c", "世", "x=y", "# no", " spaced ", "quo\"te", "back`tick", "trailing\\", "a,b"},
	"dur":     {"0", "1500000000", "90000000000", "-5000000000", "7", "-1", "9223372036854775807", "60000000000"},
	"time":    {"2024-02-29T12:30:45Z", "2020-01-01T00:00:00Z", "0001-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2024-01-01T10:00:00+02:00"},
}

func (t *structGen) scalar(kind string) string {
	if v := roundValues[kind]; v != nil {
		return t.g.from(v)
	}
	if v := typedValues[kind]; v != nil {
		return t.g.from(v)
	}
	return ""
}

func v0(k, text string, l []any) M {
	if l == nil {
		l = []any{}
	}
	return M{"k": k, "t": enc(text), "l": l}
}

// val makes a value of a field; zero gives the zero value.
func (t *structGen) val(f M, zero bool) M {
	g := t.g
	kind := str(f["kind"])
	// mapping allocates embedded pointers
	if boolean(f["ptr"]) && (zero || g.oneIn(3)) && !(t.back && boolean(f["emb"])) {
		return v0("nil", "", nil)
	}
	zero = zero || boolean(f["hidden"])
	switch kind {
	case "struct":
		return v0("struct", "", t.vals(arr(f["fs"]), zero))
	case "structs":
		if zero || g.oneIn(4) {
			return v0("nil", "", nil)
		}
		l := []any{}
		for i, n := 0, g.n(0, 3); i < n; i++ {
			if !t.back && boolean(f["ptrs"]) && t.nils && g.oneIn(6) {
				l = append(l, v0("nil", "", nil))
				continue
			}
			l = append(l, v0("struct", "", t.vals(arr(f["fs"]), false)))
		}
		return v0("list", "", l)
	case "slice":
		if zero || g.oneIn(4) {
			return v0("nil", "", nil)
		}
		l := []any{}
		if g.oneIn(6) { // empty, but not nil
			return v0("list", "", l)
		}
		seen := map[string]bool{}
		for i, n := 0, g.n(1, 4); i < n; i++ {
			s := t.scalar(str(f["elem"]))
			if str(f["elem"]) == "string" {
				s = g.pick("a", "b", "c d", "世", "x=y", "# no", "e")
				if d := str(f["delim"]); d != "" && strings.Contains(s, d) {
					s = "q"
				}
			}
			if seen[s] && t.back {
				continue
			}
			seen[s] = true
			l = append(l, v0("v", s, nil))
		}
		return v0("list", "", l)
	case "other":
		return v0("v", "", nil)
	}
	if zero {
		return v0("v", map[string]string{"bool": "false", "time": "0001-01-01T00:00:00Z", "string": ""}[kind]+
			map[bool]string{true: "0"}[kind != "bool" && kind != "time" && kind != "string"], nil)
	}
	if kind == "time" && !t.back && g.oneIn(4) { // the zero time elsewhere
		return v0("v", g.pick("0001-01-01T01:00:00+01:00", "0001-01-01T05:30:00+05:30", "0001-01-01T00:00:00+01:00"), nil)
	}
	return v0("v", t.scalar(kind), nil)
}

func (t *structGen) vals(fs []any, zero bool) []any {
	l := []any{}
	for _, x := range fs {
		l = append(l, t.val(desc(x), zero))
	}
	return l
}

// emptyNumber tells whether a nil pointer leaves a key without a value, which
// strict mapping does not take.
func emptyNumber(fs, vals []any) bool {
	for i, x := range fs {
		f, v := desc(x), desc(vals[i])
		switch {
		case boolean(f["skip"]) || boolean(f["hidden"]):
		case str(f["kind"]) == "struct" && str(v["k"]) == "struct":
			if emptyNumber(arr(f["fs"]), arr(v["l"])) {
				return true
			}
		case str(f["kind"]) == "structs":
			for _, e := range arr(v["l"]) {
				if emptyNumber(arr(f["fs"]), arr(desc(e)["l"])) {
					return true
				}
			}
		case boolean(f["ptr"]) && str(f["kind"]) != "struct" && str(v["k"]) == "nil":
			return true
		}
	}
	return false
}

func genC15(g *gen) {
	// every kind and text on its own
	for _, kind := range append([]string{"uint8", "other"}, fieldKinds...) {
		t := &structGen{g: g}
		pool := map[string]bool{}
		for i := 0; i < 60; i++ {
			pool[t.textOf(M{"kind": kind})] = true
		}
		for _, v := range textsFor(kind) {
			pool[v] = true
		}
		for _, ptr := range []bool{false, true} {
			for _, strict := range []bool{false, true} {
				for _, v := range sortedKeys(pool) {
					f := M{"go": "K", "kind": kind, "ptr": ptr, "named": g.oneIn(4)}
					typ := M{"kind": "struct", "fs": []any{f}}
					g.add("scalar", load(M{}, ""), op("newkey", "s", 1, "n", "K", "v", enc(v)),
						op("map", "s", 0, "typ", typ, "val", v0("struct", "", t.vals([]any{f}, g.coin())), "strict", strict, "namer", ""))
				}
			}
		}
	}
	for _, elem := range append([]string{"uint8", "float32", "int8"}, elemKinds...) {
		for i := 0; i < 30*g.scale; i++ {
			t := &structGen{g: g}
			f := M{"go": "K", "kind": "slice", "elem": elem, "delim": g.pick("", "|", "::", " "), "shadow": g.oneIn(3)}
			o := g.subset(M{}, 2, "shadow")
			steps := []Step{load(o, "")}
			for j, n := 0, g.n(1, 2); j < n; j++ {
				steps = append(steps, op("newkey", "s", 1, "n", "K", "v", enc(t.textOf(f))))
			}
			val := v0("struct", "", t.vals([]any{f}, g.coin()))
			typ := M{"kind": "struct", "fs": []any{f}}
			for _, strict := range []bool{false, true} {
				steps = append(steps, op("map", "s", 0, "typ", typ, "val", val, "strict", strict, "namer", ""))
			}
			g.add("list", steps...)
		}
	}
	for i := 0; i < g.count(1500); i++ {
		t := &structGen{g: g, many: g.oneIn(3), secs: []string{"DEFAULT"}}
		o := g.subset(M{}, 5, "shadow", "dupShadow", "insKey", "ins", "insSec")
		if t.many {
			o["nonuniq"] = true
		}
		child := "."
		if g.oneIn(6) {
			child = "/"
			o["child"] = child
		}
		namer := g.pick("", "", "", "snack", "title", "lower")
		fs := t.fields(g.n(1, 5), 2, false)
		if i%50 == 7 {
			fs = t.fields(g.n(9, 26), 2, false)
		} else if i%50 == 9 {
			fs = t.fields(g.n(1, 3), 5, false)
		}
		t.steps = []Step{load(o, "")}
		si := 1
		if g.oneIn(3) {
			si = t.newsec(g.pick("top", "top.sub", "p.q"))
		}
		t.fill(fs, si, namer, child)
		for j, n := 0, g.n(0, 3); j < n; j++ {
			t.steps = append(t.steps, op("newkey", "s", si, "n", g.pick("other", "key99", "x"), "v", "1"))
		}
		if g.oneIn(4) {
			t.steps = append(t.steps, op("mapper", "v", "wrap"))
		}
		typ := M{"kind": "struct", "fs": fs}
		s := si
		if si == 1 && g.coin() {
			s = 0
		}
		for j := 0; j < 2; j++ {
			t.steps = append(t.steps, op("map", "s", s, "typ", typ, "val", v0("struct", "", t.vals(fs, g.oneIn(3))),
				"strict", j == 1, "namer", namer))
		}
		t.steps = append(t.steps, obs())
		g.add("types", t.steps...)
	}
	// slices of structs from all sections of a name
	for i := 0; i < g.count(200); i++ {
		t := &structGen{g: g, many: true, secs: []string{"DEFAULT"}}
		namer := g.pick("", "", "snack", "title")
		fs := t.fields(g.n(1, 3), 1, true)
		t.steps = []Step{load(M{"nonuniq": true}, "")}
		first := 0
		for j, n := 0, g.n(1, 4); j < n; j++ {
			si := t.newsec("item")
			if first == 0 {
				first = si
			}
			t.fill(fs, si, namer, ".")
		}
		f := M{"kind": "structs", "ptrs": g.coin(), "fs": fs}
		t.steps = append(t.steps, op("map", "s", first, "typ", f, "val", t.val(f, g.coin()), "strict", g.oneIn(3), "namer", namer), obs())
		g.add("slices", t.steps...)
	}
	// the functions that load and map
	for i := 0; i < g.count(200); i++ {
		t := &structGen{g: g, secs: []string{"DEFAULT"}}
		namer := g.pick("", "snack", "title", "lower")
		fs := t.fields(g.n(1, 3), 1, false)
		var b strings.Builder
		for _, x := range fs {
			f := desc(x)
			if str(f["kind"]) != "struct" && f["skip"] == nil && !strings.ContainsAny(t.nameOf(f, namer), "=") {
				b.WriteString(t.nameOf(f, namer) + " = " + strings.ReplaceAll(t.textOf(f), "`", "") + "\n")
			}
		}
		for _, x := range fs {
			if f := desc(x); str(f["kind"]) == "struct" && g.coin() {
				b.WriteString("[" + t.nameOf(f, namer) + "]\n")
				for _, y := range arr(f["fs"]) {
					if h := desc(y); h["skip"] == nil && !strings.Contains(t.nameOf(h, namer), "=") {
						b.WriteString(t.nameOf(h, namer) + " = " + strings.ReplaceAll(t.textOf(h), "`", "") + "\n")
					}
				}
			}
		}
		srcs := []any{text(b.String())}
		if g.oneIn(4) {
			srcs = append(srcs, M{"k": g.pick("missing", "denied", "text"), "t": "zz = 1\n"})
		}
		g.add("sources", op("mapsrc", "srcs", srcs, "typ", M{"kind": "struct", "fs": fs}, "val", v0("struct", "", t.vals(fs, g.coin())),
			"strict", g.coin(), "namer", namer))
	}
}

func genC16(g *gen) {
	// every kind on its own, with and without omitempty
	for _, kind := range fieldKinds {
		for _, v := range append(append([]string{}, roundValues[kind]...), typedValues[kind]...) {
			for b := 0; b < 4; b++ {
				f := M{"go": "K", "kind": kind, "ptr": b&1 != 0, "omit": b&2 != 0, "named": g.oneIn(4)}
				typ := M{"kind": "struct", "fs": []any{f}}
				val := v0("struct", "", []any{v0("v", v, nil)})
				g.add("scalar", load(M{}, ""), op("reflect", "s", 0, "typ", typ, "val", val, "namer", ""), obs(),
					op("back", "s", 0, "typ", typ, "val", val, "strict", true, "namer", ""))
			}
		}
	}
	for i := 0; i < g.count(1600); i++ {
		t := &structGen{g: g, many: g.oneIn(3), back: g.n(0, 3) > 0, secs: []string{"DEFAULT"}}
		o := g.subset(M{}, 5, "shadow", "dupShadow", "insKey", "ins", "insSec")
		if t.many {
			o["nonuniq"] = true
		}
		if t.back {
			delete(o, "insKey")
			delete(o, "ins")
		}
		namer := g.pick("", "", "", "snack", "title")
		t.nils = !t.back
		fs := t.fields(g.n(1, 5), 2, false)
		if i%50 == 7 {
			fs = t.fields(g.n(9, 26), 2, false)
		} else if i%50 == 9 {
			fs = t.fields(g.n(1, 3), 5, false)
		}
		t.steps = []Step{load(o, "")}
		si := 1
		if g.oneIn(3) && !t.many {
			si = t.newsec(g.pick("top", "top.sub", "p.q"))
		}
		if !t.back { // a populated document
			t.fill(fs, si, namer, ".")
			for _, x := range fs {
				if f := desc(x); str(f["kind"]) != "struct" && f["skip"] == nil && g.oneIn(3) {
					t.steps = append(t.steps, op("newkey", "s", si, "n", t.nameOf(f, namer), "v", "old"),
						op("keycom", "s", si, "key", t.nameOf(f, namer), "v", g.pick("its own", "# mine", "")))
				}
			}
			if len(t.secs) > 1 && g.coin() {
				t.steps = append(t.steps, op("seccom", "s", g.n(1, len(t.secs)), "v", "its own"))
			}
		}
		for j, n := 0, g.n(0, 2); j < n; j++ {
			t.steps = append(t.steps, op("newkey", "s", si, "n", g.pick("other", "unrelated"), "v", "1"))
		}
		typ := M{"kind": "struct", "fs": fs}
		s := si
		if si == 1 && g.coin() {
			s = 0
		}
		val := v0("struct", "", t.vals(fs, g.oneIn(6)))
		r := op("reflect", "s", s, "typ", typ, "val", val, "namer", namer)
		if s == 0 && g.coin() {
			r["via"] = "func"
		}
		t.steps = append(t.steps, r, obs())
		if t.back {
			strict := g.coin() && !emptyNumber(fs, arr(val["l"]))
			t.steps = append(t.steps, op("back", "s", s, "typ", typ, "val", val, "strict", strict, "namer", namer))
			if !t.many && o["shadow"] == nil && g.coin() {
				t.steps = append(t.steps, op("rt", "g", g.format(), "cmp", "plain"),
					op("back", "s", s, "typ", typ, "val", val, "strict", strict, "namer", namer))
			}
		} else {
			val2 := v0("struct", "", t.vals(fs, false))
			t.steps = append(t.steps, op("reflect", "s", s, "typ", typ, "val", val2, "namer", namer), obs(),
				op("hash", "s", si), op("map", "s", s, "typ", typ, "val", val, "strict", false, "namer", namer))
		}
		g.add(map[bool]string{true: "back", false: "over"}[t.back], t.steps...)
	}
	// one section per element
	for i := 0; i < g.count(300); i++ {
		t := &structGen{g: g, many: true, back: true, secs: []string{"DEFAULT"}}
		o := M{"nonuniq": true}
		if g.oneIn(5) {
			o = M{}
		}
		fs := t.fields(g.n(1, 3), 1, true)
		f := M{"kind": "structs", "ptrs": true, "fs": fs}
		var old []any
		if g.coin() {
			old = append(old, op("newkey", "s", 2, "n", "old", "v", "x"))
		}
		t.steps = []Step{load(o, "a = 1\n[item]\n[other]\nb = 2\n[item]\nc = 3\n"), obs()}
		for _, s := range old {
			t.steps = append(t.steps, s.(Step))
		}
		val := t.val(f, false)
		for val["k"] == "nil" {
			val = t.val(f, false)
		}
		t.steps = append(t.steps, op("reflect", "s", 2, "typ", f, "val", val, "namer", ""), obs())
		if o["nonuniq"] == true {
			strict := true
			for _, e := range arr(val["l"]) {
				strict = strict && !emptyNumber(fs, arr(desc(e)["l"]))
			}
			t.steps = append(t.steps, op("back", "s", 3, "typ", f, "val", val, "strict", strict, "namer", ""))
		}
		g.add("slices", t.steps...)
	}
}
