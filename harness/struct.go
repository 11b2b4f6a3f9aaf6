package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/go-ini/ini"
)

// Struct types are described by steps (see spec/IniStruct.tla) and built with
// package reflect.

type (
	nString  string
	nBool    bool
	nInt     int
	nInt64   int64
	nInt8    int8
	nUint    uint
	nUint64  uint64
	nFloat64 float64
	nFloat32 float32
)

// stamp is a type that reflects itself.
type stamp struct{}

func (stamp) ReflectINIStruct(f *ini.File) error {
	f.Section("stamped").Key("by").SetValue("hand")
	return nil
}

// smear is one that fails to.
type smear struct{}

func (smear) ReflectINIStruct(f *ini.File) error { return errDenied }

var plainTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "bool": reflect.TypeOf(true),
	"int": reflect.TypeOf(int(0)), "int8": reflect.TypeOf(int8(0)), "int16": reflect.TypeOf(int16(0)),
	"int32": reflect.TypeOf(int32(0)), "int64": reflect.TypeOf(int64(0)),
	"uint": reflect.TypeOf(uint(0)), "uint8": reflect.TypeOf(uint8(0)), "uint16": reflect.TypeOf(uint16(0)),
	"uint32": reflect.TypeOf(uint32(0)), "uint64": reflect.TypeOf(uint64(0)),
	"float": reflect.TypeOf(float64(0)), "float32": reflect.TypeOf(float32(0)),
	"dur": reflect.TypeOf(time.Duration(0)), "time": reflect.TypeOf(time.Time{}),
	"other": reflect.TypeOf(complex64(0)),
}
var namedTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(nString("")), "bool": reflect.TypeOf(nBool(true)),
	"int": reflect.TypeOf(nInt(0)), "int8": reflect.TypeOf(nInt8(0)), "int64": reflect.TypeOf(nInt64(0)),
	"uint": reflect.TypeOf(nUint(0)), "uint64": reflect.TypeOf(nUint64(0)),
	"float": reflect.TypeOf(nFloat64(0)), "float32": reflect.TypeOf(nFloat32(0)),
}

func scalarType(kind string, named bool) reflect.Type {
	if t, ok := namedTypes[kind]; ok && named {
		return t
	}
	return plainTypes[kind]
}

func str(v any) string { s, _ := v.(string); return s }

func desc(v any) map[string]any {
	m, _ := v.(map[string]any)
	return m
}

// fieldType gives the type of a field.
func fieldType(f M) reflect.Type {
	var t reflect.Type
	switch kind := str(f["kind"]); kind {
	case "struct":
		t = structType(arr(f["fs"]))
		if boolean(f["refl"]) {
			t = reflect.TypeOf(stamp{})
			if boolean(f["fails"]) {
				t = reflect.TypeOf(smear{})
			}
		}
	case "structs":
		t = structType(arr(f["fs"]))
		if boolean(f["ptrs"]) {
			t = reflect.PointerTo(t)
		}
		t = reflect.SliceOf(t)
	case "slice":
		t = reflect.SliceOf(scalarType(str(f["elem"]), boolean(f["named"])))
	default:
		t = scalarType(kind, boolean(f["named"]))
	}
	if boolean(f["ptr"]) {
		t = reflect.PointerTo(t)
	}
	return t
}

func structType(fs []any) reflect.Type {
	var fields []reflect.StructField
	for _, x := range fs {
		f := desc(x)
		sf := reflect.StructField{Name: txt(f["go"]), Type: fieldType(f), Anonymous: boolean(f["emb"])}
		if boolean(f["hidden"]) {
			sf.PkgPath = "inidriver"
		}
		tag := txt(f["name"])
		opts := []string{"omit:omitempty", "shadow:allowshadow", "many:nonunique", "ext:extends"}
		for i := range opts {
			k, v, _ := strings.Cut(opts[(i+num(f["ord"]))%len(opts)], ":")
			if boolean(f[k]) {
				tag += "," + v
			}
		}
		if boolean(f["skip"]) && !boolean(f["hidden"]) {
			tag = "-"
		}
		var parts []string
		if tag != "" {
			parts = append(parts, "ini:"+strconv.Quote(tag))
		}
		if d := txt(f["delim"]); d != "" {
			parts = append(parts, "delim:"+strconv.Quote(d))
		}
		if c := txt(f["com"]); c != "" {
			parts = append(parts, "comment:"+strconv.Quote(c))
		}
		sf.Tag = reflect.StructTag(strings.Join(parts, " "))
		fields = append(fields, sf)
	}
	return reflect.StructOf(fields)
}

// setValue stores the described value.
func setValue(v reflect.Value, f M, d M) {
	if str(d["k"]) == "nil" || d == nil {
		return
	}
	if boolean(f["ptr"]) {
		v.Set(reflect.New(v.Type().Elem()))
		v = v.Elem()
	}
	l := arr(d["l"])
	switch str(f["kind"]) {
	case "struct":
		setFields(v, arr(f["fs"]), l)
	case "structs":
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i, x := range l {
			e := s.Index(i)
			if str(desc(x)["k"]) == "nil" {
				continue
			}
			if boolean(f["ptrs"]) {
				e.Set(reflect.New(e.Type().Elem()))
				e = e.Elem()
			}
			setFields(e, arr(f["fs"]), arr(desc(x)["l"]))
		}
		v.Set(s)
	case "slice":
		s := reflect.MakeSlice(v.Type(), len(l), len(l))
		for i, x := range l {
			setScalar(s.Index(i), txt(desc(x)["t"]))
		}
		v.Set(s)
	default:
		setScalar(v, txt(d["t"]))
	}
}

func setFields(v reflect.Value, fs, vals []any) {
	for i, x := range fs {
		if f := desc(x); !boolean(f["hidden"]) {
			setValue(v.Field(i), f, desc(vals[i]))
		}
	}
}

func setScalar(v reflect.Value, t string) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(t)
	case reflect.Bool:
		v.SetBool(t == "true")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(must(strconv.ParseInt(t, 10, 64)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(must(strconv.ParseUint(t, 10, 64)))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(must(strconv.ParseFloat(t, 64)))
	case reflect.Struct:
		v.Set(reflect.ValueOf(must(time.Parse(time.RFC3339, t))))
	}
}

// showValue describes a value.
func showValue(v reflect.Value, f M) M {
	show := func(k, t string, l []any) M {
		if l == nil {
			l = []any{}
		}
		return M{"k": k, "t": enc(t), "l": l}
	}
	if boolean(f["ptr"]) {
		if v.IsNil() {
			return show("nil", "", nil)
		}
		v = v.Elem()
	}
	switch str(f["kind"]) {
	case "struct":
		return show("struct", "", showFields(v, arr(f["fs"])))
	case "structs", "slice":
		if v.IsNil() {
			return show("nil", "", nil)
		}
		l := []any{}
		for i := 0; i < v.Len(); i++ {
			e := v.Index(i)
			if str(f["kind"]) == "slice" {
				l = append(l, show("v", showScalar(e), nil))
				continue
			}
			if boolean(f["ptrs"]) {
				if e.IsNil() {
					l = append(l, show("nil", "", nil))
					continue
				}
				e = e.Elem()
			}
			l = append(l, show("struct", "", showFields(e, arr(f["fs"]))))
		}
		return show("list", "", l)
	}
	return show("v", showScalar(v), nil)
}

func showFields(v reflect.Value, fs []any) []any {
	l := []any{}
	for i, x := range fs {
		l = append(l, showValue(v.Field(i), desc(x)))
	}
	return l
}

func showScalar(v reflect.Value) string {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Bool:
		return strconv.FormatBool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return showInt(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return showUint(v.Uint())
	case reflect.Float64:
		return showFloat(v.Float())
	case reflect.Float32:
		if v.Float() == 0 {
			return "0"
		}
		return strconv.FormatFloat(v.Float(), 'f', -1, 32)
	case reflect.Struct:
		if t, ok := v.Interface().(time.Time); ok {
			return showTime(t)
		}
	}
	return ""
}

func nameMapper(v any) ini.NameMapper {
	switch v {
	case "snack":
		return ini.SnackCase
	case "title":
		return ini.TitleUnderscore
	case "lower":
		return strings.ToLower
	}
	return nil
}

// top gives the described type (a struct, or a slice of structs) as a field.
func top(st Step) M {
	b, err := json.Marshal(st["typ"])
	if err != nil {
		panic("driver: " + err.Error())
	}
	var f M
	if err = json.Unmarshal(b, &f); err != nil {
		panic("driver: " + err.Error())
	}
	return f
}
func value(v any) M {
	b, _ := json.Marshal(v)
	var d M
	_ = json.Unmarshal(b, &d)
	return d
}

func (m *machine) execStruct(st Step) any {
	f := top(st)
	target := reflect.New(fieldType(f))
	setValue(target.Elem(), f, value(st["val"]))
	mapper := nameMapper(st["namer"])
	via, _ := st["via"].(string)
	strict := boolean(st["strict"])
	if st["op"] == "mapsrc" {
		srcs := arr(st["srcs"])
		first := m.source(srcs[0])
		others := []any{}
		for _, s := range srcs[1:] {
			others = append(others, m.source(s))
		}
		var err error
		switch {
		case mapper == nil && strict:
			err = ini.StrictMapTo(target.Interface(), first, others...)
		case mapper == nil:
			err = ini.MapTo(target.Interface(), first, others...)
		case strict:
			err = ini.StrictMapToWithMapper(target.Interface(), mapper, first, others...)
		default:
			err = ini.MapToWithMapper(target.Interface(), mapper, first, others...)
		}
		return mapped(target, f, err)
	}
	var s *ini.Section
	if num(st["s"]) != 0 {
		if s = m.sec(st["s"]); s == nil {
			return absent{}
		}
	}
	switch st["op"] {
	case "map", "back":
		m.f.NameMapper = mapper
		if st["op"] == "back" {
			target = reflect.New(fieldType(f))
		}
		var err error
		switch {
		case s == nil && strict:
			err = m.f.StrictMapTo(target.Interface())
		case s == nil:
			err = m.f.MapTo(target.Interface())
		case strict:
			err = s.StrictMapTo(target.Interface())
		default:
			err = s.MapTo(target.Interface())
		}
		m.f.NameMapper = nil
		return mapped(target, f, err)
	case "reflect":
		arg := target.Interface()
		if str(f["kind"]) == "structs" {
			arg = target.Elem().Interface()
		}
		var err error
		switch {
		case via == "func" && mapper == nil:
			err = ini.ReflectFrom(m.f, arg)
		case via == "func":
			err = ini.ReflectFromWithMapper(m.f, arg, mapper)
		default:
			m.f.NameMapper = mapper
			if s == nil {
				err = m.f.ReflectFrom(arg)
			} else {
				err = s.ReflectFrom(arg)
			}
		}
		m.f.NameMapper = nil
		return b2e(err)
	}
	panic(fmt.Sprintf("driver: unknown step %v", st["op"]))
}

func mapped(target reflect.Value, f M, err error) any {
	if err != nil {
		return M{"e": true, "v": M{"k": "nil", "t": "", "l": []any{}}}
	}
	return M{"e": false, "v": showValue(target.Elem(), f)}
}
