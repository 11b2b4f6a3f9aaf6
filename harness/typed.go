package main

import (
	"fmt"
	"strconv"
	"time"

	"github.com/go-ini/ini"
)

const dateLayout = "2006-01-02"

func showFloat(f float64) string {
	if f == 0 {
		return "0"
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}
func showInt(i int64) string         { return strconv.FormatInt(i, 10) }
func showUint(u uint64) string       { return strconv.FormatUint(u, 10) }
func showDur(d time.Duration) string { return strconv.FormatInt(int64(d), 10) }
func showTime(t time.Time) string    { return t.Format(time.RFC3339Nano) }

func must[T any](v T, err error) T {
	if err != nil {
		panic("driver: " + err.Error())
	}
	return v
}
func argFloat(v any) float64 { return must(strconv.ParseFloat(txt(v), 64)) }
func argInt(v any) int64     { return must(strconv.ParseInt(txt(v), 10, 64)) }
func argUint(v any) uint64   { return must(strconv.ParseUint(txt(v), 10, 64)) }
func argTime(v any) time.Time {
	return must(time.Parse(time.RFC3339, txt(v)))
}
func argList[T any](v any, f func(any) T) []T {
	out := []T{}
	for _, x := range txts(v) {
		out = append(out, f(enc(x)))
	}
	return out
}

func showAll[T any](l []T, show func(T) string) []string {
	out := []string{}
	for _, x := range l {
		out = append(out, show(x))
	}
	return out
}

func result(s string, err error) any {
	if err != nil {
		return map[string]any{"e": true, "v": ""}
	}
	return map[string]any{"e": false, "v": enc(s)}
}

func results(l []string, err error) any {
	if err != nil {
		return map[string]any{"e": true, "v": []string{}}
	}
	return map[string]any{"e": false, "v": encs(l)}
}

func list[T any](st Step, delim string, show func(T) string,
	lenient func(string) []T, valid func(string) []T, strict func(string) ([]T, error)) any {
	switch st["mode"] {
	case "strict":
		l, err := strict(delim)
		return results(spentAll(l, show), err)
	case "valid":
		return results(spentAll(valid(delim), show), nil)
	}
	return results(spentAll(lenient(delim), show), nil)
}

// spentAll is showAll on a list that its caller overwrites afterwards.
func spentAll[T any](l []T, show func(T) string) []string {
	out := showAll(l, show)
	clear(l[:cap(l)])
	return out
}

func int64of(i int) string   { return showInt(int64(i)) }
func uint64of(u uint) string { return showUint(uint64(u)) }

// execTyped performs the typed reads of a key.
func (m *machine) execTyped(k *ini.Key, st Step) any {
	ty := st["ty"].(string)
	delim := txt(st["delim"])
	switch st["op"] {
	case "get":
		switch ty {
		case "bool":
			v, err := k.Bool()
			return result(strconv.FormatBool(v), err)
		case "int":
			v, err := k.Int()
			return result(int64of(v), err)
		case "int64":
			v, err := k.Int64()
			return result(showInt(v), err)
		case "uint":
			v, err := k.Uint()
			return result(uint64of(v), err)
		case "uint64":
			v, err := k.Uint64()
			return result(showUint(v), err)
		case "float":
			v, err := k.Float64()
			return result(showFloat(v), err)
		case "dur":
			v, err := k.Duration()
			return result(showDur(v), err)
		case "time":
			v, err := k.Time()
			return result(showTime(v), err)
		case "date":
			v, err := k.TimeFormat(dateLayout)
			return result(showTime(v), err)
		}
	case "must":
		switch ty {
		case "string":
			return enc(k.MustString(txt(st["def"])))
		case "bool":
			return strconv.FormatBool(k.MustBool(txt(st["def"]) == "true"))
		case "int":
			return int64of(k.MustInt(int(argInt(st["def"]))))
		case "int64":
			return showInt(k.MustInt64(argInt(st["def"])))
		case "uint":
			return uint64of(k.MustUint(uint(argUint(st["def"]))))
		case "uint64":
			return showUint(k.MustUint64(argUint(st["def"])))
		case "float":
			return showFloat(k.MustFloat64(argFloat(st["def"])))
		case "dur":
			return showDur(k.MustDuration(time.Duration(argInt(st["def"]))))
		case "time":
			return showTime(k.MustTime(argTime(st["def"])))
		case "date":
			return showTime(k.MustTimeFormat(dateLayout, argTime(st["def"])))
		}
	case "must0": // without a default
		switch ty {
		case "bool":
			return strconv.FormatBool(k.MustBool())
		case "int":
			return int64of(k.MustInt())
		case "int64":
			return showInt(k.MustInt64())
		case "uint":
			return uint64of(k.MustUint())
		case "uint64":
			return showUint(k.MustUint64())
		case "float":
			return showFloat(k.MustFloat64())
		case "dur":
			return showDur(k.MustDuration())
		case "time":
			return showTime(k.MustTime())
		case "date":
			return showTime(k.MustTimeFormat(dateLayout))
		}
	case "in":
		def, cands := st["def"], st["cands"]
		switch ty {
		case "string":
			return enc(k.In(txt(def), txts(cands)))
		case "int":
			return int64of(k.InInt(int(argInt(def)), argList(cands, func(v any) int { return int(argInt(v)) })))
		case "int64":
			return showInt(k.InInt64(argInt(def), argList(cands, argInt)))
		case "uint":
			return uint64of(k.InUint(uint(argUint(def)), argList(cands, func(v any) uint { return uint(argUint(v)) })))
		case "uint64":
			return showUint(k.InUint64(argUint(def), argList(cands, argUint)))
		case "float":
			return showFloat(k.InFloat64(argFloat(def), argList(cands, argFloat)))
		case "time":
			return showTime(k.InTime(argTime(def), argList(cands, argTime)))
		case "date":
			return showTime(k.InTimeFormat(dateLayout, argTime(def), argList(cands, argTime)))
		}
	case "range":
		def, lo, hi := st["def"], st["lo"], st["hi"]
		switch ty {
		case "int":
			return int64of(k.RangeInt(int(argInt(def)), int(argInt(lo)), int(argInt(hi))))
		case "int64":
			return showInt(k.RangeInt64(argInt(def), argInt(lo), argInt(hi)))
		case "float":
			return showFloat(k.RangeFloat64(argFloat(def), argFloat(lo), argFloat(hi)))
		case "time":
			return showTime(k.RangeTime(argTime(def), argTime(lo), argTime(hi)))
		case "date":
			return showTime(k.RangeTimeFormat(dateLayout, argTime(def), argTime(lo), argTime(hi)))
		}
	case "list":
		switch ty {
		case "bool":
			return list(st, delim, strconv.FormatBool, k.Bools, k.ValidBools, k.StrictBools)
		case "int":
			return list(st, delim, int64of, k.Ints, k.ValidInts, k.StrictInts)
		case "int64":
			return list(st, delim, showInt, k.Int64s, k.ValidInt64s, k.StrictInt64s)
		case "uint":
			return list(st, delim, uint64of, k.Uints, k.ValidUints, k.StrictUints)
		case "uint64":
			return list(st, delim, showUint, k.Uint64s, k.ValidUint64s, k.StrictUint64s)
		case "float":
			return list(st, delim, showFloat, k.Float64s, k.ValidFloat64s, k.StrictFloat64s)
		case "time":
			return list(st, delim, showTime, k.Times, k.ValidTimes, k.StrictTimes)
		case "date":
			return list(st, delim, showTime,
				func(d string) []time.Time { return k.TimesFormat(dateLayout, d) },
				func(d string) []time.Time { return k.ValidTimesFormat(dateLayout, d) },
				func(d string) ([]time.Time, error) { return k.StrictTimesFormat(dateLayout, d) })
		}
	}
	panic(fmt.Sprintf("driver: unknown step %v %v", st["op"], ty))
}
