package main

import (
	"fmt"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"
)

// dump writes down everything that can be reached from a value, including unexported parts and the
// unused capacity of slices.
func dump(x interface{}) string {
	var b strings.Builder
	d := dumper{b: &b, seen: map[uintptr]int{}}
	d.val(reflect.ValueOf(x))
	return b.String()
}

type dumper struct {
	b    *strings.Builder
	seen map[uintptr]int
}

var regexpType = reflect.TypeOf(regexp.Regexp{})
var timeType = reflect.TypeOf(time.Time{})

func (d *dumper) val(v reflect.Value) {
	if !v.IsValid() {
		d.b.WriteString("nil")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		if v.Type().Elem() == regexpType {
			d.b.WriteString("regexp")
			d.val(v.Elem().FieldByName("expr"))
			return
		}
		if v.Type().Elem().PkgPath() != "" && !strings.Contains(v.Type().Elem().PkgPath(), "gojsonsm") && v.Type().Elem() != timeType {
			d.b.WriteString("foreign")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(d.b, "&%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.b.WriteString("&")
		d.val(v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		d.b.WriteString(v.Elem().Type().String())
		d.val(v.Elem())
	case reflect.Struct:
		if v.Type() == timeType {
			fmt.Fprintf(d.b, "time(%d,%d)", v.Field(0).Uint(), v.Field(1).Int())
			return
		}
		d.b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			d.b.WriteString(v.Type().Field(i).Name + "=")
			d.val(v.Field(i))
			d.b.WriteString(" ")
		}
		d.b.WriteString("}")
	case reflect.Slice:
		if v.IsNil() {
			d.b.WriteString("nil")
			return
		}
		fmt.Fprintf(d.b, "[%d:", v.Len())
		full := v
		if v.CanInterface() || true {
			full = v.Slice(0, v.Cap())
		}
		for i := 0; i < full.Len(); i++ {
			d.val(full.Index(i))
			d.b.WriteString(" ")
		}
		d.b.WriteString("]")
	case reflect.Array:
		d.b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.val(v.Index(i))
			d.b.WriteString(" ")
		}
		d.b.WriteString("]")
	case reflect.Map:
		var ents []string
		for _, k := range v.MapKeys() {
			var kb, vb strings.Builder
			(&dumper{&kb, d.seen}).val(k)
			(&dumper{&vb, map[uintptr]int{}}).val(v.MapIndex(k))
			ents = append(ents, kb.String()+":"+vb.String())
		}
		sort.Strings(ents)
		d.b.WriteString("map{" + strings.Join(ents, " ") + "}")
	case reflect.String:
		fmt.Fprintf(d.b, "%q", v.String())
	case reflect.Bool:
		fmt.Fprint(d.b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(d.b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(d.b, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(d.b, v.Float())
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		fmt.Fprint(d.b, v.IsNil())
	default:
		d.b.WriteString("?")
	}
}
