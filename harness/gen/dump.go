package gen

import (
	"fmt"
	"reflect"
	"strings"
)

// Dump renders any value built of structs, pointers, slices, strings and
// numbers in full, one field per line, leaving out zero fields. Two values are
// equal exactly if their dumps are; nil and empty slices are the same.
func Dump(v any) string {
	var b strings.Builder
	dump(&b, "", reflect.ValueOf(v))
	return b.String()
}

func dump(b *strings.Builder, path string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
	case reflect.Ptr, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			path += "(" + v.Elem().Type().String() + ")"
		}
		e := v.Elem()
		if e.Kind() == reflect.Ptr && e.IsNil() {
			return
		}
		if e.Kind() == reflect.Struct {
			fmt.Fprintf(b, "%s: present\n", path)
		}
		dump(b, path, e)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			dump(b, path+"."+v.Type().Field(i).Name, v.Field(i))
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			if v.Len() > 0 {
				raw := make([]byte, v.Len())
				reflect.Copy(reflect.ValueOf(raw), v)
				fmt.Fprintf(b, "%s: bytes %q\n", path, raw)
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			fmt.Fprintf(b, "%s[%d]: present\n", path, i)
			dump(b, fmt.Sprintf("%s[%d]", path, i), v.Index(i))
		}
	case reflect.String:
		if v.Len() > 0 {
			fmt.Fprintf(b, "%s: %q\n", path, v.String())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != 0 {
			fmt.Fprintf(b, "%s: %d\n", path, v.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != 0 {
			fmt.Fprintf(b, "%s: %d\n", path, v.Uint())
		}
	case reflect.Bool:
		if v.Bool() {
			fmt.Fprintf(b, "%s: true\n", path)
		}
	default:
		panic("dump: " + v.Kind().String())
	}
}

// Diff gives the lines in which the dumps of two values differ, or "".
func Diff(want, got any) string {
	return DiffText(Dump(want), Dump(got))
}

// DiffText compares dumps.
func DiffText(w, g string) string {
	if w == g {
		return ""
	}
	ws, gs := strings.Split(w, "\n"), strings.Split(g, "\n")
	in := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, s := range l {
			m[s] = true
		}
		return m
	}
	wm, gm := in(ws), in(gs)
	var out []string
	for _, s := range ws {
		if !gm[s] {
			out = append(out, "want "+s)
		}
	}
	for _, s := range gs {
		if !wm[s] {
			out = append(out, "got  "+s)
		}
	}
	return strings.Join(out, "\n")
}
