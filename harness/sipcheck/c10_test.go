package sipcheck

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// scribble changes some fields of a struct that belong to it and returns what
// it changed. Elements of parameter, URI header and extension header lists are
// shared by design, so those lists are only prepended to or replaced.
func scribble(t *rapid.T, v reflect.Value, path string, depth int) []string {
	var done []string
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := path + "." + v.Type().Field(i).Name
		switch x := f.Interface().(type) {
		case *sip.Param:
			if rapid.Bool().Draw(t, name) {
				f.Set(reflect.ValueOf(&sip.Param{Name: "scribble", Value: "1", Next: x}))
				done = append(done, name)
			}
			continue
		case *sip.URIParam:
			if rapid.Bool().Draw(t, name) {
				f.Set(reflect.ValueOf(&sip.URIParam{Name: "scribble", Value: "1", Next: x}))
				done = append(done, name)
			}
			continue
		case *sip.URIHeader:
			if rapid.Bool().Draw(t, name) {
				f.Set(reflect.ValueOf(&sip.URIHeader{Name: "scribble", Value: "1", Next: x}))
				done = append(done, name)
			}
			continue
		case *sip.XHeader:
			if rapid.Bool().Draw(t, name) {
				f.Set(reflect.ValueOf(&sip.XHeader{Name: "scribble", Value: []byte("1"), Next: x}))
				done = append(done, name)
			}
			continue
		}
		switch f.Kind() {
		case reflect.Ptr:
			if f.IsNil() || f.Elem().Kind() != reflect.Struct || depth == 0 {
				continue
			}
			switch f.Interface().(type) {
			case *sip.Addr, *sip.Via, *sip.URI:
				done = append(done, scribble(t, f.Elem(), name, depth-1)...)
				if rapid.IntRange(0, 5).Draw(t, name+"nil") == 5 {
					f.Set(reflect.Zero(f.Type()))
					done = append(done, name+"=nil")
				}
			}
		case reflect.Interface:
			if rapid.IntRange(0, 2).Draw(t, name) == 2 {
				f.Set(reflect.ValueOf(&sip.MiscPayload{T: "scribble", D: []byte("x")}))
				done = append(done, name)
			}
		case reflect.String:
			if rapid.IntRange(0, 3).Draw(t, name) == 3 {
				f.SetString(f.String() + "scribble")
				done = append(done, name)
			}
		case reflect.Int:
			if rapid.IntRange(0, 3).Draw(t, name) == 3 {
				f.SetInt(f.Int() + 1)
				done = append(done, name)
			}
		case reflect.Uint8, reflect.Uint16:
			if rapid.IntRange(0, 3).Draw(t, name) == 3 {
				f.SetUint((f.Uint() + 1) & 0xff)
				done = append(done, name)
			}
		}
	}
	return done
}

func independent[T any](t *rapid.T, c *hx.Case, what string, orig *T, copy func(*T) *T) {
	before := gen.Dump(orig)
	dup := copy(orig)
	if dup == orig {
		t.Fatalf("copy of %s is the original", what)
	}
	if d := gen.DiffText(before, gen.Dump(dup)); d != "" {
		t.Fatalf("copy of %s differs:\n%s", what, d)
	}
	a, b := orig, dup
	which := "original"
	if rapid.Bool().Draw(t, "changecopy") {
		a, b = dup, orig
		which = "copy"
	}
	done := scribble(t, reflect.ValueOf(a).Elem(), what, 6)
	if d := gen.DiffText(before, gen.Dump(b)); d != "" {
		t.Fatalf("changing %v of the %s of a %s changes the other:\n%s", done, which, what, d)
	}
	if len(done) >= 3 {
		c.NonTrivial(before + fmt.Sprint(done))
		c.Samplef("%s; changed %v", what, done)
	}
	c.Class(what)
}

func TestC10Copies(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 120000, Thorough: 2000000},
		"copies of random messages, addresses, Vias and URIs; random fields of copy or original, down to the URIs of list elements, are changed; "+
			"non-trivial: at least 3 changes",
		func(t *rapid.T, c *hx.Case) {
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
				independent(t, c, "URI", gen.URI().Draw(t, "uri"), (*sip.URI).Copy)
			case 1:
				independent(t, c, "address list", gen.Addr(1, 4).Draw(t, "addr"), (*sip.Addr).Copy)
			case 2:
				independent(t, c, "Via list", gen.Via(1, 4).Draw(t, "via"), (*sip.Via).Copy)
			default:
				m := gen.Msg(gen.MsgOptions{Small: rapid.Bool().Draw(t, "small")}).Draw(t, "msg")
				independent(t, c, "message", m, (*sip.Msg).Copy)
			}
		})
}

func TestC10Lists(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 160000, Thorough: 2000000},
		"reversing address lists, detaching Vias, and adding tags and branches to copies; non-trivial: lists of 2 or more",
		func(t *rapid.T, c *hx.Case) {
			a := gen.Addr(0, 5).Draw(t, "addr")
			before := gen.Dump(a)
			r := a.Reversed()
			if d := gen.DiffText(before, gen.Dump(a)); d != "" {
				t.Fatalf("reversing changes the list:\n%s", d)
			}
			var fwd, back []string
			for x := a; x != nil; x = x.Next {
				y := *x
				y.Next = nil
				fwd = append(fwd, gen.Dump(&y))
			}
			for x := r; x != nil; x = x.Next {
				y := *x
				y.Next = nil
				back = append([]string{gen.Dump(&y)}, back...)
			}
			if d := gen.DiffText(fmt.Sprintf("%q", fwd), fmt.Sprintf("%q", back)); d != "" {
				t.Fatalf("not reversed:\n%s", d)
			}
			for x := r; x != nil; x = x.Next {
				x.Display += "scribble"
				x.Param = &sip.Param{Name: "scribble", Next: x.Param}
			}
			if d := gen.DiffText(before, gen.Dump(a)); d != "" {
				t.Fatalf("changing the reversed list changes the list:\n%s", d)
			}
			if a.Len() >= 2 {
				c.NonTrivial(before)
				c.Samplef("%s", a)
			}
			if a != nil {
				a.Copy().Tag()
				if d := gen.DiffText(before, gen.Dump(a)); d != "" {
					t.Fatalf("tagging a copy changes the original:\n%s", d)
				}
			}
			v := gen.Via(1, 4).Draw(t, "via")
			before = gen.Dump(v)
			w := v.Detach()
			if w.Next != nil {
				t.Fatalf("detached Via has a next one")
			}
			first := *v
			first.Next = nil
			if d := gen.Diff(&first, w); d != "" {
				t.Fatalf("detached Via differs:\n%s", d)
			}
			w.Branch().Host = "scribble"
			w.Port++
			w.Next = v
			v.Copy().Branch()
			if d := gen.DiffText(before, gen.Dump(v)); d != "" {
				t.Fatalf("changing a detached or copied Via changes the original:\n%s", d)
			}
		})
}
