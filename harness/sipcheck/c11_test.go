package sipcheck

import (
	"strings"
	"testing"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// entry is a name and value in a plain list, oldest first.
type entry struct{ name, value string }

func lookup(l []entry, name string) *entry {
	for i := len(l) - 1; i >= 0; i-- {
		if strings.ToLower(l[i].name) == strings.ToLower(name) {
			return &l[i]
		}
	}
	return nil
}

func TestC11Lookup(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800000, Thorough: 4000000},
		"parameter, URI parameter, URI header and extension header lists of up to 8 entries with few distinct names in random case, built by hand or "+
			"parsed; every lookup is compared with a plain list; non-trivial: some name occurs twice",
		func(t *rapid.T, c *hx.Case) {
			names := []string{"tag", "TAG", "Tag", "lr", "branch", "x", "X", "xx", "tagx", "ta", "a-b", "rport"}
			var l []entry
			var p *sip.Param
			var up *sip.URIParam
			var uh *sip.URIHeader
			var xh *sip.XHeader
			dup := false
			for n := rapid.IntRange(0, 8).Draw(t, "n"); n > 0; n-- {
				e := entry{gen.Pick(t, "name", names...), gen.Pick(t, "value", "", "1", "2", "v")}
				dup = dup || lookup(l, e.name) != nil
				l = append(l, e)
				p = &sip.Param{Name: e.name, Value: e.value, Next: p}
				up = &sip.URIParam{Name: e.name, Value: e.value, Next: up}
				uh = &sip.URIHeader{Name: e.name, Value: e.value, Next: uh}
				xh = &sip.XHeader{Name: e.name, Value: []byte(e.value), Next: xh}
			}
			if len(l) > 0 && rapid.Bool().Draw(t, "parsed") {
				u := &sip.URI{Scheme: "sip", Host: "h", Param: up, Header: uh}
				m := &sip.Msg{Status: 200, From: &sip.Addr{Uri: u, Param: p}, To: &sip.Addr{Uri: u}, CallID: "a", CSeqMethod: "X", XHeader: xh}
				m, err := parse(gen.Format(m))
				if err != nil {
					t.Fatalf("%v", err)
				}
				p, up, uh, xh = m.From.Param, m.From.Uri.Param, m.From.Uri.Header, m.XHeader
			}
			if dup {
				c.NonTrivial(gen.Dump(p))
				c.Samplef("%v", l)
			}
			for _, name := range append(names, "none", "", "TAGX", "A-B", "LR") {
				want := lookup(l, name)
				check := func(kind string, found bool, gotName, gotValue string) {
					if found != (want != nil) {
						t.Fatalf("%s %q in %v: found %v", kind, name, l, found)
					}
					if found && (gotName != want.name || gotValue != want.value) {
						t.Fatalf("%s %q in %v: got %s=%s", kind, name, l, gotName, gotValue)
					}
				}
				if g := p.Get(name); g != nil {
					check("parameter", true, g.Name, g.Value)
				} else {
					check("parameter", false, "", "")
				}
				if g := up.Get(name); g != nil {
					check("URI parameter", true, g.Name, g.Value)
				} else {
					check("URI parameter", false, "", "")
				}
				if g := uh.Get(name); g != nil {
					check("URI header", true, g.Name, g.Value)
				} else {
					check("URI header", false, "", "")
				}
				if g := xh.Get(name); g != nil {
					check("extension header", true, g.Name, string(g.Value))
				} else {
					check("extension header", false, "", "")
				}
			}
		})
}

func TestC11Lists(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 600000, Thorough: 2000000},
		"address and Via lists of 0 to 6: length, last, reversal, default; non-trivial: 2 or more",
		func(t *rapid.T, c *hx.Case) {
			var as []*sip.Addr
			var vs []*sip.Via
			n := rapid.IntRange(0, 6).Draw(t, "n")
			u := &sip.URI{Scheme: "sip", Host: "h"}
			for i := 0; i < n; i++ {
				as = append(as, &sip.Addr{Uri: u, Display: itoa(i)})
				vs = append(vs, &sip.Via{Host: itoa(i)})
				if i > 0 {
					as[i-1].Next = as[i]
					vs[i-1].Next = vs[i]
				}
			}
			if n >= 2 {
				c.NonTrivial(itoa(n) + itoa(int(rapid.Uint32().Draw(t, "key"))))
			}
			i := 0
			if n > 0 {
				i = rapid.IntRange(0, n-1).Draw(t, "from")
			}
			var a *sip.Addr
			var v *sip.Via
			var lastA *sip.Addr
			var lastV *sip.Via
			if n > 0 {
				a, v, lastA, lastV = as[i], vs[i], as[n-1], vs[n-1]
			}
			if got := a.Len(); n > 0 && got != n-i || n == 0 && got != 0 {
				t.Fatalf("length %d of the last %d of %d", got, n-i, n)
			}
			if a.Last() != lastA || v.Last() != lastV {
				t.Fatalf("last of %d", n)
			}
			r := a.Reversed()
			for j := n - 1; j >= i && n > 0; j-- {
				if r == nil || r.Display != itoa(j) {
					t.Fatalf("reversed from %d of %d at %d: %s", i, n, j, r)
				}
				r = r.Next
			}
			if r != nil {
				t.Fatalf("reversed list is longer: %s", r)
			}
			other := &sip.Addr{Uri: u}
			if want := a; a.Or(other) != want && a != nil || a == nil && a.Or(other) != other || a.Or(nil) != a {
				t.Fatalf("default of address list")
			}
		})
}

func TestC11Compare(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800000, Thorough: 2000000},
		"pairs of URIs, addresses and Vias with few hosts, ports, schemes and branches, or nil, compared; non-trivial: both present",
		func(t *rapid.T, c *hx.Case) {
			uri := func(l string) *sip.URI {
				if gen.Chance(t, l+"nil", 8) {
					return nil
				}
				return &sip.URI{Scheme: gen.Pick(t, l+"scheme", "sip", "sips", ""), User: gen.Pick(t, l+"user", "", "a"), Host: gen.Pick(t, l+"host", "h", "g"),
					Port: rapid.SampledFrom([]uint16{0, 5060, 5061, 1}).Draw(t, l+"port")}
			}
			port := func(u *sip.URI) uint16 {
				if u.Port != 0 {
					return u.Port
				}
				if u.Scheme == "sips" {
					return 5061
				}
				return 5060
			}
			a, b := uri("a"), uri("b")
			want := a != nil && b != nil && a.Host == b.Host && port(a) == port(b)
			if got := a.CompareHostPort(b); got != want {
				t.Fatalf("%v and %v compare %v", a, b, got)
			}
			if a != nil && a.GetPort() != port(a) {
				t.Fatalf("port of %v is %d", a, a.GetPort())
			}
			if a != nil && b != nil {
				x, y := &sip.Addr{Uri: a, Display: "x"}, &sip.Addr{Uri: b}
				if got := x.CompareHostPort(y); got != want {
					t.Fatalf("%v and %v compare %v", x, y, got)
				}
				if x.CompareHostPort(nil) || (*sip.Addr)(nil).CompareHostPort(y) {
					t.Fatalf("equal to nil")
				}
				c.NonTrivial(a.String() + " " + b.String())
			}
			if (*sip.Addr)(nil).CompareHostPort(nil) || (*sip.Via)(nil).CompareHostPort(nil) || (*sip.Via)(nil).CompareBranch(nil) || (*sip.URI)(nil).CompareHostPort(nil) {
				t.Fatalf("nil equals nil")
			}
			via := func(l string) (*sip.Via, *entry) {
				if gen.Chance(t, l+"vnil", 8) {
					return nil, nil
				}
				v := &sip.Via{Host: gen.Pick(t, l+"vhost", "h", "H", "g"), Port: rapid.SampledFrom([]uint16{0, 5060, 1}).Draw(t, l+"vport"), Transport: gen.Pick(t, l+"tr", "UDP", "TCP")}
				var ps []entry
				for n := rapid.IntRange(0, 3).Draw(t, l+"params"); n > 0; n-- {
					e := entry{gen.Pick(t, l+"name", "branch", "Branch", "rport", "branchx"), gen.Pick(t, l+"value", "z9hG4bK1", "z9hG4bK2", "", "Z9HG4BK1")}
					ps = append(ps, e)
					v.Param = &sip.Param{Name: e.name, Value: e.value, Next: v.Param}
				}
				return v, lookup(ps, "branch")
			}
			v, vb := via("v")
			w, wb := via("w")
			if want := v != nil && w != nil && v.Host == w.Host && v.Port == w.Port; v.CompareHostPort(w) != want {
				t.Fatalf("Vias %+v and %+v do not compare %v", v, w, want)
			}
			if want := vb != nil && wb != nil && vb.value == wb.value; v.CompareBranch(w) != want {
				t.Fatalf("branches of %s and %s do not compare %v", gen.Dump(v), gen.Dump(w), want)
			}
			if v != nil && w != nil {
				c.NonTrivial(gen.Dump(v) + gen.Dump(w))
				c.Samplef("%v %v; %s %s", a, b, gen.Dump(v), gen.Dump(w))
			}
		})
}

func TestC11Nil(t *testing.T) {
	hx.Exhaustive(t, "every helper on nil", func(count func(string)) {
		defer func() {
			if r := recover(); r != nil {
				hx.Failf(t, "panic on nil: %v", r)
			}
		}()
		var a *sip.Addr
		var v *sip.Via
		var u *sip.URI
		var m *sip.Msg
		var p *sip.Param
		var up *sip.URIParam
		var uh *sip.URIHeader
		var xh *sip.XHeader
		for i, ok := range []bool{
			a.Copy() == nil, v.Copy() == nil, u.Copy() == nil, m.Copy() == nil, a.Last() == nil, v.Last() == nil, a.Reversed() == nil, a.Len() == 0,
			a.Or(nil) == nil, p.Get("x") == nil, up.Get("x") == nil, uh.Get("x") == nil, xh.Get("x") == nil, a.String() == "", u.String() == "",
			m.String() == "", xh.String() == "", !a.CompareHostPort(nil), !v.CompareHostPort(nil), !v.CompareBranch(nil), !u.CompareHostPort(nil),
		} {
			count("nil " + itoa(i))
			if !ok {
				hx.Failf(t, "helper %d on nil", i)
			}
		}
	})
}
