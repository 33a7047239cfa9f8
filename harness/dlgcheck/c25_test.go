package dlgcheck

import (
	"strconv"
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// Hosts and ports from small sets, so that they are often equal.
var (
	someHosts = []string{"10.0.0.1", "10.0.0.2", "a.example", "b.example", "::1"}
	somePorts = []uint16{0, 5060, 5061, 5070, 65535}
)

func someHost(t *rapid.T) string { return gen.Pick(t, "host", someHosts...) }
func somePort(t *rapid.T) uint16 { return rapid.SampledFrom(somePorts).Draw(t, "port") }

func someURI(t *rapid.T, label string) *sip.URI {
	u := gen.URI().Draw(t, label)
	u.Scheme = gen.Pick(t, "scheme", "sip", "sip", "sip", "sips")
	u.Host, u.Port = someHost(t), somePort(t)
	switch rapid.IntRange(0, 3).Draw(t, "lr") {
	case 0:
		u.Param = &sip.URIParam{Name: "lr", Next: u.Param}
	case 1:
		// Somewhere else in the list.
		u.Param = &sip.URIParam{Name: gen.Pick(t, "before", "transport", "l", "lrx"), Value: "udp",
			Next: &sip.URIParam{Name: gen.Pick(t, "lrname", "lr", "LR", "Lr"), Value: gen.Pick(t, "lrvalue", "", "on"), Next: u.Param}}
	case 2:
		u.Param = nil
	}
	return u
}

func someAddrs(t *rapid.T, label string, min, max int) *sip.Addr {
	a := gen.Addr(min, max).Draw(t, label)
	for p := a; p != nil; p = p.Next {
		p.Uri = someURI(t, label+"uri")
	}
	return a
}

func someVias(t *rapid.T, label string, min, max int) *sip.Via {
	a := gen.Via(min, max).Draw(t, label)
	for p := a; p != nil; p = p.Next {
		p.Host, p.Port = someHost(t), somePort(t)
		if rapid.Bool().Draw(t, "hasreceived") {
			p.Param = &sip.Param{Name: gen.Pick(t, "received", "received", "Received"), Value: gen.Pick(t, "recvalue", "10.9.9.9", "::9", "10.0.0.1"), Next: p.Param}
		}
		if rapid.Bool().Draw(t, "hasrport") {
			p.Param = &sip.Param{Name: "rport", Value: gen.Pick(t, "rportvalue", "", "1", "5060", "5070", "65535", "65536", "99999999999999999999", "x", "-1", "5060x", "6 0"), Next: p.Param}
		}
	}
	return a
}

func uriPort(u *sip.URI) uint16 {
	switch {
	case u.Port != 0:
		return u.Port
	case u.Scheme == "sips":
		return 5061
	}
	return 5060
}

// routed is what SIP routing makes of a message.
type routed struct {
	Msg  *sip.Msg
	Host string
	Port uint16
	Err  bool
}

// route is the model of RouteMessage. It returns ok false where the outcome is
// left open.
func route(via *sip.Via, contact *sip.Addr, m *sip.Msg) (r routed, ok bool) {
	m = gen.Clone(m)
	r.Msg = m
	if m.Status > 0 {
		own := func(v *sip.Via) bool { return via != nil && v != nil && v.Host == via.Host && v.Port == via.Port }
		if own(m.Via) {
			m.Via = m.Via.Next
			if own(m.Via) {
				return r, false
			}
		}
		if m.Via == nil {
			r.Err = true
			return r, true
		}
		r.Host, r.Port = m.Via.Host, m.Via.Port
		if v, ok := param(m.Via.Param, "received"); ok {
			r.Host = v
			if v == "" {
				return r, false
			}
		}
		if v, ok := param(m.Via.Param, "rport"); ok && v != "" {
			n, err := strconv.Atoi(v)
			if err != nil || n < 0 || n > 65535 {
				r.Err = true
			} else if n == 0 || strconv.Itoa(n) != v {
				return r, false
			}
			r.Port = uint16(n)
		}
		return r, true
	}
	own := func(a *sip.Addr) bool {
		return contact != nil && a != nil && a.Uri.Host == contact.Uri.Host && uriPort(a.Uri) == uriPort(contact.Uri)
	}
	if own(m.Route) {
		m.Route = m.Route.Next
		if own(m.Route) {
			return r, false
		}
	}
	if m.Route == nil {
		r.Host, r.Port = m.Request.Host, m.Request.Port
		return r, true
	}
	if m.Method == "REGISTER" {
		r.Err = true
		return r, true
	}
	top := m.Route.Uri
	if !uriParam(top.Param, "lr") {
		last := &m.Route
		for *last != nil {
			last = &(*last).Next
		}
		*last = &sip.Addr{Uri: m.Request}
		m.Request = top
		m.Route = m.Route.Next
	}
	r.Host, r.Port = top.Host, top.Port
	return r, true
}

func TestC25RouteMessage(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 120000, Thorough: 2000000},
		"random messages with up to three Routes or Vias over few hosts, ports and schemes, with or without an own Via and Contact, routed and compared with a model "+
			"of RFC 3261 routing, including what is left of the message; non-trivial: a request with a Route, or a response with 2 Vias or with received or rport",
		func(t *rapid.T, c *hx.Case) {
			var via *sip.Via
			var contact *sip.Addr
			if !gen.Chance(t, "novia", 4) {
				via = someVias(t, "ownvia", 1, 1)
			}
			if !gen.Chance(t, "nocontact", 4) {
				contact = someAddrs(t, "owncontact", 1, 1)
			}
			m := gen.Msg(gen.MsgOptions{Small: true, NoSDP: true}).Draw(t, "msg")
			m.Route = someAddrs(t, "route", 0, 3)
			m.Via = someVias(t, "via", 0, 3)
			if m.Request != nil {
				m.Request = someURI(t, "request")
				if m.Route != nil {
					c.NonTrivial(gen.Dump(m))
				}
			} else if m.Via != nil {
				_, rec := param(m.Via.Param, "received")
				_, rp := param(m.Via.Param, "rport")
				if m.Via.Next != nil || rec || rp {
					c.NonTrivial(gen.Dump(m))
				}
			}
			c.Samplef("own via %s contact %s message\n%s", gen.Dump(via), gen.Dump(contact), gen.Dump(m))
			want, ok := route(via, contact, m)
			if !ok {
				c.Class("open")
				return
			}
			switch {
			case want.Err:
				c.Class("error")
			case m.Status > 0:
				c.Class("response")
			case m.Route == nil:
				c.Class("no route")
			case want.Msg.Request == nil || gen.Dump(want.Msg.Request) == gen.Dump(m.Request):
				c.Class("loose")
			default:
				c.Class("strict")
			}
			ownV, ownC := gen.Dump(via), gen.Dump(contact)
			// Whoever holds the Route list of the message may go on using it.
			held, heldDump := m.Route, gen.Dump(m.Route)
			host, port, err := dialog.RouteMessage(via, contact, m)
			if want.Err {
				if err == nil {
					t.Fatalf("routed to %s port %d, want an error", host, port)
				}
			} else if err != nil {
				t.Fatalf("error %v, want %s port %d", err, want.Host, want.Port)
			} else {
				if host != want.Host || port != want.Port {
					t.Fatalf("routed to %q port %d, want %q port %d", host, port, want.Host, want.Port)
				}
				want.Msg.Payload, m.Payload = nil, nil
				if d := gen.Diff(want.Msg, m); d != "" {
					t.Fatalf("routing leaves a wrong message:\n%s", d)
				}
			}
			if gen.Dump(via) != ownV || gen.Dump(contact) != ownC {
				t.Fatalf("routing changes our own Via or Contact")
			}
			if d := gen.DiffText(heldDump, gen.Dump(held)); d != "" {
				t.Fatalf("routing changes the Route list that was passed:\n%s", d)
			}
		})
}
