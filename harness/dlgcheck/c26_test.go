package dlgcheck

import (
	"context"
	"encoding/binary"
	"io"
	"net"
	"slices"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/jart/gosip/dialog"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// A name server inside the process, for the resolver of the net package.

type srv struct {
	Prio, Weight, Port uint16
	Target             string
}

type zone struct {
	A, AAAA map[string][]net.IP
	SRV     map[string][]srv
	Fail    map[string]bool // names that give SERVFAIL
}

var (
	zoneMu sync.Mutex
	zoned  *zone
)

func newZone() *zone {
	return &zone{A: map[string][]net.IP{}, AAAA: map[string][]net.IP{}, SRV: map[string][]srv{}, Fail: map[string]bool{}}
}

func (z *zone) add(name string, ip net.IP) {
	if ip.To4() != nil {
		z.A[name] = append(z.A[name], ip)
	} else {
		z.AAAA[name] = append(z.AAAA[name], ip)
	}
}

func useZone(z *zone) {
	zoneMu.Lock()
	defer zoneMu.Unlock()
	zoned = z
}

func useNameServer() {
	net.DefaultResolver = &net.Resolver{PreferGo: true, Dial: func(ctx context.Context, network, address string) (net.Conn, error) {
		client, server := net.Pipe()
		go serveDNS(server)
		return client, nil
	}}
}

func serveDNS(c net.Conn) {
	defer c.Close()
	for {
		var n [2]byte
		if _, err := io.ReadFull(c, n[:]); err != nil {
			return
		}
		q := make([]byte, binary.BigEndian.Uint16(n[:]))
		if _, err := io.ReadFull(c, q); err != nil {
			return
		}
		a := answer(q)
		if a == nil {
			return
		}
		if _, err := c.Write(append(binary.BigEndian.AppendUint16(nil, uint16(len(a))), a...)); err != nil {
			return
		}
	}
}

func dnsName(s string) (b []byte) {
	for _, l := range strings.Split(strings.TrimSuffix(s, "."), ".") {
		b = append(append(b, byte(len(l))), l...)
	}
	return append(b, 0)
}

func answer(q []byte) []byte {
	if len(q) < 17 {
		return nil
	}
	i := 12
	var labels []string
	for i < len(q) && q[i] != 0 {
		n := int(q[i])
		if n > 63 || i+1+n > len(q) {
			return nil
		}
		labels = append(labels, string(q[i+1:i+1+n]))
		i += 1 + n
	}
	if i+5 > len(q) {
		return nil
	}
	name := strings.ToLower(strings.Join(labels, "."))
	question := q[12 : i+5]
	typ := binary.BigEndian.Uint16(q[i+1:])
	var rdata [][]byte
	zoneMu.Lock()
	z := zoned
	zoneMu.Unlock()
	rcode := uint16(0)
	switch {
	case z == nil || z.Fail[name]:
		rcode = 2
	case typ == 1:
		for _, ip := range z.A[name] {
			rdata = append(rdata, ip.To4())
		}
	case typ == 28:
		for _, ip := range z.AAAA[name] {
			rdata = append(rdata, ip.To16())
		}
	case typ == 33:
		for _, s := range z.SRV[name] {
			b := binary.BigEndian.AppendUint16(nil, s.Prio)
			b = binary.BigEndian.AppendUint16(b, s.Weight)
			b = binary.BigEndian.AppendUint16(b, s.Port)
			rdata = append(rdata, append(b, dnsName(s.Target)...))
		}
	}
	if z != nil && rcode == 0 && len(z.A[name]) == 0 && len(z.AAAA[name]) == 0 && len(z.SRV[name]) == 0 {
		rcode = 3 // no such name
	}
	r := append([]byte(nil), q[0:2]...)
	r = binary.BigEndian.AppendUint16(r, 0x8580|rcode)
	for _, n := range []int{1, len(rdata), 0, 0} {
		r = binary.BigEndian.AppendUint16(r, uint16(n))
	}
	r = append(r, question...)
	for _, d := range rdata {
		r = append(r, 0xc0, 12)
		r = binary.BigEndian.AppendUint16(r, typ)
		r = binary.BigEndian.AppendUint16(r, 1)
		r = binary.BigEndian.AppendUint32(r, 60)
		r = binary.BigEndian.AppendUint16(r, uint16(len(d)))
		r = append(r, d...)
	}
	return r
}

func addresses(r *dialog.AddressRoute) (all []string) {
	for ; r != nil; r = r.Next {
		host, port, err := net.SplitHostPort(r.Address)
		if err != nil {
			all = append(all, "malformed "+r.Address)
			continue
		}
		all = append(all, strings.TrimSuffix(host, ".")+" "+port)
	}
	return all
}

func TestC26Names(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 12000, Thorough: 200000},
		"random host names, resolved with and without a port and with and without SRV, against an in-process name server with random zones of up to eight SRV records with few "+
			"priorities, addresses of both kinds, missing names and failing servers; non-trivial: 2 or more SRV records were asked for",
		func(t *rapid.T, c *hx.Case) {
			host := gen.Pick(t, "host", "pbx", "sip.example", "a.b.example", "x-1.example", "sip.example.", "1.2.3.4.example")
			name := strings.TrimSuffix(host, ".")
			z := newZone()
			var hosts []string
			for n := rapid.IntRange(0, 2).Draw(t, "a"); n > 0; n-- {
				ip := net.IPv4(10, 0, byte(n), rapid.Byte().Draw(t, "ip"))
				z.A[name] = append(z.A[name], ip)
				hosts = append(hosts, ip.String())
			}
			for n := rapid.IntRange(-1, 1).Draw(t, "aaaa"); n > 0; n-- {
				ip := net.ParseIP("fd00::1")
				ip[14] = rapid.Byte().Draw(t, "ip6")
				z.AAAA[name] = append(z.AAAA[name], ip)
				hosts = append(hosts, ip.String())
			}
			service := "_sip._udp." + name
			var want []srv
			// Records under other names must not be used.
			for _, n := range []string{"_sip._tcp." + name, "_sips._udp." + name, "_stun._udp." + name, name} {
				z.SRV[n] = []srv{{1, 1, 1, "wrong.example"}}
			}
			// Targets resolve too, to something else.
			z.A["wrong.example"] = []net.IP{net.IPv4(10, 9, 9, 9)}
			for i, n := 0, gen.Upto(t, "srvs", 0, 8, 120, 40); i < n; i++ {
				s := srv{uint16(rapid.IntRange(0, 3).Draw(t, "prio")), uint16(rapid.IntRange(0, 3).Draw(t, "weight")), rapid.Uint16Range(1, 65535).Draw(t, "sport"),
					gen.Pick(t, "target", "t"+strconv.Itoa(i)+".example", "t0.example", "pbx", "sip.example")}
				if rapid.Bool().Draw(t, "far") {
					s.Prio *= 20000
				}
				want = append(want, s)
				z.SRV[service] = append(z.SRV[service], s)
			}
			failing := gen.Chance(t, "fails", 8)
			if failing {
				z.Fail[service] = true
				want = nil
			}
			hostFails := gen.Chance(t, "hostfails", 8)
			if hostFails {
				z.Fail[name] = true
				hosts = nil
			}
			useZone(z)
			port := gen.Port().Draw(t, "port")
			wantSRV := rapid.Bool().Draw(t, "wantsrv")
			c.Samplef("%s port %d, SRV %v, zone %v", host, port, wantSRV, *z)
			routes, err := dialog.RouteAddress(host, port, wantSRV)
			got := addresses(routes)
			if wantSRV && port == 0 && len(want) > 0 {
				if len(want) > 1 {
					c.NonTrivial(name + "/" + gen.Dump(want))
				}
				c.Class("srv")
				if err != nil {
					t.Fatalf("error %v, want the targets %v", err, want)
				}
				// Priorities in order; any order within one.
				slices.SortStableFunc(want, func(a, b srv) int { return int(a.Prio) - int(b.Prio) })
				if len(got) != len(want) {
					t.Fatalf("routes %v, want %v", got, want)
				}
				for i := 0; i < len(want); {
					j := i
					var w []string
					for ; j < len(want) && want[j].Prio == want[i].Prio; j++ {
						w = append(w, want[j].Target+" "+strconv.Itoa(int(want[j].Port)))
					}
					g := slices.Clone(got[i:j])
					slices.Sort(w)
					slices.Sort(g)
					if !slices.Equal(w, g) {
						t.Fatalf("routes %v, want %v in order of priority", got, want)
					}
					i = j
				}
				return
			}
			if len(hosts) == 0 {
				c.Class("unresolved")
				if err == nil {
					t.Fatalf("an unresolvable name has routes %v", got)
				}
				if routes != nil {
					t.Fatalf("an error comes with routes %v", got)
				}
				return
			}
			if err != nil && failing && wantSRV && port == 0 {
				return // the name server failed; this is open
			}
			if err != nil {
				t.Fatalf("error %v, want one of %v", err, hosts)
			}
			if port == 0 {
				port = 5060
			}
			c.Class("address")
			if len(got) == 0 {
				t.Fatalf("no routes and no error")
			}
			for _, g := range got {
				a, p, _ := strings.Cut(g, " ")
				if p != strconv.Itoa(int(port)) || !slices.Contains(hosts, a) {
					t.Fatalf("routes %v, want one of %v port %d", got, hosts, port)
				}
			}
		})
}

func TestC26Addresses(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 400000},
		"random IPv4 and IPv6 addresses as hosts, with and without a port; the name server knows none of them and fails; non-trivial: IPv6, or no port",
		func(t *rapid.T, c *hx.Case) {
			useZone(nil)
			var host string
			if rapid.Bool().Draw(t, "v6") {
				if rapid.Bool().Draw(t, "text") {
					host = gen.Host6().Draw(t, "host6")
				} else {
					ip := make(net.IP, 16)
					for i := range ip {
						ip[i] = rapid.Byte().Draw(t, "b")
					}
					host = ip.String()
				}
			} else {
				host = net.IPv4(rapid.Byte().Draw(t, "a"), rapid.Byte().Draw(t, "b"), rapid.Byte().Draw(t, "c"), rapid.Byte().Draw(t, "d")).String()
			}
			port := gen.Port().Draw(t, "port")
			wantSRV := rapid.Bool().Draw(t, "wantsrv")
			if port == 0 || strings.Contains(host, ":") {
				c.NonTrivial(host + strconv.Itoa(int(port)))
			}
			c.Samplef("%s port %d", host, port)
			routes, err := dialog.RouteAddress(host, port, wantSRV)
			if err != nil {
				t.Fatalf("%s: %v", host, err)
			}
			if routes == nil || routes.Next != nil {
				t.Fatalf("%s: routes %v", host, addresses(routes))
			}
			a, err := net.ResolveUDPAddr("udp", routes.Address)
			if err != nil {
				t.Fatalf("%s: route %q: %v", host, routes.Address, err)
			}
			if port == 0 {
				port = 5060
			}
			if !a.IP.Equal(net.ParseIP(host)) || a.Port != int(port) {
				t.Fatalf("%s port %d: route %q", host, port, routes.Address)
			}
		})
}
