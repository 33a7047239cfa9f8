package dlgcheck

import (
	"flag"
	"fmt"
	"io"
	"log"
	"net"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// diary keeps what is logged, entry by entry.
type diary struct {
	sync.Mutex
	entries []string
}

func (d *diary) Write(b []byte) (int, error) {
	d.Lock()
	defer d.Unlock()
	d.entries = append(d.entries, string(b))
	return len(b), nil
}

func (d *diary) clear() {
	d.Lock()
	defer d.Unlock()
	d.entries = nil
}

// count counts the entries that tell of a datagram, and gives one.
func (d *diary) count(dir string, raw []byte, addr *net.UDPAddr) (n int) {
	d.Lock()
	defer d.Unlock()
	for _, e := range d.entries {
		head, _, _ := strings.Cut(e, addr.String())
		if len(head) < len(e) && strings.Contains(head, dir) && strings.Contains(e, strconv.Itoa(len(raw))) && strings.Contains(e, string(raw)) {
			n++
		}
	}
	return n
}

// diagnose turns the options on or off.
func diagnose(trace, tag bool) {
	flag.Set("trace", strconv.FormatBool(trace))
	flag.Set("timestampTagging", strconv.FormatBool(tag))
}

// untag takes the time stamps out of the topmost Via, and gives the latest one
// and how many there were.
func untag(m *sip.Msg) (usi string, n int) {
	if m.Via == nil {
		return "", 0
	}
	usi, ok := param(m.Via.Param, "usi")
	for ; ok; _, ok = param(m.Via.Param, "usi") {
		m.Via.Param = without(m.Via.Param, "usi")
		n++
	}
	return usi, n
}

// tagProblem tells what is wrong with a time stamp.
func tagProblem(usi string, n int, from, to time.Time) string {
	if n == 0 {
		return "has no time stamp"
	}
	us, err := strconv.ParseInt(usi, 10, 64)
	if err != nil {
		return fmt.Sprintf("has the time stamp %q", usi)
	}
	// The clock may be set at any time, but not far.
	if at := time.UnixMicro(us); at.Before(from.Add(-10*time.Second)) || at.After(to.Add(10*time.Second)) {
		return fmt.Sprintf("has the time stamp %v, between %v and %v", at, from, to)
	}
	return ""
}

func TestC41Transport(t *testing.T) {
	var d diary
	log.SetOutput(&d)
	defer log.SetOutput(io.Discard)
	defer diagnose(false, false)
	hx.Run(t, hx.Budget{Quick: 12000, Thorough: 200000},
		"random messages and junk that a transport sends and receives with and without tracing and time stamps: the same comes out but for the time stamp in the topmost Via, "+
			"which tells the time, and each datagram is logged once, as it is, with its address; non-trivial: a message with both options on",
		func(t *rapid.T, c *hx.Case) {
			diagnose(false, false)
			d.clear()
			tp := transport(t, &sip.Addr{Uri: &sip.URI{Scheme: "sip", User: "me", Host: "127.0.0.1"}}, false)
			done := false
			defer func() {
				if !done {
					abandon(tp)
				}
			}()
			peer := socket("127.0.0.2", 0)
			defer peer.Close()
			laddr, addr := udp(tp.Sock), udp(peer)
			traces := func(what, dir string, raw []byte, want int) {
				if n := d.count(dir, raw, addr); n != want {
					t.Fatalf("%d entries in the log tell of %q, which was %s %d times", n, raw, what, want)
				}
			}
			for n := rapid.IntRange(1, 3).Draw(t, "messages"); n > 0; n-- {
				trace, tag := rapid.Bool().Draw(t, "trace"), rapid.Bool().Draw(t, "tag")
				if gen.Chance(t, "send", 2) {
					m := arriving(t, addr, laddr)
					m.Route = nil
					if m.Status > 0 {
						m.Via = &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: addr.IP.String(), Port: uint16(addr.Port), Param: m.Via.Param, Next: m.Via.Next}
						m.Via.Param = without(m.Via.Param, "received")
						for _, p := range []string{"rport", "received"} {
							for _, ok := param(m.Via.Param, p); ok; _, ok = param(m.Via.Param, p) {
								m.Via.Param = without(m.Via.Param, p)
							}
						}
					} else {
						m.Request.Host, m.Request.Port = addr.IP.String(), uint16(addr.Port)
						m.MaxForwards = max(m.MaxForwards, 2)
						m.CSeq, m.CSeqMethod, m.CallID = max(m.CSeq, 1), m.Method, "x"
						m.From, m.To = gen.Addr(1, 1).Draw(t, "from"), gen.Addr(1, 1).Draw(t, "to")
						m.From.Param = &sip.Param{Name: "tag", Value: "a"}
						if m.Contact == nil {
							m.Contact = gen.Addr(1, 1).Draw(t, "contact")
						}
						if _, ok := param(m.Via.Param, "branch"); !ok {
							m.Via.Param = &sip.Param{Name: "branch", Value: "z9hG4bKx", Next: m.Via.Param}
						}
					}
					untag(m)
					if len(gen.Format(gen.Clone(m))) > 60000 {
						continue
					}
					sent := func() (*sip.Msg, []byte) {
						if err := tp.Send(gen.Clone(m)); err != nil {
							t.Fatalf("cannot send: %v\n%s", err, gen.Dump(m))
						}
						got := emitted(tp.Sock, peer)
						if len(got) != 1 {
							t.Fatalf("%d datagrams were sent", len(got))
						}
						p, err := sip.ParseMsg(append([]byte{}, got[0]...))
						if err != nil {
							t.Fatalf("what was sent does not parse: %v\n%q", err, got[0])
						}
						return p, got[0]
					}
					plain, raw := sent()
					traces("sent untraced", "send", raw, 0)
					diagnose(trace, tag)
					start := time.Now()
					seen, raw := sent()
					diagnose(false, false)
					if trace {
						traces("sent", "send", raw, 1)
					} else {
						traces("sent untraced", "send", raw, 0)
					}
					usi, k := untag(seen)
					if tag {
						if problem := tagProblem(usi, k, start, time.Now()); problem != "" || k != 1 {
							t.Fatalf("the message %s (%d time stamps):\n%q", problem, k, raw)
						}
					} else if k > 0 {
						t.Fatalf("there is a time stamp:\n%q", raw)
					}
					if d := gen.Diff(plain, seen); d != "" {
						t.Fatalf("with trace %v and time stamps %v, something else is sent:\n%s\n%q", trace, tag, d, raw)
					}
					c.Class("sent")
					if trace && tag {
						c.NonTrivial(string(raw))
					}
					c.Samplef("sent with trace %v, tag %v: %q", trace, tag, raw)
					d.clear()
					continue
				}
				m := arriving(t, laddr, addr)
				untag(m)
				raw := gen.Format(m)
				if rapid.Bool().Draw(t, "isjunk") {
					raw, _ = junk(t, raw)
				}
				if len(raw) > 60000 || strings.Contains(string(raw), "usi") {
					continue
				}
				plain := deliveries(t, tp, func() { peer.WriteTo(raw, laddr) })
				traces("received untraced", "recv", raw, 0)
				d.clear()
				diagnose(trace, tag)
				start := time.Now()
				seen := deliveries(t, tp, func() { peer.WriteTo(raw, laddr) })
				diagnose(false, false)
				if trace {
					traces("received", "recv", raw, 1)
				} else {
					traces("received untraced", "recv", raw, 0)
				}
				if len(plain) != len(seen) {
					t.Fatalf("with trace %v and time stamps %v, %d messages are delivered instead of %d for\n%q", trace, tag, len(seen), len(plain), raw)
				}
				for i, g := range seen {
					usi, k := untag(g)
					if tag {
						if problem := tagProblem(usi, k, start, time.Now()); problem != "" || k != 1 {
							t.Fatalf("what is delivered %s (%d time stamps), for\n%q", problem, k, raw)
						}
					} else if k > 0 {
						t.Fatalf("there is a time stamp in what is delivered for\n%q", raw)
					}
					if d := gen.Diff(plain[i], g); d != "" {
						t.Fatalf("with trace %v and time stamps %v, something else is delivered:\n%s\n%q", trace, tag, d, raw)
					}
				}
				c.Class(fmt.Sprintf("delivered %d", len(seen)))
				if trace && tag {
					c.NonTrivial(string(raw))
				}
				c.Samplef("received with trace %v, tag %v: %q", trace, tag, raw)
				d.clear()
			}
			closed(t, tp)
			done = true
		})
}

func TestC41Calls(t *testing.T) {
	useNameServer()
	var d diary
	log.SetOutput(&d)
	defer log.SetOutput(io.Discard)
	diagnose(true, true)
	defer diagnose(false, false)
	stamped = true
	defer func() { stamped = false }()
	hx.Run(t, hx.Budget{Quick: 8000, Thorough: 400000},
		"histories of up to 10 steps of a call with tracing and time stamps on, compared with the same model as without; whatever the call sends has a time stamp and is in the log once; "+
			"non-trivial: 3 or more steps, one of them a final response",
		func(t *rapid.T, c *hx.Case) {
			d.clear()
			start := time.Now()
			s := drive(t, c, 10, weights{provisional: 4, answer: 3, repeat: 2, refuse: 1, redirect: 1, noContact: 1, mismatch: 1, request: 4, hangup: 2, garbage: 1})
			if s.finals > 0 && len(s.log) > 12 {
				c.NonTrivial(s.history())
			}
			for _, p := range s.seen {
				if problem := tagProblem(p.usi, p.stamps, start, p.when); problem != "" {
					s.fatalf("what the call sent %s: %q", problem, p.raw)
				}
				if n := d.count("send", p.raw, udp(s.socks[p.at])); n != 1 {
					s.fatalf("%d entries in the log tell of %q", n, p.raw)
				}
			}
		})
}
