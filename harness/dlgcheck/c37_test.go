package dlgcheck

import (
	"bytes"
	"fmt"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// transaction says what the peer does about something that is sent to it again
// and again.
type transaction struct {
	At    int    // the copy that it answers; 0: none
	With  int    // status, or 0 for the ACK of a 200
	Wrong int    // the copy after which something comes that is no answer; 0: none
	Kind  string // of what comes then
}

// calls is what happens in a call.
type persist struct {
	Invite   transaction
	ReInvite []transaction
	Bye      transaction
	Hangup   string // who hangs up
}

func someTransaction(t *rapid.T, resends int, with ...int) (x transaction) {
	if !gen.Chance(t, "never", 4) {
		x.At = rapid.IntRange(1, resends+1).Draw(t, "at")
	}
	x.With = rapid.SampledFrom(with).Draw(t, "with")
	if gen.Chance(t, "wrong", 2) {
		x.Wrong = rapid.IntRange(1, resends+1).Draw(t, "wrongat")
		if x.Wrong >= x.At && x.At > 0 {
			x.Wrong = x.At - 1
		}
		x.Kind = gen.Pick(t, "kind", "branch", "cseq", "method", "junk", "options", "call")
	}
	return x
}

func somePersist(t *rapid.T, resends int) (p persist) {
	p.Invite = someTransaction(t, resends, 100, 180, 183, 199, 200, 200, 200, 200, 200, 486, 503)
	if p.Invite.At == 0 && rapid.Bool().Draw(t, "atall") {
		p.Invite.At = rapid.IntRange(1, resends+1).Draw(t, "at")
	}
	for i := rapid.IntRange(0, 2).Draw(t, "reinvites"); i > 0; i-- {
		p.ReInvite = append(p.ReInvite, someTransaction(t, resends, 0))
	}
	p.Bye = someTransaction(t, resends, 200, 200, 100, 481)
	p.Hangup = gen.Pick(t, "hangup", "us", "us", "us", "peer")
	return p
}

// run makes a call that goes by the plan. It gives its history and what was
// wrong.
func (p persist) run(n int, interval time.Duration, resends int, limit time.Duration) (history, problem string) {
	socks := peers(make([]share, 1))
	a := udp(socks[0])
	t0 := time.Now()
	m := &sip.Msg{VersionMajor: 2, Method: "INVITE", Request: &sip.URI{Scheme: "sip", User: "bob", Host: a.IP.String(), Port: uint16(a.Port)},
		CallID: fmt.Sprintf("persist-%d-%d", n, t0.UnixNano())}
	k := newCall(nil, m, socks)
	k.untold = true
	k.id = m.CallID
	k.patience = limit
	defer k.leave()
	k.fail = func(msg string) { panic(unsure{msg}) }
	defer func() {
		history = strings.Join(k.log, "\n")
		if e := recover(); e != nil {
			u, ok := e.(unsure)
			if !ok {
				panic(e)
			}
			problem = u.msg
		}
	}()
	var invite *sip.Msg
	seq := 0

	// wrong sends something that is no answer to m.
	wrong := func(m *sip.Msg, kind string) {
		r := &sip.Msg{VersionMajor: 2, Status: 200, Via: gen.CloneVia(m.Via), From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq, CSeqMethod: m.CSeqMethod,
			Contact: &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: a.IP.String(), Port: uint16(a.Port)}}}
		if m.Status > 0 {
			// An ACK that is not for this response.
			r = &sip.Msg{VersionMajor: 2, Method: "ACK", CSeqMethod: "ACK", Request: invite.Contact.Uri, Via: gen.CloneVia(m.Via), From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq, MaxForwards: 70}
		}
		switch kind {
		case "branch":
			if m.Status > 0 {
				r.CSeq += 2
			} else {
				r.Via.Param = &sip.Param{Name: "branch", Value: branchOf(m) + "0"}
			}
		case "cseq":
			r.CSeq++
		case "method":
			if m.Status > 0 {
				r.CSeq--
			} else {
				r.CSeqMethod = "INFO"
			}
		case "junk":
			k.send([]byte("SIP/2.0 200 OK\r\n\r\n"))
			return
		case "options":
			k.cseq = seq
			k.ping()
			return
		case "call":
			r.CallID = "other-" + r.CallID
		}
		k.sendMsg(r)
	}
	// go through the copies of something
	through := func(what string, x transaction, from time.Time, is func(p packet) bool, answer func(m *sip.Msg)) *sip.Msg {
		count := resends + 1
		if x.At > 0 {
			count = x.At
		}
		var first packet
		for i := 0; i < count; i++ {
			c := k.await(fmt.Sprintf("copy %d of %s", i+1, what), 1, is)[0]
			if i == 0 {
				first = c
				k.local = c.from
			}
			if !bytes.Equal(c.raw, first.raw) {
				k.fatalf("copy %d of %s differs:\n%q\n%q", i+1, what, first.raw, c.raw)
			}
			after := c.when.Sub(from)
			if after < time.Duration(i)*interval {
				k.fatalf("copy %d of %s came after only %v, at an interval of %v", i+1, what, after, interval)
			}
			if interval >= 20*time.Millisecond && after > time.Duration(i)*interval*7/5+30*time.Millisecond {
				k.fatalf("copy %d of %s came after %v, at an interval of %v", i+1, what, after, interval)
			}
			if i+1 == x.Wrong {
				wrong(c.msg, x.Kind)
			}
		}
		if x.At > 0 {
			answer(first.msg)
		}
		return first.msg
	}
	// watch sees that there are no more copies. Some may have been sent before
	// the answer was seen, which it was when it was reported.
	watch := func(what string, seen int, is func(p packet) bool) {
		for {
			if _, ok := k.take(is); !ok {
				break
			}
			if seen++; seen > resends+1 {
				k.fatalf("there are %d copies of %s, want %d", seen, what, resends+1)
			}
		}
		k.wait(interval*5/2, func() bool { return false })
		if c, ok := k.take(is); ok {
			k.fatalf("%s was sent again after it was answered: %q", what, c.raw)
		}
	}
	respond := func(to *sip.Msg, status int) *sip.Msg {
		r := &sip.Msg{VersionMajor: 2, Status: status, Via: to.Via, From: to.From, To: gen.CloneAddr(to.To), CallID: to.CallID, CSeq: to.CSeq, CSeqMethod: to.CSeqMethod}
		if to.Method == "INVITE" && status > 100 {
			r.To.Param = &sip.Param{Name: "tag", Value: "t"}
		}
		if to.Method == "INVITE" && status == 200 {
			r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: a.IP.String(), Port: uint16(a.Port)}}
		}
		k.sendMsg(r)
		return r
	}
	givenUp := func(what string, is func(p packet) bool) {
		k.reports("giving up", event{err: anError})
		k.must("the end of the call", func() bool { return k.ended })
		k.flush()
		if c, ok := k.take(is); ok {
			k.fatalf("%s was sent more than %d times: %q", what, resends+1, c.raw)
		}
		k.over("giving up")
		k.quiet("giving up")
	}
	isInvite, isBye, isAck := isRequest("INVITE"), isRequest("BYE"), isRequest("ACK")

	// The INVITE.
	invite = through("the INVITE", p.Invite, t0, isInvite, func(m *sip.Msg) { respond(m, p.Invite.With) })
	if p.Invite.At == 0 {
		givenUp("the INVITE", isInvite)
		return
	}
	state := -1
	switch p.Invite.With {
	case 100:
		state = 0
	case 180, 183:
		state = 1
	case 200:
		state = 2
	}
	if state >= 0 {
		k.reports("the answer", event{state: state})
	}
	if p.Invite.With > 200 {
		k.reports("the answer", event{err: anError})
		k.await("the ACK", 1, isAck)
		k.must("the end of the call", func() bool { return k.ended })
		k.flush()
		watch("the INVITE", p.Invite.At, isInvite)
		k.over("a refusal")
		k.quiet("a refusal")
		return
	}
	if p.Invite.With == 200 {
		k.await("the ACK", 1, isAck)
	}
	k.ping()
	watch("the INVITE", p.Invite.At, isInvite)
	if p.Invite.With < 200 {
		respond(invite, 200)
		k.await("the ACK", 1, isAck)
		k.reports("the 200", event{state: 2})
	}
	k.quiet("the answer")

	// Re-INVITEs.
	for i, x := range p.ReInvite {
		seq = 100 + 10*i
		branch := fmt.Sprintf("z9hG4bKre%d", i)
		re := &sip.Msg{VersionMajor: 2, Method: "INVITE", CSeqMethod: "INVITE", Request: invite.Contact.Uri, Via: &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "peer",
			Param: &sip.Param{Name: "branch", Value: branch}}, From: invite.To, To: invite.From, CallID: k.id, CSeq: seq, MaxForwards: 70}
		is := func(p packet) bool { return p.msg != nil && p.msg.Status == 200 && branchOf(p.msg) == branch }
		from := time.Now()
		k.sendMsg(re)
		through("the 200 to a re-INVITE", x, from, is, func(m *sip.Msg) {
			ack := gen.Clone(re)
			ack.Method, ack.CSeqMethod = "ACK", "ACK"
			ack.Via.Param.Value += "ack"
			k.sendMsg(ack)
		})
		if x.At == 0 {
			k.wait(interval*5/2, func() bool { return false })
			if c, ok := k.take(is); ok {
				k.fatalf("the 200 to a re-INVITE was sent more than %d times: %q", resends+1, c.raw)
			}
			givenUp("the 200 to a re-INVITE", is)
			return
		}
		k.cseq = seq
		k.ping()
		watch("the 200 to a re-INVITE", x.At, is)
		k.quiet("an acknowledged re-INVITE")
	}

	// The BYE.
	if p.Hangup == "peer" {
		bye := &sip.Msg{VersionMajor: 2, Method: "BYE", CSeqMethod: "BYE", Request: invite.Contact.Uri, Via: &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "peer",
			Param: &sip.Param{Name: "branch", Value: "z9hG4bKbye"}}, From: invite.To, To: invite.From, CallID: k.id, CSeq: 1000, MaxForwards: 70}
		k.sendMsg(bye)
		k.await("the answer to the BYE", 1, func(p packet) bool { return p.msg != nil && p.msg.Status == 200 })
		k.reports("the BYE", event{state: 3})
		k.over("the BYE")
		k.quiet("the BYE")
		return
	}
	from := time.Now()
	k.dl.Hangup <- true
	bye := through("the BYE", p.Bye, from, isBye, func(m *sip.Msg) { respond(m, p.Bye.With) })
	if p.Bye.At == 0 {
		givenUp("the BYE", isBye)
		return
	}
	if p.Bye.With == 100 {
		k.ping()
		watch("the BYE", p.Bye.At, isBye)
		respond(bye, 200)
	}
	if p.Bye.With > 200 {
		k.reports("the answer to the BYE", event{err: anError})
	} else {
		k.reports("the answer to the BYE", event{state: 3})
	}
	k.must("the end of the call", func() bool { return k.ended })
	k.flush()
	watch("the BYE", p.Bye.At, isBye)
	k.over("the BYE")
	k.quiet("the BYE")
	return
}

func TestC37Persist(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 800, Thorough: 20000},
		"24 calls at a time, with a random interval and count of retransmissions: the INVITE, the 200s to re-INVITEs and the BYE are answered at a random copy or never, some after something that looks "+
			"like an answer but is none; number, content and times of the copies are checked, and that there are none after the answer; a call that fails is tried again with longer intervals; "+
			"non-trivial: every call that has a copy besides the first",
		func(t *rapid.T, c *hx.Case) {
			resends := rapid.IntRange(0, 4).Draw(t, "resends")
			interval := time.Duration(rapid.SampledFrom([]int{4, 10, 20, 30, 40, 50}).Draw(t, "interval")) * time.Millisecond
			if gen.Chance(t, "many", 8) {
				resends, interval = rapid.IntRange(5, 30).Draw(t, "manyresends"), 4*time.Millisecond
			}
			plans := rapid.Custom(func(t *rapid.T) []persist {
				n := rapid.IntRange(1, 24).Draw(t, "calls")
				var ps []persist
				for i := 0; i < n; i++ {
					ps = append(ps, somePersist(t, resends))
				}
				return ps
			}).Draw(t, "plans")
			setLoose(false)
			setTimers(interval, resends)
			histories, problems := make([]string, len(plans)), make([]string, len(plans))
			var wg sync.WaitGroup
			for i, p := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					histories[i], problems[i] = p.run(i, interval, resends, 3*time.Second+time.Duration(resends)*interval)
				}()
			}
			wg.Wait()
			for i, p := range plans {
				for _, longer := range []time.Duration{5, 20} {
					if problems[i] == "" {
						break
					}
					c.Class("tried again")
					long := min(longer*interval, 600*time.Millisecond)
					setTimers(long, resends)
					limit := patience
					if longer < 20 {
						limit = 4 * time.Second
					}
					histories[i], problems[i] = p.run(i, long, resends, limit)
				}
				if problems[i] != "" {
					t.Fatalf("%+v, %d resends at %v: %s", p, resends, interval, problems[i])
				}
				if p.Invite.At != 1 || len(p.ReInvite) > 0 && p.ReInvite[0].At != 1 || p.Bye.At != 1 {
					c.NonTrivial(fmt.Sprintf("%d %v %+v", resends, interval, p))
				}
				c.Class(fmt.Sprintf("INVITE answered %v", p.Invite.At > 0), fmt.Sprintf("%d re-INVITEs", len(p.ReInvite)))
			}
			c.Samplef("%d resends at %v: %+v\n%s", resends, interval, plans[0], histories[0])
		})
}
