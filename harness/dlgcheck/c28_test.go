package dlgcheck

import (
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func lastVia(v *sip.Via) *sip.Via {
	for v != nil && v.Next != nil {
		v = v.Next
	}
	return v
}

func samePlace(a, b *sip.Via) bool {
	return a != nil && b != nil && a.Host == b.Host && a.Port == b.Port
}

func sameBranch(a, b *sip.Via) bool {
	x, okx := param(a.Param, "branch")
	y, oky := param(b.Param, "branch")
	return okx && oky && x == y
}

// oneBranch leaves each Via at most one branch, so that it is clear which counts.
func oneBranch(v *sip.Via) {
	for ; v != nil; v = v.Next {
		b, ok := param(v.Param, "branch")
		if !ok {
			continue
		}
		for ; ok; _, ok = param(v.Param, "branch") {
			v.Param = without(v.Param, "branch")
		}
		v.Param = &sip.Param{Name: "branch", Value: b, Next: v.Param}
	}
}

// proxied puts Vias in front, as proxies do.
func proxied(t *rapid.T, m *sip.Msg) {
	vias := gen.Via(0, 2).Draw(t, "proxies")
	oneBranch(vias)
	if vias != nil {
		lastVia(vias).Next = m.Via
		m.Via = vias
	}
}

func travel(t *rapid.T, m *sip.Msg) *sip.Msg {
	wire := gen.Format(m)
	got, err := sip.ParseMsg(wire)
	if err != nil {
		t.Fatalf("the message does not parse: %v\n%q", err, wire)
	}
	return got
}

func TestC28Response(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 80000, Thorough: 1500000},
		"a random request travels over the wire, through up to two proxies, is answered, and the answer travels back; it must match; then up to two random fields of it are "+
			"changed, to values that are near or equal to the old ones, and the verdict is compared with a model; non-trivial: something was changed",
		func(t *rapid.T, c *hx.Case) {
			req := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1, NoSDP: true}).Draw(t, "request")
			req.Via.Next = nil
			if req.CSeqMethod != req.Method {
				req.CSeqMethod = req.Method
			}
			if !gen.Chance(t, "nobranch", 8) {
				req.Via.Param = &sip.Param{Name: "branch", Value: gen.Pick(t, "branch", "z9hG4bK-1", "z9hG4bKa", "z9hG4bKA", "x", "y\"z"), Next: req.Via.Param}
			}
			oneBranch(req.Via)
			seen := gen.Clone(req)
			proxied(t, seen)
			seen = travel(t, seen)
			if rapid.Bool().Draw(t, "nat") {
				lastVia(seen.Via).Param = &sip.Param{Name: "received", Value: "10.1.1.1", Next: &sip.Param{Name: "rport", Value: "9", Next: lastVia(seen.Via).Param}}
			}
			rsp := dialog.NewResponse(seen, gen.Status().Draw(t, "status"))
			if rapid.Bool().Draw(t, "unproxied") {
				rsp.Via = lastVia(rsp.Via)
			}
			rsp = travel(t, rsp)
			_, hasBranch := param(req.Via.Param, "branch")
			if got := dialog.ResponseMatch(req, rsp); got != hasBranch {
				t.Fatalf("the response to a request matches it: %v\nrequest %q\nresponse %q", got, gen.Format(req), gen.Format(rsp))
			}
			other := gen.Msg(gen.MsgOptions{Kind: gen.ResponseMsg, Small: true, NoSDP: true, MinVias: 1}).Draw(t, "other")
			for n := rapid.IntRange(0, 2).Draw(t, "changes"); n > 0; n-- {
				v := lastVia(rsp.Via)
				switch rapid.IntRange(0, 12).Draw(t, "change") {
				case 0:
					rsp.CSeq += rapid.IntRange(-1, 1).Draw(t, "d")
				case 1:
					rsp.CSeqMethod = gen.Method().Draw(t, "m")
				case 2:
					v.Port += uint16(rapid.IntRange(0, 1).Draw(t, "d"))
				case 3:
					v.Host = gen.Pick(t, "h", v.Host, v.Host+"x", "10.1.1.1", "edited.example")
				case 4:
					v.Param = without(v.Param, "branch")
					v.Param = &sip.Param{Name: "branch", Value: gen.Pick(t, "b2", "z9hG4bK-1", "z9hG4bK-2", "z9hG4bKA", "z9hG4bKa", "", "x"), Next: v.Param}
				case 5:
					v.Param = without(v.Param, "branch")
				case 6:
					rsp.Status = 0
					rsp.Method, rsp.Request = req.Method, req.Request
				case 7:
					rsp.CallID = other.CallID // does not count
				case 8:
					rsp.From, rsp.To = other.From, other.To // nor do these
				case 9:
					// Another Via at the end.
					last := gen.Via(1, 1).Draw(t, "last")
					oneBranch(last)
					v.Next = last
				case 10:
					rsp.Via = nil
				case 11:
					v.Transport, v.Protocol, v.Version = "TCP", "X", "3" // does not count
				case 12:
					rsp.Via = &sip.Via{Host: "front.example", Next: rsp.Via} // nor does this
				}
				if rsp.Via == nil {
					break
				}
				c.NonTrivial(gen.Dump(req) + gen.Dump(rsp))
			}
			want := rsp.Status > 0 && rsp.CSeq == req.CSeq && rsp.CSeqMethod == req.Method && rsp.Via != nil &&
				samePlace(lastVia(rsp.Via), req.Via) && sameBranch(lastVia(rsp.Via), req.Via)
			if want {
				c.Class("match")
			} else {
				c.Class("mismatch")
			}
			c.Samplef("match %v: %q and %q", want, gen.Format(req), gen.Format(rsp))
			before := gen.Dump(req) + gen.Dump(rsp)
			if got := dialog.ResponseMatch(req, rsp); got != want {
				t.Fatalf("match %v, want %v\nrequest\n%s\nresponse\n%s", got, want, gen.Dump(req), gen.Dump(rsp))
			}
			if gen.Dump(req)+gen.Dump(rsp) != before {
				t.Fatalf("matching changes a message")
			}
		})
}

func TestC28Ack(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 80000, Thorough: 1500000},
		"the ACK of the response to a random INVITE travels over the wire, through up to two proxies, and must match; then up to two random fields are changed "+
			"and the verdict is compared with a model; non-trivial: something was changed",
		func(t *rapid.T, c *hx.Case) {
			invite := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1, NoSDP: true}).Draw(t, "invite")
			invite.Method, invite.CSeqMethod = "INVITE", "INVITE"
			invite.Via.Next = nil
			oneBranch(invite.Via)
			seen := travel(t, invite)
			ok := dialog.NewResponse(seen, rapid.IntRange(200, 699).Draw(t, "status"))
			ok.Contact = gen.Addr(1, 1).Draw(t, "contact")
			ack := dialog.NewAck(travel(t, ok), invite)
			if rapid.Bool().Draw(t, "newbranch") {
				ack.Via.Param = without(ack.Via.Param, "branch")
				ack.Via.Param = &sip.Param{Name: "branch", Value: "z9hG4bK-new", Next: ack.Via.Param}
			}
			proxied(t, ack)
			ack = travel(t, ack)
			if !dialog.AckMatch(ok, ack) {
				t.Fatalf("the ACK does not match\nresponse %q\nACK %q", gen.Format(ok), gen.Format(ack))
			}
			other := gen.Msg(gen.MsgOptions{Kind: gen.ResponseMsg, Small: true, NoSDP: true, MinVias: 1}).Draw(t, "other")
			for n := rapid.IntRange(0, 2).Draw(t, "changes"); n > 0; n-- {
				v := lastVia(ack.Via)
				switch rapid.IntRange(0, 9).Draw(t, "change") {
				case 0:
					ack.CSeq += rapid.IntRange(-1, 1).Draw(t, "d")
				case 1:
					ack.Method = gen.Method().Draw(t, "m")
				case 2:
					ack.CSeqMethod = gen.Method().Draw(t, "cm")
				case 3:
					v.Port += uint16(rapid.IntRange(0, 1).Draw(t, "d"))
				case 4:
					v.Host = gen.Pick(t, "h", v.Host, v.Host+"x", "10.1.1.1", "edited.example")
				case 5:
					ack.Status = 200
				case 6:
					v.Next = gen.Via(1, 1).Draw(t, "last")
				case 7:
					ack.CallID, ack.From, ack.To = other.CallID, other.From, other.To // does not count
				case 8:
					ack.Via = &sip.Via{Host: "front.example", Next: ack.Via} // nor does this
				case 9:
					ack.Via = nil
				}
				if ack.Via == nil {
					break
				}
				c.NonTrivial(gen.Dump(ok) + gen.Dump(ack))
			}
			want := ack.Status == 0 && ack.Method == "ACK" && ack.CSeqMethod == "ACK" && ack.CSeq == ok.CSeq &&
				samePlace(lastVia(ack.Via), ok.Via)
			if want {
				c.Class("match")
			} else {
				c.Class("mismatch")
			}
			c.Samplef("match %v: %q and %q", want, gen.Format(ok), gen.Format(ack))
			if got := dialog.AckMatch(ok, ack); got != want {
				t.Fatalf("match %v, want %v\nresponse\n%s\nACK\n%s", got, want, gen.Dump(ok), gen.Dump(ack))
			}
		})
}
