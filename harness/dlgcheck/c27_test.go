package dlgcheck

import (
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// core is what identifies a request: its transaction, dialog and path.
func core(m *sip.Msg) *sip.Msg {
	return &sip.Msg{Method: m.Method, Request: m.Request, Via: m.Via, From: m.From, To: m.To, CallID: m.CallID, CSeq: m.CSeq,
		CSeqMethod: m.CSeqMethod, Route: m.Route}
}

func reversed(a *sip.Addr) (r *sip.Addr) {
	for ; a != nil; a = a.Next {
		r = &sip.Addr{Uri: a.Uri, Display: a.Display, Param: a.Param, Next: r}
	}
	return r
}

// invites makes an INVITE of ours and a message of the remote side in reply.
func invites(t *rapid.T) (invite, remote *sip.Msg) {
	invite = gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1}).Draw(t, "invite")
	invite.Method, invite.CSeqMethod = "INVITE", "INVITE"
	invite.CSeq %= 1 << 30
	if !gen.Chance(t, "noroute", 3) {
		invite.Route = gen.Addr(1, 3).Draw(t, "route")
	}
	if rapid.Bool().Draw(t, "proxyauth") {
		invite.ProxyAuthorization = "Digest username=\"a\""
	}
	remote = gen.Msg(gen.MsgOptions{Kind: gen.ResponseMsg, Small: true, MinVias: 1}).Draw(t, "remote")
	if gen.Chance(t, "ok", 2) {
		remote.Status = rapid.IntRange(200, 299).Draw(t, "status2xx")
	} else {
		remote.Status = rapid.IntRange(300, 699).Draw(t, "statuserr")
	}
	if remote.Contact == nil {
		remote.Contact = gen.Addr(1, 2).Draw(t, "contact")
	}
	remote.CSeqMethod = "INVITE"
	if !gen.Chance(t, "norr", 3) {
		remote.RecordRoute = gen.Addr(1, 4).Draw(t, "rr")
	}
	if gen.Chance(t, "proper", 2) {
		// A reply as it should be, rather than one unlike the INVITE in everything.
		remote.Via, remote.From, remote.To = gen.CloneVia(invite.Via), gen.CloneAddr(invite.From), gen.CloneAddr(invite.To)
		remote.To.Param = &sip.Param{Name: "tag", Value: "remotetag", Next: remote.To.Param}
		remote.CallID, remote.CSeq = invite.CallID, invite.CSeq
	}
	return invite, remote
}

func TestC27InDialog(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 60000, Thorough: 1000000},
		"ACK, CANCEL and a series of one to four BYEs built, in random order, from a random INVITE and a random response that agree or differ in every field; each compared "+
			"field by field with what it has to repeat, before and after travelling over the wire; non-trivial: 2 or more Record-Routes or Routes",
		func(t *rapid.T, c *hx.Case) {
			invite, remote := invites(t)
			if remote.RecordRoute.Len() > 1 || invite.Route.Len() > 1 {
				c.NonTrivial(gen.Dump(invite) + gen.Dump(remote))
			}
			c.Samplef("INVITE\n%s\nresponse\n%s", gen.Dump(core(invite)), gen.Dump(core(remote)))
			inviteDump, remoteDump := gen.Dump(invite), gen.Dump(remote)
			ok := remote.Status < 300
			rev := reversed(remote.RecordRoute)
			check := func(what string, m, want *sip.Msg) {
				if m.IsResponse() {
					t.Fatalf("%s is a response", what)
				}
				if m.Payload != nil || m.RecordRoute != nil || m.Contact != nil && what != "BYE" {
					t.Fatalf("%s has parts it should not have: %q", what, gen.Format(m))
				}
				if d := gen.Diff(want, core(m)); d != "" {
					t.Fatalf("%s is wrong:\n%s", what, d)
				}
				if gen.Dump(invite) != inviteDump || gen.Dump(remote) != remoteDump {
					t.Fatalf("building %s changes its arguments", what)
				}
				wire := gen.Format(m)
				if gen.Dump(invite) != inviteDump || gen.Dump(remote) != remoteDump {
					t.Fatalf("formatting %s changes what it was built from", what)
				}
				got, err := sip.ParseMsg(append([]byte(nil), wire...))
				if err != nil {
					t.Fatalf("%s does not parse: %v\n%q", what, err, wire)
				}
				if d := gen.Diff(want, core(got)); d != "" {
					t.Fatalf("%s is wrong after travelling:\n%s", what, d)
				}
			}
			lseq := invite.CSeq
			byes := 0
			useSeq := rapid.Bool().Draw(t, "lseq")
			for n := rapid.IntRange(1, 6).Draw(t, "messages"); n > 0; n-- {
				switch rapid.IntRange(0, 2).Draw(t, "kind") {
				case 0:
					ack := dialog.NewAck(remote, invite)
					top := gen.CloneVia(remote.Via)
					top.Next = nil
					want := &sip.Msg{Method: "ACK", Request: invite.Request, Via: top, From: remote.From, To: remote.To, CallID: remote.CallID,
						CSeq: remote.CSeq, CSeqMethod: "ACK", Route: invite.Route}
					if ok {
						want.Request, want.Route = remote.Contact.Uri, rev
					}
					check("ACK", ack, want)
					if ack.Authorization != invite.Authorization || ack.ProxyAuthorization != invite.ProxyAuthorization {
						t.Fatalf("ACK has credentials %q and %q", ack.Authorization, ack.ProxyAuthorization)
					}
					c.Class("ack")
				case 1:
					want := core(invite)
					want.Method, want.CSeqMethod = "CANCEL", "CANCEL"
					check("CANCEL", dialog.NewCancel(invite), want)
					c.Class("cancel")
				case 2:
					want := core(invite)
					want.Method, want.CSeqMethod = "BYE", "BYE"
					want.Request, want.To, want.Route, want.Via = remote.Contact.Uri, remote.To, rev, nil
					var bye *sip.Msg
					if useSeq {
						byes++
						bye = dialog.NewBye(invite, remote, &lseq)
						if lseq != invite.CSeq+byes {
							t.Fatalf("the local CSeq is %d after %d BYEs from %d", lseq, byes, invite.CSeq)
						}
						want.CSeq = lseq
					} else {
						bye = dialog.NewBye(invite, remote, nil)
						want.CSeq = invite.CSeq + 1
					}
					// The Via is for the transport to fill in.
					if bye.Via != nil {
						t.Fatalf("BYE has a Via: %q", gen.Format(bye))
					}
					bye.Via = gen.CloneVia(invite.Via)
					want.Via = invite.Via
					check("BYE", bye, want)
					c.Class("bye")
				}
			}
		})
}

func TestC27NewRequest(t *testing.T) {
	ids := fresh{}
	hx.Run(t, hx.Budget{Quick: 60000, Thorough: 600000},
		"new requests of random methods, to random addresses and from random or no addresses, over random transports: fields compared, the arguments unchanged also "+
			"after the request is edited and formatted, identifiers unlike all earlier ones; non-trivial: the To or From has a display name or parameters",
		func(t *rapid.T, c *hx.Case) {
			tp := &dialog.Transport{Via: gen.Via(1, 1).Draw(t, "via"), Contact: gen.Addr(1, 1).Draw(t, "contact")}
			for _, ok := param(tp.Via.Param, "branch"); ok; _, ok = param(tp.Via.Param, "branch") {
				tp.Via.Param = without(tp.Via.Param, "branch")
			}
			to := gen.Addr(1, 1).Draw(t, "to")
			var from *sip.Addr
			if rapid.Bool().Draw(t, "hasfrom") {
				from = gen.Addr(1, 1).Draw(t, "from")
			}
			for _, a := range []*sip.Addr{tp.Contact, from} {
				if a != nil {
					for _, ok := param(a.Param, "tag"); ok; _, ok = param(a.Param, "tag") {
						a.Param = without(a.Param, "tag")
					}
				}
			}
			method := gen.Method().Draw(t, "method")
			dump := func() string { return gen.Dump(tp.Via) + gen.Dump(tp.Contact) + gen.Dump(to) + gen.Dump(from) }
			before := dump()
			if to.Display != "" || to.Param != nil || from != nil && (from.Display != "" || from.Param != nil) {
				c.NonTrivial(before + method)
			}
			c.Samplef("%s to %s from %s via %s", method, to, from, gen.Dump(tp.Via))
			m := dialog.NewRequest(tp, method, to, from)
			got := core(gen.Clone(m))
			branch, _ := param(got.Via.Param, "branch")
			tag, _ := param(got.From.Param, "tag")
			if !branchForm.MatchString(branch) || !tagForm.MatchString(tag) || !callIDForm.MatchString(got.CallID) {
				t.Fatalf("branch %q, tag %q, Call-ID %q", branch, tag, got.CallID)
			}
			if !ids.add(branch) || !ids.add(tag) || !ids.add(got.CallID) {
				t.Fatalf("identifiers are not new: branch %q, tag %q, Call-ID %q", branch, tag, got.CallID)
			}
			if got.CSeq < 1 || got.CSeq > 50000 {
				t.Fatalf("CSeq %d", got.CSeq)
			}
			want := &sip.Msg{Method: method, Request: to.Uri, Via: tp.Via, From: tp.Contact, To: to, CallID: got.CallID, CSeq: got.CSeq, CSeqMethod: method}
			if from != nil {
				want.From = from
			}
			got.Via.Param = without(got.Via.Param, "branch")
			got.From.Param = without(got.From.Param, "tag")
			if d := gen.Diff(want, got); d != "" {
				t.Fatalf("the new request is wrong:\n%s", d)
			}
			gen.Format(m)
			m.Request.Host, m.Request.Port = "edited", 1
			m.Via.Host, m.Via.Port = "edited", 1
			m.From.Display, m.From.Uri.User = "edited", "edited"
			m.To.Display, m.To.Uri.User = "edited", "edited"
			m.To.Tag()
			if d := gen.DiffText(before, dump()); d != "" {
				t.Fatalf("building or editing a request changes the arguments:\n%s", d)
			}
		})
}
