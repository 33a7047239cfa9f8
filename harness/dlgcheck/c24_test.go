package dlgcheck

import (
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// strip removes fields of a request at random, so that they have to be filled in.
func strip(t *rapid.T, m *sip.Msg) (n int) {
	clear := func(name string, f func()) {
		if rapid.Bool().Draw(t, "without"+name) {
			f()
			n++
		}
	}
	clear("via", func() { m.Via = nil })
	clear("contact", func() { m.Contact = nil })
	clear("to", func() { m.To = nil })
	clear("from", func() { m.From = nil })
	clear("callid", func() { m.CallID = "" })
	clear("cseq", func() { m.CSeq = 0 })
	clear("cseqmethod", func() { m.CSeqMethod = "" })
	clear("mf", func() { m.MaxForwards = 0 })
	clear("ua", func() { m.UserAgent = "" })
	if m.Via != nil {
		if _, ok := param(m.Via.Param, "branch"); ok {
			clear("branch", func() {
				for _, ok := param(m.Via.Param, "branch"); ok; _, ok = param(m.Via.Param, "branch") {
					m.Via.Param = without(m.Via.Param, "branch")
				}
			})
		}
	}
	return n
}

func TestC24Populate(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 60000, Thorough: 1000000},
		"one to four random requests, each without a random choice of the fields that can be filled in, and some responses, completed one after another for the "+
			"same random Via and Contact; every field compared with what it was or with what it has to be; non-trivial: some request lacks 3 fields or more, none of them all",
		func(t *rapid.T, c *hx.Case) {
			via := gen.Via(1, 1).Draw(t, "ownvia")
			for _, ok := param(via.Param, "branch"); ok; _, ok = param(via.Param, "branch") {
				via.Param = without(via.Param, "branch")
			}
			contact := gen.Addr(1, 1).Draw(t, "owncontact")
			if _, ok := param(contact.Param, "tag"); ok {
				contact.Param = nil
			}
			via0, contact0 := gen.CloneVia(via), gen.CloneAddr(contact)
			ids := fresh{}
			for n := gen.Upto(t, "msgs", 1, 4, 60, 500); n > 0; n-- {
				if gen.Chance(t, "response", 6) {
					m := gen.Msg(gen.MsgOptions{Kind: gen.ResponseMsg, Small: true}).Draw(t, "response")
					strip(t, m)
					before := gen.Dump(m)
					dialog.PopulateMessage(via, contact, m)
					if d := gen.DiffText(before, gen.Dump(m)); d != "" {
						t.Fatalf("completing changes a response:\n%s", d)
					}
					continue
				}
				m := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, Small: true, MinVias: 1}).Draw(t, "request")
				if k := strip(t, m); k >= 3 && k < 9 {
					c.NonTrivial(gen.Dump(m))
				}
				if m.From == nil && m.Contact != nil {
					// The From would be one of several Contacts.
					m.Contact.Next = nil
				}
				old := gen.Clone(m)
				if old.Payload != nil {
					old.Payload = nil
				}
				payload := gen.Dump(m.Payload)
				dialog.PopulateMessage(via, contact, m)
				if d := gen.DiffText(payload, gen.Dump(m.Payload)); d != "" {
					t.Fatalf("completing changes the body:\n%s", d)
				}
				c.Samplef("%s", gen.Dump(old))
				got := gen.Clone(m)
				got.Payload = nil

				want, err := complete(via0, contact0, old, got, ids)
				if err != nil {
					t.Fatalf("%v", err)
				}
				if d := gen.Diff(want, got); d != "" {
					t.Fatalf("the completed request is wrong:\n%s\nrequest:\n%s", d, gen.Dump(old))
				}

				// Nothing is missing any more.
				if m.CSeq != 0 {
					before := gen.Dump(m)
					dialog.PopulateMessage(via, contact, m)
					if d := gen.DiffText(before, gen.Dump(m)); d != "" {
						t.Fatalf("completing a complete request changes it:\n%s", d)
					}
				}
				// The Via and Contact of the message are its own.
				if old.Via == nil && rapid.Bool().Draw(t, "editvia") {
					m.Via.Host, m.Via.Port, m.Via.Transport = "edited.example", 1, "X"
					m.Via.Next = &sip.Via{Host: "next.example"}
				}
				if old.Contact == nil && rapid.Bool().Draw(t, "editcontact") {
					m.Contact.Uri.Host, m.Contact.Uri.Port, m.Contact.Display = "edited.example", 1, "X"
				}
				if old.From == nil && rapid.Bool().Draw(t, "editfrom") {
					m.From.Uri.User, m.From.Display = "edited", "X"
				}
				if d := gen.Diff(via0, via); d != "" {
					t.Fatalf("completing a request changes our own Via:\n%s", d)
				}
				if d := gen.Diff(contact0, contact); d != "" {
					t.Fatalf("completing a request changes our own Contact:\n%s", d)
				}
			}
		})
}
