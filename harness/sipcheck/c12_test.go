package sipcheck

import (
	"strings"
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
	"verif/ref"
)

func TestC12Responses(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 120000, Thorough: 2000000},
		"responses to random requests with any status, compared field by field with the request, then formatted, parsed and matched with it; "+
			"non-trivial: the request has 2 or more Vias or a Record-Route",
		func(t *rapid.T, c *hx.Case) {
			req := gen.Msg(gen.MsgOptions{Kind: gen.RequestMsg, MinVias: 1}).Draw(t, "request")
			// Requests may share nothing, or come from the wire.
			if rapid.Bool().Draw(t, "parsed") {
				m, err := parse(gen.Format(req))
				if err != nil {
					t.Fatalf("%v", err)
				}
				req = m
			}
			status := gen.Status().Draw(t, "status")
			before := gen.Dump(req)
			rsp := dialog.NewResponse(req, status)
			wire := gen.Format(rsp)
			if d := gen.DiffText(before, gen.Dump(req)); d != "" {
				t.Fatalf("building a response changes the request:\n%s", d)
			}
			if req.Via.Next != nil || req.RecordRoute != nil {
				c.NonTrivial(before)
				c.Samplef("%d to %q", status, gen.Format(req))
			}
			check := func(rsp *sip.Msg) {
				if !rsp.IsResponse() || rsp.Status != status {
					t.Fatalf("status %d, want %d", rsp.Status, status)
				}
				if p, ok := ref.Phrases[status]; ok && rsp.Phrase != p || ref.Unregistered(status) && rsp.Phrase != "Unknown Status Code" {
					t.Fatalf("status %d has phrase %q", status, rsp.Phrase)
				}
				want := &sip.Msg{Via: req.Via, From: req.From, To: req.To, CallID: req.CallID, CSeq: req.CSeq, CSeqMethod: req.CSeqMethod, RecordRoute: req.RecordRoute}
				got := &sip.Msg{Via: rsp.Via, From: rsp.From, To: rsp.To, CallID: rsp.CallID, CSeq: rsp.CSeq, CSeqMethod: rsp.CSeqMethod, RecordRoute: rsp.RecordRoute}
				if d := gen.Diff(want, got); d != "" {
					t.Fatalf("response does not mirror the request:\n%s", d)
				}
				if rsp.Route != nil || rsp.Contact != nil || rsp.Payload != nil || rsp.XHeader != nil || rsp.Method != "" || rsp.Request != nil {
					t.Fatalf("response has parts the request did not ask for: %q", gen.Format(rsp))
				}
			}
			check(rsp)
			got, err := parse(wire)
			if err != nil {
				t.Fatalf("response does not parse: %v\n%q", err, wire)
			}
			check(got)
			// As an error, it says what it is.
			if e := (&sip.ResponseError{Msg: rsp}).Error(); !strings.Contains(e, itoa(rsp.Status)) || !strings.Contains(e, rsp.Phrase) {
				t.Fatalf("the error of a %d %q is %q", rsp.Status, rsp.Phrase, e)
			}
			// It matches at the sender, whose own Via is the last one.
			sent := gen.Clone(req)
			sent.Via = sent.Via.Last()
			sent.Method = sent.CSeqMethod
			if sent.Via.Param.Get("branch") != nil && !dialog.ResponseMatch(sent, got) {
				t.Fatalf("response does not match the request\n%q\n%q", gen.Format(sent), wire)
			}
		})
}

func TestC12Phrases(t *testing.T) {
	hx.Exhaustive(t, "the phrase of every status code from -10 to 2000", func(count func(string)) {
		for s := -10; s <= 2000; s++ {
			got := sip.Phrase(s)
			count("status " + itoa(s))
			if want, ok := ref.Phrases[s]; ok && got != want {
				hx.Failf(t, "phrase of %d is %q, not %q", s, got, want)
			} else if !ok && ref.Unregistered(s) && got != "Unknown Status Code" {
				hx.Failf(t, "phrase of %d is %q", s, got)
			} else if got == "" {
				hx.Failf(t, "no phrase for %d", s)
			}
		}
	})
}
