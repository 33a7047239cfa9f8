package dlgcheck

import (
	"fmt"

	"github.com/jart/gosip/sip"

	"verif/gen"
)

// complete says what a request has to be after it was completed, given what
// came of it: values that are generated are checked for their form and taken
// from there. Branch and tag are left out of both where they were generated,
// so that it does not matter where in their lists they are.
func complete(via *sip.Via, contact *sip.Addr, old, got *sip.Msg, ids fresh) (want *sip.Msg, err error) {
	want = gen.Clone(old)
	if want.Via == nil {
		want.Via = gen.CloneVia(via)
	}
	if _, ok := param(want.Via.Param, "branch"); !ok {
		if got.Via == nil {
			return nil, fmt.Errorf("no Via")
		}
		b, ok := param(got.Via.Param, "branch")
		if !ok || !branchForm.MatchString(b) {
			return nil, fmt.Errorf("the branch of the Via is %q", b)
		}
		if !ids.add(b) {
			return nil, fmt.Errorf("the branch %q was given twice", b)
		}
		got.Via.Param = without(got.Via.Param, "branch")
	}
	if want.Contact == nil {
		want.Contact = gen.CloneAddr(contact)
	}
	if want.To == nil {
		want.To = &sip.Addr{Uri: gen.CloneURI(want.Request)}
	}
	if want.From == nil {
		want.From = gen.CloneAddr(want.Contact)
		want.From.Uri.Param = nil
	}
	if _, ok := param(want.From.Param, "tag"); !ok {
		if got.From == nil {
			return nil, fmt.Errorf("no From")
		}
		b, ok := param(got.From.Param, "tag")
		if !ok || !tagForm.MatchString(b) {
			return nil, fmt.Errorf("the tag of the From is %q", b)
		}
		if !ids.add(b) {
			return nil, fmt.Errorf("the tag %q was given twice", b)
		}
		got.From.Param = without(got.From.Param, "tag")
	}
	if want.CallID == "" {
		if !callIDForm.MatchString(got.CallID) {
			return nil, fmt.Errorf("Call-ID %q", got.CallID)
		}
		if !ids.add(got.CallID) {
			return nil, fmt.Errorf("the Call-ID %q was given twice", got.CallID)
		}
		want.CallID = got.CallID
	}
	if want.CSeq == 0 {
		if got.CSeq < 1 || got.CSeq > 50000 {
			return nil, fmt.Errorf("CSeq %d", got.CSeq)
		}
		want.CSeq = got.CSeq
	}
	if want.CSeqMethod == "" {
		want.CSeqMethod = want.Method
	}
	if want.MaxForwards == 0 {
		want.MaxForwards = 70
	}
	if want.UserAgent == "" {
		if got.UserAgent == "" {
			return nil, fmt.Errorf("no User-Agent")
		}
		want.UserAgent = got.UserAgent
	}
	return want, nil
}
