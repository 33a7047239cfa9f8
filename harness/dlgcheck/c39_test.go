package dlgcheck

import (
	"fmt"
	"strconv"
	"strings"
	"sync"
	"testing"

	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/util"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// spread notes which values the digits of identifiers take, alone and next to each other.
type spread struct {
	n    int
	seen map[string]bool
}

// add notes the digits of an identifier; fixed digits are marked by '-' in the mask.
func (s *spread) add(id, mask string) {
	if s.seen == nil {
		s.seen = map[string]bool{}
	}
	s.n++
	prev := -1
	for i := range id {
		if mask[i] == '-' {
			continue
		}
		s.seen[fmt.Sprintf("%d=%c", i, id[i])] = true
		if prev >= 0 {
			s.seen[fmt.Sprintf("%d=%c,%d=%c", prev, id[prev], i, id[i])] = true
		}
		prev = i
	}
}

// missing gives a digit, or pair of neighbouring digits, that never occurred.
func (s *spread) missing(mask string) string {
	const hex = "0123456789abcdef"
	prev := -1
	for i := range mask {
		if mask[i] == '-' {
			continue
		}
		for _, a := range hex {
			if k := fmt.Sprintf("%d=%c", i, a); !s.seen[k] {
				return k
			}
			for _, b := range hex {
				if prev < 0 {
					break
				}
				if k := fmt.Sprintf("%d=%c,%d=%c", prev, b, i, a); !s.seen[k] {
					return k
				}
			}
		}
		prev = i
	}
	return ""
}

const (
	tagMask    = "xxxxxxxxxxxx"
	branchMask = "xxxxxxxxxxxx" // after the prefix
	callIDMask = "xxxxxxxx-xxxx--xxx--xxx-xxxxxxxxxxxx"
)

func TestC39Identifiers(t *testing.T) {
	ids := fresh{}
	var tags, branches, callIDs spread
	var cseqs, origins []int
	hx.Run(t, hx.Budget{Quick: 1200, Thorough: 8000},
		"batches of identifiers made by one to eight goroutines at once: the form of each, no repetition among 60000 in a process, every random digit and pair of "+
			"neighbouring digits taking all of its values, and each identifier surviving the wire; non-trivial: made by 2 goroutines or more",
		func(t *rapid.T, c *hx.Case) {
			type batch struct {
				tags, branches, callIDs, origins []string
				cseqs                            []int
			}
			n := rapid.IntRange(1, 8).Draw(t, "goroutines")
			k := rapid.IntRange(1, 40).Draw(t, "each")
			all := make([]batch, n)
			start := make(chan bool)
			var wg sync.WaitGroup
			for i := range all {
				wg.Add(1)
				go func(b *batch) {
					defer wg.Done()
					<-start
					for j := 0; j < k; j++ {
						b.tags = append(b.tags, util.GenerateTag())
						b.branches = append(b.branches, util.GenerateBranch())
						b.callIDs = append(b.callIDs, util.GenerateCallID())
						b.origins = append(b.origins, util.GenerateOriginID())
						b.cseqs = append(b.cseqs, util.GenerateCSeq())
						a := (&sip.Addr{Uri: &sip.URI{Host: "a"}}).Tag()
						v := (&sip.Via{Host: "a"}).Branch()
						tag, _ := param(a.Param, "tag")
						br, _ := param(v.Param, "branch")
						b.tags = append(b.tags, tag)
						b.branches = append(b.branches, br)
					}
				}(&all[i])
			}
			close(start)
			wg.Wait()
			if n > 1 {
				c.NonTrivial(all[0].callIDs[0])
			}
			c.Samplef("%d x %d: %v %v %v %v %v", n, k, all[0].tags[0], all[0].branches[0], all[0].callIDs[0], all[0].origins[0], all[0].cseqs[0])
			if len(ids) > 60000 {
				clear(ids) // keeps accidental repetition of 48-bit numbers out of long runs
			}
			for _, b := range all {
				for _, s := range b.tags {
					if !tagForm.MatchString(s) {
						t.Fatalf("tag %q", s)
					}
					if !ids.add(s) {
						t.Fatalf("tag %q was made twice", s)
					}
					tags.add(s, tagMask)
				}
				for _, s := range b.branches {
					if !branchForm.MatchString(s) {
						t.Fatalf("branch %q", s)
					}
					if !ids.add(s) {
						t.Fatalf("branch %q was made twice", s)
					}
					branches.add(s[len(s)-12:], branchMask)
				}
				for _, s := range b.callIDs {
					if !callIDForm.MatchString(s) {
						t.Fatalf("Call-ID %q", s)
					}
					if !ids.add(s) {
						t.Fatalf("Call-ID %q was made twice", s)
					}
					callIDs.add(s, callIDMask)
				}
				for _, s := range b.origins {
					o, err := strconv.ParseUint(s, 10, 32)
					if err != nil || strconv.FormatUint(o, 10) != s {
						t.Fatalf("origin id %q", s)
					}
					origins = append(origins, int(o))
				}
				for _, q := range b.cseqs {
					if q < 1 || q >= 50000 {
						t.Fatalf("CSeq %d", q)
					}
					cseqs = append(cseqs, q)
				}
				for j := 0; j < 300; j++ { // Zero would be one in 50000.
					if q := util.GenerateCSeq(); q < 1 || q >= 50000 {
						t.Fatalf("CSeq %d", q)
					}
				}
			}
			// One of them goes over the wire.
			b := all[0]
			m := &sip.Msg{VersionMajor: 2, Method: "INVITE", Request: &sip.URI{Scheme: "sip", Host: "h"}, CallID: b.callIDs[0], CSeq: b.cseqs[0], CSeqMethod: "INVITE",
				Via:         &sip.Via{Protocol: "SIP", Version: "2.0", Transport: "UDP", Host: "h", Param: &sip.Param{Name: "branch", Value: b.branches[0]}},
				From:        &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h"}, Param: &sip.Param{Name: "tag", Value: b.tags[0]}},
				To:          &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "h"}},
				MaxForwards: 70,
				Payload: &sdp.SDP{Addr: "1.2.3.4", Origin: sdp.Origin{User: "-", ID: b.origins[0], Version: b.origins[0], Addr: "1.2.3.4"},
					Audio: &sdp.Media{Proto: "RTP/AVP", Port: 9, Codecs: []sdp.Codec{sdp.ULAWCodec}}},
			}
			wire := gen.Format(m)
			for _, s := range []string{"branch=" + b.branches[0] + "\r\n", "tag=" + b.tags[0] + "\r\n", "Call-ID: " + b.callIDs[0] + "\r\n"} {
				if !strings.Contains(string(wire), s) {
					t.Fatalf("%q is not on the wire as it is: %q", s, wire)
				}
			}
			got := travel(t, m)
			branch, _ := param(got.Via.Param, "branch")
			tag, _ := param(got.From.Param, "tag")
			if branch != b.branches[0] || tag != b.tags[0] || got.CallID != b.callIDs[0] || got.CSeq != b.cseqs[0] {
				t.Fatalf("identifiers changed on the wire: %q", wire)
			}
			if s, ok := got.Payload.(*sdp.SDP); !ok || s.Origin.ID != b.origins[0] {
				t.Fatalf("the session id changed on the wire: %q", wire)
			}
		})
	if t.Failed() || tags.n < 6000 {
		return // too few to tell, as in a replay
	}
	for _, x := range []struct {
		what string
		s    *spread
		mask string
	}{{"tags", &tags, tagMask}, {"branches", &branches, branchMask}, {"Call-IDs", &callIDs, callIDMask}} {
		// The chance that a pair is missing by accident is below 36*256*(255/256)^n.
		if m := x.s.missing(x.mask); m != "" && x.s.n >= 6000 {
			hx.Failf(t, "in %d %s the digit or digits %s never occurred", x.s.n, x.what, m)
		}
	}
	// In 6000 numbers all hundreds, and all bits, of both values occur.
	var hundreds [500]bool
	for _, q := range cseqs {
		hundreds[q/100] = true
	}
	for i, ok := range hundreds {
		if !ok && len(cseqs) >= 12000 {
			hx.Failf(t, "in %d CSeq numbers none was in [%d,%d)", len(cseqs), i*100, i*100+100)
		}
	}
	for bit := 0; bit < 32; bit++ {
		var n [2]int
		for _, o := range origins {
			n[o>>bit&1]++
		}
		if len(origins) >= 1000 && (n[0] == 0 || n[1] == 0) {
			hx.Failf(t, "in %d session ids bit %d never varied", len(origins), bit)
		}
	}
}
