package dlgcheck

import (
	"fmt"
	"testing"
	"time"

	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// drive runs a random history of a call, up to n steps by weight, and then
// ends the call.
func drive(t *rapid.T, c *hx.Case, n int, w weights) *sim {
	s := begin(t, c, gen.Chance(t, "loose", 4))
	defer s.leave()
	s.outside = rapid.Bool().Draw(t, "outside")
	for i := gen.Upto(t, "steps", 0, n, 150, 150); i > 0 && !s.cut; i-- {
		s.step(t, w)
	}
	s.finish(t)
	c.Sample(s.history)
	return s
}

func TestC32Progress(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 2000000},
		"histories of up to 12 steps, mostly responses of all kinds: matching, repeated, late, of other transactions, with and without session description, some requests and hangups; "+
			"each step is followed by an OPTIONS, whose answer shows that all has happened that the step causes: the reports and datagrams of the step are compared with a model; "+
			"non-trivial: 3 or more steps, one of them a final response",
		func(t *rapid.T, c *hx.Case) {
			s := drive(t, c, 12, weights{provisional: 6, answer: 2, repeat: 2, refuse: 1, redirect: 1, noContact: 1, mismatch: 3, request: 1, hangup: 1, garbage: 1})
			if s.finals > 0 && len(s.log) > 12 {
				c.NonTrivial(s.history())
			}
		})
}

func TestC33Ack(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 2000000},
		"histories of up to 10 steps, mostly final responses: 2xx with and without Record-Route and repeated, redirects, errors of all classes, mismatched ones, for INVITEs with and without loose and "+
			"strict Routes and credentials; every ACK is compared with the model and there is none without a reason; non-trivial: 2 or more ACKs, or a Route or Record-Route",
		func(t *rapid.T, c *hx.Case) {
			s := drive(t, c, 10, weights{provisional: 2, answer: 3, repeat: 5, refuse: 1, redirect: 3, mismatch: 3, request: 1, hangup: 1})
			if s.finals > 1 || s.routes != nil || s.given.Route != nil {
				c.NonTrivial(s.history())
			}
		})
}

func TestC35Hangup(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 2000000},
		"histories of up to 8 steps with hangups at any time, re-INVITEs that move the target, redirects and Record-Routes, ended by hangup of either side or refusal: every CANCEL and BYE is compared "+
			"with the model, and at the end of each call its channels have to be closed, its sockets free and its readers gone; non-trivial: a BYE by Route or moved target, or a CANCEL",
		func(t *rapid.T, c *hx.Case) {
			s := drive(t, c, 8, weights{provisional: 2, answer: 5, repeat: 1, refuse: 1, redirect: 1, mismatch: 1, request: 4, hangup: 2})
			if s.cancelled || s.bye != nil && (s.routes != nil || s.moved) {
				c.NonTrivial(s.history())
			}
			deadline := time.Now().Add(patience)
			for receivers() > 0 {
				if time.Now().After(deadline) {
					impatient()
					s.fatalf("the call has ended, but something still reads from its sockets")
				}
				time.Sleep(time.Millisecond)
			}
		})
}

func TestC36Requests(t *testing.T) {
	useNameServer()
	hx.Run(t, hx.Budget{Quick: 40000, Thorough: 2000000},
		"histories of up to 14 steps, mostly random requests by the peer in every state of the call, with CSeq numbers that rise, repeat and fall, and of other calls: one answer each, "+
			"compared with the model; non-trivial: 3 or more requests were answered",
		func(t *rapid.T, c *hx.Case) {
			s := drive(t, c, 14, weights{provisional: 1, answer: 1, repeat: 1, mismatch: 1, request: 12, hangup: 1, redirect: 1})
			if s.answers > 2 {
				c.NonTrivial(s.history())
			}
			c.Class(fmt.Sprintf("answered %v", s.answered))
		})
}
