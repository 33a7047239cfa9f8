package conccheck

import (
	"errors"
	"flag"
	"fmt"
	"net"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

func init() {
	flag.Set("resendInterval", "36000000") // never
	flag.Set("maxResends", "2")
	if hx.Shard%2 == 1 {
		flag.Set("trace", "true")
	}
}

const patience = 30 * time.Second

// script is what happens to one of the calls.
type script struct {
	Rings  bool
	Status int  // final response
	We     bool // hang up
}

// world is everything that goes on at once.
type world struct {
	Calls    []script
	OneUAS   bool // for all calls
	Pairs    int  // of transports
	Messages int  // each sends
	Senders  int  // by how many goroutines
	Sessions int  // pairs of them
	Frames   int
	Both     bool // ways at once
}

// uas answers calls according to their scripts.
type uas struct {
	sock    *net.UDPConn
	scripts []script

	mu       sync.Mutex
	invites  map[int]*sip.Msg // by number of the call
	acks     map[int]int
	byes     map[int]int
	problems []string
}

func listen() *net.UDPConn {
	s, err := net.ListenUDP("udp4", &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1)})
	if err != nil {
		hx.Inconclusive("cannot open a socket: %v", err)
	}
	s.SetReadBuffer(4 << 20)
	return s
}

func addr(c net.Conn) *net.UDPAddr { return c.LocalAddr().(*net.UDPAddr) }

func newUAS(scripts []script) *uas {
	u := &uas{sock: listen(), scripts: scripts, invites: map[int]*sip.Msg{}, acks: map[int]int{}, byes: map[int]int{}}
	return u
}

func (u *uas) problem(format string, args ...any) {
	u.problems = append(u.problems, fmt.Sprintf(format, args...))
}

// answer makes a response.
func answer(m *sip.Msg, status int) *sip.Msg {
	r := &sip.Msg{VersionMajor: 2, Status: status, Via: m.Via, From: m.From, To: gen.CloneAddr(m.To), CallID: m.CallID, CSeq: m.CSeq, CSeqMethod: m.CSeqMethod}
	if m.Method == "INVITE" {
		r.To.Param = &sip.Param{Name: "tag", Value: "uas", Next: r.To.Param}
	}
	return r
}

// port is where the audio of a call goes.
func port(call int) uint16 { return uint16(20000 + 2*call) }

// run answers until it is told to stop.
func (u *uas) run() {
	defer u.sock.Close()
	buf := make([]byte, 65536)
	numbers := map[string]int{} // by Call-ID
	for {
		n, from, err := u.sock.ReadFromUDP(buf)
		if err != nil {
			var ne net.Error
			if errors.Is(err, net.ErrClosed) || errors.As(err, &ne) && ne.Timeout() {
				return
			}
			continue
		}
		if string(buf[:n]) == "stop" {
			return
		}
		m, err := sip.ParseMsg(append([]byte{}, buf[:n]...))
		u.mu.Lock()
		if err != nil || m.Via == nil {
			u.problem("a call sent %q: %v", buf[:n], err)
			u.mu.Unlock()
			continue
		}
		send := func(r *sip.Msg) { u.sock.WriteTo([]byte(r.String()), from) }
		call, known := numbers[m.CallID]
		switch {
		case m.Status > 0:
			// Of our BYE.
		case m.Method == "INVITE":
			if known {
				u.problem("the Call-ID %q is used again", m.CallID)
				break
			}
			fmt.Sscanf(m.Request.User, "call%d", &call)
			if u.invites[call] != nil {
				u.problem("call %d is made twice", call)
				break
			}
			numbers[m.CallID] = call
			u.invites[call] = m
			s := u.scripts[call]
			if s.Rings {
				send(answer(m, 180))
			}
			r := answer(m, s.Status)
			if s.Status == 200 {
				a := addr(u.sock)
				r.Contact = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: a.IP.String(), Port: uint16(a.Port)}}
				r.Payload = sdp.New(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 9), Port: int(port(call))}, sdp.ULAWCodec)
			}
			send(r)
		case !known:
			u.problem("a %s of an unknown call: %q", m.Method, buf[:n])
		case m.Method == "ACK":
			u.acks[call]++
			if s := u.scripts[call]; s.Status == 200 && !s.We {
				i := u.invites[call]
				send(&sip.Msg{VersionMajor: 2, Method: "BYE", Request: i.Contact.Uri, Via: &sip.Via{Host: "127.0.0.1", Port: uint16(addr(u.sock).Port), Param: &sip.Param{Name: "branch", Value: "z9hG4bKbye"}},
					From: m.To, To: m.From, CallID: m.CallID, CSeq: 5, CSeqMethod: "BYE", MaxForwards: 9})
			}
		case m.Method == "BYE":
			u.byes[call]++
			send(answer(m, 200))
		default:
			u.problem("unexpected %s", m.Method)
		}
		u.mu.Unlock()
	}
}

// lost is given up for.
var lost = errors.New("nothing happens")

// phone makes a call and gives what it reports.
func phone(invite *sip.Msg, s script) (events []string, err error) {
	dl, err := dialog.NewDialog(invite)
	if err != nil {
		return nil, err
	}
	timer := time.NewTimer(patience)
	defer timer.Stop()
	onErr, onState, onPeer := dl.OnErr, dl.OnState, dl.OnPeer
	for onErr != nil || onState != nil || onPeer != nil {
		select {
		case e, ok := <-onErr:
			if !ok {
				onErr = nil
				break
			}
			var re *sip.ResponseError
			if errors.As(e, &re) {
				events = append(events, fmt.Sprint("error ", re.Msg.Status))
				_ = re.Error() + re.Msg.String()
			} else {
				events = append(events, "error "+e.Error())
			}
		case st, ok := <-onState:
			if !ok {
				onState = nil
				break
			}
			events = append(events, fmt.Sprint("state ", st))
			if st == dialog.Answered && s.We {
				dl.Hangup <- true
			}
		case p, ok := <-onPeer:
			if !ok {
				onPeer = nil
				break
			}
			events = append(events, "peer "+p.String())
		case <-timer.C:
			return events, lost
		}
	}
	return events, nil
}

// expected is what a call has to report.
func (s script) expected(call int) (events []string) {
	if s.Rings {
		events = append(events, fmt.Sprint("state ", dialog.Ringing))
	}
	if s.Status != 200 {
		return append(events, fmt.Sprint("error ", s.Status))
	}
	return append(events, fmt.Sprintf("peer 127.0.0.9:%d", port(call)), fmt.Sprint("state ", dialog.Answered), fmt.Sprint("state ", dialog.Hangup))
}

// send sends copies of a message from one transport to another, by several
// goroutines.
func send(template *sip.Msg, n, senders int) error {
	contact := func() *sip.Addr { return &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "127.0.0.1"}} }
	a, err := dialog.NewTransport(contact())
	if err != nil {
		return err
	}
	b, err := dialog.NewTransport(contact())
	if err != nil {
		return err
	}
	b.Sock.SetReadBuffer(4 << 20)
	defer func() {
		for _, tp := range []*dialog.Transport{a, b} {
			tp.Sock.Close()
			go func() {
				for range tp.C {
				}
			}()
			<-tp.E
		}
	}()
	got := make(chan []string)
	go func() {
		var l []string
		timer := time.NewTimer(patience)
		defer timer.Stop()
		for len(l) < n {
			select {
			case m := <-b.C:
				if m == nil {
					l = append(l, "end")
					continue
				}
				// What is delivered is the receiver's to read and change.
				s := m.Subject + " to " + m.Request.Host
				if wire := m.String(); m.Route != nil || strings.Contains(wire, "Route:") {
					s = "routed: " + wire
				}
				if m.Via.Next != nil || m.Via.Param.Get("branch") == nil || m.CallID == "" || m.From.Display != template.From.Display || m.From.Param.Get("tag") == nil {
					s = "altered: " + m.String()
				}
				l = append(l, s)
				m.Request, m.Subject, m.Via.Host, m.Via.Param = nil, "", "changed", nil
				m.Route = &sip.Addr{Uri: &sip.URI{Host: "changed"}}
			case <-timer.C:
				got <- append(l, lost.Error())
				return
			}
		}
		got <- l
	}()
	one := func(i int) (want string, err error) {
		m := template.Copy()
		m.Request = &sip.URI{Scheme: "sip", Host: "127.0.0.1", Port: b.Via.Port}
		m.Subject = fmt.Sprintf("no %d from %d", i, a.Via.Port)
		host, here := "127.0.0.1", m.Request
		here.Param = &sip.URIParam{Name: "lr"}
		switch i % 4 {
		case 1, 3: // By a loose router, that is b.
			host = "far.example"
			m.Request, m.Route = &sip.URI{Scheme: "sip", Host: host}, &sip.Addr{Uri: here}
		case 2: // By a strict router.
			host = "far.example"
			m.Route = &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: host}}
		}
		want = m.Subject + " to " + host
		if i%4 == 2 {
			dialog.PopulateMessage(a.Via, a.Contact, m)
			_, err = a.Sock.WriteTo([]byte(m.String()), addr(b.Sock))
		} else {
			err = a.Send(m)
		}
		return want, err
	}
	want, errs := make([][]string, senders), make([]error, senders)
	var wg sync.WaitGroup
	for k := 0; k < senders; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := k; i < n; i += senders {
				w, err := one(i)
				if err != nil {
					errs[k] = err
					return
				}
				want[k] = append(want[k], w)
			}
		}()
	}
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("Send: %v", err)
		}
	}
	l := <-got
	if len(l) > 0 && l[len(l)-1] == lost.Error() {
		return lost
	}
	// Those of one sender come in order.
	for _, x := range l {
		k := 0
		for k < senders && (len(want[k]) == 0 || want[k][0] != x) {
			k++
		}
		if k == senders {
			return fmt.Errorf("a transport received %q of %q, still to come: %q", x, l, want)
		}
		want[k] = want[k][1:]
	}
	return nil
}

// talk sends frames from one session to another, and back if both is set.
func talk(frames []rtp.Frame, n int, both bool) error {
	a, err := rtp.NewSession("127.0.0.1")
	if err != nil {
		return fmt.Errorf("NewSession: %v", err)
	}
	b, err := rtp.NewSession("127.0.0.1")
	if err != nil {
		return fmt.Errorf("NewSession: %v", err)
	}
	a.Peer, b.Peer = addr(b.Sock), addr(a.Sock)
	problem := make(chan error)
	listen := func(s *rtp.Session) {
		timer := time.NewTimer(patience)
		defer timer.Stop()
		for i := 0; i < n; i++ {
			select {
			case f := <-s.C:
				if f == nil {
					problem <- errors.New("a session ended")
					return
				}
				for k, x := range frames[i%len(frames)] {
					if want := int16(dsp.UlawToLinear(dsp.LinearToUlaw(int64(x)))); f[k] != want {
						problem <- fmt.Errorf("sample %d of frame %d is %d, want %d", k, i, f[k], want)
						return
					}
				}
				*f = rtp.Frame{} // Ours until it is given back.
				s.R <- f
			case <-timer.C:
				problem <- lost
				return
			}
		}
		problem <- nil
	}
	speak := func(s *rtp.Session) {
		for i := 0; i < n; i++ {
			if err := s.Send(&frames[i%len(frames)]); err != nil {
				problem <- fmt.Errorf("Send: %v", err)
				return
			}
		}
		problem <- nil
	}
	jobs := 2
	go listen(b)
	go speak(a)
	if both {
		jobs = 4
		go listen(a)
		go speak(b)
	}
	for ; jobs > 0; jobs-- {
		if e := <-problem; e != nil && err == nil {
			err = e
		}
	}
	if err != nil {
		return err
	}
	a.Close()
	b.Close()
	return nil
}

func someWorld(t *rapid.T) (w world) {
	for n := rapid.IntRange(0, 5).Draw(t, "calls"); n > 0; n-- {
		w.Calls = append(w.Calls, script{Rings: rapid.Bool().Draw(t, "rings"), Status: rapid.SampledFrom([]int{200, 200, 200, 404, 486, 603}).Draw(t, "status"), We: rapid.Bool().Draw(t, "we")})
	}
	w.OneUAS = rapid.Bool().Draw(t, "oneuas")
	w.Pairs = rapid.IntRange(0, 2).Draw(t, "pairs")
	w.Messages = rapid.IntRange(1, 10).Draw(t, "messages")
	w.Senders = rapid.IntRange(1, 3).Draw(t, "senders")
	w.Sessions = rapid.IntRange(0, 2).Draw(t, "sessions")
	w.Frames = rapid.IntRange(1, 10).Draw(t, "frames")
	w.Both = rapid.Bool().Draw(t, "both")
	return w
}

// someTemplate makes the INVITE that the calls are copies of.
func someTemplate(t *rapid.T) *sip.Msg {
	m := &sip.Msg{VersionMajor: 2, Method: "INVITE", Request: &sip.URI{Scheme: "sip", Host: "127.0.0.1"}}
	if rapid.Bool().Draw(t, "via") {
		m.Via = &sip.Via{Host: "127.0.0.1"}
		if rapid.Bool().Draw(t, "branch") {
			m.Via.Param = &sip.Param{Name: "x", Value: "y", Next: &sip.Param{Name: "branch", Value: "z9hG4bKtemplate", Next: &sip.Param{Name: "z"}}}
		}
	}
	if rapid.Bool().Draw(t, "contact") {
		m.Contact = &sip.Addr{Display: "Me", Uri: &sip.URI{Scheme: "sip", User: "me", Host: "127.0.0.1", Param: &sip.URIParam{Name: "p"}}}
	}
	if rapid.Bool().Draw(t, "from") {
		m.From = &sip.Addr{Display: "Me", Uri: &sip.URI{Scheme: "sip", User: "me", Host: "example.com"}, Param: &sip.Param{Name: "x"}}
	}
	if rapid.Bool().Draw(t, "xheader") {
		m.XHeader = &sip.XHeader{Name: "X-A", Value: []byte("b")}
	}
	switch rapid.IntRange(0, 3).Draw(t, "sdp") {
	case 0:
		m.Payload = sdp.New(&net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 9000}, sdp.ULAWCodec, sdp.DTMFCodec)
	case 1, 2:
		m.Payload = &sdp.SDP{Audio: &sdp.Media{Port: 9000, Codecs: []sdp.Codec{sdp.ULAWCodec}}}
	}
	return m
}

func TestC40Calls(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 1600, Thorough: 40000},
		"up to 5 calls made at the same time from copies of one INVITE, with and without Via, branch, Contact, From and session description, to one peer or one each, refused or answered and hung up by "+
			"either side, while up to 2 pairs of transports exchange copies of one request, sent by up to 3 goroutines, and up to 2 pairs of sessions send the same frames, one or both ways: under the race detector, each reports what it would report "+
			"alone, no two INVITEs have a branch, Call-ID or From tag in common, and the templates are unchanged; non-trivial: 2 calls or more",
		func(t *rapid.T, c *hx.Case) {
			w := someWorld(t)
			template := someTemplate(t)
			message := &sip.Msg{VersionMajor: 2, Method: "OPTIONS", Request: &sip.URI{Host: "x"}, To: &sip.Addr{Uri: &sip.URI{Host: "x"}}, From: &sip.Addr{Display: "A", Uri: &sip.URI{Host: "a"},
				Param: &sip.Param{Name: "x", Value: "y"}}, XHeader: &sip.XHeader{Name: "X-A", Value: []byte("b")}}
			if rapid.Bool().Draw(t, "body") {
				message.Payload = &sdp.SDP{Audio: &sdp.Media{Port: 9000, Codecs: []sdp.Codec{sdp.ULAWCodec}}}
			}
			var frames []rtp.Frame
			for n := rapid.IntRange(1, 2).Draw(t, "distinct"); n > 0; n-- {
				var f rtp.Frame
				x := rapid.Uint32().Draw(t, "frame")
				for i := range f {
					x = x*1664525 + 1013904223
					f[i] = int16(x >> 16)
				}
				frames = append(frames, f)
			}
			for r := repeat(); r > 0; r-- {
				atOnce(t, w, template, message, frames)
			}
			if len(w.Calls) > 1 {
				c.NonTrivial(fmt.Sprintf("%+v %s", w, gen.Dump(template)))
			}
			c.Class(fmt.Sprintf("%d calls", len(w.Calls)))
			c.Class(fmt.Sprintf("%d transports", 2*w.Pairs))
			c.Class(fmt.Sprintf("%d sessions", 2*w.Sessions))
			c.Sample(func() string { return fmt.Sprintf("%+v of %s", w, gen.Format(template)) })
		})
}

func atOnce(t *rapid.T, w world, template, message *sip.Msg, frames []rtp.Frame) {
	state := func() string { return gen.Dump(template) + gen.Dump(message) + fmt.Sprint(frames) }
	before := state()
	var peers []*uas
	var runs sync.WaitGroup
	for i := range w.Calls {
		if i > 0 && w.OneUAS {
			peers = append(peers, peers[0])
			continue
		}
		u := newUAS(w.Calls)
		peers = append(peers, u)
		runs.Add(1)
		go func() {
			defer runs.Done()
			u.run()
		}()
	}
	reports := make([][]string, len(w.Calls))
	var mu sync.Mutex
	var problems []error
	note := func(err error) {
		mu.Lock()
		defer mu.Unlock()
		if err != nil {
			problems = append(problems, err)
		}
	}
	watch(t, func() {
		start := make(chan bool)
		var wg sync.WaitGroup
		run := func(f func()) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				f()
			}()
		}
		for i, s := range w.Calls {
			run(func() {
				m := template.Copy()
				m.Request.User = fmt.Sprintf("call%d", i)
				m.Request.Port = uint16(addr(peers[i].sock).Port)
				var err error
				reports[i], err = phone(m, s)
				note(err)
			})
		}
		for i := 0; i < w.Pairs; i++ {
			run(func() { note(send(message, w.Messages, w.Senders)) })
		}
		for i := 0; i < w.Sessions; i++ {
			run(func() { note(talk(frames, w.Frames, w.Both)) })
		}
		close(start)
		wg.Wait()
		for i, u := range peers {
			if i == 0 || !w.OneUAS {
				// Everything that was sent before is there already.
				u.sock.WriteTo([]byte("stop"), addr(u.sock))
				u.sock.SetReadDeadline(time.Now().Add(patience))
			}
		}
		runs.Wait()
	})
	for _, u := range peers {
		sort.Strings(u.problems)
		for _, p := range u.problems {
			t.Fatalf("%s", p)
		}
	}
	for _, err := range problems {
		if err == lost && !loopbackWorks() {
			hx.Inconclusive("the loopback interface delivers nothing")
		}
		t.Fatalf("%v; the calls reported %q", err, reports)
	}
	if after := state(); after != before {
		t.Fatalf("what copies were made of has changed:\n%s", gen.DiffText(before, after))
	}
	seen := map[string]string{}
	for i, s := range w.Calls {
		if got, want := strings.Join(reports[i], ", "), strings.Join(s.expected(i), ", "); got != want {
			t.Fatalf("call %d of %d reports %s, want %s", i, len(w.Calls), got, want)
		}
		m := peers[i].invites[i]
		if m == nil {
			t.Fatalf("call %d of %d was not made", i, len(w.Calls))
		}
		unique := func(what, id string) {
			if other, ok := seen[what+id]; ok {
				t.Fatalf("%s and call %d have the %s %q", other, i, what, id)
			}
			seen[what+id] = fmt.Sprint("call ", i)
		}
		unique("Call-ID", m.CallID)
		unique("branch", m.Via.Param.Get("branch").Value)
		unique("From tag", m.From.Param.Get("tag").Value)
		if template.From != nil && (m.From.Display != "Me" || m.From.Param.Get("x") == nil) || template.XHeader != nil && m.XHeader.Get("X-A") == nil {
			t.Fatalf("call %d does not have what its template has: %s", i, m)
		}
		if template.Payload != nil {
			d, ok := m.Payload.(*sdp.SDP)
			if !ok || d.Audio == nil || d.Audio.Port != 9000 || d.Addr != "127.0.0.1" || d.Origin.Addr != "127.0.0.1" {
				t.Fatalf("the session description of call %d is wrong: %s", i, m)
			}
			if template.Payload.(*sdp.SDP).Origin.ID == "" {
				unique("session", d.Origin.ID)
			}
		}
		if want := 1; peers[i].acks[i] != want {
			t.Fatalf("call %d sent %d ACKs", i, peers[i].acks[i])
		}
		if byes := peers[i].byes[i]; byes > 1 || (byes == 1) != (s.Status == 200 && s.We) {
			t.Fatalf("call %d sent %d BYEs", i, byes)
		}
	}
}

// loopbackWorks tells if datagrams get through at all.
func loopbackWorks() bool {
	a, b := listen(), listen()
	defer a.Close()
	defer b.Close()
	a.WriteTo([]byte("x"), addr(b))
	b.SetReadDeadline(time.Now().Add(10 * time.Second))
	_, err := b.Read(make([]byte, 1))
	return err == nil
}
