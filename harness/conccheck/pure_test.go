package conccheck

import (
	"bytes"
	"fmt"
	"net"
	"regexp"
	"strings"
	"sync"
	"testing"

	"github.com/jart/gosip/dialog"
	"github.com/jart/gosip/dsp"
	"github.com/jart/gosip/rtp"
	"github.com/jart/gosip/sdp"
	"github.com/jart/gosip/sip"
	"github.com/jart/gosip/util"
	"pgregory.net/rapid"

	"verif/gen"
	"verif/hx"
)

// things are what all goroutines look at.
type things struct {
	msgs    []*sip.Msg
	packets [][]byte
	sdps    []*sdp.SDP
	texts   []string // session descriptions
	uris    [][]byte
	frames  []rtp.Frame
	headers []rtp.Header
	noise   int64
}

func someThings(t *rapid.T) *things {
	w := &things{}
	for n := rapid.IntRange(1, 3).Draw(t, "msgs"); n > 0; n-- {
		m := gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "msg")
		if rapid.Bool().Draw(t, "defaults") {
			// Formatting fills these in.
			m.Phrase, m.Method, m.VersionMajor, m.MaxForwards = "", "", 0, 0
			for v := m.Via; v != nil; v = v.Next {
				v.Protocol, v.Version, v.Transport = "", "", ""
			}
			if m.Request != nil {
				m.Request.Scheme = ""
			}
		}
		w.msgs = append(w.msgs, m)
	}
	for n := rapid.IntRange(1, 2).Draw(t, "packets"); n > 0; n-- {
		p := gen.Format(gen.Msg(gen.MsgOptions{Small: true, MinVias: 1}).Draw(t, "packet"))
		if gen.Chance(t, "mutated", 3) {
			p = gen.MutateBytes(t, p)
		}
		w.packets = append(w.packets, p)
	}
	for n := rapid.IntRange(1, 2).Draw(t, "sdps"); n > 0; n-- {
		s := gen.SDP(gen.SDPOptions{Simple: true}).Draw(t, "sdp")
		if rapid.Bool().Draw(t, "sdpdefaults") {
			s.Session, s.Time, s.Ptime, s.Addr, s.Origin.Addr, s.Origin.User, s.Origin.Version = "", "", 0, "", "", "", ""
		}
		w.sdps = append(w.sdps, s)
		w.texts = append(w.texts, gen.SDP(gen.SDPOptions{Simple: true}).Draw(t, "text").String())
		if rapid.Bool().Draw(t, "body") {
			w.msgs[rapid.IntRange(0, len(w.msgs)-1).Draw(t, "whose")].Payload = s
		}
	}
	w.uris = append(w.uris, []byte(gen.URI().Draw(t, "uri").String()))
	for n := 2; n > 0; n-- {
		var f rtp.Frame
		x := rapid.Uint32().Draw(t, "frame")
		for i := range f {
			x = x*1664525 + 1013904223
			f[i] = int16(x >> 16)
		}
		w.frames = append(w.frames, f)
		w.headers = append(w.headers, rtp.Header{Pad: rapid.Bool().Draw(t, "pad"), Mark: rapid.Bool().Draw(t, "mark"), PT: rapid.Uint8Range(0, 127).Draw(t, "pt"),
			Seq: rapid.Uint16().Draw(t, "seq"), TS: rapid.Uint32().Draw(t, "ts"), Ssrc: rapid.Uint32().Draw(t, "ssrc")})
	}
	w.noise = rapid.Int64Range(-100000, 100000).Draw(t, "noise")
	return w
}

// state tells everything about them.
func (w *things) state() string {
	var b strings.Builder
	for _, m := range w.msgs {
		b.WriteString(gen.Dump(m))
	}
	for _, s := range w.sdps {
		b.WriteString(gen.Dump(s))
	}
	fmt.Fprintf(&b, "%q %q %q %v %v", w.packets, w.texts, w.uris, w.frames, w.headers)
	return b.String()
}

// op is something to do with them; which chooses among them.
type op struct {
	Name     string
	Which, B int
}

var opNames = []string{"format", "copy", "edit", "edit", "parse", "look", "compare", "respond", "ack", "cancel", "bye", "match", "send", "send", "uri", "sdp", "sdpparse", "sdpnew", "sdpmsg",
	"rtp", "ulaw", "mix", "noise", "ids", "phrase", "error", "xheader", "number"}

// own is what a goroutine may change: copies that were made for it.
type own struct {
	copies []*sip.Msg
	ids    []string
}

var branchForm = regexp.MustCompile(`^z9hG4bK-[0-9a-f]{12}$`)

// do does one of them and gives the result, which does not depend on chance.
func (w *things) do(o op, mine *own) string {
	i := o.Which % len(w.msgs)
	m, m2 := w.msgs[i], w.msgs[o.B%len(w.msgs)]
	switch o.Name {
	case "format":
		return m.String()
	case "copy":
		return gen.Dump(m.Copy())
	case "edit":
		// A copy is ours, apart from what is in its lists of parameters.
		c := mine.copies[i]
		c.CSeq++
		c.Subject += "x"
		if c.Via != nil {
			c.Via.Host, c.Via.Port = "changed.example", c.Via.Port+1
			c.Via.Branch()
			mine.ids = append(mine.ids, c.Via.Param.Value)
			c.Via.Last().Host = "last.example"
		}
		if c.To != nil {
			c.To.Tag()
			mine.ids = append(mine.ids, c.To.Param.Value)
			c.To.Display = "Changed"
			c.To.Uri.Port++
			c.To.Uri.Param = &sip.URIParam{Name: "x", Next: c.To.Uri.Param}
		}
		if c.Contact != nil {
			c.Contact.Uri.Host = "changed.example"
			c.Contact = c.Contact.Reversed()
		}
		if c.Request != nil {
			c.Request.User = "changed"
		}
		c.XHeader = &sip.XHeader{Name: "X-Changed", Value: []byte("1"), Next: c.XHeader}
		// It goes on growing.
		if c.CSeq%8 == 0 {
			mine.copies[i] = m.Copy()
		}
		return c.CallID
	case "send":
		// What calls and transports do with a message before it is sent.
		c := m.Copy()
		via := &sip.Via{Host: "127.0.0.1", Port: 5060}
		contact := &sip.Addr{Uri: &sip.URI{Scheme: "sip", Host: "127.0.0.1", Port: 5060}}
		dialog.PopulateMessage(via, contact, c)
		host, port, err := dialog.RouteMessage(via, contact, c)
		if !c.IsResponse() {
			b := c.Via.Param.Get("branch")
			if b == nil || m.Via != nil && m.Via.Param.Get("branch") == nil && !branchForm.MatchString(b.Value) {
				return "no branch"
			}
			if m.Via == nil || m.Via.Param.Get("branch") == nil {
				mine.ids = append(mine.ids, b.Value)
			}
		}
		if c.CallID == m.CallID {
			return fmt.Sprint(host, port, err != nil)
		}
		return fmt.Sprint(host, port, err != nil, "new Call-ID")
	case "parse":
		p := append([]byte{}, w.packets[o.Which%len(w.packets)]...)
		m, err := sip.ParseMsg(p)
		if err != nil {
			return "error " + err.Error()
		}
		return gen.Dump(m) + m.String()
	case "look":
		s := ""
		if m.Via != nil {
			s += gen.Dump(m.Via.Param.Get("branch")) + gen.Dump(m.Via.Last().Detach())
		}
		if m.From != nil {
			s += gen.Dump(m.From.Param.Get("TAG")) + gen.Dump(m.From.Uri.Param.Get("transport")) + gen.Dump(m.From.Uri.Header.Get("subject"))
		}
		return s + fmt.Sprint(m.Route.Len(), m.Contact.Len()) + gen.Dump(m.Route.Last()) + gen.Dump(m.Route.Reversed()) + gen.Dump(m.XHeader.Get("x-y")) + m.From.String()
	case "compare":
		return fmt.Sprint(m.Via.CompareHostPort(m2.Via), m.Via.CompareBranch(m2.Via), m.From.CompareHostPort(m2.To), m.Request.CompareHostPort(m2.Request))
	case "respond":
		return dialog.NewResponse(m, 100+o.B%600).String()
	case "ack":
		if m.Via == nil || m.Contact == nil {
			return ""
		}
		return dialog.NewAck(m, m2).String()
	case "cancel":
		return dialog.NewCancel(m).String()
	case "bye":
		if m2.Contact == nil {
			return ""
		}
		n := o.Which
		return dialog.NewBye(m, m2, &n).String() + fmt.Sprint(n)
	case "match":
		if m.Via == nil || m2.Via == nil {
			return ""
		}
		return fmt.Sprint(dialog.ResponseMatch(m, m2), dialog.AckMatch(m, m2))
	case "uri":
		u, err := sip.ParseURI(w.uris[o.Which%len(w.uris)])
		if err != nil {
			return "error " + err.Error()
		}
		return u.String() + gen.Dump(u.Copy())
	case "sdp":
		s := w.sdps[o.Which%len(w.sdps)]
		return s.String() + s.ContentType() + string(s.Data())
	case "sdpparse":
		s, err := sdp.Parse(w.texts[o.Which%len(w.texts)])
		if err != nil {
			return "error " + err.Error()
		}
		return gen.Dump(s) + s.String()
	case "sdpnew":
		s := sdp.New(&net.UDPAddr{IP: net.IPv4(10, 0, 0, byte(o.B)), Port: o.Which}, sdp.ULAWCodec, sdp.DTMFCodec, sdp.Codec{PT: uint8(o.B & 127), Name: "x", Rate: 8000})
		s.Origin.ID, s.Origin.Version = "1", "1"
		// A description is its owner's alone.
		before := s.String()
		s.Audio.Codecs[0].Name = "changed"
		s.Audio.Codecs[1].Fmtp = "changed"
		return before
	case "sdpmsg":
		c := *m
		c.Payload = w.sdps[o.B%len(w.sdps)]
		return c.String()
	case "rtp":
		h := w.headers[o.Which%len(w.headers)]
		b := h.Write(make([]byte, 0, 16))
		var g rtp.Header
		err := g.Read(b)
		var e rtp.EventHeader
		e.Read([]byte{byte(o.B), 0x8a, 1, byte(o.Which)})
		c, cerr := rtp.DtmfToChar(uint8(o.B % 20))
		d, derr := rtp.CharToDtmf("0123456789*#ABCDx"[o.B%17])
		return fmt.Sprint(b, g, err, e, c, cerr, d, derr)
	case "ulaw":
		f := &w.frames[o.Which%len(w.frames)]
		var b [160]byte
		for i, x := range f {
			b[i] = byte(dsp.LinearToUlaw(int64(x)))
		}
		var g rtp.Frame
		for i, x := range b {
			g[i] = int16(dsp.UlawToLinear(int64(x)))
		}
		return fmt.Sprint(b, g)
	case "mix":
		d := w.frames[o.Which%len(w.frames)]
		dsp.L16MixSat160(&d[0], &w.frames[o.B%len(w.frames)][0])
		return fmt.Sprint(d)
	case "noise":
		a := dsp.NewAWGN_DBM0(w.noise, -20)
		s := ""
		for i := 0; i < 20; i++ {
			s += fmt.Sprint(a.Get(), " ")
		}
		return s
	case "ids":
		mine.ids = append(mine.ids, util.GenerateTag(), util.GenerateBranch(), util.GenerateCallID())
		if n := util.GenerateCSeq(); n < 0 || n >= 50000 {
			return "a strange CSeq"
		}
		return ""
	case "phrase":
		return sip.Phrase(o.B % 700)
	case "error":
		return (&sip.ResponseError{Msg: m}).Error()
	case "xheader":
		return m.XHeader.String()
	case "number":
		return fmt.Sprint(util.Portstr(uint16(o.B)), util.IsIPv6("::1"), util.IsIPv6("a"))
	}
	panic(o.Name)
}

func TestC40Functions(t *testing.T) {
	hx.Run(t, hx.Budget{Quick: 4000, Thorough: 80000},
		"2 to 8 goroutines that do up to 12 things each with the same messages, packets, session descriptions and frames, out of 26 functions that only read them or that work on copies made before: "+
			"under the race detector, with the results of doing the same one after the other, new identifiers all different, and nothing changed; non-trivial: two goroutines do something with the same "+
			"message",
		func(t *rapid.T, c *hx.Case) {
			w := someThings(t)
			n := rapid.IntRange(2, 8).Draw(t, "goroutines")
			todo := make([][]op, n)
			users := map[int]map[int]bool{}
			for i := range todo {
				for k := rapid.IntRange(1, 12).Draw(t, "ops"); k > 0; k-- {
					o := op{Name: rapid.SampledFrom(opNames).Draw(t, "op"), Which: rapid.IntRange(0, 5).Draw(t, "which"), B: rapid.IntRange(0, 700).Draw(t, "b")}
					todo[i] = append(todo[i], o)
					c.Class(o.Name)
					m := o.Which % len(w.msgs)
					if users[m] == nil {
						users[m] = map[int]bool{}
					}
					users[m][i] = true
				}
			}
			for r := repeat(); r > 0; r-- {
				together(t, w, todo)
			}
			for m := range users {
				if len(users[m]) > 1 {
					c.NonTrivial(fmt.Sprint(todo) + gen.Dump(w.msgs[m]))
					break
				}
			}
			c.Sample(func() string { return fmt.Sprintf("%v on %s", todo, bytes.Join(formatted(w.msgs), []byte("\n"))) })
		})
}

func formatted(l []*sip.Msg) (r [][]byte) {
	for _, m := range l {
		r = append(r, gen.Format(m))
	}
	return r
}

// together does it all at once, and then one after the other.
func together(t *rapid.T, w *things, todo [][]op) {
	before := w.state()
	prepare := func() (all []*own) {
		for range todo {
			o := &own{}
			for _, m := range w.msgs {
				o.copies = append(o.copies, m.Copy())
			}
			all = append(all, o)
		}
		return all
	}
	got := make([][]string, len(todo))
	owns := prepare()
	var failed sync.Map
	watch(t, func() {
		start := make(chan bool)
		var wg sync.WaitGroup
		for i := range todo {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						failed.Store(i, fmt.Sprint(e))
					}
				}()
				<-start
				for _, o := range todo[i] {
					got[i] = append(got[i], w.do(o, owns[i]))
				}
			}()
		}
		close(start)
		wg.Wait()
	})
	failed.Range(func(i, e any) bool {
		t.Fatalf("goroutine %v panics: %v", i, e)
		return false
	})
	if after := w.state(); after != before {
		t.Fatalf("what was only to be read has changed:\n%s", gen.DiffText(before, after))
	}
	seen := map[string]bool{}
	for i := range owns {
		for _, id := range owns[i].ids {
			if seen[id] {
				t.Fatalf("the identifier %q was given twice", id)
			}
			seen[id] = true
		}
	}
	alone := prepare()
	for i := range todo {
		for k, o := range todo[i] {
			if want := w.do(o, alone[i]); want != got[i][k] {
				t.Fatalf("%v by goroutine %d gives\n%s\nat the same time as others, but\n%s\nalone", o, i, got[i][k], want)
			}
		}
	}
	if after := w.state(); after != before {
		t.Fatalf("what was only to be read has changed:\n%s", gen.DiffText(before, after))
	}
}
