package dlgcheck

import (
	"regexp"
	"strings"
	"testing"

	"github.com/jart/gosip/sip"

	"verif/gen"
	"verif/hx"
)

func TestMain(m *testing.M) {
	// All of a message has to fit into a datagram.
	gen.LongText, gen.LongList = 300, 12
	hx.Main(m)
}

var (
	tagForm    = regexp.MustCompile(`^[0-9a-f]{12}$`)
	branchForm = regexp.MustCompile(`^z9hG4bK-?[0-9a-f]{12}$`)
	callIDForm = regexp.MustCompile(`^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$`)
)

// param finds a parameter, without using the code under test.
func param(p *sip.Param, name string) (value string, ok bool) {
	for ; p != nil; p = p.Next {
		if strings.EqualFold(p.Name, name) {
			return p.Value, true
		}
	}
	return "", false
}

func uriParam(p *sip.URIParam, name string) bool {
	for ; p != nil; p = p.Next {
		if strings.EqualFold(p.Name, name) {
			return true
		}
	}
	return false
}

// without gives a copy of a parameter list without the first parameter of
// that name.
func without(p *sip.Param, name string) *sip.Param {
	if p == nil {
		return nil
	}
	if strings.EqualFold(p.Name, name) {
		return gen.CloneParam(p.Next)
	}
	return &sip.Param{Name: p.Name, Value: p.Value, Next: without(p.Next, name)}
}

// fresh notes an identifier and tells if it was new.
type fresh map[string]bool

func (f fresh) add(id string) bool {
	if f[id] {
		return false
	}
	f[id] = true
	return true
}
