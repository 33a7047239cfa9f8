package sdpcheck

import (
	"testing"

	"verif/hx"
)

func TestMain(m *testing.M) { hx.Main(m) }
