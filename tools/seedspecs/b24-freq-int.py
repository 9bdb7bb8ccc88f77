ID="b24-freq-int"; PROPERTY="C24"
NEEDS="A negative iteration frequency above minus one."
BREAKS="Negative frequencies between -1 and 0 are accepted."
EDITS=[("core/conf.go","""	if err == nil && conf.IterFreq < 0 {
""","""	if err == nil && int(conf.IterFreq) < 0 {
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestDemo(t *testing.T) {
	var conf = core.CtrlConf{IterFreq: -0.5}
	if conf.Verify() == nil {
		t.Fatal("negative frequency accepted")
	}
}
'''
