ID="b06-buffer-alias"; PROPERTY="C06"
NEEDS="A fixed size buffer built from more initial data than its size, in a slice with spare capacity, followed by a push."
BREAKS="The buffer keeps a window on the caller's slice, so pushes overwrite the caller's data."
EDITS=[("core/buffer.go","""		db.data = make([]Elemt, size)
		copy(db.data, data[len(data)-size:])
""","""		db.data = data[len(data)-size:]
""")]
PKG="core"
DEMO='''package core_test

import (
	"testing"

	"github.com/wearelumenai/distclus/core"
)

func TestDemo(t *testing.T) {
	var all = []core.Elemt{1, 2, 3, 10, 11}
	var b = core.NewDataBuffer(all[:3], 2)
	_ = b.Push(4, false)
	_ = b.Push(5, false)
	if all[0] != 1 || all[1] != 2 || all[2] != 3 || all[3] != 10 || all[4] != 11 {
		t.Fatal("caller's slice written", all)
	}
}
'''
