package h

import (
	"github.com/wearelumenai/distclus/core"

	"verifharness/vk"
)

// C06Buffer: a sequence of pushes and applies on a buffer.
func C06Buffer() {
	L, maxSize, maxInit := vk.Param("ops"), vk.Param("size"), vk.Param("init")
	size := vk.Concrete(vk.Int("size", -1, maxSize))
	n := vk.Concrete(vk.Int("init", 0, maxInit))
	// the caller's slice has spare capacity
	own := make([]core.Elemt, n+2)
	for i := range own {
		own[i] = &Pt{-1 - i}
	}
	keep := append([]core.Elemt(nil), own...)
	data := own[:n]
	var visible, staged []core.Elemt
	visible = append(visible, data...)
	b := core.NewDataBuffer(data, size)
	for i := 0; i < L; i++ {
		e := core.Elemt(&Pt{i})
		switch vk.Concrete(vk.Int("op", 0, 3)) {
		case 0:
			vk.Assert(b.Push(e, false) == nil, "push")
			if len(staged) > 0 {
				vk.Cover("stored after staged")
			}
			visible = append(append(visible, staged...), e)
			staged = nil
			vk.Cover("stored")
		case 1:
			vk.Assert(b.Push(e, true) == nil, "push")
			staged = append(staged, e)
			vk.Cover("staged")
		case 2:
			vk.Assert(b.Apply() == nil, "apply")
			if len(staged) > 1 {
				vk.Cover("applied many")
			}
			visible = append(visible, staged...)
			staged = nil
		default:
			// a reader, which matters to what may be written afterwards
			c06check(b, visible, size, own, keep)
		}
	}
	c06check(b, visible, size, own, keep)
	if size > 0 && len(visible) > size+1 {
		vk.Cover("wrapped")
	}
	vk.Observe("len", len(b.Data()))
}

func c06check(b core.Buffer, visible []core.Elemt, size int, own, keep []core.Elemt) {
	d := b.Data()
	if size <= 0 {
		vk.Assert(len(d) == len(visible), "an unbounded buffer holds everything")
		for i := range d {
			vk.Assert(d[i] == visible[i], "in arrival order")
		}
	} else {
		want := visible
		if len(want) > size {
			want = want[len(want)-size:]
		}
		vk.Assert(len(d) == len(want), "the buffer holds the last elements up to its size")
		for _, e := range want {
			found := 0
			for _, f := range d {
				if f == e {
					found++
				}
			}
			vk.Assert(found == 1, "each of the last elements is held once")
		}
	}
	for i := range own {
		vk.Assert(own[i] == keep[i], "the caller's slice is not written")
	}
}
