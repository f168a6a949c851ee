package vdisc_cli

import (
	"syscall"

	"github.com/alecthomas/units"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// C05Goal asks whether space is needed for any goal in bytes and any space.
func C05Goal() {
	shift := uint(vrt.Range("block size", 9, 20))
	st := &syscall.Statfs_t{
		Bsize:  1 << shift,
		Blocks: vrt.U64("blocks"),
		Bfree:  vrt.U64("free"),
		Bavail: vrt.U64("available"),
	}
	vrt.Assume(st.Blocks < 1<<42)
	vrt.Assume(st.Bfree <= st.Blocks)
	vrt.Assume(st.Bavail <= st.Bfree)
	goal := vrt.I64("goal")
	vrt.Assume(goal >= 0)

	gt := &GcThreshold{absolute: true, free: units.SI(goal)}
	needed := gt.GcNeeded(st)
	vrt.Assert(needed == (int64(st.Bavail<<shift) < goal), "space is needed exactly below the goal")
	if needed {
		vrt.Cover("needed")
	} else {
		vrt.Cover("enough")
	}
}
