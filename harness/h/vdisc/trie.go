package vdisc

import (
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// text is any ASCII text of up to max characters.
func text(name string, max int) string {
	n := vrt.Choose(name+" length", max+1)
	s := vrt.String(name, n)
	for i := 0; i < n; i++ {
		vrt.Assume(s[i] < 0x80)
	}
	return s
}

// wide is text of characters of any of the lengths UTF-8 has, of which
// several share a first byte.
func wide(name string, max int) string {
	n := vrt.Choose(name+" length", max+1)
	s := ""
	for i := 0; i < n; i++ {
		low := 0x80 | byte(vrt.Bits(name, 6))
		switch vrt.Choose(name+" kind", 3) {
		case 0:
			s += string([]byte{low & 0x3f})
		case 1:
			s += string([]byte{0xc3, low})
		case 2:
			s += string([]byte{0xe2, 0x82, low})
		}
	}
	return s
}

func checkTrie(keys []string, probe string) {
	t := vdisc.NewTrieMap()
	for i, k := range keys {
		t.Put(k, iso9660.LogicalBlockAddress(i*7))
		v, ok := t.Get(k)
		vrt.Assert(ok && int(v) == i*7, "a key just stored has its value")
	}
	last := func(s string) int {
		at := -1
		for i, k := range keys {
			if vrt.Decide(vrt.EqString(k, s)) {
				at = i
			}
		}
		return at
	}
	at := last(probe)
	v, ok := t.Get(probe)
	vrt.Assert(ok == (at >= 0), "exactly the stored keys are present")
	if ok {
		vrt.Assert(int(v) == at*7, "a key has the value stored last")
		vrt.Cover("present")
	} else {
		vrt.Cover("absent")
	}

	branches, leaves := t.Invert()
	distinct := 0
	for i, k := range keys {
		if last(k) != i {
			vrt.Cover("stored again")
			continue
		}
		distinct++
		v, ok := t.Get(k)
		vrt.Assert(ok && int(v) == i*7, "every key has the value stored last")
		leaf, ok := leaves[iso9660.LogicalBlockAddress(i*7)]
		vrt.Assert(ok, "every stored key has a leaf")
		uri := leaf.Content
		parent := leaf.Parent
		for steps := 0; ; steps++ {
			vrt.Assert(parent >= 0 && parent < len(branches) && steps < 12, "the chain of a leaf ends")
			uri = branches[parent].Content + uri
			if branches[parent].Parent == parent {
				break
			}
			parent = branches[parent].Parent
		}
		vrt.Assert(vrt.EqString(uri, k), "the chain of a leaf spells its key")
	}
	vrt.Assert(len(leaves) == distinct, "there are no other leaves")
}

// V02Put stores keys of single-byte characters.
func V02Put() {
	var keys []string
	n := vrt.Param("keys", 3, 4)
	for i := 0; i < n; i++ {
		keys = append(keys, text("key", vrt.Param("length", 3, 3)))
	}
	checkTrie(keys, text("probe", vrt.Param("probe", 3, 4)))
}

// V02Wide stores keys with characters of several bytes.
func V02Wide() {
	var keys []string
	n := vrt.Param("keys", 2, 3)
	for i := 0; i < n; i++ {
		keys = append(keys, wide("key", vrt.Param("length", 3, 3)))
	}
	checkTrie(keys, wide("probe", 2))
}
