package iso9660

import (
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// I09Identifiers compares the identifiers of any two entries of a directory.
func I09Identifiers() {
	a, b := vrt.U64("a"), vrt.U64("b")
	vrt.Assume(a != b)
	x := (&IdentifierAllocator{count: a}).Next()
	y := (&IdentifierAllocator{count: b}).Next()
	vrt.Assert(!vrt.EqString(x, y), "two entries have different identifiers")
	// files get a suffix, directories do not
	vrt.Assert(!vrt.EqString(x+";1", y), "a file and a directory have different identifiers")
	vrt.Assert(len(x) >= 1 && len(x) <= 28, "an identifier has a legal length")
	ok := true
	for i := 0; i < len(x); i++ {
		c := x[i]
		ok = vrt.And(ok, vrt.Or(vrt.And(c >= 'A', c <= 'Z'), vrt.Or(vrt.And(c >= '0', c <= '9'), c == '_')))
	}
	vrt.Assert(ok, "an identifier has legal characters")
	vrt.Cover("identifiers")
}

// I09Step checks that an allocator moves on.
func I09Step() {
	a := vrt.U64("a")
	vrt.Assume(a < 1<<63)
	ia := &IdentifierAllocator{count: a}
	ia.Next()
	x := ia.Next()
	y := (&IdentifierAllocator{count: a + 1}).Next()
	vrt.Assert(vrt.EqString(x, y), "an allocator counts its entries")
	fresh := NewIdentifierAllocator()
	vrt.Assert(fresh.Next() != fresh.Next(), "a new allocator gives different identifiers")
	vrt.Cover("step")
}

// I09Inodes takes inode numbers from any state of an allocator.
func I09Inodes() {
	ia := &inodeAllocator{next: InodeNumber(vrt.U32("next"))}
	vrt.Assume(ia.next != 0)
	last := uint64(ia.next) - 1
	failed := false
	for i := 0; i < 4; i++ {
		n, err := ia.Next()
		if vrt.Decide(err != nil) {
			vrt.Assert(err == ErrInodesExhausted, "an exhausted allocator says so")
			vrt.Assert(last == 1<<32-1, "an allocator gives out every number")
			failed = true
			vrt.Cover("exhausted")
			continue
		}
		vrt.Assert(!failed, "an exhausted allocator stays exhausted")
		vrt.Assert(uint64(n) == last+1, "inode numbers are given out in order, once")
		last = uint64(n)
	}
	n, err := NewInodeAllocator().Next()
	vrt.Assert(err == nil && n == 1, "the first inode number is 1")
	vrt.Cover("inodes")
}

// I09Volume adds entries to a volume that may run out of inode numbers.
func I09Volume() {
	v := NewVolume()
	vrt.Assert(v.root.InodeNumber() == 1, "the root has inode number 1")
	next := InodeNumber(vrt.U32("next"))
	vrt.Assume(next > 1)
	v.inodeAlloc = &inodeAllocator{next: next}
	left := 1<<32 - uint64(next)
	seen := []InodeNumber{1}
	used := uint64(0)
	for i, p := range []string{"/a", "/d/e/b", "/d/c", "/l"} {
		var err error
		need := uint64(1)
		if i == 3 {
			err = v.AddSymlink(p, "a")
		} else {
			err = v.AddFile(p, &fake.Obj{Name: p, Len: 1})
		}
		if i == 1 {
			need = 3
		}
		used += need
		if vrt.Decide(used <= left) {
			vrt.Assert(err == nil, "an addition succeeds while there are inode numbers")
			vrt.Cover("added")
		} else {
			vrt.Assert(err != nil, "an addition fails when inode numbers run out")
			vrt.Cover("refused")
			break
		}
	}
	v.root.VisitDirectories(func(rel Relationship) error {
		if !rel.Child.IsRoot() {
			seen = append(seen, rel.Child.InodeNumber())
		}
		it := rel.Child.(*DirectoryInode).children.Iterator()
		for it.Next() {
			if c := it.Value().(*dirEntry).child; c.Type() != InodeTypeDirectory {
				seen = append(seen, c.InodeNumber())
			}
		}
		return nil
	})
	for i := range seen {
		for j := 0; j < i; j++ {
			vrt.Assert(seen[i] != seen[j], "no two entries share an inode number")
		}
	}
}
