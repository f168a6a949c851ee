// Package iso has the harnesses of the ISO 9660 packages.
package iso

import (
	"bytes"
	"os"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

func le16(b []byte) uint16 { return uint16(b[0]) | uint16(b[1])<<8 }
func be16(b []byte) uint16 { return uint16(b[1]) | uint16(b[0])<<8 }
func le32(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}
func be32(b []byte) uint32 {
	return uint32(b[3]) | uint32(b[2])<<8 | uint32(b[1])<<16 | uint32(b[0])<<24
}

// printable returns n symbolic printable ASCII bytes other than '/'.
func printable(name string, n int) string {
	b := vrt.Bytes(name, n)
	for _, c := range b {
		vrt.Assume(vrt.And(vrt.And(c >= 0x20, c < 0x7f), c != '/'))
	}
	return string(b)
}

func ascii(name string, n int) string {
	b := vrt.Bytes(name, n)
	for _, c := range b {
		vrt.Assume(c < 0x80)
	}
	return string(b)
}

const nKinds = 10

// anyEntry builds one system-use entry of every kind with arbitrary fields.
func anyEntry(kind int) susp.SystemUseEntry {
	switch kind {
	case 0:
		return susp.NewSharingProtocolEntry(vrt.U8("skip"))
	case 1:
		return susp.NewTerminatorEntry()
	case 2:
		return susp.NewContinuationAreaEntry(vrt.U32("ce.start"), vrt.U32("ce.off"), vrt.U32("ce.len"))
	case 3:
		e, err := susp.NewExtensionsReferenceEntry(vrt.U8("er.version"), vrt.String("er.id", vrt.Choose("er.idlen", 3)), vrt.String("er.desc", vrt.Choose("er.desclen", 2)), vrt.String("er.src", vrt.Choose("er.srclen", 3)))
		vrt.Assert(err == nil, "extension reference is accepted")
		return e
	case 4:
		e, err := rrip.NewNamePart(printable("nm", 1+vrt.Choose("nm.len", 3)), vrt.Bool("nm.cont"))
		vrt.Assert(err == nil, "name part is accepted")
		return e
	case 5:
		return &rrip.PosixEntry{Mode: os.FileMode(vrt.U32("px.mode")), Nlink: vrt.U32("px.nlink"), Uid: vrt.U32("px.uid"), Gid: vrt.U32("px.gid"), Ino: vrt.U32("px.ino")}
	case 6:
		e, err := rrip.NewSymlinkPart(rrip.SymlinkComponentFlag(vrt.Bits("sl.flags", 1)), vrt.String("sl.data", vrt.Choose("sl.len", 3)), vrt.Bool("sl.cont"))
		vrt.Assert(err == nil, "symlink part is accepted")
		return e
	case 7:
		fl := []rrip.SymlinkComponentFlag{rrip.SymlinkComponentFlagCurrent, rrip.SymlinkComponentFlagParent, rrip.SymlinkComponentFlagRoot}
		e, _ := rrip.NewSymlinkPart(fl[vrt.Choose("sl.kind", 3)], "", vrt.Bool("sl.cont"))
		return e
	case 8, 9:
		ts := &rrip.Timestamps{LongForm: kind == 9}
		mask := vrt.Choose("tf.mask", 128)
		if kind == 9 {
			// long form: at most three stamps fit a record
			vrt.Assume(mask&(mask-1)&((mask&(mask-1))-1) == 0)
		}
		at := func(i int) *time.Time {
			if mask&(1<<uint(i)) == 0 {
				return nil
			}
			t := time.Date(1980+7*i, time.Month(1+i), 2+i, 3+i, 4+i, 5+i, 0, time.UTC)
			return &t
		}
		ts.Created, ts.Modified, ts.Access, ts.Attributes = at(0), at(1), at(2), at(3)
		ts.Backup, ts.Expiration, ts.Effective = at(4), at(5), at(6)
		return ts
	}
	panic("kind")
}

func sameTime(a, b *time.Time) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	return a.Equal(*b)
}

func encode(e susp.SystemUseEntry) []byte {
	var b bytes.Buffer
	n, err := e.WriteTo(&b)
	vrt.Assert(err == nil, "an entry encodes")
	vrt.Assert(int(n) == b.Len(), "an entry reports the bytes it wrote")
	return b.Bytes()
}

// sameEntry compares an encoded entry with the decoded one.
func sameEntry(a, b susp.SystemUseEntry) {
	vrt.Assert(a.Len() == b.Len(), "the decoded entry has the same length")
	vrt.Assert(vrt.EqBytes(encode(a), encode(b)), "the decoded entry encodes to the same bytes")
	switch x := a.(type) {
	case *susp.SharingProtocolEntry:
		_, ok := b.(*susp.SharingProtocolEntry)
		vrt.Assert(ok, "entry kind SP")
	case *susp.TerminatorEntry:
		_, ok := b.(*susp.TerminatorEntry)
		vrt.Assert(ok, "entry kind ST")
	case *susp.ExtensionsReferenceEntry:
		_, ok := b.(*susp.ExtensionsReferenceEntry)
		vrt.Assert(ok, "entry kind ER")
	case *susp.ContinuationAreaEntry:
		y, ok := b.(*susp.ContinuationAreaEntry)
		vrt.Assert(ok, "entry kind CE")
		vrt.Assert(x.ContinuationStart() == y.ContinuationStart(), "CE start")
		vrt.Assert(x.ContinuationOffset() == y.ContinuationOffset(), "CE offset")
		vrt.Assert(x.ContinuationLength() == y.ContinuationLength(), "CE length")
	case *rrip.Name:
		y, ok := b.(*rrip.Name)
		vrt.Assert(ok, "entry kind NM")
		vrt.Assert(vrt.EqString(x.Data(), y.Data()), "NM data")
		vrt.Assert(x.Continue() == y.Continue(), "NM continue flag")
	case *rrip.PosixEntry:
		y, ok := b.(*rrip.PosixEntry)
		vrt.Assert(ok, "entry kind PX")
		vrt.Assert(x.Mode == y.Mode, "PX mode")
		vrt.Assert(x.Nlink == y.Nlink, "PX links")
		vrt.Assert(x.Uid == y.Uid, "PX uid")
		vrt.Assert(x.Gid == y.Gid, "PX gid")
		vrt.Assert(x.Ino == y.Ino, "PX inode")
	case *rrip.Symlink:
		y, ok := b.(*rrip.Symlink)
		vrt.Assert(ok, "entry kind SL")
		xc, yc := x.Component(), y.Component()
		vrt.Assert(xc.Flags() == yc.Flags(), "SL component flags")
		vrt.Assert(vrt.EqString(xc.Data(), yc.Data()), "SL component data")
		vrt.Assert(x.Continue() == y.Continue(), "SL continue flag")
	case *rrip.Timestamps:
		y, ok := b.(*rrip.Timestamps)
		vrt.Assert(ok, "entry kind TF")
		vrt.Assert(x.LongForm == y.LongForm, "TF form")
		vrt.Assert(sameTime(x.Created, y.Created), "TF created")
		vrt.Assert(sameTime(x.Modified, y.Modified), "TF modified")
		vrt.Assert(sameTime(x.Access, y.Access), "TF access")
		vrt.Assert(sameTime(x.Attributes, y.Attributes), "TF attributes")
		vrt.Assert(sameTime(x.Backup, y.Backup), "TF backup")
		vrt.Assert(sameTime(x.Expiration, y.Expiration), "TF expiration")
		vrt.Assert(sameTime(x.Effective, y.Effective), "TF effective")
	}
}

// I03Entries decodes every kind of system-use entry alone and in pairs.
func I03Entries() {
	n := 1 + vrt.Choose("n", 2)
	var es []susp.SystemUseEntry
	total := 0
	for i := 0; i < n; i++ {
		k := vrt.Choose("kind", nKinds)
		if n == 2 && i == 1 && vrt.Param("pairs", 0, 1) == 0 {
			vrt.Assume(k == 5 || k == 0)
		}
		e := anyEntry(k)
		es = append(es, e)
		total += e.Len()
	}
	vrt.Assume(total <= 200)
	var buf bytes.Buffer
	for _, e := range es {
		b := encode(e)
		vrt.Assert(len(b) == e.Len(), "an entry has the length it reports")
		vrt.Assert(int(b[2]) == len(b), "an entry carries its length")
		vrt.Assert(b[3] == 1, "an entry carries version 1")
		buf.Write(b)
	}
	got, err := iso9660.DecodeSystemUseEntries(bytes.NewReader(buf.Bytes()))
	vrt.Assert(err == nil, "encoded entries decode")
	vrt.Assert(len(got) == n, "as many entries decode as were encoded")
	for i := range es {
		sameEntry(es[i], got[i])
	}
	vrt.Cover("entries decoded")
	vrt.Observe("entries", buf.Bytes())
}

// I03Record round-trips whole records.
func I03Record() {
	idLen := 1 + vrt.Choose("idlen", vrt.Param("idlen", 18, 30))
	rec := iso9660.DirectoryRecord{
		Identifier:               vrt.String("id", idLen),
		Start:                    iso9660.LogicalBlockAddress(vrt.U32("start")),
		Length:                   vrt.U32("length"),
		Flags:                    iso9660.FileFlag(vrt.U8("flags")),
		Recorded:                 time.Date(2019, 2, 28, 23, 59, 58, 0, time.UTC),
		ExtendedAttrRecordLength: vrt.U8("xattr"),
		FileUnitSize:             vrt.U8("unit"),
		InterleaveGap:            vrt.U8("gap"),
		VolumeID:                 vrt.U16("volume"),
	}
	switch vrt.Choose("su", 4) {
	case 1:
		rec.SystemUse = append(rec.SystemUse, anyEntry(5))
	case 2:
		rec.SystemUse = append(rec.SystemUse, anyEntry(4), anyEntry(2))
	case 3:
		rec.SystemUse = append(rec.SystemUse, anyEntry(6), anyEntry(0))
	}
	var buf bytes.Buffer
	n, err := rec.WriteTo(&buf)
	b := buf.Bytes()
	vrt.Assert(err == nil, "a record encodes")
	vrt.Assert(int(n) == len(b), "a record reports the bytes it wrote")
	vrt.Assert(rec.Len() == len(b), "a record has the length it reports")
	vrt.Assert(int(b[0]) == len(b), "a record carries its length")
	// the positions of the standard
	vrt.Assert(b[1] == rec.ExtendedAttrRecordLength, "extended attribute length is at byte 1")
	vrt.Assert(vrt.And(le32(b[2:]) == uint32(rec.Start), be32(b[6:]) == uint32(rec.Start)), "start is both-endian at byte 2")
	vrt.Assert(vrt.And(le32(b[10:]) == rec.Length, be32(b[14:]) == rec.Length), "length is both-endian at byte 10")
	vrt.Assert(b[25] == byte(rec.Flags), "flags are at byte 25")
	vrt.Assert(vrt.And(b[26] == rec.FileUnitSize, b[27] == rec.InterleaveGap), "interleave fields are at bytes 26, 27")
	vrt.Assert(vrt.And(le16(b[28:]) == rec.VolumeID, be16(b[30:]) == rec.VolumeID), "volume is both-endian at byte 28")
	vrt.Assert(int(b[32]) == idLen, "identifier length is at byte 32")
	vrt.Assert(vrt.EqString(string(b[33:33+idLen]), rec.Identifier), "identifier is at byte 33")
	su := 33 + idLen
	if idLen%2 == 0 {
		vrt.Assert(b[su] == 0, "an even identifier is padded")
		su++
	}
	rest := b[su:]
	for _, e := range rec.SystemUse {
		eb := encode(e)
		vrt.Assert(len(rest) >= len(eb) && vrt.EqBytes(rest[:len(eb)], eb), "system use entries follow the identifier")
		rest = rest[len(eb):]
	}

	var got iso9660.DirectoryRecord
	err = iso9660.DecodeDirectoryRecord(bytes.NewReader(b[1:]), &got)
	vrt.Assert(err == nil, "an encoded record decodes")
	vrt.Assert(vrt.EqString(got.Identifier, rec.Identifier), "identifier round trip")
	vrt.Assert(got.Start == rec.Start, "start round trip")
	vrt.Assert(got.Length == rec.Length, "length round trip")
	vrt.Assert(got.Flags == rec.Flags, "flags round trip")
	vrt.Assert(got.Recorded.Equal(rec.Recorded), "recording time round trip")
	vrt.Assert(got.ExtendedAttrRecordLength == rec.ExtendedAttrRecordLength, "extended attribute length round trip")
	vrt.Assert(got.FileUnitSize == rec.FileUnitSize, "file unit size round trip")
	vrt.Assert(got.InterleaveGap == rec.InterleaveGap, "interleave gap round trip")
	vrt.Assert(got.VolumeID == rec.VolumeID, "volume round trip")
	vrt.Assert(len(got.SystemUse) == len(rec.SystemUse), "system use entries round trip")
	for i := range got.SystemUse {
		sameEntry(rec.SystemUse[i], got.SystemUse[i])
	}
	vrt.Cover("record decoded")
	vrt.Observe("record", b)
}

// I03Long encodes and decodes records with identifiers of every length that
// is allowed and of lengths that are not.
func I03Long() {
	idLen := vrt.Concretize(vrt.Range("idlen", 1, vrt.Param("identifier", 40, 250)))
	id := []byte(strings.Repeat("I", idLen))
	id[0], id[idLen-1] = vrt.U8("id"), vrt.U8("id")
	rec := iso9660.DirectoryRecord{
		Identifier: string(id),
		Start:      iso9660.LogicalBlockAddress(vrt.U32("start")),
		Length:     vrt.U32("length"),
		Recorded:   time.Date(2019, 2, 28, 23, 59, 58, 0, time.UTC),
		VolumeID:   vrt.U16("volume"),
	}
	e, err := rrip.NewNamePart("nn", false)
	vrt.Assert(err == nil, "a name part is accepted")
	rec.SystemUse = append(rec.SystemUse, e)
	var buf bytes.Buffer
	n, err := rec.WriteTo(&buf)
	b := buf.Bytes()
	if idLen > iso9660.MaxDirectoryRecordIdentifierLen {
		vrt.Assert(err != nil && n == 0 && len(b) == 0, "an identifier that is too long is refused")
		vrt.Cover("refused")
		return
	}
	vrt.Assert(err == nil && int(n) == len(b), "a record encodes")
	vrt.Assert(rec.Len() == len(b) && int(b[0]) == len(b), "a record has the length it reports")
	var got iso9660.DirectoryRecord
	err = iso9660.DecodeDirectoryRecord(bytes.NewReader(b[1:]), &got)
	vrt.Assert(err == nil, "an encoded record decodes")
	vrt.Assert(vrt.EqString(got.Identifier, rec.Identifier), "identifier round trip")
	vrt.Assert(vrt.And(got.Start == rec.Start, vrt.And(got.Length == rec.Length, got.VolumeID == rec.VolumeID)), "fields round trip")
	vrt.Assert(len(got.SystemUse) == len(rec.SystemUse), "system use entries round trip")
	for i := range got.SystemUse {
		sameEntry(rec.SystemUse[i], got.SystemUse[i])
	}
	vrt.Cover("record decoded")
}
