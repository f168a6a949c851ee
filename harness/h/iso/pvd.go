package iso

import (
	"bytes"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

func anyPVD() *iso9660.PrimaryVolumeDescriptor {
	at := time.Date(2019, 12, 31, 23, 59, 58, 0, time.UTC)
	return &iso9660.PrimaryVolumeDescriptor{
		VolumeSpaceSize:      vrt.U32("space"),
		VolumeSetSize:        vrt.U16("setsize"),
		VolumeSequenceNumber: vrt.U16("sequence"),
		PathTableSize:        vrt.U32("tablesize"),
		LTableStart:          iso9660.LogicalBlockAddress(vrt.U32("ltable")),
		OptionalLTableStart:  iso9660.LogicalBlockAddress(vrt.U32("oltable")),
		MTableStart:          iso9660.LogicalBlockAddress(vrt.U32("mtable")),
		OptionalMTableStart:  iso9660.LogicalBlockAddress(vrt.U32("omtable")),
		RootStart:            iso9660.LogicalBlockAddress(vrt.U32("root")),
		RootLength:           vrt.U32("rootlen"),
		RootModified:         at,
		Created:              at.Add(time.Hour),
		Modified:             at.Add(2 * time.Hour),
		Effective:            at.Add(3 * time.Hour),
	}
}

type idField struct {
	s     *string
	off   int
	width int
	d     bool // d-characters only
}

func idFields(p *iso9660.PrimaryVolumeDescriptor) []idField {
	return []idField{
		{&p.SystemIdentifier, 8, 32, false},
		{&p.VolumeIdentifier, 40, 32, true},
		{&p.VolumeSetIdentifier, 190, 128, true},
		{&p.PublisherIdentifier, 318, 128, false},
		{&p.DataPreparerIdentifier, 446, 128, false},
		{&p.ApplicationIdentifier, 574, 128, false},
		{&p.CopyrightFileIdentifier, 702, 38, true},
		{&p.AbstractFileIdentifier, 740, 36, true},
		{&p.BibliographicFileIdentifier, 776, 37, true},
	}
}

// permitted is the character set of a-characters (without the space) or
// d-characters.
func permitted(c byte, d bool) bool {
	dc := vrt.Or(vrt.And(c >= 'A', c <= 'Z'), vrt.Or(vrt.And(c >= '0', c <= '9'), c == '_'))
	if d {
		return dc
	}
	return vrt.Or(dc, vrt.Or(vrt.Or(c == '!', c == '"'), vrt.Or(vrt.And(c >= '%', c <= '/'), vrt.And(c >= ':', c <= '?'))))
}

// I07Descriptor encodes and decodes descriptors.
func I07Descriptor() {
	p := anyPVD()
	fs := idFields(p)
	for i := range fs {
		*fs[i].s = "F" + string([]byte{'0' + byte(i)})
	}
	k := vrt.Choose("field", len(fs))
	f := fs[k]
	n := []int{0, 1, 3, f.width - 1, f.width, f.width + 1, f.width + 9}[vrt.Choose("len", 7)]
	b := []byte(strings.Repeat("q", n))
	for _, i := range []int{0, f.width - 2, f.width - 1, f.width} {
		if i < n {
			b[i] = vrt.U8("char")
			vrt.Assume(b[i] < 0x80)
		}
	}
	*f.s = string(b)
	var buf bytes.Buffer
	m, err := p.WriteTo(&buf)
	vrt.Assert(err == nil && m == 2048 && buf.Len() == 2048, "a descriptor is one sector")
	out := buf.Bytes()
	vrt.Assert(out[0] == 1 && string(out[1:6]) == "CD001" && out[6] == 1, "a descriptor has its header")
	field := out[f.off : f.off+f.width]
	want := make([]byte, 0, f.width)
	for i, c := range b {
		if i == f.width {
			break
		}
		u := vrt.IteU8(vrt.And(c >= 'a', c <= 'z'), c-32, c)
		ok := permitted(u, f.d)
		vrt.Assert(vrt.Or(vrt.Implies(ok, field[i] == u), false), "permitted characters are kept in upper case")
		vrt.Assert(vrt.Or(permitted(field[i], f.d), field[i] == '_'), "an identifier has only permitted characters")
		want = append(want, field[i])
	}
	for i := len(b); i < f.width; i++ {
		vrt.Assert(field[i] == ' ', "an identifier is padded with spaces")
	}
	var q iso9660.PrimaryVolumeDescriptor
	err = iso9660.DecodePrimaryVolumeDescriptor(bytes.NewReader(out), &q)
	vrt.Assert(err == nil, "a descriptor decodes")
	vrt.Assert(vrt.And(p.VolumeSpaceSize == q.VolumeSpaceSize, p.PathTableSize == q.PathTableSize), "sizes decode")
	vrt.Assert(vrt.And(p.VolumeSetSize == q.VolumeSetSize, p.VolumeSequenceNumber == q.VolumeSequenceNumber), "set numbers decode")
	vrt.Assert(vrt.And(p.LTableStart == q.LTableStart, p.MTableStart == q.MTableStart), "table addresses decode")
	vrt.Assert(vrt.And(p.OptionalLTableStart == q.OptionalLTableStart, p.OptionalMTableStart == q.OptionalMTableStart), "optional table addresses decode")
	vrt.Assert(vrt.And(p.RootStart == q.RootStart, p.RootLength == q.RootLength), "the root extent decodes")
	vrt.Assert(p.RootModified.Equal(q.RootModified) && p.Created.Equal(q.Created) && p.Modified.Equal(q.Modified) && p.Effective.Equal(q.Effective), "dates decode")
	for i, g := range idFields(&q) {
		if i == k {
			vrt.Assert(len(*g.s) == len(want) && vrt.EqString(*g.s, string(want)), "an identifier decodes to its normal form")
		} else {
			vrt.Assert(*g.s == *fs[i].s, "the other identifiers decode")
		}
	}
	// the same positions a reader of the standard uses
	vrt.Assert(vrt.And(le32(out[80:]) == p.VolumeSpaceSize, be32(out[84:]) == p.VolumeSpaceSize), "the volume size is at its place")
	vrt.Assert(vrt.And(le32(out[140:]) == uint32(p.LTableStart), be32(out[148:]) == uint32(p.MTableStart)), "the table addresses are at their places")
	vrt.Assert(vrt.And(le32(out[158:]) == uint32(p.RootStart), le32(out[166:]) == p.RootLength), "the root record is at its place")
	vrt.Cover("descriptor")
	vrt.Observe("field", field)
}

// I07Mismatch changes one byte of a both-endian number.
func I07Mismatch() {
	p := anyPVD()
	var buf bytes.Buffer
	_, err := p.WriteTo(&buf)
	vrt.Assert(err == nil, "a descriptor is encoded")
	out := buf.Bytes()
	spans := [][2]int{{80, 8}, {120, 4}, {124, 4}, {128, 4}, {132, 8}, {158, 8}, {166, 8}, {184, 4}}
	s := spans[vrt.Choose("number", len(spans))]
	i := s[0] + vrt.Choose("byte", s[1])
	c := vrt.U8("changed")
	vrt.Assume(c != out[i])
	out[i] = c
	var q iso9660.PrimaryVolumeDescriptor
	vrt.Assert(iso9660.DecodePrimaryVolumeDescriptor(bytes.NewReader(out), &q) != nil, "a descriptor whose copies of a number disagree is rejected")
	vrt.Cover("mismatch")
}

// I07Text normalises arbitrary bytes.
func I07Text() {
	s := vrt.String("s", vrt.Choose("len", vrt.Param("bytes", 2, 3)+1))
	w := 1 + vrt.Choose("width", 5)
	a, d := iso9660.StrA(s, w), iso9660.StrD(s, w)
	vrt.Assert(len(a) == w && len(d) == w, "a normalised identifier has its width")
	for i := 0; i < w; i++ {
		vrt.Assert(vrt.Or(permitted(a[i], false), a[i] == ' '), "a normalised identifier has only a-characters")
		vrt.Assert(vrt.Or(permitted(d[i], true), d[i] == ' '), "a normalised identifier has only d-characters")
	}
	vrt.Cover("text")
}
