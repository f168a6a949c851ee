package blockdev

import (
	"bytes"
	"errors"
	"io"
	"reflect"
	"unsafe"

	"github.com/tnarg/go-tcmu"
	"github.com/tnarg/go-tcmu/scsi"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// zzCmd has the layout of a command.
type zzCmd struct {
	id        uint16
	cdb       []byte
	vecs      [][]byte
	offset    int
	vecoffset int
	device    *tcmu.Device
	Buf       []byte
}

// zzDevice starts like a device.
type zzDevice struct {
	scsi *tcmu.SCSIHandler
	rest [64]uint64
}

// zzImage is an image some of whose reads fail.
type zzImage struct {
	*bytes.Reader
	fail  bool
	reads int
}

func (m *zzImage) ReadAt(p []byte, off int64) (int, error) {
	m.reads++
	if m.fail {
		return 0, errors.New("fault")
	}
	return m.Reader.ReadAt(p, off)
}

// B02Read handles any command on a small image.
func B02Read() {
	const block = 2
	blocks := vrt.Param("blocks", 3, 4)
	data := vrt.Bytes("image", blocks*block)
	img := &zzImage{Reader: bytes.NewReader(data), fail: vrt.Bool("read fails")}
	h := &tcmu.SCSIHandler{VolumeName: "v", DataSizes: tcmu.DataSizes{VolumeSize: int64(len(data)), BlockSize: block}}
	dev := &zzDevice{scsi: h}
	op := vrt.U8("operation")
	cdb := vrt.Bytes("command", 16)
	cdb[0] = op
	var lba uint64
	var count uint32
	read := true
	be := func(b []byte) uint64 {
		var v uint64
		for _, c := range b {
			v = v<<8 | uint64(c)
		}
		return v
	}
	switch op {
	case scsi.Read10:
		lba, count = be(cdb[2:6]), uint32(be(cdb[7:9]))
	case scsi.Read12:
		lba, count = be(cdb[2:6]), uint32(be(cdb[6:10]))
	case scsi.Read16:
		lba, count = be(cdb[2:10]), uint32(be(cdb[10:14]))
	default:
		read = false
		vrt.Assume(op != scsi.Read6)
		vrt.Assume(op == scsi.TestUnitReady || op == scsi.ServiceActionIn16 || op == scsi.Write6 || op == scsi.Write10 || op == scsi.Write12 || op == scsi.Write16 || op == 0x35 || op == 0x42)
	}
	vrt.Assume(lba <= uint64(blocks)+1 || lba == 1<<31)
	vrt.Assume(count <= uint32(blocks)+1)
	size := int(vrt.Pick(int(count), 0, blocks+1)) * block
	if !read {
		size = 32
	}
	old := vrt.Bytes("buffer", size)
	vecs := [][]byte{append([]byte(nil), old...)}
	if size == 0 {
		vecs = nil
	} else if vrt.Bool("two buffers") {
		cut := 1
		vecs = [][]byte{append([]byte(nil), old[:cut]...), append([]byte(nil), old[cut:]...)}
	}
	cmd := (*tcmu.SCSICmd)(unsafe.Pointer(&zzCmd{cdb: cdb, vecs: vecs, device: (*tcmu.Device)(unsafe.Pointer(dev)), Buf: make([]byte, 2)}))
	resp, err := readerAtCmdHandler{R: img}.HandleCommand(cmd)
	vrt.Assert(err == nil, "a command is answered")
	got := bytes.Join(vecs, nil)
	ok := reflect.DeepEqual(resp, cmd.Ok())
	switch {
	case read:
		inside := lba <= uint64(blocks) && lba+uint64(count) <= uint64(blocks)
		if ok {
			vrt.Cover("read")
			if count == 0 {
				vrt.Stop()
			}
			vrt.Assert(inside, "a read outside the image fails")
			vrt.Assert(!img.fail, "a failed read is reported")
			off := int(vrt.Pick(int(lba), 0, blocks))
			vrt.Assert(vrt.EqBytes(got, data[off*block:off*block+size]), "a read gives the bytes of the image")
		} else {
			vrt.Cover("read refused")
			vrt.Assert(!inside || img.fail, "a read inside the image succeeds")
		}
	case op == scsi.TestUnitReady:
		vrt.Assert(ok, "the device is ready")
	case op == scsi.ServiceActionIn16:
		if ok {
			vrt.Cover("capacity")
			vrt.Assert(cdb[1] == scsi.ReadCapacity16, "unknown actions are refused")
			vrt.Assert(be(got[0:8]) == uint64(blocks-1) && be(got[8:12]) == block, "the capacity is that of the image")
		} else {
			vrt.Assert(cdb[1] != scsi.ReadCapacity16, "the capacity is known")
		}
	default:
		vrt.Cover("refused")
		vrt.Assert(!ok, "writes and unknown commands are refused")
		vrt.Assert(vrt.EqBytes(got, old), "a refused command changes no buffer")
		vrt.Assert(img.reads == 0, "a refused command reads nothing")
	}
	var _ io.ReaderAt = img
}
