// Package misc has the harnesses of the utility packages.
package misc

import (
	"github.com/NVIDIA/vdisc/pkg/safecast"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// parts is a number as sign and 64 low bits, so that values of every integer
// type can be compared as mathematical integers.
func sparts(v int64) (bool, uint64)  { return v < 0, uint64(v) }
func uparts(v uint64) (bool, uint64) { return false, v }

func signedFits(v int64, bits uint) bool {
	lo := int64(-1) << (bits - 1)
	return vrt.And(lo <= v, v <= ^lo)
}

func unsignedFits(neg bool, v uint64, bits uint) bool {
	if bits == 64 {
		return !neg
	}
	return vrt.And(!neg, v>>bits == 0)
}

func judge(panicked, fits, same bool, label string) {
	vrt.Assert(vrt.Implies(fits, !panicked), label+" rejects a representable value")
	vrt.Assert(vrt.Implies(!panicked, vrt.And(fits, same)), label+" changes the value")
	vrt.Observe(label, panicked)
}

// X01Safecast checks every conversion for every value of its source type.
func X01Safecast() {
	vrt.Cover("conversions")
	switch vrt.Choose("function", 60) {
	case 0:
		v := vrt.I8("v")
		var r uint
		p := vrt.Panics(func() { r = safecast.Int8ToUint(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int8ToUint")
	case 1:
		v := vrt.I8("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Int8ToUint8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Int8ToUint8")
	case 2:
		v := vrt.I8("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Int8ToUint16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Int8ToUint16")
	case 3:
		v := vrt.I8("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.Int8ToUint32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "Int8ToUint32")
	case 4:
		v := vrt.I8("v")
		var r uint64
		p := vrt.Panics(func() { r = safecast.Int8ToUint64(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int8ToUint64")
	case 5:
		v := vrt.I16("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Int16ToInt8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 8), vrt.And(vneg == rneg, vlow == rlow), "Int16ToInt8")
	case 6:
		v := vrt.I16("v")
		var r uint
		p := vrt.Panics(func() { r = safecast.Int16ToUint(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int16ToUint")
	case 7:
		v := vrt.I16("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Int16ToUint8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Int16ToUint8")
	case 8:
		v := vrt.I16("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Int16ToUint16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Int16ToUint16")
	case 9:
		v := vrt.I16("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.Int16ToUint32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "Int16ToUint32")
	case 10:
		v := vrt.I16("v")
		var r uint64
		p := vrt.Panics(func() { r = safecast.Int16ToUint64(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int16ToUint64")
	case 11:
		v := vrt.I32("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Int32ToInt8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 8), vrt.And(vneg == rneg, vlow == rlow), "Int32ToInt8")
	case 12:
		v := vrt.I32("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.Int32ToInt16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 16), vrt.And(vneg == rneg, vlow == rlow), "Int32ToInt16")
	case 13:
		v := vrt.I32("v")
		var r uint
		p := vrt.Panics(func() { r = safecast.Int32ToUint(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int32ToUint")
	case 14:
		v := vrt.I32("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Int32ToUint8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Int32ToUint8")
	case 15:
		v := vrt.I32("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Int32ToUint16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Int32ToUint16")
	case 16:
		v := vrt.I32("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.Int32ToUint32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "Int32ToUint32")
	case 17:
		v := vrt.I32("v")
		var r uint64
		p := vrt.Panics(func() { r = safecast.Int32ToUint64(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int32ToUint64")
	case 18:
		v := vrt.I64("v")
		var r int
		p := vrt.Panics(func() { r = safecast.Int64ToInt(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 64), vrt.And(vneg == rneg, vlow == rlow), "Int64ToInt")
	case 19:
		v := vrt.I64("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Int64ToInt8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 8), vrt.And(vneg == rneg, vlow == rlow), "Int64ToInt8")
	case 20:
		v := vrt.I64("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.Int64ToInt16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 16), vrt.And(vneg == rneg, vlow == rlow), "Int64ToInt16")
	case 21:
		v := vrt.I64("v")
		var r int32
		p := vrt.Panics(func() { r = safecast.Int64ToInt32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 32), vrt.And(vneg == rneg, vlow == rlow), "Int64ToInt32")
	case 22:
		v := vrt.I64("v")
		var r uint
		p := vrt.Panics(func() { r = safecast.Int64ToUint(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int64ToUint")
	case 23:
		v := vrt.I64("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Int64ToUint8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Int64ToUint8")
	case 24:
		v := vrt.I64("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Int64ToUint16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Int64ToUint16")
	case 25:
		v := vrt.I64("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.Int64ToUint32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "Int64ToUint32")
	case 26:
		v := vrt.I64("v")
		var r uint64
		p := vrt.Panics(func() { r = safecast.Int64ToUint64(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Int64ToUint64")
	case 27:
		v := vrt.Int("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.IntToInt8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 8), vrt.And(vneg == rneg, vlow == rlow), "IntToInt8")
	case 28:
		v := vrt.Int("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.IntToInt16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 16), vrt.And(vneg == rneg, vlow == rlow), "IntToInt16")
	case 29:
		v := vrt.Int("v")
		var r int32
		p := vrt.Panics(func() { r = safecast.IntToInt32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, signedFits(int64(v), 32), vrt.And(vneg == rneg, vlow == rlow), "IntToInt32")
	case 30:
		v := vrt.Int("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.IntToUint8(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "IntToUint8")
	case 31:
		v := vrt.Int("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.IntToUint16(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "IntToUint16")
	case 32:
		v := vrt.Int("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.IntToUint32(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "IntToUint32")
	case 33:
		v := vrt.Int("v")
		var r uint64
		p := vrt.Panics(func() { r = safecast.IntToUint64(v) })
		vneg, vlow := sparts(int64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "IntToUint64")
	case 34:
		v := vrt.U8("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Uint8ToInt8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 7), vrt.And(vneg == rneg, vlow == rlow), "Uint8ToInt8")
	case 35:
		v := vrt.U16("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Uint16ToInt8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 7), vrt.And(vneg == rneg, vlow == rlow), "Uint16ToInt8")
	case 36:
		v := vrt.U16("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.Uint16ToInt16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 15), vrt.And(vneg == rneg, vlow == rlow), "Uint16ToInt16")
	case 37:
		v := vrt.U16("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Uint16ToUint8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Uint16ToUint8")
	case 38:
		v := vrt.U32("v")
		var r int
		p := vrt.Panics(func() { r = safecast.Uint32ToInt(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 63), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToInt")
	case 39:
		v := vrt.U32("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Uint32ToInt8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 7), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToInt8")
	case 40:
		v := vrt.U32("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.Uint32ToInt16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 15), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToInt16")
	case 41:
		v := vrt.U32("v")
		var r int32
		p := vrt.Panics(func() { r = safecast.Uint32ToInt32(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 31), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToInt32")
	case 42:
		v := vrt.U32("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Uint32ToUint8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToUint8")
	case 43:
		v := vrt.U32("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Uint32ToUint16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Uint32ToUint16")
	case 44:
		v := vrt.U64("v")
		var r int
		p := vrt.Panics(func() { r = safecast.Uint64ToInt(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 63), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToInt")
	case 45:
		v := vrt.U64("v")
		var r int8
		p := vrt.Panics(func() { r = safecast.Uint64ToInt8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 7), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToInt8")
	case 46:
		v := vrt.U64("v")
		var r int16
		p := vrt.Panics(func() { r = safecast.Uint64ToInt16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 15), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToInt16")
	case 47:
		v := vrt.U64("v")
		var r int32
		p := vrt.Panics(func() { r = safecast.Uint64ToInt32(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 31), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToInt32")
	case 48:
		v := vrt.U64("v")
		var r int64
		p := vrt.Panics(func() { r = safecast.Uint64ToInt64(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 63), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToInt64")
	case 49:
		v := vrt.U64("v")
		var r uint
		p := vrt.Panics(func() { r = safecast.Uint64ToUint(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 64), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToUint")
	case 50:
		v := vrt.U64("v")
		var r uint8
		p := vrt.Panics(func() { r = safecast.Uint64ToUint8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToUint8")
	case 51:
		v := vrt.U64("v")
		var r uint16
		p := vrt.Panics(func() { r = safecast.Uint64ToUint16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToUint16")
	case 52:
		v := vrt.U64("v")
		var r uint32
		p := vrt.Panics(func() { r = safecast.Uint64ToUint32(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "Uint64ToUint32")
	case 53:
		v := uint(vrt.U64("v"))
		var r int8
		p := vrt.Panics(func() { r = safecast.UintToInt8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 7), vrt.And(vneg == rneg, vlow == rlow), "UintToInt8")
	case 54:
		v := uint(vrt.U64("v"))
		var r int16
		p := vrt.Panics(func() { r = safecast.UintToInt16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 15), vrt.And(vneg == rneg, vlow == rlow), "UintToInt16")
	case 55:
		v := uint(vrt.U64("v"))
		var r int32
		p := vrt.Panics(func() { r = safecast.UintToInt32(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 31), vrt.And(vneg == rneg, vlow == rlow), "UintToInt32")
	case 56:
		v := uint(vrt.U64("v"))
		var r int64
		p := vrt.Panics(func() { r = safecast.UintToInt64(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := sparts(int64(r))
		judge(p, unsignedFits(false, uint64(v), 63), vrt.And(vneg == rneg, vlow == rlow), "UintToInt64")
	case 57:
		v := uint(vrt.U64("v"))
		var r uint8
		p := vrt.Panics(func() { r = safecast.UintToUint8(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 8), vrt.And(vneg == rneg, vlow == rlow), "UintToUint8")
	case 58:
		v := uint(vrt.U64("v"))
		var r uint16
		p := vrt.Panics(func() { r = safecast.UintToUint16(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 16), vrt.And(vneg == rneg, vlow == rlow), "UintToUint16")
	case 59:
		v := uint(vrt.U64("v"))
		var r uint32
		p := vrt.Panics(func() { r = safecast.UintToUint32(v) })
		vneg, vlow := uparts(uint64(v))
		rneg, rlow := uparts(uint64(r))
		judge(p, unsignedFits(vneg, vlow, 32), vrt.And(vneg == rneg, vlow == rlow), "UintToUint32")
	}
}
