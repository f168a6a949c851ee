package iso

import (
	"encoding/binary"
	"io"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func tableEncoder(big bool, w io.Writer) *iso9660.PathTableEncoder {
	if big {
		return iso9660.NewPathTableEncoder(binary.BigEndian, w)
	}
	return iso9660.NewPathTableEncoder(binary.LittleEndian, w)
}
