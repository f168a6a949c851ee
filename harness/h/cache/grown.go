package cache

import (
	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// grown reads an object that is known with two sizes, as one that grew is.
func grown(c caching.Cache, wait func()) {
	seed := vrt.U8("seed")
	srcs := []*source{newSource("u:a", int64(1+vrt.Choose("size", 4)), seed, nil), newSource("u:a", int64(1+vrt.Choose("size", 4)), seed, nil)}
	for i := 0; i < vrt.Param("steps", 2, 3); i++ {
		s := srcs[vrt.Choose("object", 2)]
		buf := make([]byte, 1+vrt.Choose("len", 3))
		off := int64(vrt.Choose("off", int(s.Len)+1))
		n, err := c.WithCaching(s).ReadAt(buf, off)
		outcome(s.Len, s.is, buf, off, n, err)
		wait()
	}
	vrt.Assert(!srcs[0].out && !srcs[1].out, "no read of the source reaches beyond the object")
}

// C02Grown reads an object of two sizes through the memory cache.
func C02Grown() {
	_, c := memCache(int64(1+vrt.Choose("blocks", 2)), 0)
	grown(c, func() {})
}

// C03Grown reads an object of two sizes through the disk cache.
func C03Grown() {
	fs := fake.NewFS()
	defer fs.Install()()
	ds := caching.NewDiskSlicer(cacheRoot, 2)
	grown(caching.NewCache(ds, 0, 1), ds.Wait)
}
