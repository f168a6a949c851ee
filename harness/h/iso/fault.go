package iso

import (
	"errors"
	"os"
	"strings"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

func faultFixture() interface{} {
	t := newRef()
	t.file("/d/f", 7)
	t.file("/d/"+strings.Repeat("n", 200), 8)
	t.symlink("/l", "d/f")
	return &fixture{t, disc(t.v)}
}

// walk lists everything a walk delivers.
func walk(w *iso9660.Walker) answer {
	var a answer
	a.err = w.Walk("/", func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		a.list = append(a.list, fi.(*iso9660.FileInfo))
		return nil
	})
	return a
}

func operation(w *iso9660.Walker, op int) answer {
	switch op {
	case 0:
		return walk(w)
	case 1:
		return query(w, 0, "/d/"+strings.Repeat("n", 200))
	case 2:
		return query(w, 1, "/l")
	case 3:
		return query(w, 2, "/d")
	case 4:
		var a answer
		f, err := w.Open("/d")
		if err != nil {
			a.err = err
			return a
		}
		a.list, a.err = f.ReadDir()
		return a
	}
	return query(w, 0, "/missing")
}

func checkFault(op int, want, got answer, hit bool) {
	if hit {
		vrt.Assert(got.err != nil, "a failed read makes the operation fail")
	}
	if got.err == nil {
		vrt.Assert(sameAnswer(got, want), "an operation that succeeds is right")
		return
	}
	if op == 5 && want.err == got.err {
		return
	}
	vrt.Assert(len(got.list) <= len(want.list), "a failed operation delivers no extra entries")
	for i := range got.list {
		vrt.Assert(sameInfo(got.list[i], want.list[i]), "entries delivered before a fault are right")
	}
	vrt.Cover("failed")
}

// I11Fault fails one read of the image.
func I11Fault() {
	fx := vrt.Setup(faultFixture).(*fixture)
	op := vrt.Choose("op", 6)
	want := operation(iso9660.NewWalker(&fake.Disc{Meta: fx.d.Meta, Extents: fx.d.Extents}), op)
	at := int(vrt.U16("read"))
	n := 0
	hit := false
	d := &fake.Disc{Meta: fx.d.Meta, Extents: fx.d.Extents}
	d.Fail = func(int64, int) error {
		n++
		if vrt.Decide(n == at) {
			hit = true
			return fake.ErrFault
		}
		return nil
	}
	got := operation(iso9660.NewWalker(d), op)
	checkFault(op, want, got, hit)
	if hit && got.err != nil && op == 3 {
		vrt.Assert(strings.Contains(got.err.Error(), fake.ErrFault.Error()), "the read's error is reported")
	}
	vrt.Cover("fault")
}

// I11Cut shortens the image.
func I11Cut() {
	fx := vrt.Setup(faultFixture).(*fixture)
	op := vrt.Choose("op", 6)
	want := operation(iso9660.NewWalker(&fake.Image{Data: fx.d.Meta}), op)
	cut := vrt.Range("cut", 0, len(fx.d.Meta))
	if op != 5 && vrt.Param("short", 0, 1) == 0 {
		vrt.Assume(cut >= 17*2048)
	}
	c := &fake.Cut{Data: fx.d.Meta, Len: cut}
	got := operation(iso9660.NewWalker(c), op)
	checkFault(op, want, got, c.Hit)
	vrt.Cover("cut")
}

// I11Callback stops a walk from its callback.
func I11Callback() {
	fx := vrt.Setup(faultFixture).(*fixture)
	at := int(vrt.U8("at"))
	stop := errors.New("stop")
	n := 0
	stopped := false
	err := iso9660.NewWalker(fx.d).Walk("/", func(p string, fi os.FileInfo, err error) error {
		vrt.Assert(!stopped, "a stopped walk calls back no more")
		n++
		if vrt.Decide(n == at) {
			stopped = true
			return stop
		}
		return nil
	})
	if stopped {
		vrt.Assert(err == stop, "an error of the callback is returned")
		vrt.Cover("stopped")
	} else {
		vrt.Assert(err == nil, "an undisturbed walk succeeds")
		vrt.Cover("whole")
	}
}

func writeFixture() interface{} {
	t := newRef()
	t.file("/d/"+strings.Repeat("n", 100), 3)
	t.symlink("/l", "../x")
	return &fixture{t, &fake.Disc{Meta: metadata(t.v)}}
}

// I11Write fails the writer of an image at any byte.
func I11Write() {
	fx := vrt.Setup(writeFixture).(*fixture)
	whole := fx.d.Meta
	at := vrt.Range("at", vrt.Param("sector", 18, 0)*2048, len(whole))
	if vrt.Param("all", 0, 1) == 0 {
		vrt.Assume(at%2048 < 300)
	}
	const block = 64
	b := vrt.Pick(at/block, 0, len(whole)/block) * block
	w := &fake.FailWriter{N: at, Lo: b, Hi: b + block - 1}
	n, err := fx.t.v.WriteMetadataTo(w)
	if w.Fail {
		vrt.Assert(err != nil, "a failed write is reported")
		vrt.Assert(n == int64(at), "the bytes written are counted")
		vrt.Cover("failed")
	} else {
		vrt.Assert(err == nil && n == int64(len(whole)), "a writer with room for the image takes it")
	}
	vrt.Assert(string(w.Data) == string(whole[:len(w.Data)]), "the bytes written are the image's")
	vrt.Cover("write")
}
