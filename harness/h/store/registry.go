package store

import (
	"context"
	"errors"
	"io"
	"os"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	"github.com/NVIDIA/vdisc/pkg/zzverif/fake"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// plain is a driver that opens and stats only.
type plain struct {
	name string
	op   string
	url  string
	size int64
	ctx  context.Context
	err  error
	obj  *fake.Obj
}

func (d *plain) call(ctx context.Context, op, url string) error {
	d.ctx, d.op, d.url = ctx, d.op+op, url
	return d.err
}

func (d *plain) Name() string { return d.name }

func (d *plain) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	d.size = size
	if err := d.call(ctx, "open", url); err != nil {
		return nil, err
	}
	return d.obj, nil
}

func (d *plain) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, d.call(ctx, "stat", url)
}

// full is a driver with all operations.
type full struct{ plain }

func (d *full) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	return nil, d.call(ctx, "create", url)
}

func (d *full) Remove(ctx context.Context, url string) error { return d.call(ctx, "remove", url) }

func (d *full) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	return nil, d.call(ctx, "readdir", url)
}

func (d *full) Lock(ctx context.Context, url string) (io.Closer, error) {
	return nil, d.call(ctx, "lock", url)
}

func (d *full) RLock(ctx context.Context, url string) (io.Closer, error) {
	return nil, d.call(ctx, "rlock", url)
}

type noVisit struct{}

func (noVisit) VisitDir(string, []os.FileInfo) error { return nil }

func letter(c byte) bool {
	return vrt.Or(vrt.And(c >= 'a', c <= 'z'), vrt.And(c >= 'A', c <= 'Z'))
}

func digit(c byte) bool { return vrt.And(c >= '0', c <= '9') }

// scheme is the reference for the scheme of a URL: the part before the first
// colon if it is made of scheme characters and begins with a letter.
func scheme(url string) (string, bool) {
	for i := 0; i < len(url); i++ {
		c := url[i]
		if vrt.Decide(c == ':') {
			if i == 0 {
				return "", false
			}
			b := make([]byte, i)
			for j := range b {
				up := vrt.And(url[j] >= 'A', url[j] <= 'Z')
				b[j] = vrt.IteU8(up, url[j]+32, url[j])
			}
			return string(b), true
		}
		ok := letter(c)
		if i > 0 {
			ok = vrt.Or(ok, vrt.Or(digit(c), vrt.Or(c == '+', vrt.Or(c == '-', c == '.'))))
		}
		if !vrt.Decide(ok) {
			break
		}
	}
	return "", true
}

// S05Find looks up any short URL.
func S05Find() {
	defer driver.ClearRegistry()()
	drivers := map[string]*plain{}
	for _, s := range []string{"ab", "file", "c"} {
		drivers[s] = &plain{name: s}
		driver.Register(s, drivers[s])
	}
	url := vrt.String("url", vrt.Choose("len", 1+vrt.Param("bytes", 3, 4)))
	benign := true
	for i := 0; i < len(url); i++ {
		c := url[i]
		benign = vrt.And(benign, vrt.Or(letter(c), vrt.Or(digit(c), vrt.Or(c == '/', vrt.Or(c == '.', c == ':')))))
	}
	d, err := driver.Find(url)
	s, ok := scheme(url)
	if !ok {
		vrt.Assert(err != nil, "a URL without a scheme before its colon is refused")
		vrt.Cover("malformed")
		return
	}
	want := "file"
	for _, k := range []string{"ab", "c"} {
		if len(s) == len(k) && vrt.Decide(vrt.EqString(s, k)) {
			want = k
		}
	}
	if want == "file" && s != "" {
		vrt.Assert(err != nil, "an unregistered scheme is an error")
		vrt.Cover("unregistered")
		return
	}
	if err == nil {
		vrt.Assert(d == driver.Driver(drivers[want]), "a URL is served by the driver of its scheme")
		if want == "file" {
			vrt.Cover("path")
		} else {
			vrt.Cover("scheme")
		}
		return
	}
	vrt.Assert(d == nil, "a refused URL has no driver")
	colon := false
	for i := 0; i < len(url); i++ {
		colon = vrt.Or(colon, url[i] == ':')
	}
	// a colon in the first segment of a path, or an odd authority, may be refused
	slashes := false
	for i := 0; i+1 < len(url); i++ {
		slashes = vrt.Or(slashes, vrt.And(url[i] == '/', url[i+1] == '/'))
	}
	vrt.Assert(!vrt.And(benign, vrt.And(!slashes, vrt.Or(!colon, s != ""))), "a URL of plain characters is accepted")
	vrt.Cover("refused")
}

// S05Dispatch performs any operation on a URL of a driver with all or only
// the mandatory operations.
func S05Dispatch() {
	defer driver.ClearRegistry()()
	var fail error
	if vrt.Decide(vrt.Bool("fails")) {
		fail = errors.New("driver error")
	}
	f := &full{plain{name: "full", err: fail, obj: &fake.Obj{}}}
	p := &plain{name: "plain", err: fail, obj: &fake.Obj{}}
	other := &full{}
	driver.Register("full", f)
	driver.Register("plain", p)
	driver.Register("other", other)
	driver.Register("file", other)
	rest := vrt.String("rest", 2)
	for i := range []byte(rest) {
		vrt.Assume(letter(rest[i]))
	}
	onFull := vrt.Decide(vrt.Bool("full"))
	url := "plain:" + rest
	d := p
	if onFull {
		url = "full:/" + rest
		d = &f.plain
	}
	withCtx := vrt.Decide(vrt.Bool("ctx"))
	type key struct{}
	ctx := context.WithValue(bg, key{}, 1)
	var err error
	op := []string{"open", "stat", "create", "remove", "readdir", "lock", "rlock"}[vrt.Choose("op", 7)]
	size := int64(-1)
	switch op {
	case "open":
		size = vrt.I64("size")
		var o storage.Object
		if withCtx {
			o, err = storage.OpenContextSize(ctx, url, size)
		} else if vrt.Choose("sized", 2) == 1 {
			o, err = storage.OpenSize(url, size)
		} else {
			size = -1
			o, err = storage.Open(url)
		}
		vrt.Assert(d.size == size, "the declared size is passed on")
		vrt.Assert((o != nil) == (err == nil), "an object or an error is returned")
	case "stat":
		if withCtx {
			_, err = storage.StatContext(ctx, url)
		} else {
			_, err = storage.Stat(url)
		}
	case "create":
		if withCtx {
			_, err = storage.CreateContext(ctx, url)
		} else {
			_, err = storage.Create(url)
		}
	case "remove":
		if withCtx {
			err = storage.RemoveContext(ctx, url)
		} else {
			err = storage.Remove(url)
		}
	case "readdir":
		if withCtx {
			_, err = storage.ReaddirContext(ctx, url)
		} else {
			_, err = storage.Readdir(url)
		}
	case "lock":
		if withCtx {
			_, err = storage.LockContext(ctx, url)
		} else {
			_, err = storage.Lock(url)
		}
	case "rlock":
		if withCtx {
			_, err = storage.RLockContext(ctx, url)
		} else {
			_, err = storage.RLock(url)
		}
	}
	vrt.Assert(other.op == "", "no other driver is used")
	if !onFull && op != "open" && op != "stat" {
		vrt.Assert(err != nil && p.op == "", "an operation a driver does not support is an error")
		vrt.Cover("unsupported")
		return
	}
	vrt.Assert(d.op == op && vrt.EqString(d.url, url), "the driver gets the operation and the URL")
	vrt.Assert(err == fail, "the driver's error is returned")
	vrt.Assert(!withCtx || d.ctx == ctx, "the context is passed on")
	vrt.Cover("done")
}

// S05Visit refuses to visit with a driver that cannot list.
func S05Visit() {
	defer driver.ClearRegistry()()
	driver.Register("plain", &plain{name: "plain"})
	vrt.Assert(storage.Visit("plain:x", noVisit{}) != nil, "an operation a driver does not support is an error")
	vrt.Assert(storage.Visit("none:x", noVisit{}) != nil, "an unregistered scheme is an error")
}

// S05Registry registers any three schemes, clears the registry and restores it.
func S05Registry() {
	defer driver.ClearRegistry()()
	var names []string
	var have []*plain
	add := func() {
		s := string([]byte{vrt.U8("scheme")})
		vrt.Assume(vrt.And(s[0] >= 'a', s[0] <= 'z'))
		d := &plain{name: s}
		dup := false
		for _, o := range names {
			dup = vrt.Or(dup, vrt.EqString(o, s))
		}
		twice := vrt.Decide(dup)
		vrt.Assert(vrt.Panics(func() { driver.Register(s, d) }) == twice, "registering a scheme twice is refused")
		if !twice {
			names, have = append(names, s), append(have, d)
		}
	}
	check := func() {
		vrt.Assert(len(driver.Drivers()) == len(names), "exactly the registered schemes are listed")
		list := driver.Drivers()
		for i := 1; i < len(list); i++ {
			vrt.Assert(list[i-1] < list[i], "schemes are listed in order")
		}
		for i, s := range names {
			d, err := driver.Find(s + ":x")
			vrt.Assert(err == nil && d == driver.Driver(have[i]), "a registered scheme is found")
		}
	}
	add()
	add()
	vrt.Assert(vrt.Panics(func() { driver.Register("zz", nil) }), "a nil driver is refused")
	check()
	oldN, oldH := names, have
	undo := driver.ClearRegistry()
	names, have = nil, nil
	check()
	_, err := driver.Find(oldN[0] + ":x")
	vrt.Assert(err != nil, "a cleared registry has no driver")
	add()
	check()
	undo()
	names, have = oldN, oldH
	check()
	vrt.Cover("restored")
}

// S05Threads uses the registry from two threads at once.
func S05Threads() {
	defer driver.ClearRegistry()()
	old := &plain{name: "old"}
	driver.Register("old", old)
	names := [2]string{"x", "y"}
	if vrt.Decide(vrt.Bool("same")) {
		names[1] = "x"
	}
	kind := [2]int{vrt.Choose("op", 4), vrt.Choose("op", 4)}
	mine := [2]*plain{{name: "0"}, {name: "1"}}
	var refused, found [2]bool
	act := func(i int) {
		switch kind[i] {
		case 0:
			refused[i] = vrt.Panics(func() { driver.Register(names[i], mine[i]) })
		case 1:
			d, err := driver.Find(names[i] + ":z")
			found[i] = err == nil && (d == driver.Driver(mine[0]) || d == driver.Driver(mine[1]))
		case 2:
			d, err := driver.Find("old:z")
			found[i] = err == nil && d == driver.Driver(old)
		case 3:
			found[i] = len(driver.Drivers()) > 0
		}
	}
	done := make(chan bool)
	vrt.Preempt(2)
	go func() {
		act(1)
		done <- true
	}()
	act(0)
	<-done
	vrt.Preempt(0)
	if kind[0] == 0 && kind[1] == 0 && names[0] == names[1] {
		vrt.Assert(refused[0] != refused[1], "registering a scheme twice is refused")
		vrt.Cover("twice")
	} else {
		vrt.Assert(!refused[0] && !refused[1], "a new scheme is registered")
	}
	for i := range kind {
		vrt.Assert(kind[i] < 2 || found[i], "a registered driver is found")
		if kind[i] == 0 && !refused[i] {
			d, err := driver.Find(names[i] + ":z")
			vrt.Assert(err == nil && d == driver.Driver(mine[i]), "a driver is found under its scheme")
			vrt.Cover("found")
		}
	}
}
