package remote

import (
	"errors"
	"io"
	"net/http"
	stdurl "net/url"
	"os"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

var errFault = errors.New("fault")

// body is a response body that ends or fails after its data.
type body struct {
	data   []byte
	fail   bool
	closed int
	chunk  int
}

func (b *body) Read(p []byte) (int, error) {
	if b.closed > 0 {
		return 0, errors.New("read after close")
	}
	if len(b.data) == 0 {
		if b.fail {
			return 0, errFault
		}
		return 0, io.EOF
	}
	n := len(p)
	if b.chunk > 0 && n > b.chunk {
		n = b.chunk
	}
	n = copy(p[:n], b.data)
	b.data = b.data[n:]
	return n, nil
}

func (b *body) Close() error {
	b.closed++
	return nil
}

// server answers requests with a function and keeps them.
type server struct {
	reqs   []*http.Request
	answer func(req *http.Request) (*http.Response, error)
}

func (s *server) RoundTrip(req *http.Request) (*http.Response, error) {
	s.reqs = append(s.reqs, req)
	return s.answer(req)
}

const target = "http://host/file"

func parsed(s string) *stdurl.URL {
	u, err := stdurl.Parse(s)
	vrt.Assume(err == nil)
	return u
}

// number draws the decimal digits of a number.
func number(name string, digits int) (string, uint64) {
	b := make([]byte, digits)
	var v uint64
	for i := range b {
		d := vrt.U8(name)
		vrt.Assume(d < 10)
		b[i] = '0' + d
		v = v*10 + uint64(d)
	}
	return string(b), v
}

// bounds reads a range request.
func bounds(s string) (first, last uint64, ok bool) {
	const prefix = "bytes="
	if len(s) < len(prefix) || s[:len(prefix)] != prefix {
		return 0, 0, false
	}
	s = s[len(prefix):]
	nums := []uint64{0, 0}
	digits := []int{0, 0}
	which := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '-' {
			which++
			if which > 1 {
				return 0, 0, false
			}
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return 0, 0, false
		}
		nums[which] = nums[which]*10 + uint64(s[i]-'0')
		digits[which]++
	}
	return nums[0], nums[1], which == 1 && digits[0] > 0 && digits[1] > 0
}

// H01Read reads with any answer of the server.
func H01Read() {
	wide := vrt.Param("digits", 2, 3)
	limit := 99
	if wide > 2 {
		limit = 999
	}
	// objects of up to a few bytes, and around 4 GiB
	prefix := ""
	base := int64(0)
	if vrt.Bool("large") {
		prefix = "42949672"
		base = 4294967200
		if wide > 2 {
			prefix = "4294967"
			base = 4294967000
		}
	}
	size := base + int64(vrt.Range("size", 0, limit))
	off := base + int64(vrt.Range("offset", 0, limit+2))
	n := vrt.Choose("length", 4)
	p := make([]byte, n)
	lost := vrt.Bool("transport fails")
	status := vrt.Range("status", 100, 599)
	header := make(http.Header)
	f, first := number("first", wide)
	l, last := number("last", wide)
	t, total := number("total", wide)
	first += uint64(base)
	last += uint64(base)
	total += uint64(base)
	hasRange := vrt.Bool("has range")
	if hasRange {
		header.Set("Content-Range", "bytes "+prefix+f+"-"+prefix+l+"/"+prefix+t)
	}
	length := vrt.I64("content length")
	data := vrt.Bytes("body", vrt.Choose("body length", 5))
	b := &body{data: data, fail: vrt.Bool("body fails"), chunk: vrt.Choose("chunk", 2)}
	srv := &server{answer: func(*http.Request) (*http.Response, error) {
		if lost {
			return nil, errFault
		}
		return &http.Response{StatusCode: status, Header: header, ContentLength: length, Body: b}, nil
	}}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), size)
	vrt.Assert(o.URL() == target && o.Size() == size, "an object with a known size reports it")
	got, err := o.ReadAt(p, off)
	if n == 0 {
		vrt.Assert(got == 0 && err == nil, "an empty read succeeds")
		vrt.Assert(len(srv.reqs) == 0, "an empty read sends nothing")
		return
	}
	if off >= size {
		vrt.Cover("past the end")
		vrt.Assert(got == 0 && err == io.EOF, "a read past the end is at the end")
		vrt.Assert(len(srv.reqs) == 0, "a read past the end sends nothing")
		return
	}
	want := int64(n)
	if off+want > size {
		want = size - off
	}
	want = int64(vrt.Pick(int(want), 1, 3))
	vrt.Assert(len(srv.reqs) == 1, "one request is sent")
	req := srv.reqs[0]
	vrt.Assert(req.Method == "GET" && req.URL.String() == target, "the object is asked for")
	if !lost {
		vrt.Assert(b.closed > 0, "the body is released")
	}
	good := all(!lost, status == 206, hasRange, first == uint64(off), last == uint64(off+want-1),
		total >= uint64(size), length == want, int64(len(data)) >= want)
	if err == nil {
		vrt.Cover("success")
		vrt.Assert(good, "only the requested range is accepted")
		vrt.Assert(int64(got) == want, "a read is complete")
		vrt.Assert(vrt.EqBytes(p[:got], data[:got]), "a read returns the bytes of the answer")
	} else {
		vrt.Cover("error")
		vrt.Assert(!good, "the requested range is accepted")
		vrt.Assert(err != io.EOF || int64(got) < want, "an error is not the end of the data")
		if all(!lost, status == 404) {
			vrt.Assert(err == os.ErrNotExist, "a missing object is reported as such")
		}
		vrt.Assert(err != io.EOF, "a failure inside the object is not reported as its end")
	}
}

// H01Range looks at the range that is asked for.
func H01Range() {
	base := []int64{0, 2147483600, 4294967200, 1099511627700}[vrt.Choose("base", 4)]
	limit := vrt.Param("limit", 99, 999)
	size := base + int64(vrt.Range("size", 1, limit))
	off := base + int64(vrt.Range("offset", 0, limit))
	vrt.Assume(off < size)
	n := vrt.Choose("length", 3) + 1
	srv := &server{answer: func(*http.Request) (*http.Response, error) { return nil, errFault }}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), size)
	var err error
	if vrt.Bool("sequential") {
		_, err = o.Seek(off, io.SeekStart)
		vrt.Assert(err == nil, "a seek inside the object succeeds")
		_, err = o.Read(make([]byte, n))
	} else {
		_, err = o.ReadAt(make([]byte, n), off)
	}
	vrt.Assert(err != nil && err != io.EOF, "a lost request is an error")
	last := off + int64(n) - 1
	if last >= size {
		vrt.Cover("cut at the end")
		last = size - 1
	}
	vrt.Assert(len(srv.reqs) == 1, "one request is sent")
	rf, rl, ok := bounds(srv.reqs[0].Header.Get("Range"))
	vrt.Assert(ok && rf == uint64(off) && rl == uint64(last), "the needed range is asked for")
}

// H01Large reads with numbers near the limits in the answer.
func H01Large() {
	prefixes := []string{"", "922337203685477580", "1844674407370955161"}
	draw := func(name string) string {
		s, _ := number(name, vrt.Choose(name+" digits", 2)+1)
		return prefixes[vrt.Choose(name+" prefix", 3)] + s
	}
	header := make(http.Header)
	header.Set("Content-Range", "bytes "+draw("first")+"-"+draw("last")+"/"+draw("total"))
	length := vrt.I64("content length")
	data := vrt.Bytes("body", 2)
	srv := &server{answer: func(*http.Request) (*http.Response, error) {
		return &http.Response{StatusCode: 206, Header: header, ContentLength: length, Body: &body{data: data}}, nil
	}}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), 5)
	p := make([]byte, 2)
	got, err := o.ReadAt(p, 1)
	if err == nil {
		vrt.Cover("success")
		vrt.Assert(got == 2 && length == 2, "only the requested range is accepted")
	} else {
		vrt.Cover("error")
	}
}

// H01Size discovers the size of an object.
func H01Size() {
	lost := vrt.Bool("transport fails")
	status := vrt.Range("status", 100, 599)
	length := vrt.I64("content length")
	status2 := vrt.Range("second status", 100, 599)
	lost2 := vrt.Bool("second request fails")
	data := vrt.Bytes("body", vrt.Choose("body length", 4))
	fail := vrt.Bool("body fails")
	h := &body{}
	b := &body{data: data, fail: fail}
	srv := &server{}
	srv.answer = func(req *http.Request) (*http.Response, error) {
		switch {
		case len(srv.reqs) == 1:
			if lost {
				return nil, errFault
			}
			return &http.Response{StatusCode: status, Header: make(http.Header), ContentLength: length, Body: h}, nil
		case req.Method == "GET" && req.Header.Get("Range") == "":
			if lost2 {
				return nil, errFault
			}
			return &http.Response{StatusCode: status2, Header: make(http.Header), ContentLength: -1, Body: b}, nil
		}
		return nil, errFault
	}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), -1)
	size := o.Size()
	n := len(srv.reqs)
	vrt.Assert(n >= 1 && srv.reqs[0].Method == "HEAD" && srv.reqs[0].URL.String() == target, "the size is asked for")
	head := all(!lost, status == 200, length >= 0)
	whole := all(!lost, status == 405, !lost2, status2 == 200, !fail)
	if head {
		vrt.Cover("head")
		vrt.Assert(size == length, "the size is the content length")
		vrt.Assert(n == 1, "one request is enough")
	} else if whole {
		vrt.Cover("whole")
		vrt.Assert(size == int64(len(data)), "the size is the length of the body")
	} else {
		vrt.Cover("unknown")
		vrt.Assert(size < 0, "an unknown size is not made up")
		p := make([]byte, 1)
		got, err := o.ReadAt(p, 0)
		vrt.Assert(got == 0 && err != nil && err != io.EOF, "a read of an object of unknown size fails")
		if all(!lost, status == 404) {
			vrt.Assert(err == os.ErrNotExist, "a missing object is reported as such")
		}
	}
	if !lost {
		vrt.Assert(h.closed > 0, "the body is released")
	}
	if all(!lost, status == 405, !lost2) {
		vrt.Assert(b.closed > 0, "the second body is released")
	}
	vrt.Assert(o.Size() == size && len(srv.reqs) <= 2, "the size is asked for once")
}

// H01Sequence reads and seeks in an object served correctly.
func H01Sequence() {
	size := vrt.Choose("size", 4)
	data := vrt.Bytes("content", size)
	srv := &server{answer: func(req *http.Request) (*http.Response, error) {
		first, last, ok := bounds(req.Header.Get("Range"))
		vrt.Assert(ok && first <= last && last < uint64(size), "the needed range is asked for")
		f, l := vrt.Pick(int(first), 0, 3), vrt.Pick(int(last), 0, 3)
		header := make(http.Header)
		digit := func(n int) string { return string([]byte{'0' + byte(n)}) }
		header.Set("Content-Range", "bytes "+digit(f)+"-"+digit(l)+"/"+digit(size))
		return &http.Response{StatusCode: 206, Header: header, ContentLength: int64(l - f + 1), Body: &body{data: data[f : l+1]}}, nil
	}}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), int64(size))
	pos := 0
	steps := vrt.Param("steps", 2, 3)
	for i := 0; i < steps; i++ {
		switch vrt.Choose("step", 3) {
		case 0:
			vrt.Cover("read")
			p := make([]byte, vrt.Choose("length", 3)+1)
			n, err := o.Read(p)
			want := len(p)
			if want > size-pos {
				want = size - pos
			}
			if want == 0 {
				vrt.Assert(n == 0 && err == io.EOF, "the end is reported")
				continue
			}
			vrt.Assert(n == want && (err == nil || err == io.EOF), "a read goes on where the last one ended")
			vrt.Assert(vrt.EqBytes(p[:n], data[pos:pos+n]), "a read returns the bytes at its position")
			pos += n
		case 1:
			vrt.Cover("seek")
			whence := vrt.Choose("whence", 3)
			by := vrt.Range("by", -5, 5)
			to := by
			if whence == io.SeekCurrent {
				to += pos
			} else if whence == io.SeekEnd {
				to += size
			}
			got, err := o.Seek(int64(by), whence)
			if vrt.Decide(all(to >= 0, to <= size)) {
				vrt.Assert(err == nil && got == int64(to), "a seek inside the object goes there")
				pos = vrt.Pick(to, 0, 3)
			} else {
				vrt.Stop()
			}
		case 2:
			vrt.Cover("read at")
			at := vrt.Choose("at", 5)
			p := make([]byte, 2)
			n, err := o.ReadAt(p, int64(at))
			if at >= size {
				vrt.Assert(n == 0 && err == io.EOF, "the end is reported")
				continue
			}
			vrt.Assert(n >= 1 && (err == nil || err == io.EOF) && vrt.EqBytes(p[:n], data[at:at+n]), "a read at a place returns its bytes")
			vrt.Assert(n == 2 || at+n == size, "a read is cut at the end only")
		}
	}
	vrt.Assert(o.Close() == nil, "closing succeeds")
	sent := len(srv.reqs)
	_, err := o.Read(make([]byte, 1))
	vrt.Assert(err != nil && err != io.EOF && len(srv.reqs) == sent, "a closed object cannot be read")
}

// H01Delete removes an object.
func H01Delete() {
	lost := vrt.Bool("transport fails")
	status := vrt.Range("status", 100, 599)
	b := &body{data: vrt.Bytes("body", 1), fail: vrt.Bool("body fails")}
	srv := &server{answer: func(*http.Request) (*http.Response, error) {
		if lost {
			return nil, errFault
		}
		return &http.Response{StatusCode: status, Header: make(http.Header), Body: b}, nil
	}}
	err := httpdriver.Delete(&http.Client{Transport: srv}, target, parsed(target))
	vrt.Assert(len(srv.reqs) == 1 && srv.reqs[0].Method == "DELETE" && srv.reqs[0].URL.String() == target, "the object's removal is asked for")
	if err == nil {
		vrt.Cover("removed")
		vrt.Assert(!lost && status == 204, "only a confirmed removal succeeds")
	} else {
		vrt.Assert(either(lost, status != 204, b.fail), "a confirmed removal succeeds")
	}
}

// content reads a well-formed content range.
func content(s string) (nums [3]uint64, ok bool) {
	const prefix = "bytes "
	if len(s) < len(prefix) || s[:len(prefix)] != prefix {
		return nums, false
	}
	s = s[len(prefix):]
	for i := 0; i < 3; i++ {
		k := 0
		for k < len(s) && s[k] >= '0' && s[k] <= '9' {
			d := uint64(s[k] - '0')
			if nums[i] > (1<<64-1)/10 || nums[i]*10 > 1<<64-1-d {
				return nums, false
			}
			nums[i] = nums[i]*10 + d
			k++
		}
		if k == 0 {
			return nums, false
		}
		s = s[k:]
		if i < 2 {
			if len(s) == 0 || s[0] != "-/"[i] {
				return nums, false
			}
			s = s[1:]
		}
	}
	return nums, len(s) == 0
}

func checkContent(s string) {
	header := make(http.Header)
	header.Set("Content-Range", s)
	cr, err := httputil.GetContentRange(&http.Response{Header: header})
	nums, ok := content(s)
	if !ok {
		vrt.Cover("malformed")
		vrt.Assert(err != nil, "a malformed range is refused")
		return
	}
	fits := all(nums[0] <= nums[1], nums[1] < nums[2])
	if err != nil {
		vrt.Cover("contradictory")
		vrt.Assert(!fits, "a well-formed range is accepted")
		return
	}
	vrt.Cover("accepted")
	vrt.Assert(either(fits, nums[2] == 0), "a contradictory range is refused")
	vrt.Assert(all(cr.First == nums[0], cr.Last == nums[1], cr.Total == nums[2]), "a range has the numbers of the header")
	if fits {
		vrt.Assert(cr.Len() == nums[1]-nums[0]+1, "the length of a range is the number of its bytes")
		vrt.Assert(cr.Terminal() == (nums[1] == nums[2]-1), "the last range is the one with the last byte")
	}
}

// H02Any parses every header of a bounded length.
func H02Any() {
	n := vrt.Choose("length", vrt.Param("length", 13, 15)+1)
	checkContent(vrt.String("header", n))
}

// H02Numbers parses numbers near the limits.
func H02Numbers() {
	prefixes := []string{"", "18446744073709551", "922337203685477580", "00000000000000000000"}
	s := "bytes "
	for i := 0; i < 3; i++ {
		d, _ := number("digit", vrt.Choose("digits", vrt.Param("digits", 3, 4))+1)
		s += prefixes[vrt.Choose("prefix", 4)] + d
		if i < 2 {
			s += "-/"[i : i+1]
		}
	}
	checkContent(s)
}

func all(conds ...bool) bool {
	r := true
	for _, c := range conds {
		r = vrt.And(r, c)
	}
	return r
}

func either(conds ...bool) bool {
	r := false
	for _, c := range conds {
		r = vrt.Or(r, c)
	}
	return r
}

// shared is a server of one object that is asked by several threads.
type shared struct {
	mu    sync.Mutex
	heads int
	data  []byte
}

func (s *shared) RoundTrip(req *http.Request) (*http.Response, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	h := make(http.Header)
	if req.Method == "HEAD" {
		s.heads++
		return &http.Response{StatusCode: 200, Header: h, ContentLength: int64(len(s.data)), Body: &body{}}, nil
	}
	for first := range s.data {
		for last := first; last < len(s.data); last++ {
			f, l := string([]byte{'0' + byte(first)}), string([]byte{'0' + byte(last)})
			if req.Header.Get("Range") == "bytes="+f+"-"+l {
				h.Set("Content-Range", "bytes "+f+"-"+l+"/"+string([]byte{'0' + byte(len(s.data))}))
				return &http.Response{StatusCode: 206, Header: h, ContentLength: int64(last - first + 1), Body: &body{data: s.data[first : last+1]}}, nil
			}
		}
	}
	return nil, errFault
}

// H01Threads reads an object of unknown size from two threads.
func H01Threads() {
	srv := &shared{data: vrt.Bytes("data", 1+vrt.Choose("size", 3))}
	o := httpdriver.NewObject(&http.Client{Transport: srv}, target, parsed(target), -1)
	type job struct{ off, n int }
	jobs := make([]job, 2)
	for i := range jobs {
		jobs[i] = job{vrt.Choose("off", 4), 1 + vrt.Choose("n", 2)}
	}
	vrt.Preempt(vrt.Param("preempt", 1, 2))
	var wg sync.WaitGroup
	for i := range jobs {
		j := jobs[i]
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, j.n)
			n, err := o.ReadAt(buf, int64(j.off))
			want := len(srv.data) - j.off
			if want > j.n {
				want = j.n
			}
			if want <= 0 {
				vrt.Assert(n == 0 && err == io.EOF, "a read at the end returns end of data")
				vrt.Cover("end")
				return
			}
			vrt.Assert(n == want && (err == nil || err == io.EOF && want < j.n), "a read returns what is there")
			vrt.Assert(vrt.EqBytes(buf[:n], srv.data[j.off:j.off+n]), "a read returns the bytes of the object")
			vrt.Cover("read")
		}()
	}
	wg.Wait()
	vrt.Preempt(0)
	vrt.Assert(o.Size() == int64(len(srv.data)), "the size is the content length")
}
