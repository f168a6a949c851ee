package remote

import (
	"bytes"
	"context"
	"io"
	"net/http"
	"os"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/service/s3/s3iface"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vaws/v4"
	awsxml "github.com/NVIDIA/vdisc/pkg/zzverif/vaws/xml"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/defaults"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/ec2metadata"
	cloudos "github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/os"
	clouds3 "github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/s3"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/session"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/xml"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// letters draws a string of lower-case letters.
func letters(name string, n int) string {
	b := vrt.Bytes(name, n)
	for i := range b {
		vrt.Assume(b[i] >= 'a' && b[i] <= 'z')
	}
	return string(b)
}

// expected is what a request has to look like.
type expected struct {
	host    string
	path    string
	auth    string // none if empty
	timeout time.Duration
}

// check looks at a request.
func (e *expected) check(req *http.Request) {
	vrt.Assert(req.URL.Host == e.host, "the host of the object is asked")
	vrt.Assert(req.URL.Path == e.path, "the object is named")
	vrt.Assert(req.Header.Get("Authorization") == e.auth, "the credentials of the call are used")
	at, ok := req.Context().Deadline()
	vrt.Assert(ok, "a request has a time limit")
	left := time.Until(at)
	vrt.Assert(left <= e.timeout && left > e.timeout-2*time.Second, "the time limit is that of the call")
}

// answer serves one object of one byte.
func (e *expected) answer(req *http.Request) (*http.Response, error) {
	e.check(req)
	resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &body{}, ContentLength: 1}
	switch req.Method {
	case "GET":
		resp.Body = &body{data: []byte{'x'}}
		if req.Header.Get("Range") != "" {
			resp.StatusCode = 206
			resp.Header.Set("Content-Range", "bytes 0-0/1")
		}
	case "DELETE":
		resp.StatusCode = 204
		resp.ContentLength = 0
	}
	return resp, nil
}

// limit draws a time limit, if there is one.
func limit() (time.Duration, bool) {
	switch vrt.Choose("time limit", 3) {
	case 0:
		return 30 * time.Second, false
	case 1:
		return 5 * time.Second, true
	}
	return 90 * time.Second, true
}

// use works on an object in one of the ways that send requests.
func use(d driver.Driver, ctx context.Context, url string, op int) error {
	switch op {
	case 0:
		o, err := d.Open(ctx, url, -1)
		if err != nil {
			return err
		}
		p := make([]byte, 1)
		_, err = o.ReadAt(p, 0)
		vrt.Assert(err != nil || p[0] == 'x', "the object is read")
		o.Close()
		return err
	case 1:
		fi, err := d.Stat(ctx, url)
		vrt.Assert(err != nil || fi.Size() == 1, "the object has its size")
		return err
	}
	return d.(driver.Remover).Remove(ctx, url)
}

// K02Http sends requests for an object of a web server.
func K02Http() {
	e := &expected{host: letters("host", 1), path: "/" + letters("path", 1)}
	ctx := context.Background()
	var set bool
	if e.timeout, set = limit(); set {
		ctx = httpdriver.CtxWithTimeout(ctx, e.timeout)
	}
	if vrt.Bool("authorization") {
		e.auth = letters("authorization", 2)
		ctx = httpdriver.CtxWithAuthz(ctx, e.auth)
	}
	srv := &server{answer: e.answer}
	err := use(httpdriver.ZZDriver(srv), ctx, "http://"+e.host+e.path, vrt.Choose("operation", 3))
	vrt.Assert(err == nil && len(srv.reqs) > 0, "the object is reached")
	vrt.Cover("done")
}

// keyOf draws a key of one or two parts.
func keyOf() string {
	k := letters("key", 1)
	if vrt.Bool("nested") {
		k += "/" + letters("key", 1)
	}
	return k
}

// K02Swift sends requests for an object of a Swift store.
func K02Swift() {
	v4.Fail, v4.Signed = nil, nil
	account, container, key := letters("account", 1), letters("container", 1), keyOf()
	ctx := context.Background()
	e := &expected{host: "host", path: "/" + container + "/" + key}
	var set bool
	if e.timeout, set = limit(); set {
		ctx = swiftdriver.CtxWithTimeout(ctx, e.timeout)
	}
	cloudos.Env = map[string]string{}
	envId, envSecret, envRegion := vrt.Bool("id set"), vrt.Bool("secret set"), vrt.Bool("region set")
	id, region := "", "us-east-1"
	if envId {
		id = letters("id", 1)
		cloudos.Env["SWIFT_ACCESS_KEY_ID"] = id
	}
	if envSecret {
		cloudos.Env["SWIFT_SECRET_ACCESS_KEY"] = "s"
	}
	if envRegion {
		region = "r" + letters("region", 1)
		cloudos.Env["SWIFT_REGION"] = region
	}
	known := vrt.And(envId, envSecret)
	if vrt.Bool("credentials") {
		id, known = letters("call id", 1), true
		ctx = swiftdriver.CtxWithCredentials(ctx, &swiftdriver.SwiftCreds{AccessKeyId: id, SecretAccessKey: "s"})
	}
	if vrt.Bool("region") {
		region = "q" + letters("call region", 1)
		ctx = swiftdriver.CtxWithRegion(ctx, region)
	}
	name := id
	if name != account {
		name += ":AUTH_" + account
	}
	e.auth = "AWS4-HMAC-SHA256 Credential=" + name + "/" + region + "/s3"
	srv := &server{answer: e.answer}
	d := swiftdriver.ZZDriver(srv)
	url := "swift://host/" + account + "/" + container + "/" + key
	op := vrt.Choose("operation", 4)
	if op == 3 {
		st := newStore()
		st.bucket, st.key = container, "/"+key
		clouds3.Service = func(cfg *aws.Config) s3iface.S3API {
			vrt.Assert(aws.StringValue(cfg.Region) == region, "an upload has the region of the call")
			vrt.Assert(aws.StringValue(cfg.Endpoint) == "https://host" && aws.BoolValue(cfg.S3ForcePathStyle), "an upload goes to the host of the object")
			v, err := cfg.Credentials.Get()
			vrt.Assert((err == nil) == known, "an upload needs credentials")
			vrt.Assert(err != nil || v.AccessKeyID == name, "an upload uses the credentials of the call")
			return st
		}
		w, err := d.(driver.Creator).Create(ctx, url)
		vrt.Assert(err == nil, "an object is created")
		finish(w, st)
		vrt.Cover("created")
		return
	}
	err := use(d, ctx, url, op)
	vrt.Assert((err == nil) == known, "the object is reached if there are credentials")
	vrt.Assert(known || len(srv.reqs) == 0, "nothing is sent without credentials")
	vrt.Cover("done")
}

// finish writes an object, which the store checks the name of.
func finish(w driver.ObjectWriter, st *store) {
	_, err := w.(io.ReaderFrom).ReadFrom(bytes.NewReader([]byte{'x'}))
	vrt.Assert(err == nil, "data is written")
	_, err = w.Commit()
	vrt.Assert(err == nil && st.stored == 1 && string(st.object) == "x", "the object is stored")
}

// bucket answers requests for a bucket and its location.
type bucket struct {
	expected
	name     string
	home     string // the region of the machine
	location string
	refuse   []bool // lookups that are refused
	lookups  int
}

func (b *bucket) answer(req *http.Request) (*http.Response, error) {
	if _, ok := req.URL.Query()["location"]; !ok {
		return b.expected.answer(req)
	}
	domain := "com"
	if len(b.home) > 3 && b.home[:3] == "cn-" {
		domain = "com.cn"
	}
	vrt.Assert(req.URL.Host == b.name+".s3."+b.home+".amazonaws."+domain, "the location of the bucket is asked for")
	vrt.Assert(req.Header.Get("Authorization") == "AWS4-HMAC-SHA256 Credential="+defaults.Machine+"/"+b.home+"/s3", "the lookup is signed for the region of the machine")
	i := b.lookups
	b.lookups++
	resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &body{data: []byte("location")}}
	if i < len(b.refuse) && b.refuse[i] {
		resp.StatusCode = 403
	}
	return resp, nil
}

// K02S3 sends requests for objects of a bucket.
func K02S3() {
	v4.Fail, v4.Signed = nil, nil
	b := &bucket{name: letters("bucket", 1), home: "us-east-1"}
	cloudos.Env, session.Region, ec2metadata.Place = nil, "", ""
	switch vrt.Choose("home", 4) {
	case 1:
		b.home = vrt.String("home", 1)
		vrt.Assume(vrt.And(b.home[0] >= 'a', b.home[0] <= 'z'))
		b.home = "us-" + b.home
		cloudos.Env = map[string]string{"AWS_REGION": b.home}
	case 2:
		b.home = "cn-a"
		session.Region = b.home
	case 3:
		b.home = "sa-b"
		ec2metadata.Place = b.home
	}
	region := ""
	switch vrt.Choose("location", 3) {
	case 0:
		b.location, region = "", "us-east-1"
	case 1:
		b.location, region = "EU", "eu-west-1"
	case 2:
		region = "eu-" + letters("location", 1)
		b.location = region
	}
	xml.Decode = func(data []byte, v interface{}) error {
		vrt.Assert(string(data) == "location", "the answer is read whole")
		if !s3driver.ZZLocation(v, b.location) {
			vrt.Stop()
		}
		return nil
	}
	key := keyOf()
	n := vrt.Param("operations", 2, 3)
	for i := 0; i < n; i++ {
		b.refuse = append(b.refuse, vrt.Bool("refused"))
	}
	b.host = b.name + ".s3-" + region + ".amazonaws.com"
	b.path = "/" + key
	srv := &server{answer: b.answer}
	d := s3driver.ZZDriver(srv)
	url := "s3://" + b.name + "/" + key
	for i := 0; i < n; i++ {
		ctx := context.Background()
		var set bool
		if b.timeout, set = limit(); set {
			ctx = s3driver.CtxWithTimeout(ctx, b.timeout)
		}
		id := defaults.Machine
		own := vrt.Bool("credentials")
		if own {
			id = letters("id", 1)
			ctx = s3driver.CtxWithCredentials(ctx, credentials.NewStaticCredentials(id, "s", ""))
		}
		b.auth = "AWS4-HMAC-SHA256 Credential=" + id + "/" + region + "/s3"
		refused := true
		for k := 0; k < b.lookups; k++ {
			refused = refused && b.refuse[k]
		}
		if refused {
			// the location is not known
			refused = b.refuse[b.lookups]
		}
		op := vrt.Choose("operation", 4)
		if op < 3 {
			err := use(d, ctx, url, op)
			vrt.Assert((err != nil) == refused, "the object is reached if the location of its bucket is known")
		} else {
			st := newStore()
			st.bucket, st.key = b.name, "/"+key
			clouds3.Service = func(cfg *aws.Config) s3iface.S3API {
				vrt.Assert(aws.StringValue(cfg.Region) == region, "an upload has the region of the bucket")
				vrt.Assert((cfg.Credentials != nil) == own, "an upload uses credentials of the call only")
				if own {
					v, err := cfg.Credentials.Get()
					vrt.Assert(err == nil && v.AccessKeyID == id, "an upload uses the credentials of the call")
				}
				return st
			}
			w, err := d.(driver.Creator).Create(ctx, url)
			vrt.Assert((err != nil) == refused, "an object is created if the location of its bucket is known")
			if err == nil {
				finish(w, st)
				vrt.Cover("created")
			}
		}
		if refused {
			vrt.Cover("refused")
		} else {
			vrt.Cover("reached")
		}
	}
}

// K02Buckets works on two buckets at the same time.
func K02Buckets() {
	v4.Fail, v4.Signed = nil, nil
	cloudos.Env, session.Region, ec2metadata.Place = map[string]string{"AWS_REGION": "us-x"}, "", ""
	names := []string{"a", letters("bucket", 1)}
	regions := []string{"eu-a", "eu-" + letters("location", 1)}
	if names[0] == names[1] {
		regions[1] = regions[0]
	}
	lookups := 0
	srv := &server{answer: func(req *http.Request) (*http.Response, error) {
		if _, ok := req.URL.Query()["location"]; ok {
			lookups++
			which := "0"
			if req.URL.Host != names[0]+".s3.us-x.amazonaws.com" {
				vrt.Assert(req.URL.Host == names[1]+".s3.us-x.amazonaws.com", "the location of a bucket is asked for")
				which = "1"
			}
			return &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &body{data: []byte(which)}}, nil
		}
		i := 0
		if req.URL.Path != "/0" {
			i = 1
		}
		vrt.Assert(req.URL.Host == names[i]+".s3-"+regions[i]+".amazonaws.com", "an object is asked for in its bucket")
		return &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &body{}, ContentLength: 1}, nil
	}}
	xml.Decode = func(data []byte, v interface{}) error {
		if !s3driver.ZZLocation(v, regions[int(data[0]-'0')]) {
			vrt.Stop()
		}
		return nil
	}
	d := s3driver.ZZDriver(srv)
	done := make(chan error, 2)
	for i := range names {
		url := "s3://" + names[i] + "/" + string([]byte{'0' + byte(i)})
		go func() { done <- use(d, context.Background(), url, 1) }()
	}
	for range names {
		vrt.Assert(<-done == nil, "the object is reached")
	}
	vrt.Assert(lookups <= 2, "a location is asked for once")
	vrt.Cover("done")
}

type versioned interface{ Version() string }

// stored is an object version or a directory of a listing.
type stored struct {
	key    string
	dir    bool
	latest bool
	size   int64
	null   bool
}

// listing makes an answer with one or two pages.
func listing(prefix string) (plan []stored, split int) {
	n := vrt.Param("entries", 2, 3)
	for i := 0; i < n; i++ {
		s := stored{dir: vrt.Bool("directory")}
		s.key = prefix + letters("name", 1)
		if s.dir {
			s.key += "/"
		} else {
			if vrt.Bool("the directory itself") {
				s.key = prefix
			}
			s.latest = vrt.Bool("latest")
			s.size = vrt.I64("size")
			s.null = vrt.Bool("no version")
		}
		plan = append(plan, s)
	}
	return plan, vrt.Choose("pages", n+1)
}

// checkListing compares a listing with what the store has.
func checkListing(fis []os.FileInfo, plan []stored, split int, prefix string) {
	i := 0
	next := func(s stored) {
		name := s.key[len(prefix):]
		if s.dir {
			name = name[:len(name)-1]
		} else if !s.latest || name == "" {
			return
		}
		vrt.Assert(i < len(fis), "a listing has every object and directory")
		fi := fis[i]
		i++
		vrt.Assert(fi.Name() == name && fi.IsDir() == s.dir, "an entry has its name")
		if !s.dir {
			vrt.Assert(fi.Size() == s.size, "an entry has its size")
			vrt.Assert(fi.ModTime().Equal(time.Date(2020, 1, 2, 3, 4, 5, 0, time.UTC)), "an entry has its time")
			want := "v"
			if s.null {
				want = ""
			}
			vrt.Assert(fi.(versioned).Version() == want, "an entry has its version")
		}
		vrt.Cover("entry")
	}
	for _, part := range [][]stored{plan[:split], plan[split:]} {
		for _, s := range part {
			if !s.dir {
				next(s)
			}
		}
		for _, s := range part {
			if s.dir {
				next(s)
			}
		}
	}
	vrt.Assert(i == len(fis), "a listing has nothing else")
}

func decodePages(plan []stored, split int, broken bool) {
	awsxml.Decode = func(data []byte, v interface{}) error {
		p, ok := v.(*s3util.ListBucketPage)
		if !ok {
			vrt.Stop()
		}
		part := plan[:split]
		if data[0] == '1' {
			part = plan[split:]
		} else {
			next := "next"
			p.NextKeyMarker = &next
			p.IsTruncated = true
		}
		for _, s := range part {
			if s.dir {
				p.CommonPrefixes = append(p.CommonPrefixes, s3util.DirEntry{Prefix: s.key})
				continue
			}
			version := s3util.ObjectVersion{Key: s.key, Size: s.size, IsLatest: s.latest, VersionId: "v", LastModified: "2020-01-02T03:04:05.000Z"}
			if s.null {
				version.VersionId = "null"
			}
			if broken {
				version.LastModified = "?"
			}
			p.Version = append(p.Version, version)
		}
		return nil
	}
}

// U05Listing lists a directory of an object store.
func U05Listing() {
	v4.Fail, v4.Signed = nil, nil
	cloudos.Env, session.Region, ec2metadata.Place = map[string]string{
		"AWS_REGION": "us-x", "SWIFT_ACCESS_KEY_ID": "id", "SWIFT_SECRET_ACCESS_KEY": "s",
	}, "", ""
	prefix := ""
	if vrt.Bool("nested") {
		prefix = letters("directory", 1) + "/"
	}
	plan, split := listing(prefix)
	broken := vrt.Bool("times are broken")
	refused := vrt.Bool("refused")
	swift := vrt.Bool("swift")
	decodePages(plan, split, broken)
	xml.Decode = func(data []byte, v interface{}) error {
		if !s3driver.ZZLocation(v, "eu-a") {
			vrt.Stop()
		}
		return nil
	}
	pages := 0
	srv := &server{answer: func(req *http.Request) (*http.Response, error) {
		resp := &http.Response{StatusCode: 200, Header: http.Header{}, Request: req, Body: &body{data: []byte("0")}}
		q := req.URL.Query()
		if _, ok := q["location"]; ok {
			return resp, nil
		}
		host, path := "b.s3-eu-a.amazonaws.com", "/"
		if swift {
			host, path = "host", "/b"
			if len(req.URL.Path) == 3 {
				path = "/b/"
			}
		}
		vrt.Assert(req.URL.Host == host && req.URL.Path == path, "the bucket is listed")
		got, _ := single(q, "prefix")
		vrt.Assert(got == prefix, "the directory is listed")
		if _, more := q["key-marker"]; more {
			vrt.Cover("two pages")
			resp.Body = &body{data: []byte("1")}
		}
		if refused {
			resp.StatusCode = 403
		}
		pages++
		return resp, nil
	}}
	d, url := s3driver.ZZDriver(srv), "s3://b/"+prefix
	if swift {
		d, url = swiftdriver.ZZDriver(srv), "swift://host/account/b/"+prefix
	}
	if prefix != "" && vrt.Bool("without slash") {
		url = url[:len(url)-1]
	}
	fis, err := d.(driver.Readdirer).Readdir(context.Background(), url)
	if refused {
		vrt.Assert(err != nil, "a listing that is refused fails")
		vrt.Cover("refused")
		return
	}
	if broken && err != nil {
		vrt.Cover("broken")
		return
	}
	vrt.Assert(err == nil && pages == 2, "a directory is listed")
	if broken {
		return
	}
	checkListing(fis, plan, split, prefix)
}
