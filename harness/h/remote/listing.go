package remote

import (
	"net/http"
	stdurl "net/url"
	"os"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vaws/xml"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// single gives the only value of a query key.
func single(q stdurl.Values, key string) (string, bool) {
	v := q[key]
	vrt.Assert(len(v) <= 1, "a query key has one value")
	if len(v) == 0 {
		return "", false
	}
	return v[0], true
}

// U03Pages lists a bucket of several pages.
func U03Pages() {
	pages := vrt.Param("pages", 2, 3)
	count := 1 + vrt.Choose("pages", pages)
	type page struct {
		keys    []string
		dirs    []string
		key     *string
		version *string
	}
	var plan []page
	for i := 0; i < count; i++ {
		var p page
		for j := vrt.Choose("keys", 3); j > 0; j-- {
			p.keys = append(p.keys, vrt.String("key", 1))
		}
		if vrt.Bool("directory") {
			p.dirs = append(p.dirs, vrt.String("directory", 1))
		}
		// a page that is not the last one says where the next one starts
		which := 0
		if i < count-1 {
			which = 1 + vrt.Choose("markers", 3)
		}
		if which&1 != 0 {
			s := vrt.String("key marker", vrt.Choose("marker length", vrt.Param("marker", 2, 3)))
			p.key = &s
		}
		if which&2 != 0 {
			s := vrt.String("version marker", vrt.Choose("marker length", 2))
			p.version = &s
		}
		plan = append(plan, p)
	}
	fail := vrt.Choose("failing page", count+1)
	how := 0
	if fail < count {
		how = 1 + vrt.Choose("failure", 5)
	}
	status := 0
	if how == 2 {
		status = int(vrt.U16("status"))
		vrt.Assume(status >= 201 && status < 600)
	}
	dir := []string{"", "/", "/a", "/a/", "/a/b"}
	prefix := []string{"", "", "a/", "a/", "a/b/"}
	d := 4
	if count == 1 {
		d = vrt.Choose("directory", len(dir))
	}

	var bodies []*body
	srv := &server{}
	sent := 0
	srv.answer = func(req *http.Request) (*http.Response, error) {
		i := sent
		sent++
		vrt.Assert(i < count, "a listing ends with its last page")
		q := req.URL.Query()
		_, versions := q["versions"]
		vrt.Assert(versions, "versions are listed")
		vrt.Assert(req.URL.Path == "/" && req.URL.Host == "host", "the bucket is listed")
		pre, _ := single(q, "prefix")
		vrt.Assert(pre == prefix[d], "the directory is listed")
		del, _ := single(q, "delimiter")
		vrt.Assert(del == "/", "one level is listed")
		key, hasKey := single(q, "key-marker")
		ver, hasVer := single(q, "version-id-marker")
		if i == 0 {
			vrt.Assert(!hasKey && !hasVer, "a listing starts at the first page")
		} else {
			last := plan[i-1]
			vrt.Assert(hasKey == (last.key != nil), "the key marker is passed if there is one")
			vrt.Assert(hasVer == (last.version != nil), "the version marker is passed if there is one")
			if last.key != nil {
				vrt.Cover("key marker")
				vrt.Assert(len(key) == len(*last.key) && vrt.EqString(key, *last.key), "the key marker is that of the page before")
			}
			if last.version != nil {
				vrt.Cover("version marker")
				vrt.Assert(len(ver) == len(*last.version) && vrt.EqString(ver, *last.version), "the version marker is that of the page before")
			}
		}
		if i == fail && how == 1 {
			return nil, errFault
		}
		code := 200
		if i == fail && how == 2 {
			code = status
		}
		b := &body{data: []byte{byte(i)}, fail: i == fail && how == 3}
		bodies = append(bodies, b)
		return &http.Response{StatusCode: code, Body: b, Request: req, Header: http.Header{}}, nil
	}
	xml.Decode = func(data []byte, v interface{}) error {
		vrt.Assert(len(data) == 1, "a page is read whole")
		i := int(data[0])
		if i == fail && how == 4 {
			return errFault
		}
		p, ok := v.(*s3util.ListBucketPage)
		if !ok {
			vrt.Stop()
		}
		for _, k := range plan[i].keys {
			p.Version = append(p.Version, s3util.ObjectVersion{Key: k})
		}
		for _, k := range plan[i].dirs {
			p.CommonPrefixes = append(p.CommonPrefixes, s3util.DirEntry{Prefix: k})
		}
		p.NextKeyMarker = plan[i].key
		p.NextVersionIdMarker = plan[i].version
		p.IsTruncated = i < count-1
		return nil
	}
	seen := 0
	err := s3util.ListBucket(&http.Client{Transport: srv}, "http://host"+dir[d], func(p *s3util.ListBucketPage) error {
		i := seen
		seen++
		vrt.Assert(i < count, "every page is given once")
		vrt.Assert(len(p.Version) == len(plan[i].keys) && len(p.CommonPrefixes) == len(plan[i].dirs), "a page is given whole")
		for j, k := range plan[i].keys {
			vrt.Assert(vrt.EqString(p.Version[j].Key, k), "a page has its keys")
		}
		for j, k := range plan[i].dirs {
			vrt.Assert(vrt.EqString(p.CommonPrefixes[j].Prefix, k), "a page has its directories")
		}
		if i == fail && how == 5 {
			return errFault
		}
		return nil
	})
	if how == 0 {
		vrt.Cover("listed")
		vrt.Assert(err == nil, "a listing without a failure succeeds")
		vrt.Assert(seen == count && sent == count, "every page is given")
		if count > 1 {
			vrt.Cover("pages")
		}
	} else {
		vrt.Cover("failed")
		vrt.Assert(err != nil, "a failure is reported")
		if how == 5 {
			vrt.Assert(seen == fail+1, "a listing stops at a failure")
		} else {
			vrt.Assert(seen == fail, "a failing page is not given")
		}
		if how == 2 && fail == 0 && status == 404 {
			vrt.Cover("missing")
			vrt.Assert(os.IsNotExist(err), "a missing bucket does not exist")
		} else {
			vrt.Assert(!os.IsNotExist(err), "other failures are not absence")
		}
	}
	for _, b := range bodies {
		vrt.Assert(b.closed > 0, "an answer is released")
	}
}
