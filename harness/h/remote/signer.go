package remote

import (
	"bytes"
	"io/ioutil"
	"net/http"
	stdurl "net/url"
	"strings"

	"github.com/aws/aws-sdk-go/aws/credentials"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vaws/v4"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

type provider struct {
	value credentials.Value
	err   error
}

func (p *provider) Retrieve() (credentials.Value, error) { return p.value, p.err }

func (p *provider) IsExpired() bool { return false }

func digit(d byte) string {
	return string([]byte{vrt.IteU8(d < 10, '0'+d, 'A'+d-10)})
}

// U04Sign sends a request through the signer with faults at every step.
func U04Sign() {
	v4.Fail, v4.Signed = nil, nil
	id := vrt.String("key", 2)
	prov := &provider{value: credentials.Value{AccessKeyID: id, SecretAccessKey: "s"}}
	noCreds := vrt.Bool("no credentials")
	if noCreds {
		prov.err = errFault
	}
	noSign := vrt.Bool("signing fails")
	if noSign {
		v4.Fail = errFault
	}
	var sent []byte
	b := &body{}
	kind := vrt.Choose("body", 3)
	if kind > 0 {
		sent = vrt.Bytes("content", vrt.Choose("length", 3))
		b.data = sent
		b.chunk = 1
		b.fail = vrt.Bool("body fails")
	}
	lost := vrt.Bool("transport fails")
	resp := &http.Response{StatusCode: 200, Body: &body{}}
	var got []byte
	var auth, path, scheme string
	srv := &server{}
	srv.answer = func(req *http.Request) (*http.Response, error) {
		auth, path, scheme = req.Header.Get("Authorization"), req.URL.EscapedPath(), req.URL.Scheme
		if req.Body != nil {
			var err error
			got, err = ioutil.ReadAll(req.Body)
			vrt.Assert(err == nil || b.fail, "the body can be sent")
		}
		if lost {
			return nil, errFault
		}
		return resp, nil
	}
	req, err := http.NewRequest("PUT", "http://host/x?q=1", nil)
	vrt.Assume(err == nil)
	name := vrt.String("path", vrt.Choose("path length", 3))
	req.URL.Path = "/" + name
	switch kind {
	case 1:
		req.Body = b
	case 2:
		req.Body = ioutil.NopCloser(bytes.NewReader(sent))
		b.fail = false
	}
	already := vrt.Bool("already signed")
	if already {
		req.Header.Set("Authorization", "AWS4-HMAC-SHA256 own")
	}
	r, err := s3util.NewSigningRoundTripper(srv, credentials.NewCredentials(prov), "region").RoundTrip(req)
	if already && kind == 1 && b.fail {
		vrt.Stop()
	}
	if !already && (noCreds || noSign || b.fail) {
		vrt.Cover("not signed")
		vrt.Assert(len(srv.reqs) == 0, "nothing is sent without a signature")
		vrt.Assert(r == nil && err != nil, "a request that cannot be signed fails")
		return
	}
	vrt.Assert(len(srv.reqs) == 1, "a signed request is sent once")
	vrt.Assert(len(got) == len(sent) && vrt.EqBytes(got, sent), "the body of the request is sent")
	if lost {
		vrt.Assert(err == errFault, "a lost request is reported")
	} else {
		vrt.Assert(r == resp && err == nil, "the answer is returned")
	}
	if already {
		vrt.Cover("already signed")
		vrt.Assert(auth == "AWS4-HMAC-SHA256 own", "a signature is kept")
		return
	}
	vrt.Cover("signed")
	vrt.Assert(strings.HasPrefix(auth, "AWS4-HMAC-SHA256 Credential=") && strings.HasSuffix(auth, "/region/s3") && auth[len("AWS4-HMAC-SHA256 Credential="):len(auth)-len("/region/s3")] == id, "the request is signed with the credentials for the region")
	vrt.Assert(len(v4.Signed) == 1 && vrt.EqBytes(v4.Signed[0], sent), "the body of the request is signed")
	vrt.Assert(scheme == "https", "a signed request is sent over a secure connection")
	want := "/"
	for i := 0; i < len(name); i++ {
		c := name[i]
		plain := either(all(c >= 'a', c <= 'z'), all(c >= 'A', c <= 'Z'), all(c >= '0', c <= '9'), c == '-', c == '_', c == '.', c == '~', c == '/')
		if vrt.Decide(plain) {
			want += name[i : i+1]
		} else {
			want += "%" + digit(c>>4) + digit(c&15)
		}
	}
	vrt.Assert(vrt.EqString(path, want), "the path is in the form that is signed")
	back, err := stdurl.PathUnescape(path)
	vrt.Assert(err == nil && back == "/"+name, "the path of the request is kept")
}
