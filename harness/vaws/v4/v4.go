// Package v4 stands in for the signer: a signature names the key, the region
// and the service, and the body that was signed is kept.
package v4

import (
	"io"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"
)

type Signer struct {
	Credentials                 *credentials.Credentials
	DisableHeaderHoisting       bool
	DisableRequestBodyOverwrite bool
	DisableURIPathEscaping      bool
	UnsignedPayload             bool
}

// Fail makes signing fail.
var Fail error

// Signed are the bodies that have been signed.
var Signed [][]byte

func NewSigner(c *credentials.Credentials, options ...func(*Signer)) *Signer {
	s := &Signer{Credentials: c}
	for _, o := range options {
		o(s)
	}
	return s
}

func (s *Signer) Sign(r *http.Request, body io.ReadSeeker, service, region string, signTime time.Time) (http.Header, error) {
	v, err := s.Credentials.Get()
	if err != nil {
		return http.Header{}, err
	}
	if Fail != nil {
		return http.Header{}, Fail
	}
	var data []byte
	if body != nil {
		if data, err = ioutil.ReadAll(body); err != nil {
			return http.Header{}, err
		}
		if _, err = body.Seek(0, io.SeekStart); err != nil {
			return http.Header{}, err
		}
	}
	if !s.DisableRequestBodyOverwrite {
		r.Body = nil
		if body != nil {
			r.Body = ioutil.NopCloser(body)
		}
	}
	Signed = append(Signed, data)
	r.Header.Set("Authorization", "AWS4-HMAC-SHA256 Credential="+v.AccessKeyID+"/"+region+"/"+service)
	return r.Header, nil
}
