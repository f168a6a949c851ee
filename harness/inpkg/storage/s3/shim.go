package s3driver

import (
	"net/http"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	_ "github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/s3"
)

// ZZDriver is a driver that sends requests through the transport.
func ZZDriver(t http.RoundTripper) driver.Driver {
	return &Driver{defaultTransport: t, bucketRegionCache: make(map[string]regionPromise)}
}

// ZZLocation sets the text of an answer that names a location.
func ZZLocation(v interface{}, s string) bool {
	r, ok := v.(*s3BucketRegionResult)
	if ok {
		r.Location = s
	}
	return ok
}
