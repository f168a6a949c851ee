package swiftdriver

import (
	"net/http"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	_ "github.com/NVIDIA/vdisc/pkg/zzverif/vcloud/s3"
)

// ZZDriver is a driver that sends requests through the transport.
func ZZDriver(t http.RoundTripper) driver.Driver { return &Driver{defaultTransport: t} }
