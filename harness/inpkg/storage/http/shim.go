package httpdriver

import (
	"net/http"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

// ZZDriver is a driver that sends requests through the transport.
func ZZDriver(t http.RoundTripper) driver.Driver { return &Driver{defaultTransport: t} }
