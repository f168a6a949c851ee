package remote

import (
	"context"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"

	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// K01Settings places settings in a context in any order and reads all.
func K01Settings() {
	ctx := context.Background()
	var s3c *credentials.Credentials
	var s3t, swt, ht *time.Duration
	var swc *swiftdriver.SwiftCreds
	var region, authz *string
	n := vrt.Choose("settings", vrt.Param("settings", 3, 4)+1)
	for i := 0; i < n; i++ {
		kind := vrt.Choose("kind", 7)
		d := time.Duration(vrt.I64("timeout"))
		text := vrt.String("text", vrt.Choose("length", 2)+1)
		switch kind {
		case 0:
			s3c = credentials.NewStaticCredentials(text, "s", "")
			ctx = s3driver.CtxWithCredentials(ctx, s3c)
		case 1:
			s3t = &d
			ctx = s3driver.CtxWithTimeout(ctx, d)
		case 2:
			swc = &swiftdriver.SwiftCreds{AccessKeyId: text}
			ctx = swiftdriver.CtxWithCredentials(ctx, swc)
		case 3:
			swt = &d
			ctx = swiftdriver.CtxWithTimeout(ctx, d)
		case 4:
			region = &text
			ctx = swiftdriver.CtxWithRegion(ctx, text)
		case 5:
			ht = &d
			ctx = httpdriver.CtxWithTimeout(ctx, d)
		case 6:
			authz = &text
			ctx = httpdriver.CtxWithAuthz(ctx, text)
		}
	}
	c, ok := s3driver.CredentialsFromCtx(ctx)
	vrt.Assert(ok == (s3c != nil) && c == s3c, "S3 credentials are kept")
	t, ok := s3driver.TimeoutFromCtx(ctx)
	sameTime(t, ok, s3t, "the S3 timeout is kept")
	sc, ok := swiftdriver.CredentialsFromCtx(ctx)
	vrt.Assert(ok == (swc != nil) && sc == swc, "Swift credentials are kept")
	t, ok = swiftdriver.TimeoutFromCtx(ctx)
	sameTime(t, ok, swt, "the Swift timeout is kept")
	r, ok := swiftdriver.RegionFromCtx(ctx)
	vrt.Assert(ok == (region != nil), "the Swift region is kept")
	if region != nil {
		vrt.Assert(vrt.EqString(r, *region), "the Swift region is kept")
		vrt.Cover("region")
	}
	t, ok = httpdriver.TimeoutFromCtx(ctx)
	sameTime(t, ok, ht, "the HTTP timeout is kept")
	a, ok := httpdriver.AuthzFromCtx(ctx)
	vrt.Assert(ok == (authz != nil), "the HTTP authorization is kept")
	if authz != nil {
		vrt.Assert(vrt.EqString(*a, *authz), "the HTTP authorization is kept")
		vrt.Cover("authorization")
	}
}

func sameTime(t *time.Duration, ok bool, want *time.Duration, label string) {
	vrt.Assert(ok == (want != nil), label)
	if want != nil {
		vrt.Assert(*t == *want, label)
		vrt.Cover("timeout")
	}
}
