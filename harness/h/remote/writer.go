package remote

import (
	"io"

	"github.com/aws/aws-sdk-go/aws"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vaws/s3manager"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// U02Writer writes an object in any sequence of steps.
func U02Writer() { write(vrt.Param("steps", 3, 4)) }

// U02Threads writes an object while the workers run at any point.
func U02Threads() {
	vrt.Preempt(1)
	write(vrt.Param("steps", 2, 3))
}

func write(steps int) {
	op := vrt.Choose("failing request", 5) // the last one means none
	st := newStore()
	st.fail = func(o, k int) bool { return o == op && (k == 0 || o == opComplete) }
	if vrt.Bool("versioned") {
		st.version = aws.String("v1")
	}
	type step struct {
		kind int
		data []byte
		fail bool
	}
	var plan []step
	for i := 0; i < steps; i++ {
		s := step{kind: vrt.Choose("step", 4)}
		switch s.kind {
		case 0:
			s.data = vrt.Bytes("content", vrt.Choose("length", 4))
		case 1:
			s.data = vrt.Bytes("content", vrt.Choose("length", 2)*3)
			s.fail = vrt.Bool("stream fails")
		}
		plan = append(plan, s)
		if s.kind >= 2 {
			break
		}
	}
	w := s3driver.NewObjectWriter(st, "bucket", "key", "s3://bucket/key")
	var accepted []byte
	streamed, aborted, failed := false, false, false
	for i, s := range plan {
		switch s.kind {
		case 0:
			n, err := w.Write(s.data)
			vrt.Assert(n <= len(s.data) && (n == len(s.data) || err != nil), "a short write is an error")
			if streamed {
				vrt.Cover("mixed")
				vrt.Assert(err != nil, "a stream cannot be mixed with writes")
				continue
			}
			vrt.Assert(err == nil || op < opAbort, "a write without a failure succeeds")
			if err != nil {
				failed = true
			}
			accepted = append(accepted, s.data[:n]...)
		case 1:
			rf, ok := w.(io.ReaderFrom)
			if !ok {
				vrt.Stop()
			}
			n, err := rf.ReadFrom(&source{data: s.data, fail: s.fail})
			if i > 0 {
				vrt.Assert(err != nil, "a stream cannot be mixed with writes")
				continue
			}
			streamed = true
			if err != nil {
				vrt.Cover("failed stream")
				failed = true
			} else {
				vrt.Assert(!s.fail, "a failing stream is an error")
				vrt.Assert(n == int64(len(s.data)), "a stream is counted")
				accepted = append(accepted, s.data...)
			}
		case 2:
			vrt.Cover("abort")
			w.Abort()
			aborted = true
		}
	}
	if aborted && !streamed {
		vrt.Settle()
		vrt.Assert(st.stored == 0, "an aborted writer stores nothing")
	}
	ci, err := w.Commit()
	now := st.stored
	if err == nil {
		vrt.Cover("committed")
		vrt.Assert(!aborted || streamed, "an aborted writer cannot be committed")
		vrt.Assert(!failed, "a failure makes the commit fail")
		vrt.Assert(now == 1, "a commit that succeeds has stored the object")
		vrt.Assert(len(st.object) == len(accepted) && vrt.EqBytes(st.object, accepted), "the object has the bytes written")
		want := "s3://bucket/key"
		if st.version != nil {
			want += "?versionId=v1"
		}
		vrt.Assert(ci.ObjectURL() == want, "the object is named by its URL")
	} else {
		vrt.Cover("refused")
		// the single request fails, or one of those for parts
		called := op < opAbort && st.calls[op] > 0
		long := !streamed && int64(len(accepted)) >= s3manager.MaxUploadParts*s3manager.DefaultUploadPartSize
		vrt.Assert(aborted || failed || called || long, "a commit without a failure succeeds")
		if !streamed {
			vrt.Assert(st.stored == 0, "a commit that fails stores nothing")
		}
	}
	vrt.Settle()
	vrt.Assert(st.stored == now, "nothing is stored after a commit")
	vrt.Assert(vrt.Others() == 0, "no worker is left")
	var _ driver.ObjectWriter = w
}
