package remote

import (
	"bytes"
	"encoding/hex"
	"io"
	"io/ioutil"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/client/metadata"
	"github.com/aws/aws-sdk-go/aws/request"
	"github.com/aws/aws-sdk-go/service/s3"
	"github.com/aws/aws-sdk-go/service/s3/s3iface"

	"github.com/NVIDIA/vdisc/pkg/s3util"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vaws/s3manager"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

const (
	opPut = iota
	opCreate
	opPart
	opComplete
	opAbort
)

// store is an object store that keeps what is uploaded.
type store struct {
	s3iface.S3API
	fail     func(op, n int) bool
	calls    [5]int
	object   []byte
	stored   int
	parts    map[int64][]byte
	tags     map[int64]string
	complete int
	aborted  int
	digests  bool // every digest was that of the body
	version  *string
	bucket   string
	key      string
}

func newStore() *store {
	return &store{parts: map[int64][]byte{}, tags: map[int64]string{}, digests: true, bucket: "bucket", key: "key"}
}

func (s *store) failing(op int) bool {
	n := s.calls[op]
	s.calls[op]++
	return s.fail != nil && s.fail(op, n)
}

func (s *store) request(op int, params, out interface{}, send func(r *request.Request) error) *request.Request {
	var h request.Handlers
	h.Send.PushBack(func(r *request.Request) {
		if err := send(r); err != nil {
			r.Error = err
		}
	})
	return request.New(aws.Config{}, metadata.ClientInfo{Endpoint: "https://s3"}, h, once{},
		&request.Operation{Name: "op", HTTPMethod: "PUT", HTTPPath: "/"}, params, out)
}

// once sends every request once.
type once struct{}

func (once) RetryRules(*request.Request) time.Duration { return 0 }

func (once) ShouldRetry(*request.Request) bool { return false }

func (once) MaxRetries() int { return 0 }

func (s *store) named(bucket, key *string) {
	vrt.Assert(bucket != nil && *bucket == s.bucket && key != nil && *key == s.key, "the object has its name")
}

func (s *store) body(r *request.Request, b io.Reader) ([]byte, error) {
	data, err := ioutil.ReadAll(b)
	if err != nil {
		return nil, err
	}
	if r.HTTPRequest.Header.Get("X-Amz-Content-Sha256") != hex.EncodeToString(data) {
		s.digests = false
	}
	return data, nil
}

func (s *store) PutObjectRequest(in *s3.PutObjectInput) (*request.Request, *s3.PutObjectOutput) {
	out := &s3.PutObjectOutput{}
	return s.request(opPut, in, out, func(r *request.Request) error {
		s.named(in.Bucket, in.Key)
		data, err := s.body(r, in.Body)
		if err != nil {
			return err
		}
		if s.failing(opPut) {
			return errFault
		}
		s.object = data
		s.stored++
		out.ETag = aws.String("tag")
		out.VersionId = s.version
		return nil
	}), out
}

func (s *store) CreateMultipartUploadWithContext(ctx aws.Context, in *s3.CreateMultipartUploadInput, _ ...request.Option) (*s3.CreateMultipartUploadOutput, error) {
	s.named(in.Bucket, in.Key)
	if s.failing(opCreate) {
		return nil, errFault
	}
	return &s3.CreateMultipartUploadOutput{UploadId: aws.String("upload")}, nil
}

func (s *store) UploadPartRequest(in *s3.UploadPartInput) (*request.Request, *s3.UploadPartOutput) {
	out := &s3.UploadPartOutput{}
	return s.request(opPart, in, out, func(r *request.Request) error {
		s.named(in.Bucket, in.Key)
		vrt.Assert(*in.UploadId == "upload", "a part belongs to its upload")
		n := *in.PartNumber
		// sending takes its time
		vrt.Gate("part" + string([]byte{'0' + byte(n)}))
		data, err := s.body(r, in.Body)
		if err != nil {
			return err
		}
		if s.failing(opPart) {
			return errFault
		}
		_, twice := s.parts[n]
		vrt.Assert(!twice, "a part is uploaded once")
		tag := "tag" + string([]byte{'9' - byte(n)})
		s.parts[n] = data
		s.tags[n] = tag
		out.ETag = &tag
		return nil
	}), out
}

func (s *store) CompleteMultipartUploadWithContext(ctx aws.Context, in *s3.CompleteMultipartUploadInput, _ ...request.Option) (*s3.CompleteMultipartUploadOutput, error) {
	s.named(in.Bucket, in.Key)
	vrt.Assert(*in.UploadId == "upload" && s.aborted == 0, "the upload is completed")
	if s.failing(opComplete) {
		return nil, errFault
	}
	var object []byte
	for i, p := range in.MultipartUpload.Parts {
		n := *p.PartNumber
		vrt.Assert(n == int64(i+1), "the parts are numbered from one")
		data, ok := s.parts[n]
		vrt.Assert(ok && *p.ETag == s.tags[n], "a part is named by its tag")
		vrt.Assert(i == len(in.MultipartUpload.Parts)-1 || int64(len(data)) >= s3manager.MinUploadPartSize, "a part has the least size")
		object = append(object, data...)
	}
	vrt.Assert(len(in.MultipartUpload.Parts) == len(s.parts), "every part is used")
	s.object = object
	s.stored++
	s.complete++
	return &s3.CompleteMultipartUploadOutput{Location: aws.String("l"), VersionId: s.version}, nil
}

func (s *store) AbortMultipartUploadWithContext(ctx aws.Context, in *s3.AbortMultipartUploadInput, _ ...request.Option) (*s3.AbortMultipartUploadOutput, error) {
	s.named(in.Bucket, in.Key)
	s.failing(opAbort)
	vrt.Assert(*in.UploadId == "upload" && s.complete == 0, "the upload is aborted")
	s.aborted++
	return &s3.AbortMultipartUploadOutput{}, nil
}

// source is a stream without positions.
type source struct {
	data  []byte
	fail  bool
	chunk int
	late  bool // the end comes with the last data
}

func (r *source) Read(p []byte) (int, error) {
	if len(r.data) == 0 {
		if r.fail {
			return 0, errFault
		}
		return 0, io.EOF
	}
	n := len(p)
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p[:n], r.data)
	r.data = r.data[n:]
	if len(r.data) == 0 && r.late && n > 0 {
		if r.fail {
			return n, errFault
		}
		return n, io.EOF
	}
	return n, nil
}

// seekable is a stream with a position but no reads elsewhere.
type seekable struct{ r *bytes.Reader }

func (s seekable) Read(p []byte) (int, error) { return s.r.Read(p) }

func (s seekable) Seek(off int64, whence int) (int64, error) { return s.r.Seek(off, whence) }

func upload(threads bool) {
	sizes := []int{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 13, 14} // around the largest number of parts too
	if threads {
		sizes = []int{2, 3, 4, 5, 6, 7}[:vrt.Param("sizes", 5, 6)]
	}
	n := sizes[vrt.Choose("size", len(sizes))]
	data := vrt.Bytes("content", n)
	partSize := int64(vrt.Choose("part size", 2) + 2)
	skip := 0
	bad := false
	var in io.Reader
	kind := 0
	if !threads || n >= 4 {
		kind = vrt.Choose("kind", 3)
	}
	switch kind {
	case 0:
		src := &source{data: data, fail: vrt.Bool("stream fails"), late: true}
		if !threads {
			src.chunk = vrt.Choose("chunk", 3)
			src.late = vrt.Bool("end with data")
		}
		bad = src.fail
		in = src
	case 1, 2:
		r := bytes.NewReader(data)
		if n > 0 {
			skip = vrt.Choose("position", 2)
		}
		r.Seek(int64(skip), io.SeekStart)
		in = r
		if kind == 2 {
			in = seekable{r}
		}
	}
	op := vrt.Choose("failing request", 5) // the last one means none
	at := vrt.Choose("failing at", 2)
	st := newStore()
	st.fail = func(o, k int) bool {
		if o == opComplete {
			return o == op
		}
		return o == op && k == at
	}
	workers := 1
	if threads {
		workers = 2
	}
	var counter int64
	up := s3util.NewS3Uploader(st, func(u *s3util.S3Uploader) {
		u.PartSize = partSize
		u.Concurrency = workers
		u.ProgressCounter = &counter
	})
	out, err := up.Upload(&s3util.S3UploadInput{Bucket: aws.String("bucket"), Key: aws.String("key"), Body: in})
	want := data[skip:]
	vrt.Assert(st.digests, "a digest is that of the body it is sent with")
	failed := bad
	for o := opPut; o < opAbort; o++ {
		if o == op && (st.calls[o] > at || o == opComplete && st.calls[o] > 0) {
			failed = true
		}
	}
	if err == nil {
		vrt.Cover("stored")
		vrt.Assert(out != nil && st.stored == 1 && st.aborted == 0, "an upload that succeeds stores the object once")
		vrt.Assert(!failed, "a failure makes the upload fail")
		vrt.Assert(len(st.object) == len(want) && vrt.EqBytes(st.object, want), "the object has the bytes of the stream")
		vrt.Assert(counter == int64(len(want)), "the progress is the number of bytes")
		if st.complete > 0 {
			vrt.Cover("parts")
		}
	} else {
		vrt.Cover("failed")
		vrt.Assert(st.stored == 0, "an upload that fails stores nothing")
		vrt.Assert(failed || kind == 0 && int64(len(want)) >= s3manager.MaxUploadParts*partSize, "an upload without a failure succeeds")
		if st.calls[opCreate] > 0 && !(op == opCreate) {
			vrt.Assert(st.aborted == 1, "an upload that fails is aborted")
		}
	}
	vrt.Assert(vrt.Others() == 0, "no worker is left")
}

// U01Upload uploads streams with one worker.
func U01Upload() { upload(false) }

// U01Workers uploads streams with two workers.
func U01Workers() {
	vrt.Preempt(vrt.Param("preemptions", 1, 2))
	upload(true)
}
