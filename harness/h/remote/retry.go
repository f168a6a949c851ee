package remote

import (
	"bytes"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// H03Outcomes repeats a request over every sequence of outcomes.
func H03Outcomes() {
	const maxInterval = 2 * time.Millisecond
	rounds := vrt.Param("rounds", 4, 6)
	var sent []byte
	kind := vrt.Choose("body", 3)
	if kind > 0 {
		sent = vrt.Bytes("content", 2)
	}
	lost := make([]bool, rounds)
	status := make([]int, rounds)
	for i := range lost {
		lost[i] = vrt.Bool("transport fails")
		status[i] = vrt.Range("status", 100, 599)
	}
	var responses []*http.Response
	var bodies []*body
	var ended time.Duration
	srv := &server{}
	srv.answer = func(req *http.Request) (*http.Response, error) {
		i := len(srv.reqs) - 1
		if i > 0 {
			vrt.Assert(vrt.Elapsed()-ended < 400*time.Millisecond, "the wait between two attempts is the configured one")
		}
		if i >= rounds {
			vrt.Stop()
		}
		vrt.Assert(req.Method == "PUT" && req.URL.String() == target && req.Header.Get("X-Key") == "v", "every attempt sends the request")
		if kind > 0 {
			got, err := ioutil.ReadAll(req.Body)
			vrt.Assert(err == nil && len(got) == len(sent) && vrt.EqBytes(got, sent), "every attempt sends the whole body")
			req.Body.Close()
		}
		ended = vrt.Elapsed()
		responses = append(responses, nil)
		bodies = append(bodies, nil)
		if lost[i] {
			return nil, errFault
		}
		bodies[i] = &body{data: []byte("x")}
		responses[i] = &http.Response{StatusCode: status[i], Header: make(http.Header), Body: bodies[i]}
		return responses[i], nil
	}
	rt := httputil.WithRetries(srv, httputil.RetryOptions{InitialInterval: time.Millisecond, MaxInterval: maxInterval, MaxElapsedTime: time.Minute})
	var req *http.Request
	var err error
	switch kind {
	case 0:
		req, err = http.NewRequest("PUT", target, nil)
	case 1:
		req, err = http.NewRequest("PUT", target, bytes.NewReader(sent))
	case 2:
		// a body that can be read only once
		req, err = http.NewRequest("PUT", target, ioutil.NopCloser(bytes.NewReader(sent)))
	}
	vrt.Assume(err == nil)
	req.Header.Set("X-Key", "v")
	resp, err := rt.RoundTrip(req)
	n := len(srv.reqs)
	vrt.Assert(n >= 1, "the request is sent")
	for i := 0; i < n; i++ {
		failed := vrt.Or(lost[i], vrt.Or(status[i] >= 500, status[i] == 429))
		if i < n-1 {
			vrt.Cover("repeated")
			vrt.Assert(failed, "a request is repeated only after a failure")
			if bodies[i] != nil {
				vrt.Assert(bodies[i].closed > 0, "an answer that is not returned is released")
			}
			continue
		}
		if kind < 2 {
			vrt.Assert(!failed, "a request is repeated until it succeeds")
		}
		if lost[i] {
			vrt.Cover("failure")
			vrt.Assert(resp == nil && err == errFault, "the failure is reported")
		} else {
			vrt.Cover("answer")
			vrt.Assert(err == nil && resp == responses[i], "the answer of the last attempt is returned")
			vrt.Assert(bodies[i].closed == 0, "the returned answer can be read")
		}
	}
}

// H03Limit repeats a request that never succeeds.
func H03Limit() {
	const limit = 20 * time.Millisecond
	const maxInterval = 4 * time.Millisecond
	took := time.Duration(vrt.Choose("took", 4)) * 7 * time.Millisecond
	lost := vrt.Bool("transport fails")
	var last *body
	var lastResp *http.Response
	srv := &server{}
	srv.answer = func(req *http.Request) (*http.Response, error) {
		vrt.Assert(len(srv.reqs) == 1 || vrt.Elapsed() < limit+500*time.Millisecond, "no attempt starts after the configured time")
		vrt.Assert(len(srv.reqs) <= 40, "the attempts are bounded")
		if took > 0 {
			time.Sleep(took)
		}
		if lost {
			return nil, errFault
		}
		last = &body{}
		lastResp = &http.Response{StatusCode: 503, Header: make(http.Header), Body: last}
		return lastResp, nil
	}
	rt := httputil.WithRetries(srv, httputil.RetryOptions{InitialInterval: 2 * time.Millisecond, MaxInterval: maxInterval, MaxElapsedTime: limit})
	req, err := http.NewRequest("GET", target, nil)
	vrt.Assume(err == nil)
	resp, err := rt.RoundTrip(req)
	vrt.Assert(len(srv.reqs) > 1 || took >= limit, "a failed request is repeated within the configured time")
	if lost {
		vrt.Cover("failure")
		vrt.Assert(resp == nil && err == errFault, "the last failure is reported")
	} else {
		vrt.Cover("answer")
		vrt.Assert(err == nil && resp == lastResp && last.closed == 0, "the last answer is returned")
	}
}

// H03Default checks a request that succeeds at once, with default settings.
func H03Default() {
	status := vrt.Range("status", 100, 499)
	vrt.Assume(status != 429)
	b := &body{}
	resp := &http.Response{StatusCode: status, Header: make(http.Header), Body: b}
	srv := &server{answer: func(*http.Request) (*http.Response, error) { return resp, nil }}
	value := vrt.String("value", 3)
	set := vrt.Bool("already set")
	req, err := http.NewRequest("GET", target, nil)
	vrt.Assume(err == nil)
	if set {
		req.Header.Set("Authorization", "own")
	}
	got, err := httputil.WithAuthz(httputil.WithRetries(srv), value).RoundTrip(req)
	vrt.Assert(got == resp && err == nil && b.closed == 0, "an acceptable answer is returned")
	vrt.Assert(len(srv.reqs) == 1, "a request that succeeds is sent once")
	if set {
		vrt.Assert(srv.reqs[0].Header.Get("Authorization") == "own", "an authorization of the request is kept")
	} else {
		vrt.Assert(srv.reqs[0].Header.Get("Authorization") == value, "the authorization is added")
	}
}
