package httputil

import (
	"context"
	"errors"
	"net"
	"net/http"
	"sync"

	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// H04Resolve looks a host up again and again, with any outcome.
func H04Resolve() {
	fault := errors.New("fault")
	n := vrt.Param("lookups", 3, 4)
	failing := make([]bool, n)
	sets := make([][]string, n)
	for i := range sets {
		failing[i] = vrt.Bool("lookup fails")
		c := vrt.Bytes("address", 1+vrt.Choose("addresses", 2))
		for k := range c {
			vrt.Assume(c[k] >= '0' && c[k] <= '9')
			if k > 0 {
				vrt.Assume(c[k] != c[k-1])
			}
			sets[i] = append(sets[i], "10.0.0."+string(c[k:k+1]))
		}
	}
	lookups := 0
	var dialed []string
	t := newHostRoundRobinTransport("h", RoundRobinTransportConfig{
		LookupHost: func(host string) ([]string, error) {
			vrt.Assert(host == "h", "the host is looked up")
			i := lookups
			lookups++
			if failing[i] {
				return nil, fault
			}
			return append([]string(nil), sets[i]...), nil
		},
		Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
			dialed = append(dialed, addr)
			return nil, fault
		},
	})
	var current []string
	for i := 0; i < n; i++ {
		if i > 0 {
			t.Resolve()
		}
		vrt.Assert(lookups == i+1, "resolving looks the host up")
		if !failing[i] {
			current = sets[i]
		}
		for k := 0; k < 2; k++ {
			req, err := http.NewRequest("GET", "http://h/x", nil)
			vrt.Assume(err == nil)
			before := len(dialed)
			_, err = t.RoundTrip(req)
			vrt.Assert(err != nil, "a request that cannot be sent fails")
			if len(current) == 0 {
				vrt.Cover("no address")
				vrt.Assert(len(dialed) == before, "nothing is sent without an address")
				continue
			}
			vrt.Assert(len(dialed) == before+1, "a request is sent once")
			ok := false
			for _, ip := range current {
				ok = vrt.Or(ok, dialed[before] == ip+":80")
			}
			vrt.Cover("sent")
			vrt.Assert(ok, "a request goes to an address of the last lookup that succeeded")
			if k == 1 && len(current) == 2 {
				vrt.Assert(dialed[before] != dialed[before-1], "the addresses of a host are used in turn")
			}
		}
	}
	t.StopResolving()
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "a host that is no longer kept is no longer looked up")
}

// H04Moving sends requests while the host is looked up again and has moved.
func H04Moving() {
	fault := errors.New("fault")
	sets := make([][]string, 2)
	for i := range sets {
		for k := 1 + vrt.Choose("addresses", 2); k > 0; k-- {
			sets[i] = append(sets[i], []string{"10.0.0.1", "10.0.0.2", "10.0.0.3"}[i+k-1])
		}
	}
	var mu sync.Mutex
	lookups := 0
	var dialed []string
	t := newHostRoundRobinTransport("h", RoundRobinTransportConfig{
		LookupHost: func(host string) ([]string, error) {
			mu.Lock()
			defer mu.Unlock()
			i := lookups
			if i > 1 {
				i = 1
			}
			lookups++
			return append([]string(nil), sets[i]...), nil
		},
		Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
			mu.Lock()
			defer mu.Unlock()
			dialed = append(dialed, addr)
			return nil, fault
		},
	})
	send := func() {
		req, err := http.NewRequest("GET", "http://h/x", nil)
		if err != nil {
			return
		}
		_, err = t.RoundTrip(req)
		vrt.Assert(err != nil, "a request that cannot be sent fails")
	}
	vrt.Preempt(vrt.Param("preempt", 2, 3))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		t.Resolve()
	}()
	go func() {
		defer wg.Done()
		send()
		send()
	}()
	wg.Wait()
	vrt.Preempt(0)
	send()
	vrt.Assert(len(dialed) == 3, "a request is sent once")
	for i, addr := range dialed {
		ok := false
		for k, set := range sets {
			for _, ip := range set {
				ok = ok || addr == ip+":80" && (i < 2 || k == 1)
			}
		}
		vrt.Assert(ok, "a request goes to an address of a lookup that succeeded")
		vrt.Cover("sent")
	}
	t.StopResolving()
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "a host that is no longer kept is no longer looked up")
}
