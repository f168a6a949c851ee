package remote

import (
	"context"
	"net"
	"net/http"

	"github.com/NVIDIA/vdisc/pkg/httputil"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// H04Requests sends requests to more hosts than are kept.
func H04Requests() {
	hosts := []string{"a", "b", "c"}
	c := vrt.Bytes("address", 5)
	for _, d := range c {
		vrt.Assume(d >= '0' && d <= '9')
	}
	vrt.Assume(c[0] != c[1])
	addrs := [][]string{{"10.0.0." + string(c[:1]), "10.0.0." + string(c[1:2])}, {"10.0.1." + string(c[2:3]), "fd00::" + string(c[3:4])}, {"10.0.2." + string(c[4:5])}}
	max := vrt.Choose("kept hosts", 3)
	n := vrt.Param("requests", 4, 5)
	failing := make([]bool, n)
	which := make([]int, n)
	for i := 0; i < n; i++ {
		failing[i] = vrt.Bool("lookup fails")
		which[i] = vrt.Choose("host", len(hosts))
	}
	empty := vrt.Bool("no addresses")
	lookups := 0
	// the address set of a host that is kept, and the addresses used of it
	failed := map[string]bool{}
	used := map[string][]string{}
	var dialed []string
	rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
		MaxHosts: max,
		LookupHost: func(host string) ([]string, error) {
			i := lookups
			lookups++
			used[host] = nil
			failed[host] = false
			if i < n && failing[i] {
				failed[host] = true
				if empty {
					return nil, nil
				}
				return nil, errFault
			}
			for k, h := range hosts {
				if h == host {
					return append([]string(nil), addrs[k]...), nil
				}
			}
			vrt.Assert(false, "only the hosts of requests are looked up")
			return nil, errFault
		},
		Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
			dialed = append(dialed, addr)
			return nil, errFault
		},
	})
	for i := 0; i < n; i++ {
		host := hosts[which[i]]
		scheme, port, given := "http", "80", ""
		switch i % 3 {
		case 1:
			scheme, port = "https", "443"
		case 2:
			port, given = "8080", ":8080"
		}
		req, err := http.NewRequest("GET", scheme+"://"+host+given+"/x", nil)
		vrt.Assume(err == nil)
		before := len(dialed)
		resp, err := rt.RoundTrip(req)
		vrt.Assert(resp == nil && err != nil, "a request that cannot be sent fails")
		vrt.Assert(req.URL.Host == host+given && req.URL.Scheme == scheme && req.Host == host+given, "the request is kept")
		if failed[host] {
			vrt.Cover("failed lookup")
			vrt.Assert(len(dialed) == before, "nothing is sent without an address")
			continue
		}
		vrt.Cover("sent")
		vrt.Assert(err == errFault && len(dialed) == before+1, "a request is sent once")
		addr := dialed[before]
		own := addrs[which[i]]
		found := ""
		for _, ip := range own {
			if addr == net.JoinHostPort(ip, port) {
				found = ip
			}
		}
		vrt.Assert(found != "", "a request goes to an address of its host")
		u := used[host]
		for k := len(u) - 1; k >= 0 && k > len(u)-len(own); k-- {
			vrt.Cover("rotated")
			vrt.Assert(u[k] != found, "the addresses of a host are used in turn")
		}
		used[host] = append(u, found)
	}
	vrt.Settle()
	if max > 0 {
		vrt.Assert(vrt.Others() <= max, "a host that is no longer kept is no longer looked up")
	}
	vrt.Assert(max > 0 || lookups <= len(hosts), "a host is looked up once while it is kept")
}

// H04Threads sends requests at the same time.
func H04Threads() {
	vrt.Preempt(vrt.Param("preemptions", 2, 3))
	max := vrt.Choose("kept hosts", 2) + 1
	fails := vrt.Bool("lookup fails")
	hosts := []string{"a", "b"}
	which := []int{0, vrt.Choose("second host", 2)}
	c := vrt.Bytes("address", 2)
	vrt.Assume(c[0] >= '0' && c[0] <= '9' && c[1] >= '0' && c[1] <= '9')
	addrs := []string{"10.0.0." + string(c[:1]), "10.0.1." + string(c[1:])}
	rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
		MaxHosts: max,
		LookupHost: func(host string) ([]string, error) {
			if host == "b" {
				if fails {
					return nil, errFault
				}
				return []string{addrs[1]}, nil
			}
			return []string{addrs[0]}, nil
		},
		Dial: func(ctx context.Context, network, addr string) (net.Conn, error) {
			return nil, &dialError{addr}
		},
	})
	errs := make(chan error, 2)
	send := func(k int) error {
		req, err := http.NewRequest("GET", "http://"+hosts[k]+"/", nil)
		if err != nil {
			return nil
		}
		_, err = rt.RoundTrip(req)
		return err
	}
	go func() { errs <- send(which[1]) }()
	check := func(err error, k int) {
		vrt.Assert(err != nil, "a request that cannot be sent fails")
		d, ok := err.(*dialError)
		if fails && k == 1 {
			vrt.Cover("failed lookup")
			vrt.Assert(!ok, "nothing is sent without an address")
			return
		}
		vrt.Cover("sent")
		vrt.Assert(ok && d.addr == addrs[k]+":80", "a request goes to an address of its host")
	}
	check(send(which[0]), which[0])
	check(<-errs, which[1])
	check(send(which[1]), which[1])
	vrt.Settle()
	kept := 1
	if max > 1 && which[1] != which[0] {
		kept = 2
	}
	vrt.Assert(vrt.Others() <= kept, "a host that is no longer kept is no longer looked up")
}

type dialError struct{ addr string }

func (e *dialError) Error() string { return e.addr }
