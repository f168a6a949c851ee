package file

import (
	"io"
	"sync"

	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vos"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

// S07Exclusion has up to three holders of locks on one or two paths.
func S07Exclusion() {
	d := vos.Use()
	drv := &filedriver.Driver{}
	var mu sync.Mutex
	writers, readers := map[string]int{}, map[string]int{}
	type job struct {
		path   string
		shared bool
	}
	jobs := make([]job, vrt.Param("holders", 2, 3))
	for i := range jobs {
		jobs[i] = job{[]string{"/d/a", "/d/b"}[vrt.Choose("path", 2)], vrt.Decide(vrt.Bool("shared"))}
	}
	vrt.Preempt(vrt.Param("preempt", 2, 3))
	var wg sync.WaitGroup
	for i := range jobs {
		j := jobs[i]
		wg.Add(1)
		hold := func() {
			var l io.Closer
			var err error
			if j.shared {
				l, err = drv.RLock(bg, j.path)
			} else {
				l, err = drv.Lock(bg, j.path)
			}
			vrt.Assert(err == nil, "a lock is taken")
			mu.Lock()
			if j.shared {
				readers[j.path]++
			} else {
				writers[j.path]++
			}
			vrt.Assert(writers[j.path] == 0 || writers[j.path] == 1 && readers[j.path] == 0, "an exclusive lock is held alone")
			if readers[j.path] > 1 {
				vrt.Cover("shared")
			}
			mu.Unlock()
			mu.Lock()
			if j.shared {
				readers[j.path]--
			} else {
				writers[j.path]--
			}
			mu.Unlock()
			vrt.Assert(l.Close() == nil, "a lock is released")
		}
		again := i == 0
		go func() {
			defer wg.Done()
			hold()
			if again {
				hold()
			}
		}()
	}
	wg.Wait()
	vrt.Preempt(0)
	vrt.Assert(d.Open() == 0, "every lock file is closed")
}

// S07Together takes two locks at once if and only if they are compatible.
func S07Together() {
	vos.Use()
	drv := &filedriver.Driver{}
	take := func(shared bool, path string) io.Closer {
		var l io.Closer
		var err error
		if shared {
			l, err = drv.RLock(bg, path)
		} else {
			l, err = drv.Lock(bg, path)
		}
		vrt.Assert(err == nil, "a lock is taken")
		return l
	}
	a, b := vrt.Decide(vrt.Bool("shared")), vrt.Decide(vrt.Bool("shared"))
	same := vrt.Decide(vrt.Bool("same"))
	path := "/d/y/b"
	if same {
		path = "/d/a"
	}
	first := take(a, "/d/a")
	got := make(chan io.Closer, 1)
	go func() { got <- take(b, path) }()
	vrt.Settle()
	held := len(got) == 1
	vrt.Assert(held == (!same || a && b), "locks exclude each other exactly when one is exclusive")
	vrt.Cover("taken")
	vrt.Assert(first.Close() == nil, "a lock is released")
	vrt.Assert((<-got).Close() == nil, "a lock waits for its release")
}

// S07Fault fails one operation of taking a lock.
func S07Fault() {
	d := vos.Use()
	f := &files{d: d, most: 6}
	f.nth = vrt.Range("fault", 0, f.most)
	d.Fault = f.fault
	drv := &filedriver.Driver{}
	for i := 0; i < 2 && !f.crash; i++ {
		l, err := drv.Lock(bg, "/d/a")
		if err != nil {
			vrt.Assert(f.hit != "", "a lock is taken")
			continue
		}
		err = l.Close()
		vrt.Assert(err == nil || f.hit != "", "a lock is released")
	}
	if !f.crash {
		vrt.Assert(d.Open() == 0, "every lock file is closed")
		l, err := drv.Lock(bg, "/d/a")
		vrt.Assert(err == nil && l != nil, "no failure keeps a lock")
	}
}

// S07Succession has three holders that come one after the other, each while
// the earlier ones hold or wait.
func S07Succession() {
	d := vos.Use()
	drv := &filedriver.Driver{}
	n := 3
	shared := make([]bool, n)
	for i := range shared {
		shared[i] = vrt.Decide(vrt.Bool("shared"))
	}
	early := vrt.Choose("early", 2) // holders that come before the first release
	got := make([]chan io.Closer, n)
	held := make([]io.Closer, n)
	take := func(i int) {
		got[i] = make(chan io.Closer, 1)
		go func() {
			var l io.Closer
			var err error
			if shared[i] {
				l, err = drv.RLock(bg, "/d/a")
			} else {
				l, err = drv.Lock(bg, "/d/a")
			}
			vrt.Assert(err == nil, "a lock is taken")
			got[i] <- l
		}()
	}
	look := func() {
		vrt.Settle()
		writers, readers := 0, 0
		for i := range got {
			if got[i] != nil && len(got[i]) == 1 {
				held[i] = <-got[i]
			}
			if held[i] == nil {
				continue
			}
			if shared[i] {
				readers++
			} else {
				writers++
			}
		}
		vrt.Assert(writers == 0 || writers == 1 && readers == 0, "an exclusive lock is held alone")
	}
	take(0)
	look()
	take(1)
	look()
	if early == 1 {
		take(2)
		look()
	}
	left := n
	for left > 0 {
		who := -1
		for i := range held {
			if held[i] != nil && who < 0 {
				who = i
			}
		}
		vrt.Assert(who >= 0, "a waiting lock is granted after the release")
		vrt.Assert(held[who].Close() == nil, "a lock is released")
		held[who] = nil
		got[who] = nil
		left--
		look()
		if early == 0 && left == n-1 {
			take(2)
			look()
		}
	}
	vrt.Cover("released")
	vrt.Assert(d.Open() == 0, "every lock file is closed")
}
