// Package block checks the block device server.
package block

import (
	"reflect"
	"sync"

	"github.com/tnarg/go-tcmu"

	"github.com/NVIDIA/vdisc/pkg/blockdev"
	"github.com/NVIDIA/vdisc/pkg/zzverif/vrt"
)

const bufferSize = 2

// device is one device of the pool with the commands sent to it.
type device struct {
	p       *pool
	cmds    []*tcmu.SCSICmd
	handled []int
	status  []byte
	got     []tcmu.SCSIResponse
	ended   bool
	in      chan *tcmu.SCSICmd
	out     chan tcmu.SCSIResponse
}

// pool watches the commands that run.
type pool struct {
	mu      sync.Mutex
	size    int
	running []*tcmu.SCSICmd
	grow    bool
}

func (d *device) HandleCommand(cmd *tcmu.SCSICmd) (tcmu.SCSIResponse, error) {
	p := d.p
	p.mu.Lock()
	which := -1
	for i, c := range d.cmds {
		if c == cmd {
			which = i
		}
	}
	vrt.Assert(which >= 0, "a command goes to the handler of its device")
	d.handled[which]++
	vrt.Assert(d.handled[which] == 1, "a command is handled once")
	vrt.Assert(len(cmd.Buf) >= bufferSize, "a command has a buffer")
	for _, c := range p.running {
		vrt.Cover("two commands at once")
		vrt.Assert(&c.Buf[0] != &cmd.Buf[0], "commands that run at once have their own buffers")
	}
	p.running = append(p.running, cmd)
	vrt.Assert(len(p.running) <= p.size, "no more commands run than the pool has workers")
	p.mu.Unlock()

	p.mu.Lock()
	if p.grow {
		cmd.Buf = make([]byte, bufferSize+1)
	}
	for i, c := range p.running {
		if c == cmd {
			p.running = append(p.running[:i:i], p.running[i+1:]...)
			break
		}
	}
	p.mu.Unlock()
	return cmd.RespondStatus(d.status[which]), nil
}

func (d *device) feed(stop chan bool, wg *sync.WaitGroup) {
	defer wg.Done()
	for _, c := range d.cmds {
		select {
		case d.in <- c:
		case <-stop:
			return
		}
	}
	close(d.in)
}

func (d *device) collect(stop chan bool, wg *sync.WaitGroup) {
	defer wg.Done()
	for {
		select {
		case r, ok := <-d.out:
			if !ok {
				d.ended = true
				return
			}
			d.got = append(d.got, r)
		case <-stop:
			return
		}
	}
}

func setup() (*pool, *blockdev.CmdPool, []*device) {
	p := &pool{size: 1 + vrt.Choose("workers", 2), grow: vrt.Bool("larger buffers")}
	plan := [][]int{{0}, {1}, {2}, {1, 1}, {0, 1}, {3}, {2, 1}}
	counts := plan[vrt.Choose("commands", vrt.Param("commands", 6, 7))]
	var devs []*device
	for _, n := range counts {
		d := &device{p: p, in: make(chan *tcmu.SCSICmd), out: make(chan tcmu.SCSIResponse)}
		for ; n > 0; n-- {
			d.cmds = append(d.cmds, &tcmu.SCSICmd{})
			d.handled = append(d.handled, 0)
			d.status = append(d.status, vrt.U8("status"))
		}
		devs = append(devs, d)
	}
	return p, blockdev.NewCmdPool(p.size, bufferSize), devs
}

// B01Commands sends commands to devices and lets them end.
func B01Commands() {
	vrt.Preempt(vrt.Param("preemptions", 2, 3))
	_, cp, devs := setup()
	wg := &sync.WaitGroup{}
	for _, d := range devs {
		err := cp.DevReady(d)(d.in, d.out)
		vrt.Assert(err == nil, "a device can be added")
		wg.Add(2)
		go d.feed(nil, wg)
		go d.collect(nil, wg)
	}
	wg.Wait()
	for _, d := range devs {
		vrt.Assert(d.ended && len(d.got) == len(d.cmds), "every command is answered before its device ends")
		used := make([]bool, len(d.cmds))
		for _, r := range d.got {
			match := false
			for i, c := range d.cmds {
				if !used[i] && reflect.DeepEqual(r, c.RespondStatus(d.status[i])) {
					used[i], match = true, true
					break
				}
			}
			vrt.Assert(match, "a device has the answers of its commands")
		}
	}
	vrt.Assert(cp.Close() == nil, "a pool can be closed")
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "closing the pool ends its workers")
	vrt.Cover("closed")
}

// B01Close closes a pool while commands are sent.
func B01Close() {
	vrt.Preempt(vrt.Param("preemptions", 2, 3))
	_, cp, devs := setup()
	stop := make(chan bool)
	wg := &sync.WaitGroup{}
	for _, d := range devs {
		err := cp.DevReady(d)(d.in, d.out)
		vrt.Assert(err == nil, "a device can be added")
		wg.Add(2)
		go d.feed(stop, wg)
		go d.collect(stop, wg)
	}
	vrt.Assert(cp.Close() == nil, "a pool can be closed")
	close(stop)
	wg.Wait()
	vrt.Settle()
	vrt.Assert(vrt.Others() == 0, "closing the pool ends its workers")
	for _, d := range devs {
		n := 0
		for _, h := range d.handled {
			n += h
		}
		vrt.Assert(len(d.got) == n, "a command that was handled is answered")
		if d.ended {
			vrt.Assert(n == len(d.cmds), "a device ends after its commands")
		}
		if n > 0 && n < len(d.cmds) {
			vrt.Cover("closed between commands")
		}
	}
	vrt.Cover("closed")
}
