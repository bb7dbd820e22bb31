// Command conform compares the simulated environment with the real one: the same programs run on the real packages
// (the command native) and, instrumented, in the simulation, and must observe the same.
//
//	conform NATIVE SCRATCH [FSDEPTH [NETDEPTH]]
package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"

	"conform/prog"

	"verif/mc/explore"
	"verif/mc/h"
	vnet "verif/mc/shim/net"
	"verif/mc/vs"
)

const shards = 8

var native, scratch string

// virtual runs f as a process on a fresh host.
func virtual(f func() string) (out string) {
	res := vs.Execute(vs.Config{Serial: true, MaxSteps: 1000000}, nil, func() {
		out = inHost(f)
	})
	if res.Outcome != "done" || len(res.Violations) > 0 {
		out += fmt.Sprintf("%s %s %v", res.Outcome, res.Detail, res.Violations)
	}
	return
}

func inHost(f func() string) (out string) {
	host, _ := h.NewHost("A", [4]byte{127, 0, 0, 1})
	vnet.NewWorld().Add(host)
	p := vs.NewProc(host, "A", nil)
	alive, why := h.In(p, func() { out = f() })
	if !alive {
		out += "the process ended: " + why
	}
	return
}

type stream struct {
	r *bufio.Reader
	c *exec.Cmd
}

func run(args ...string) *stream {
	c := exec.Command(native, args...)
	c.Stderr = os.Stderr
	o, err := c.StdoutPipe()
	if err == nil {
		err = c.Start()
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	return &stream{bufio.NewReaderSize(o, 1<<20), c}
}

func (s *stream) next() string {
	t, err := s.r.ReadString(0)
	if err != nil {
		fmt.Println("the native side ended early:", err)
		os.Exit(3)
	}
	return t[:len(t)-1]
}

func fsShard(depth, shard int) (n, bad int) {
	dir := fmt.Sprintf("%s/%d", scratch, shard)
	os.MkdirAll(dir, 0755)
	s := run("fs", dir, strconv.Itoa(depth), strconv.Itoa(shard), strconv.Itoa(shards))
	prog.FSAll(depth, shard, shards, func(ops []prog.FSOp) {
		want := s.next()
		got := virtual(func() string { return prog.FS("/scratch", ops) })
		n++
		if got != want {
			bad++
			if bad <= 20 {
				fmt.Printf("--- file system differs; real:\n%s--- simulated:\n%s", want, got)
			}
		}
	})
	s.c.Wait()
	return
}

func main() {
	native, scratch = os.Args[1], os.Args[2]
	arg := func(i, d int) int {
		if len(os.Args) > i {
			d, _ = strconv.Atoi(os.Args[i])
		}
		return d
	}
	depth, ndepth := arg(3, 2), arg(4, 3)
	if len(os.Args) > 5 { // a shard
		n, bad := fsShard(depth, arg(5, 0))
		fmt.Printf("\nshard %d %d\n", n, bad)
		return
	}
	fails := 0

	// concurrency
	s := run("lit", "12")
	b := explore.Bounds{Sched: 3, Switch: -1, Total: -1}
	execs := 0
	for _, l := range prog.Lits() {
		l := l
		have, k := explore.Outcomes(vs.Config{MaxSteps: 100000}, b, func() { vs.Observe("%s", inHost(l.Run)) })
		execs += k
		var got []string
		for o := range have {
			got = append(got, o)
		}
		sort.Strings(got)
		want := append([]string{}, l.Want...)
		sort.Strings(want)
		if strings.Join(got, "|") != strings.Join(want, "|") {
			fails++
			fmt.Printf("%s: simulated outcomes %q, want %q\n", l.Name, got, want)
		}
		t, err := s.r.ReadString(1)
		if err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		for _, o := range strings.Split(strings.TrimSuffix(t, "\x01"), "\x00") {
			if o != "" && have[o] == 0 {
				fails++
				fmt.Printf("%s: really %q, simulated only %q\n", l.Name, o, got)
			}
		}
	}
	s.c.Wait()
	fmt.Printf("concurrency: %d programs, %d simulated executions\n", len(prog.Lits()), execs)

	// sockets
	s = run("net", strconv.Itoa(ndepth))
	n := 0
	diff := 0
	prog.NetAll(ndepth, func(ops []prog.NetOp) {
		want := s.next()
		got := virtual(func() string { return prog.Net(ops) })
		if got != want { // another sequence may have got a port that was freed
			c := run("net1", strconv.Itoa(n), strconv.Itoa(ndepth))
			data, _ := io.ReadAll(c.r)
			c.c.Wait()
			want = string(data)
		}
		if got != want {
			diff++
			if diff <= 20 {
				fmt.Printf("--- sockets differ; real:\n%s--- simulated:\n%s", want, got)
			}
		}
		n++
	})
	s.c.Wait()
	fails += diff
	fmt.Printf("sockets: %d sequences of %d operations of %d, %d differ\n", n, ndepth, len(prog.NetOps()), diff)

	// files: one process per part, since a process has one scheduler
	var mu sync.Mutex
	var wg sync.WaitGroup
	n, diff = 0, 0
	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			c := exec.Command(os.Args[0], native, scratch, strconv.Itoa(depth), "0", strconv.Itoa(i))
			c.Stderr = os.Stderr
			o, err := c.Output()
			mu.Lock()
			defer mu.Unlock()
			t := string(o)
			at := strings.LastIndex(t, "\nshard ")
			if err != nil || at < 0 {
				fails++
				fmt.Println(t, err)
				return
			}
			var k, d int
			fmt.Sscanf(t[at:], "\nshard %d %d", &k, &d)
			fmt.Print(t[:at])
			n += k
			diff += d
		}(i)
	}
	wg.Wait()
	fails += diff
	fmt.Printf("files: %d sequences of %d operations of %d, %d differ\n", n, depth, len(prog.FSOps()), diff)
	if fails > 0 {
		os.Exit(1)
	}
}
