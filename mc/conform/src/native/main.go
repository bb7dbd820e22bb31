// Command native prints what the programs observe on the real packages.
package main

import (
	"bufio"
	"fmt"
	"os"
	"strconv"
	"sync"

	"conform/prog"
)

func main() {
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	switch os.Args[1] {
	case "fs": // fs DIR DEPTH SHARD SHARDS
		prog.FSAll(num(3), num(4), num(5), func(ops []prog.FSOp) { out.WriteString(prog.FS(os.Args[2]+"/t", ops) + "\x00") })
	case "net": // net DEPTH
		var all [][]prog.NetOp
		prog.NetAll(num(2), func(ops []prog.NetOp) { all = append(all, ops) })
		res := make([]string, len(all))
		next := make(chan int)
		var wg sync.WaitGroup
		for w := 0; w < 100; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					res[i] = prog.Net(all[i])
				}
			}()
		}
		for i := range all {
			next <- i
		}
		close(next)
		wg.Wait()
		for _, s := range res {
			out.WriteString(s + "\x00")
		}
	case "net1": // net1 I DEPTH, alone
		i := 0
		prog.NetAll(num(3), func(ops []prog.NetOp) {
			if i == num(2) {
				out.WriteString(prog.Net(ops))
			}
			i++
		})
	case "lit": // lit TIMES
		for _, l := range prog.Lits() {
			var mu sync.Mutex
			seen := map[string]bool{}
			var wg sync.WaitGroup
			for w := 0; w < 16; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < num(2); i++ {
						s := l.Run()
						mu.Lock()
						seen[s] = true
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			for s := range seen {
				fmt.Fprintf(out, "%s\x00", s)
			}
			out.WriteString("\x01")
		}
	}
}

func num(i int) int { n, _ := strconv.Atoi(os.Args[i]); return n }
