package main

import (
	"fmt"
	"os"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/mc/h"
	"verif/mc/vs"
)

// A script is a list of steps, one per line, for up to three hosts A, B and C. tools/e2e.py runs the same script on
// the real client in network and mount namespaces; both print what was observed.
//
//	hosts N
//	file HOST NAME SIZE SEED    create a file in the working directory
//	patch HOST NAME TEXT        replace the start of a file in the home directory, if it is there
//	text HOST NAME TEXT         create a file in the home directory
//	rm HOST NAME                delete a file or directory in the home directory
//	mkdir HOST NAME             create a directory in the home directory
//	boot HOST                   start the daemon
//	kill HOST                   kill it
//	reset HOST                  kill it and empty the home directory
//	run HOST ARGS...            run a command and print its output and exit code
//	sorted HOST ARGS...         the same, with its lines sorted
//	second HOST                 start another daemon and print its exit code
//	sleep MS
//	off HOST, on HOST           take the network away, give it back
//	extra                       give every host an address on another network, which comes first
//	tree HOST                   print all files below the home directory, with their hashes
//	alive HOST                  print whether the daemon runs
//
// $NAME stands for the hash of the file NAME.
func runScript(name string, out *os.File) {
	data, err := os.ReadFile(name)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	// ephemeral ports, process numbers and times differ
	ports, pids := regexp.MustCompile(`:\d{5}->`), regexp.MustCompile(`"(Pid|LastTouched)":[0-9]+`)
	say := func(s string) { fmt.Fprint(out, ports.ReplaceAllString(s, ":PORT->")) }
	norm := func(p string, d []byte) []byte {
		if strings.HasSuffix(p, ".json") {
			d = pids.ReplaceAll(d, []byte(`"$1":0`))
		}
		return d
	}
	res := vs.Execute(vs.Config{Serial: true, MaxSteps: 100000000}, nil, func() { script(string(data), say, norm) })
	if res.Outcome != "done" || len(res.Violations) > 0 {
		fmt.Fprintln(out, res.Outcome, res.Detail, res.Violations)
	}
}

// can tells whether no parent of p is a file.
func can(n *node, p string) bool {
	for p = path.Dir(p); p != "/"; p = path.Dir(p) {
		if _, ok := n.fs.Get(p); ok {
			return false
		}
	}
	return true
}

func script(text string, say func(string), norm func(string, []byte) []byte) {
	var l *lan
	sums := map[string]string{}
	at := func(n string) *node { return l.nodes[n[0]-'A'] }
	for _, line := range strings.Split(text, "\n") {
		f := strings.Fields(line)
		if len(f) == 0 || strings.HasPrefix(line, "#") {
			continue
		}
		num := func(i int) int { n, _ := strconv.Atoi(f[i]); return n }
		say("> " + line + "\n")
		for i, x := range f {
			if at := strings.Index(x, "$"); at >= 0 {
				f[i] = x[:at] + sums[x[at+1:]]
			}
		}
		switch f[0] {
		case "hosts":
			l = newLan(num(1))
			for _, n := range l.nodes {
				n.fs.PutDir(home + "/work")
				n.cwd = home + "/work"
			}
		case "file":
			d := h.Pattern(num(4), num(3))
			at(f[1]).fs.Del(home + "/work/" + f[2])
			at(f[1]).fs.Put(home+"/work/"+f[2], d)
			sums[f[2]] = hexs(sum(d))
		case "patch":
			p := home + "/" + f[2]
			d, ok := at(f[1]).fs.Get(p)
			if ok {
				d = append([]byte{}, d...)
				copy(d, f[3])
				at(f[1]).fs.Put(p, d)
			}
		case "text":
			if p := home + "/" + f[2]; can(at(f[1]), p) {
				at(f[1]).fs.Put(p, []byte(f[3]))
			}
		case "reset":
			n := at(f[1])
			if n.p != nil {
				n.p.Kill("script")
				vs.Settle()
			}
			n.fs.Del(home)
			n.fs.PutDir(home + "/work")
		case "rm":
			at(f[1]).fs.Del(home + "/" + f[2])
		case "mkdir":
			if p := home + "/" + f[2]; can(at(f[1]), p+"/x") {
				at(f[1]).fs.PutDir(p)
			}
		case "boot":
			at(f[1]).launch()
		case "kill":
			at(f[1]).p.Kill("script")
			vs.Settle()
		case "run", "sorted":
			args := f[2:]
			for i, a := range args {
				if a == "''" {
					args[i] = ""
				}
			}
			o, code := at(f[1]).run(args...)
			if f[0] == "sorted" {
				ls := strings.Split(strings.TrimSuffix(o, "\n"), "\n")
				sort.Strings(ls)
				o = strings.Join(ls, "\n") + "\n"
			}
			say(o)
			say(fmt.Sprintf("= %d\n", code))
		case "second":
			n := at(f[1])
			old := n.p
			n.boots++
			n.p = vs.NewProc(n.host, fmt.Sprintf("%s%d", n.name, n.boots), []string{"client", "-d"})
			p := n.p
			n.p = old
			h.In(p, mainOf)
			_, code, _ := p.State()
			say(fmt.Sprintf("= %d\n", code))
		case "sleep":
			vs.Sleep(time.Duration(num(1)) * time.Millisecond)
			vs.Settle()
		case "off", "on":
			l.w.SetOffline(at(f[1]).host, f[0] == "off")
		case "extra":
			l.w.SetAddrs(3)
		case "alive":
			ok, _ := at(f[1]).alive()
			say(fmt.Sprintf("%v\n", ok))
		case "tree":
			var ls []string
			for p := range at(f[1]).fs.Snapshot() {
				d, ok := at(f[1]).fs.Get(p)
				if ok && strings.HasPrefix(p, home+"/") {
					d = norm(p, d)
					ls = append(ls, fmt.Sprintf("%s %d %s\n", p, len(d), hexs(sum(d))))
				}
			}
			sort.Strings(ls)
			say(strings.Join(ls, ""))
		}
	}
}
