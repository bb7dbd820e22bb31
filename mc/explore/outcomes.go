package explore

import "verif/mc/vs"

// Outcomes runs body in every schedule within b and returns what was observed, and the number of executions.
func Outcomes(cfg vs.Config, b Bounds, body func()) (map[string]int, int) {
	seen := map[string]int{}
	stack := []Task{{}}
	n := 0
	for len(stack) > 0 {
		t := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		res := vs.Execute(cfg, t.Prefix, body)
		n++
		s := ""
		for _, o := range res.Observed {
			s += o
		}
		for _, m := range judge(res, "race") {
			s += "!" + m
		}
		seen[s]++
		kids, _ := children(res.Points, len(t.Prefix), b)
		stack = append(stack, kids...)
	}
	return seen, n
}
