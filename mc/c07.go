//go:build mcsched

package main

import (
	"fmt"
	"os"
	"os/exec"
	"strings"
	"time"

	"github.com/couchbaselabs/gojsonsm/zzs"
)

func init() {
	register(&Check{
		ID:    "C07",
		Rule:  "case = (definition, operations that run beside each other, first thread, place of its preemption); every schedule within the preemption bound is executed on the instrumented library (a scheduling point before every statement; what package sync would block gives way), each time on newly compiled definitions, and the results of all threads are compared with those of the same operation run alone; besides, every pair of operations runs freely under the race detector; non-trivial: schedules with a preemption; states = distinct (scenario, place of preemption)",
		Assum: []string{"a thread is preempted only between statements; the race detector watches what happens inside one", "goroutines started by the library itself are not scheduled"},
		Bound: func(t string) string {
			if t == "thorough" {
				return "2 threads: all pairs of 3 matches on each of 10 shared definitions with all 1-preemption schedules, pairs of the first two documents on all 10 with all 2-preemption schedules; all pairs of 12 operations with all 1-preemption schedules on 3 definitions; 3 threads: all 2-preemption schedules of 3 matches that visit all threads on 3 definitions; 156 pairs of operations under the race detector, 40 rounds each, and 28 pairs of wide operations 4 times"
			}
			return "2 threads: all pairs of 3 matches on each of 10 shared definitions with all 1-preemption schedules, pairs of the first two documents on 2 definitions with all 2-preemption schedules; all pairs of 12 operations with all 1-preemption schedules; 78 pairs of operations under the race detector, 10 rounds each, and 28 pairs of wide operations (everything of a kind: conversions, filter texts, simple texts, JSON texts, removals, slow matching) once"
		},
		Run: func(c *Ctx) {
			defs := c07Defs()
			ops := c07Ops()
			solo := func(d c07Def, o c07Op) (string, int) {
				var res string
				f := o.mk(c07Share(d))
				points, p := zzs.Run([]zzs.Segment{{Thread: 0, Points: -1}}, func() { res = f() })
				return res + p[0], points[0]
			}
			// schedule runs the operations along the plan and compares with want
			schedule := func(d c07Def, o []c07Op, want []string, plan []zzs.Segment) (points []int, msg string) {
				sh := c07Share(d)
				res := make([]string, len(o))
				fns := make([]func(), len(o))
				for i := range o {
					i := i
					f := o[i].mk(sh)
					fns[i] = func() { res[i] = f() }
				}
				points, panics := zzs.Run(plan, fns...)
				c.Trans(len(points))
				c.Trace()
				for i := range o {
					if got := res[i] + panics[i]; got != want[i] {
						return points, fmt.Sprintf("thread %d (%s) gives %s, alone %s; schedule %v", i, o[i].name, got, want[i], plan)
					}
				}
				return points, ""
			}
			// all schedules of o in which thread first is preempted at one of the places from..from+n-1
			explore := func(d c07Def, o []c07Op, bound int) {
				var want []string
				var lens []int
				for i := range o {
					w, n := solo(d, o[i])
					if w2, _ := solo(d, o[i]); w2 != w {
						c.Do(func() string { return d.name + ": " + o[i].name }, func() string { return "two runs differ: " + w + " and " + w2 })
						return
					}
					want = append(want, w)
					lens = append(lens, n)
				}
				names := make([]string, len(o))
				for i := range o {
					names[i] = o[i].name
				}
				const block = 32
				for first := range o {
					for from := 0; from < lens[first]+block; from += block {
						first, from := first, from
						key := func() string {
							return fmt.Sprintf("%s: %s; thread %d preempted at %d.. (%d preemptions)", d.name, strings.Join(names, " | "), first, from, bound)
						}
						c.Do(key, func() string {
							some := false
							var rec func(plan []zzs.Segment, left int) (more bool, msg string)
							// places of preemption of the last segment of the plan
							rec = func(plan []zzs.Segment, left int) (bool, string) {
								last := &plan[len(plan)-1]
								lo, hi := 0, 1<<30
								if len(plan) == 1 {
									lo, hi = from, from+block
								}
								for p := lo; p < hi; p++ {
									last.Points = p
									ended := false
									for next := range o {
										if next == last.Thread || len(o) > 2 && len(plan) == 2 && next == plan[0].Thread {
											continue // with three threads the schedules that visit all
										}
										full := append(plan[:len(plan):len(plan)], zzs.Segment{Thread: next, Points: -1})
										if left == 1 {
											points, msg := schedule(d, o, want, full)
											if msg != "" {
												return false, msg
											}
											if len(points) < len(plan) || points[len(plan)-1] < p {
												ended = true // the thread ended before it could be preempted
												continue
											}
											some = true
											c.State(d.name, strings.Join(names, "|"), fmt.Sprint(full))
										} else {
											more, msg := rec(full, left-1)
											if msg != "" {
												return false, msg
											}
											ended = ended || !more
										}
									}
									if ended {
										return p > lo, ""
									}
								}
								return true, ""
							}
							_, msg := rec([]zzs.Segment{{Thread: first}}, bound)
							if some {
								c.NonTrivial()
							}
							c.Outcome("schedules")
							return msg
						})
					}
				}
			}
			matches := []c07Op{matchOp(0, false), matchOp(1, false), matchOp(2, false)}
			for di, d := range defs {
				for i := range matches {
					for j := i; j < len(matches); j++ {
						pair := []c07Op{matches[i], matches[j]}
						if i == 0 && j == 1 && (c.Thorough || di < 2) {
							explore(d, pair, 2)
						} else {
							explore(d, pair, 1)
						}
					}
				}
				explore(d, []c07Op{ops[1], ops[1]}, 1)
				if c.Thorough && di < 3 {
					explore(d, matches, 2)
				}
			}
			for di, d := range defs[:3] {
				if di > 0 && !c.Thorough {
					break
				}
				for i := range ops {
					for j := i; j < len(ops); j++ {
						explore(d, []c07Op{ops[i], ops[j]}, 1)
					}
				}
			}
			// freely, with the race detector
			wide := c07Wide()
			free := func(d, i, j int) {
				name := func() string { return fmt.Sprintf("freely on %s: %s | %s", defs[d].name, ops[i].name, ops[j].name) }
				if d < 0 {
					name = func() string { return "freely: " + wide[i].name + " | " + wide[j].name }
				}
				c.Do(name, func() string {
					rounds := "10"
					if c.Thorough {
						rounds = "40"
					}
					if d < 0 {
						rounds = map[bool]string{false: "1", true: "4"}[c.Thorough]
					}
					cmd := exec.Command(raceBinary())
					cmd.Env = append(os.Environ(), fmt.Sprintf("MC_RACE_RUN=%d,%d,%d", d, i, j), "MC_RACE_ROUNDS="+rounds, "GORACE=halt_on_error=1 exitcode=66", "GOMAXPROCS=2")
					var out strings.Builder
					cmd.Stdout, cmd.Stderr = &out, &out
					timer := time.AfterFunc(50*time.Second, func() { cmd.Process.Kill() })
					err := cmd.Run()
					timer.Stop()
					c.Trace()
					c.Outcome("freely")
					if err != nil {
						s := out.String()
						if len(s) > 1500 {
							s = s[:1500]
						}
						return err.Error() + ": " + s
					}
					c.NonTrivial()
					return ""
				})
			}
			for i := range ops {
				for j := i; j < len(ops); j++ {
					free((i+j)%len(defs), i, j)
					if c.Thorough {
						free((i+j+5)%len(defs), i, j)
					}
				}
			}
			for d := range defs {
				free(d, 0, 1)
			}
			for i := range wide {
				for j := i; j < len(wide); j++ {
					free(-1, i, j)
				}
			}
		},
	})
}
