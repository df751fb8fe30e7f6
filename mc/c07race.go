//go:build mcrace

package main

import (
	"fmt"
	"os"
	"strconv"
	"sync"
)

// Free running under the race detector: MC_RACE_RUN=d,i,j runs operation i beside operation j on definition d.
func init() {
	a := os.Getenv("MC_RACE_RUN")
	if a == "" {
		return
	}
	var d, i, j int
	fmt.Sscanf(a, "%d,%d,%d", &d, &i, &j)
	rounds, _ := strconv.Atoi(os.Getenv("MC_RACE_ROUNDS"))
	var ops []c07Op
	var def c07Def
	if d < 0 {
		ops, def = c07Wide(), c07Defs()[0]
	} else {
		ops, def = c07Ops(), c07Defs()[d]
	}
	for r := 0; r < rounds; r++ {
		sh := c07Share(def)
		fns := []func() string{ops[i].mk(sh), ops[j].mk(sh)}
		res := make([]string, 2)
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := range fns {
			k := k
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				res[k] = fns[k]()
			}()
		}
		close(start)
		wg.Wait()
		sh = c07Share(def)
		for k, o := range []int{i, j} {
			if want := ops[o].mk(sh)(); want != res[k] {
				fmt.Printf("%s: %s, alone %s\n", ops[o].name, res[k], want)
				os.Exit(3)
			}
		}
	}
	os.Exit(0)
}
