package main

import (
	"fmt"

	"verif/props"
)

// detMode runs a range of indices several times, with and without a trace, and
// prints those whose executions differ.
func detMode(k *props.Check) {
	bad := 0
	for i := *from; i < *runs; i += *stride {
		a, _ := one(k, i, false, nil)
		b, _ := one(k, i, true, nil)
		c, _ := one(k, i, false, nil)
		if a.Hash != b.Hash || a.Hash != c.Hash {
			bad++
			fmt.Println("differs:", i, a.Hash, b.Hash, c.Hash, a.Steps, b.Steps, c.Steps)
		}
	}
	fmt.Println(*prop, *runs, "indices run three times,", bad, "differ")
}
