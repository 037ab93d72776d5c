package simrt

import (
	"fmt"
	"os"
	"reflect"
)

var (
	resets   []func()
	noResets bool
	pending  []func() // goroutines and timers of initialisation
	left     bool     // a run ended while goroutines of the library were running
)

// OnReset registers a package of the code under test. Packages register in
// the order of their initialisation.
func OnReset(f func()) { resets = append(resets, f) }

// Zero sets a package variable to its zero value.
func Zero(p any) { reflect.ValueOf(p).Elem().SetZero() }

// Left tells that goroutines of the code under test have ended with the last
// run although the state it left counts on them: the process is no more.
func Left() bool { return left }

// Cold puts the packages of the code under test into the state of a process
// that has just started.
func Cold() {
	if noResets {
		return
	}
	defer func() {
		if r := recover(); r != nil {
			// initialisation that can happen only once
			noResets = true
			fmt.Fprintln(os.Stderr, "simrt: no cold starts:", r)
		}
	}()
	left, pending = false, nil
	for _, f := range resets {
		f()
	}
}
