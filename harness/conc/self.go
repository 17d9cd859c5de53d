//go:build go1.22

package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vksched"

// self4 is the running goroutine (3: none is controlled, i.e. the final check)
func self4() int {
	if i := vksched.Self(); i >= 0 {
		return i
	}
	return 3
}
