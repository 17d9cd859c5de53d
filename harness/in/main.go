//go:build go1.22

// Harness for the internal packages (I01..I03, I05, I06).
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"

func main() {
	vk.Main(
		vk.Property{ID: "I01", Level: "model_checking", Run: i01, Assumptions: []string{"counters are used from one goroutine (as the package documents)"},
			Rule: "model: registry of counters (links, multiplicities, flags, direct counts); all histories up to a depth over three counter ids and every creating, linking, counting and resetting operation, explored as a graph of model states, each (state, operation) replayed on the implementation from a fresh registry; all counts, existence answers and both kinds of report compared in every state"},
		vk.Property{ID: "I02", Level: "model_checking", Run: i02, Assumptions: []string{"thresholds are not negative"},
			Rule: "model: content, number of bytes transferred in either direction, failed flags; all sequences of reads, writes, resets and refills with several chunk sizes up to a depth for all thresholds 0..5, compared with the model after every step"},
		vk.Property{ID: "I03", Level: "model_checking", Run: i03,
			Rule: "all stack histories up to a depth against a list model; all pairs of lists up to a length over a three-letter alphabet, nil and empty lists, all normalizers on the alphabet; all maps over small domains; all pairs of sub-slices of arrays"},
		vk.Property{ID: "I05", Level: "exploration", Run: i05,
			Rule: "all combinations of outcome (return, panic with every kind of value, runtime error, Goexit) x argument lists; all type kinds; all method signatures of a type x expected signatures; all field layouts of a family of struct types; distinct = cases"},
		vk.Property{ID: "I06", Level: "model_checking", Run: i06,
			Rule: "model: (wraps EOF, attached data) of a chain of errors; all chains of wrappers up to a depth over four base errors and eight kinds of wrapping, each transformed with every data type; all pairs of byte counts; all kinds of Clone methods; distinct = chains"},
	)
}
