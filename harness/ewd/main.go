//go:build go1.22

// Harness for package errorsWithData (E01-E05).
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"

func main() {
	vk.Main(
		vk.Property{ID: "E01", Level: "exploration",
			Rule: "all format strings over a raw token alphabet and over an alphabet of language pieces up to a bounded length x wrapped errors x parameter maps x maps passed from outside; " +
				"every message is compared with an independent reference parser and renderer. distinct = well-formed format strings",
			Run: e01},
		vk.Property{ID: "E02", Level: "exploration",
			Rule: "the same enumeration; every validator of every error compared with the reference and with the rendered message. distinct = well-formed format strings",
			Run:  e02},
		vk.Property{ID: "E03", Level: "model_checking",
			Rule: "all histories up to a depth of create/wrap/add/delete/fmt-wrap/box operations (keys A,B; several values; three precedence modes; every API variant); after every step all errors of the history are re-observed and " +
				"compared with a model map. distinct = distinct (history of model maps) states",
			Run: e03},
		vk.Property{ID: "E04", Level: "exploration",
			Rule: "struct types (plain, nilable, interface, embedded, shadowed, empty, unsuitable) x values x data of the wrapped error per field (absent, right type, other type, nil, typed nil) x precedence x missing-data modes x all typed constructors and getters " +
				"against a model of the conversion rules. distinct = (type, inherited data) cases",
			Run: e04},
		vk.Property{ID: "E05", Level: "model_checking",
			Rule: "all histories up to a depth of sentinel creation, wrapping, fmt-wrapping, boxing (3 kinds), unboxing, deletion; after every step errors.Is / == / message / data of every pair of errors against the model chain. distinct = model states",
			Run:  e05},
	)
}
