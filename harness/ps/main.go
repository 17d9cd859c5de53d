//go:build go1.22

// Harness for package pointserializer (S01..S05).
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"

var psOK = []string{"math/big is correct", "points with multiples of the generator outside the bounded set are not executed"}

func main() {
	vk.Main(
		vk.Property{ID: "S01", Level: "exploration", Run: s01, Assumptions: psOK,
			Rule: "all model points x representatives x types (incl. types unknown to the package) x formats x byte order x subgroup restriction x bit headers x framing; bytes compared with an independent encoder, then deserialized into every type by serializer and deserializer views; all points that a format refuses; slices and batches of up to 2 (and 65) points; distinct = (format, point representative)"},
		vk.Property{ID: "S02", Level: "exploration", Run: s02, Assumptions: psOK,
			Rule: "byte strings: for every valid encoding all single-bit flips, all values of the byte with the header, neighbouring and boundary field values in each slot, all combinations of small and boundary values with all headers, all coordinate swaps/negations, points of other cosets; expected answer from an independent decoder (curve equation, multiplication by the group order in math/big); all receiver types; malformed slices and batches of up to 2 points; distinct = byte strings"},
		vk.Property{ID: "S03", Level: "fault_enumeration", Run: s03, Assumptions: psOK,
			Rule: "every fault offset 0..length x kind of stream error x chunking x error-with-last-bytes x empty reads x format x byte order x single-point framing x entry point, also for slices and batches of up to 2 points; distinct = (format, framing, offset, kind)"},
		vk.Property{ID: "S04", Level: "fault_enumeration", Run: s04, Assumptions: psOK,
			Rule: "slice lengths 0..3(4) x all 16 framing configurations x formats x element types: exact bytes, then every truncation offset, every stream error kind, every corrupted framing byte, every length field value of a set, every index of an undecodable/unserializable point, all buffer sizes, batch entry points; distinct = (format, framing, length, offset, kind)"},
		vk.Property{ID: "S05", Level: "model_checking", Run: s05, Assumptions: psOK,
			Rule: "all derivation sequences up to a depth over the alphabet of parameter changes (all parameters, two values each, as bytes/string/nil, clones, views) from every serializer, in lockstep with a reference configuration; after each sequence all serializers of its history are re-observed (all parameters, encodings); state = reference configurations"},
	)
}
