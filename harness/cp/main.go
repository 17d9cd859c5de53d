//go:build go1.22

// Harness for package curvePoints (P01..P07).
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"

var bigOK = []string{"math/big is correct", "points with multiples of the generator outside the bounded set are not executed"}

func main() {
	vk.Main(
		vk.Property{ID: "P01", Level: "model_checking", Run: p01, Assumptions: bigOK,
			Rule: "model: (multiple of G, 2-torsion part) in Z/r x Z/2 x Z/2 with independently computed coordinates; all ordered pairs of model points x representatives x receiver type x both argument types (including types unknown to the package), Add/Sub/Double/Neg, all aliasings; then all operation sequences on two registers of all type pairs up to a depth, in lockstep with the model; state = registers' internal coordinates"},
		vk.Property{ID: "P02", Level: "model_checking", Run: p02, Assumptions: bigOK,
			Rule: "all model points x representatives x types; all ordered pairs (thorough: triples) of read operations on one object, every answer compared with independently computed coordinates and the object with the model point; IsEqual on all ordered pairs of types x points x representatives; state = internal coordinates"},
		vk.Property{ID: "P03", Level: "exploration", Run: p03, Assumptions: bigOK,
			Rule: "all model points x representatives x all (receiver type, argument type incl. unknown types) x receiver contents x trust level; all refused operations; membership of hundreds of multiples of G in each of the four torsion cosets; distinct = (receiver type, argument representative)"},
		vk.Property{ID: "P04", Level: "model_checking", Run: p04, Assumptions: []string{"invalid points have the shapes that the package documents (x=y=0 resp. f=h=0, e=g=0, e=h=0)"},
			Rule: "model: a register is valid or invalid, invalidity spreads along data flow and never heals; all shapes of invalid points x types (incl. unknown types) in all argument positions of all operations, all operation sequences on two registers up to a depth; every query, normalization and checked conversion under a recording handler answering false, true, or panicking; state = registers' internal coordinates"},
		vk.Property{ID: "P05", Level: "exploration", Run: p05, Assumptions: bigOK,
			Rule: "all model points (multiples x torsion) x representatives x argument types x receiver types, in-place forms, squares, kernel, additivity on all pairs of points and types; oracle: multiplication by the eigenvalue in the model; distinct = argument representatives"},
		vk.Property{ID: "P06", Level: "exploration", Run: p06, Assumptions: bigOK,
			Rule: "all slices up to a length over an alphabet of scaled, normalized, neutral, 2-torsion, infinite and invalid points for every type with batch normalization; every element compared with its model point, the reported index set with the model; all slice wrappers for all lengths up to 4 with offset and spare capacity; distinct = slices"},
		vk.Property{ID: "P07", Level: "exploration", Run: p07, Assumptions: bigOK,
			Rule: "all coordinate values of the point set, small and generic values, x signs x trust levels x representations; all pairs (points, negated, shifted, swapped, zero, values lifted to curve points, all pairs of a small set); expected answer decided by the curve equation and multiplication by the group order in math/big; distinct = values and pairs"},
		vk.Property{ID: "P10", Level: "model_checking", Run: p10, Assumptions: bigOK,
			Rule: "state = internal memory of a point variable; all sequences up to a depth over writes (arithmetic with operands of all types, assignments, conversions, special points, deserialization, batch normalization) and reads, from uninitialized, infinite and generic variables of every type; after every step all queries on copies of the variable against the model value"},
	)
}
