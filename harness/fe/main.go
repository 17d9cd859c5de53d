//go:build go1.22

// Harness for package fieldElements (F01..F09).
package main

import "github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"

var bigOK = []string{"math/big is correct", "operands outside the bounded value set are not executed"}

func main() {
	vk.Main(
		vk.Property{ID: "F01", Level: "exploration", Run: f01, Assumptions: bigOK,
			Rule: "all ordered pairs over a carry-complete value set (all 4-limb values over {0,1,2^63,2^64-1} plus range boundaries), all shift amounts, all aliasings; distinct = operand pairs"},
		vk.Property{ID: "F02", Level: "exploration", Run: f02, Assumptions: bigOK,
			Rule: "all ordered pairs over a value set dense at the reduction boundaries plus, for every value, the partners whose sum/difference hits a boundary; every operation whose documented input range admits the operands; distinct = operand pairs"},
		vk.Property{ID: "F03", Level: "exploration", Run: f03, Assumptions: bigOK,
			Rule: "all ordered pairs of admissible (c-reduced) values of the boundary set plus partners whose Montgomery product is a boundary value; base x exponent sets; distinct = operand pairs"},
		vk.Property{ID: "F04", Level: "model_checking", Run: f04, Assumptions: bigOK,
			Rule: "element state = (value mod p, which internal representation); all ordered pairs of boundary states under every operation and aliasing, partners hitting boundaries exactly, and breadth-first exploration of all operation sequences on two registers in lockstep with a model of residues"},
		vk.Property{ID: "F05", Level: "exploration", Run: f05, Assumptions: bigOK,
			Rule: "all boundary element states; all s*w^e with every byte of e at every bit position and all pairs of bytes of e; base x exponent sets; distinct = (element) or (base, exponent)"},
		vk.Property{ID: "F07", Level: "exploration", Run: f07, Assumptions: bigOK,
			Rule: "boundary values x both representations x all 511 prefixes x both byte orders through every serialization entry point; 32-byte inputs with every top byte and around p below every prefix through every deserialization entry point; every invalid prefix length"},
		vk.Property{ID: "F08", Level: "fault_enumeration", Run: f08, Assumptions: []string{"streams obey the io.Reader/io.Writer contracts"},
			Rule: "every fault offset 0..32 x fault kind (EOF, custom error, wrapped error, ErrUnexpectedEOF) x chunk size x error with/after the last bytes x empty reads x entry point x byte order x prefixes x values; distinct = that tuple"},
		vk.Property{ID: "F06", Level: "exploration", Run: f06, Assumptions: append(bigOK, "distinct elements of the argument list do not share memory (documented restriction of batch inversion)"),
			Rule: "all slices up to a length over {0, 0 in the second representation, 1, -1, generic, generic in the second representation}, longer slices with all placements of two zeros and all numbers of leading zeros; every aliasing of the receiver; distinct = slices"},
		vk.Property{ID: "F09", Level: "exploration", Run: f09, Assumptions: bigOK,
			Rule: "all boundary element states through every getter and formatting verb; integers around all powers of two up to 2^520 and multiples of p, both signs, through every setter; distinct = element states and integers"},
	)
}
