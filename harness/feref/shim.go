//go:build go1.22 && !vk_noshim

package main

import (
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func reference(r *vk.Run) {
	explore[fe.ZZReference](r, "reference")
	random(r, makers[fe.ZZReference]{fe.CreateRandomFieldElement_Unsafe[fe.ZZReference], fe.CreateRandomNonZeroFieldElement_Unsafe[fe.ZZReference]}, "reference")
	rerandomize[fe.ZZReference](r, "reference")
}

const haveModulus = true

func modulus(m fe.Uint256) (re [5]uint64, mmu0, mmu1, back [4]uint64) { return fe.ZZModulus(m) }
