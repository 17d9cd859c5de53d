//go:build go1.22 && vk_noshim

package main

import (
	fe "github.com/GottfriedHerold/Bandersnatch/bandersnatch/fieldElements"
	"github.com/GottfriedHerold/Bandersnatch/internal/zzverif/vk"
)

func reference(r *vk.Run) {}

const haveModulus = false

func modulus(m fe.Uint256) (re [5]uint64, mmu0, mmu1, back [4]uint64) { return }
