//go:build !vk_noshim

package main

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/exponents"

var decompose = exponents.ZZDecompose
