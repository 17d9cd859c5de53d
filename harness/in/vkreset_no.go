//go:build go1.22 && vk_noshim

package main

const canReset = false

func resetCounters() {}
