//go:build go1.22 && vk_noshim

package main

const haveShim = false

func formula(name string, x, y PI, alias int) PI { return nil }
