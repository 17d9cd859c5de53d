//go:build go1.22 && !vk_noshim

package main

import cc "github.com/GottfriedHerold/Bandersnatch/internal/callcounters"

const canReset = true

func resetCounters() { cc.VkReset() }
