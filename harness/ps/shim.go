//go:build go1.22 && !vk_noshim

package main

import ps "github.com/GottfriedHerold/Bandersnatch/bandersnatch/pointserializer"

const haveShim = true

func internalSerializer(kind int) ps.CurvePointSerializerModifyable { return ps.ZZSerializer(kind) }
