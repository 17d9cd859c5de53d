package pointserializer

import "github.com/GottfriedHerold/Bandersnatch/bandersnatch/common"

// ZZSerializer exposes the serializers that have no exported instance to the harness.
func ZZSerializer(kind int) CurvePointSerializerModifyable {
	c := valuesSerializerFeCompressedBit{fieldElementEndianness: common.DefaultEndian}
	switch kind {
	case 0:
		return newMultiSerializer(basicXYSerializer, trivialSimpleHeaderSerializer)
	case 1:
		return newMultiSerializer(&pointSerializerXAndSignY{valuesSerializerFeCompressedBit: c}, trivialSimpleHeaderSerializer)
	default:
		return newMultiSerializer(&pointSerializerYAndSignX{valuesSerializerFeCompressedBit: c}, trivialSimpleHeaderSerializer)
	}
}
