From 15c4926a7903fe58bc2272d42d7b40c0012b27c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 01/44] fix: make errors created by errorsWithData usable with
 MakeErrorIncomparable

The documentation of incomparableWrapper.go states that IncomparableMaker is a sub-interface
of ErrorWithData_any, but neither the interface nor its only implementation had the methods,
so that package fieldElements did not compile.
---
 bandersnatch/errorsWithData/errorsWithData.go   |  2 ++
 .../errorsWithData/plainErrorWithParams.go      | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index dedb740..a6e7246 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -270,6 +270,8 @@ type ErrorWithData_any interface {
 	ValidateError_Final() error                        // reports a non-nil error if there is a (recursive) syntax or missing variable problem in the interpolation string creating this error.
 	ValidateError_Base() error                         // same as ValidateError_Final, but ignores missing variables for $-syntax.
 	ValidateError_Params(params_passed ParamMap) error // same as ValidateError_Final, but use param_passed for any appearing $. Using params_passed == nil will use the error's own stored parameters (as opposed to an empty map).
+
+	IncomparableMaker // needed to make errors usable by [MakeErrorIncomparable] and its variants.
 }
 
 // ErrorInterpolater is an extension of the error interface that allows the error output to depend on additional data.
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index b8bf691..abf1b81 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -86,6 +86,23 @@ func (e *errorWithParameters_common) Unwrap() error {
 	return e.wrapped_error
 }
 
+// Is is provided to satisfy [IncomparableMaker]. It makes errors.Is unaware of whether target was boxed by [MakeErrorIncomparable] and its variants.
+func (e *errorWithParameters_common) Is(target error) bool {
+	target_unboxed, ok := UnboxError(target).(*errorWithParameters_common)
+	return ok && e == target_unboxed
+}
+
+// Is is provided to satisfy [IncomparableMaker]. It makes errors.Is unaware of whether target was boxed by [MakeErrorIncomparable] and its variants.
+//
+// NOTE: We cannot use the method promoted from [errorWithParameters_common], since that does not know the actual type of e.
+func (e *errorWithParameters_T[StructType]) Is(target error) bool {
+	target_unboxed, ok := UnboxError(target).(*errorWithParameters_T[StructType])
+	return ok && e == target_unboxed
+}
+
+// CanMakeIncomparable is provided to satisfy [IncomparableMaker].
+func (e *errorWithParameters_common) CanMakeIncomparable() {}
+
 // GetData_struct is provided to satisfy ErrorWithParameters[StructType].
 //
 // It constructs a value of type StructType from the provided parameters.
-- 
2.43.0


From 2c3f4bbc7a8a783244d1d2dd00e8bee97fd78eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:04 +0000
Subject: [PATCH 02/44] fix: adapt callers to the current errorsWithData API

fieldElements, curvePoints, pointserializer and bandersnatch did not compile, because they
still used the old signatures (without treatment of previous and missing data) and old locations
of some constants.
---
 .../bandersnatchErrors/serializer_errors.go   |  2 +-
 .../curvePoints/serializer_curve_field.go     | 12 +++---
 .../fieldElements/field_element_bigInt.go     |  4 +-
 .../fieldElements/field_element_montgomery.go |  4 +-
 .../pointserializer/headerSerializer.go       | 12 +++---
 .../pointserializer/serialize_curve_point.go  | 30 +++++++-------
 .../pointserializer/serialize_curve_points.go | 39 ++++++++++---------
 bandersnatch/pointserializer/utils.go         | 17 +++++---
 .../pointserializer/values_serializers.go     |  4 +-
 internal/errorTransform/error_transform.go    |  4 +-
 internal/errorTransform/serializer_errors.go  |  2 +-
 11 files changed, 69 insertions(+), 61 deletions(-)

diff --git a/bandersnatch/bandersnatchErrors/serializer_errors.go b/bandersnatch/bandersnatchErrors/serializer_errors.go
index 59b0aa6..79ddbc9 100644
--- a/bandersnatch/bandersnatchErrors/serializer_errors.go
+++ b/bandersnatch/bandersnatchErrors/serializer_errors.go
@@ -94,5 +94,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 9046265..2c13aca 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -95,10 +95,10 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 			// The type of error depends on whether denom is a square or not.
 			num.DivideEq(&denom)
 			if y.SquareRoot(&num) {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotInSubgroup, "%w. The received X coordinates was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 
 			} else {
-				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+				err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 				y.SetZero() // not needed, but we like being explicit.
 			}
 			return
@@ -107,7 +107,7 @@ func recoverYFromXAffine(x *FieldElement, legendreCheckX bool) (y FieldElement,
 	}
 	num.DivideEq(&denom) // (1-ax^2)/(1-dx^2). Note that 1-dx^2 cannot be 0, as d is a non-square.
 	if !y.SquareRoot(&num) {
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", "X", *x)
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](bandersnatchErrors.ErrXNotOnCurve, "%w. The received X coordinate was %v{X}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "X", *x)
 		return
 	}
 	err = nil // err is nil at this point anyway, but we prefer to be explicit.
@@ -270,7 +270,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	point.y, errWithX = recoverYFromXAffine(x, false)
 
 	if errWithX != nil {
-		err = errorsWithData.AddDataToError_params[retData](errWithX, "%w", "SignY", signY)
+		err = errorsWithData.AddDataToError_params[retData](errWithX, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignY", signY)
 		// On trusted input, we panic on error.
 		if trustLevel.Bool() {
 			panic(fmt.Errorf(ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full encountered error on trusted input. Error was %w", err))
@@ -429,7 +429,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	point.x, errFromRecoverX = recoverXFromYAffine(y)
 	if errFromRecoverX != nil {
 		err = errorsWithData.NewErrorWithData_params[errData](errFromRecoverX, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromYAndSignX_full: %w, signX = %v{SignX}",
-			"SignX", signX)
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "SignX", signX)
 		if trustLevel.Bool() {
 			panic(err)
 		}
@@ -514,7 +514,7 @@ func CurvePointFromXTimesSignY_subgroup(xSignY *FieldElement, trustLevel IsInput
 	point.y, err = recoverYFromXAffine(xSignY, !trustLevel.Bool())
 	if err != nil {
 		// update error message.
-		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|")
+		err = errorsWithData.NewErrorWithData_params[struct{ X FieldElement }](err, ErrorPrefix_CurveFieldElementSerializers+"Error in CurvePointFromXTimesSignY_subgroup: %w. Note that this error only depends on the absolute value |X|", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 		point = Point_axtw_subgroup{}
 		if trustLevel.Bool() {
 			panic(err)
diff --git a/bandersnatch/fieldElements/field_element_bigInt.go b/bandersnatch/fieldElements/field_element_bigInt.go
index 303fabe..aa763de 100644
--- a/bandersnatch/fieldElements/field_element_bigInt.go
+++ b/bandersnatch/fieldElements/field_element_bigInt.go
@@ -136,7 +136,7 @@ func (z *bsFieldElement_BigInt) SetInt64(x int64) {
 func (z *bsFieldElement_BigInt) ToUint64() (uint64, error) {
 	zInt := z.ToBigInt()
 	if !zInt.IsUint64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	}
 	return zInt.Uint64(), nil
 }
@@ -153,7 +153,7 @@ func (z *bsFieldElement_BigInt) ToInt64() (int64, error) {
 		zInt.Neg(zInt)
 	}
 	if !zInt.IsInt64() {
-		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", *z)
+		return 0, errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 	} else {
 		return zInt.Int64(), nil
 	}
diff --git a/bandersnatch/fieldElements/field_element_montgomery.go b/bandersnatch/fieldElements/field_element_montgomery.go
index b2cdc67..117511e 100644
--- a/bandersnatch/fieldElements/field_element_montgomery.go
+++ b/bandersnatch/fieldElements/field_element_montgomery.go
@@ -254,7 +254,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToUint64() (result uint64, err erro
 	result = temp[0]
 	if (temp[1] | temp[2] | temp[3]) != 0 {
 		// err = ErrCannotRepresentAsUint64
-		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", "FieldElement", *z)
+		err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as a uint64", errorsWithData.ReplacePreviousData, "FieldElement", *z)
 		result = 0
 	}
 	return
@@ -317,7 +317,7 @@ func (z *bsFieldElement_MontgomeryNonUnique) ToInt64() (result int64, err error)
 		return
 	}
 	zCopy := *z // to avoid z escaping to the heap. Now only zCopy escapes, but this is only allocated conditionally in the first place.
-	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", "FieldElement", zCopy)
+	err = errorsWithData.NewErrorWithData_any_params(ErrCannotRepresentFieldElement, ErrorPrefix+"the field Element %v{FieldElement} cannot be represented as an int64", errorsWithData.ReplacePreviousData, "FieldElement", zCopy)
 
 	result = 0 // no-op, but stated for clarity.
 	return
diff --git a/bandersnatch/pointserializer/headerSerializer.go b/bandersnatch/pointserializer/headerSerializer.go
index 85f2b85..3bdb1d9 100644
--- a/bandersnatch/pointserializer/headerSerializer.go
+++ b/bandersnatch/pointserializer/headerSerializer.go
@@ -290,7 +290,7 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceHeader() []byte {
 func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reader) (bytesRead int, size int32, err bandersnatchErrors.DeserializationError) {
 	bytesRead, errCER := consumeExpectRead(input, shd.headerSlice[:])
 	if errCER != nil {
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, FIELDNAME_PARTIAL_READ, bytesRead != 0)
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errCER, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0)
 		return
 	}
 	var buf [simpleHeaderSliceLengthOverhead]byte
@@ -298,17 +298,18 @@ func (shd *simpleHeaderDeserializer) deserializeGlobalSliceHeader(input io.Reade
 	bytesRead += bytesJustRead // Validate ensures this fits into int32
 	if errPlain != nil {
 		errorTransform.UnexpectEOF(&errPlain) // turn io.EOF into io.ErrUnexpectedEOF
-		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain,
+		err = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](errPlain, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_READ, bytesJustRead != simpleHeaderSliceLengthOverhead,
 			FIELDNAME_ACTUALLY_READ, buf[:],
 			FIELDNAME_BYTES_READ, bytesJustRead,
+			FIELDNAME_IO_ERROR, true,
 		)
 		return
 	}
 
 	var sizeUInt32 uint32 = shd.sliceSizeEndianness.Uint32(buf[:])
 	if sizeUInt32 > math.MaxInt32 {
-		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}",
+		errPlain = errorsWithData.NewErrorWithData_any_params(bandersnatchErrors.ErrSizeDoesNotFitInt32, "%w. Size read when deserializing was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", sizeUInt32)
 		err = errorsWithData.NewErrorWithData_struct(errPlain, "%w", &bandersnatchErrors.ReadErrorData{
 			PartialRead:  false,
@@ -368,7 +369,8 @@ func (shd *simpleHeaderDeserializer) GetGlobalSliceFooter() []byte {
 // addPartialReadInfo is a helper function that just "downcasts" the extra data type for the error.
 // This is because consumeExpectRead returns headerRead as additional data, which also contains ExpectedToRead.
 func fixReadErrorType(errIn errorsWithData.ErrorWithData[headerRead]) (errOut bandersnatchErrors.DeserializationError) {
-	return errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn)
+	errOut, _ = errorsWithData.AsErrorWithData[bandersnatchErrors.ReadErrorData](errIn, errorsWithData.EnsureDataIsPresent)
+	return
 }
 
 // deserializeGlobalSliceFooter reads from input and consumes the global slice footer
@@ -501,7 +503,7 @@ func (shd *simpleHeaderDeserializer) MultiPointHeaderOverhead(numPoints int32) (
 	ret64 += int64(len(shd.headerSlice) + len(shd.footerSlice))                                 // term added is guaranteed to fit into int32
 	// NOTE: ret64 is guaranteed to not have overflown an int64, since it is at most (2^31-1) * (2^31-1) + 4 + (2^31-1), which is smaller than 2^63-1
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}",
+		err = errorsWithData.NewErrorWithData_any_params(nil, "MultiPointOverhead does not fit into int32, size was %v{Size}", errorsWithData.ReplacePreviousData,
 			"Size", ret64)
 	}
 	ret = int32(ret64)
diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 6af6811..047fd35 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -539,7 +539,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -558,7 +558,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerDeserializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		return
 	}
@@ -567,7 +567,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Re
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -583,7 +583,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		if bytesRead > 0 {
 			errorTransform.UnexpectEOF2(&err) // not really doing anything, since bytesRead > 0 contradicts err is EOF.
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -604,7 +604,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 		// So assume the footer is trivial. If err does not alreay contain the partial read_flag, bytesJustRead is either 0 or everything was read.
 		// In the latter case, we really have no partial read; if bytesJustRead, we have a partial read situation if there was a header.
 		if (bytesJustRead == 0 && bytesRead > 0) || (!md.headerSerializer.trivialSinglePointFooter() && bytesRead > 0) {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 
 		return
@@ -614,7 +614,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoint(inputStream io.Read
 	if err != nil {
 		errorTransform.UnexpectEOF2(&err)
 		if bytesJustRead == 0 {
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.ReadErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
 		}
 		// outputPoint.SetFrom(originalPoint)
 	}
@@ -628,7 +628,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 {
 			errorTransform.UnexpectEOF2(&err) // does nothing, actually, because err cannot be EOF for bytesWritten > 0
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -637,7 +637,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 		return
 	}
@@ -646,7 +646,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoint(outputStream io.Write
 	if err != nil {
 		if bytesWritten > 0 && bytesWritten < int(md.OutputLength()) {
 			errorTransform.UnexpectEOF2(&err)
-			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", FIELDNAME_PARTIAL_WRITE, true)
+			err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_WRITE, true)
 		}
 	}
 	return
@@ -740,18 +740,18 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err // we return -1 for the int32 in case of error here, as the actual value is meaningless. Note that that overhead might well be negative at this point anyway.
 
 	}
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
@@ -774,11 +774,11 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 		}
 		return -1, err
 
@@ -786,7 +786,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 	var ret64 int64 = int64(overhead) + pointCost64 // Cannot overflow, because it is bounded by MaxInt32^2 + MaxInt32
 	if ret64 > math.MaxInt32 {
-		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", "Size", ret64)
+		err = errorsWithData.NewErrorWithData_any_params(nil, ErrorPrefix+"SliceOutputLength would return %v{Size}, which exceeds MaxInt32", errorsWithData.ReplacePreviousData, "Size", ret64)
 		return -1, err
 	}
 	return int32(ret64), nil
diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index ff2c44d..8c7c054 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -11,6 +11,7 @@ import (
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/curvePoints"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
 	"github.com/GottfriedHerold/Bandersnatch/internal/errorTransform"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 	"github.com/GottfriedHerold/Bandersnatch/internal/testutils"
 )
 
@@ -96,7 +97,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.R
 			}
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", "PointsDeserialized", i)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle, ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i)
 			return
 		}
 	}
@@ -142,7 +143,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeCurvePoints(inputStream io.Rea
 
 			// the index i gives the correct value for the PointsDeserialized error data. The other data (including PartialRead) is actually correct.
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errSingle,
-				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w",
+				ErrorPrefix+"batch deserialization failed after deserializing %{PointsDeserialized} points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i)
 			return
 		}
@@ -195,7 +196,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w",
+				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i,
 				FIELDNAME_PARTIAL_READ, true)
 			return
@@ -206,12 +207,12 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		if errNonBatch != nil {
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i,
 					FIELDNAME_PARTIAL_READ, true)
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
-					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w",
+					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i)
 			}
 			return
@@ -220,7 +221,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
-			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
 	}
@@ -252,7 +253,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 
 	// If reading the slice header fails, bail out
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1) // create a dummy value for output
 		return
@@ -290,7 +291,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -319,7 +320,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 
 	bytesRead, size, errNonBatch = md.headerSerializer.deserializeGlobalSliceHeader(inputStream)
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read header (including size). Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, bytesRead != 0, FIELDNAME_POINTSDESERIALIZED, 0)
 
 		output, _, _ = sliceMaker(-1)
 		return
@@ -351,7 +352,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
-		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", FIELDNAME_POINTSDESERIALIZED, int(size))
+		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
 
@@ -415,13 +416,13 @@ func UseExistingSlice[PointType any, PointTypePtr interface {
 			// The error message depends on whether the capacity is too small as well.
 			if cap(existingSlice) < int(length) {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}",
+					"%w: in UseExistingSlice, The length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
 			} else {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](ErrInsufficientBufferForDeserialization,
-					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}",
+					"%w: in UseExistingSlice, the length of the given buffer was %v{BufferSize}, but the slice read would have size %v{ReadSliceLen}. Note that the given buffer would have had sufficient capacity %v{BufferCapacity}", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"BufferSize", targetSliceLen,
 					"ReadSliceLen", int(length),
 					"BufferCapacity", cap(existingSlice))
@@ -470,7 +471,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeCurvePoints(outputStream io.Writ
 				errorTransform.UnexpectEOF2(&errSingle)
 			}
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errSingle,
-				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w",
+				ErrorPrefix+"batch serialization failed after deserializing %{PointsSerialized} many points with error %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i)
 			return
 		}
@@ -491,7 +492,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	expectedSize, errOverflow := md.SliceOutputLength(L)
 	if errOverflow != nil {
 		// var noWriteAttempt :=
-		overflowErrData := BatchSerializationErrorData{WriteErrorData: bandersnatchErrors.NoWriteAttempt, PointsSerialized: 0}
+		overflowErrData := BatchSerializationErrorData{WriteErrorData: errorconsts.NoWriteAttempt, PointsSerialized: 0}
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrSizeDoesNotFitInt32, ErrorPrefix+"called SerializeSlice with a slice that would require more than MaxInt32 bytes to serialize", &overflowErrData)
 		return
 	}
@@ -501,7 +502,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errHeader != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errHeader,
-			ErrorPrefix+"failed to write slice header. Error was %w",
+			ErrorPrefix+"failed to write slice header. Error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"PointsSerialized", 0,
 			"PartialWrite", bytesWritten != 0)
 		return
@@ -522,7 +523,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -533,7 +534,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -544,7 +545,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 		bytesWritten += bytesJustWritten
 		if errNonBatch != nil {
 			err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+				ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsSerialized", i+1,
 				FIELDNAME_PARTIAL_WRITE, true)
 			return
@@ -556,7 +557,7 @@ func (md *multiSerializer[_, _, _, _]) SerializeSlice(outputStream io.Writer, in
 	bytesWritten += bytesJustWritten
 	if errNonBatch != nil {
 		err = errorsWithData.NewErrorWithData_params[BatchSerializationErrorData](errNonBatch,
-			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w",
+			ErrorPrefix+"slice serialization failed after successfully writing %v{PointsSerialized} points. The error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"PointsSerialized", LInt, // Note: PointsSerialized needs type int, not int32
 			FIELDNAME_PARTIAL_WRITE, true)
 		return
diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 526a0c1..3d167d3 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -9,12 +9,14 @@ import (
 
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/bandersnatchErrors"
 	"github.com/GottfriedHerold/Bandersnatch/bandersnatch/errorsWithData"
+	"github.com/GottfriedHerold/Bandersnatch/internal/errorconsts"
 )
 
-const FIELDNAME_PARTIAL_READ = bandersnatchErrors.FIELDNAME_PARTIAL_READ
-const FIELDNAME_PARTIAL_WRITE = bandersnatchErrors.FIELDNAME_PARTIAL_WRITE
-const FIELDNAME_ACTUALLY_READ = bandersnatchErrors.FIELDNAME_ACTUALLY_READ
-const FIELDNAME_BYTES_READ = bandersnatchErrors.FIELDNAME_BYTES_READ
+const FIELDNAME_PARTIAL_READ = errorconsts.FIELDNAME_PARTIAL_READ
+const FIELDNAME_PARTIAL_WRITE = errorconsts.FIELDNAME_PARTIAL_WRITE
+const FIELDNAME_ACTUALLY_READ = errorconsts.FIELDNAME_ACTUALLY_READ
+const FIELDNAME_BYTES_READ = errorconsts.FIELDNAME_BYTES_READ
+const FIELDNAME_IO_ERROR = errorconsts.FIELDNAME_IO_ERROR
 
 // additional data contained in errors returned by consumeExpectRead. Note that this "extends" bandersnatchErrors.ReadErrorData
 type headerRead struct {
@@ -22,6 +24,7 @@ type headerRead struct {
 	ActuallyRead   []byte
 	ExpectedToRead []byte
 	BytesRead      int
+	IoError        bool
 }
 
 func init() {
@@ -92,7 +95,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		buf = buf[0:bytes_read:bytes_read] // We reduce the cap, so maybe some future version of Go actually frees the trailing memory. (We *could* copy it to a new buffer, but that's probably worse in most cases)
 
 		// Note: We deep-copy the contents of expectToRead. The reason is that the caller might later modify the backing array otherwise.
-		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read} // extra data returned in error
+		var returnedErrorData headerRead = headerRead{ActuallyRead: buf, ExpectedToRead: copyByteSlice(expectToRead), BytesRead: bytes_read, IoError: true} // extra data returned in error
 
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
@@ -171,9 +174,11 @@ func writeFull(output io.Writer, data []byte) (bytesWritten int, err bandersnatc
 	bytesWritten, errPlain := output.Write(data)
 	if errPlain != nil {
 		err = errorsWithData.NewErrorWithData_params[bandersnatchErrors.WriteErrorData](errPlain, ErrorPrefix+"An error occured when trying to write %v{Data} to io.Writer. We only wrote %v{BytesWritten} data. The error was:\n%w",
+			errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			"Data", copyByteSlice(data),
-			bandersnatchErrors.FIELDNAME_BYTES_WRITTEN, bytesWritten,
+			errorconsts.FIELDNAME_BYTES_WRITTEN, bytesWritten,
 			FIELDNAME_PARTIAL_WRITE, bytesWritten != 0 && bytesWritten < len(data),
+			FIELDNAME_IO_ERROR, true,
 		)
 	} // else err == nil
 	return
diff --git a/bandersnatch/pointserializer/values_serializers.go b/bandersnatch/pointserializer/values_serializers.go
index 4374426..33d294d 100644
--- a/bandersnatch/pointserializer/values_serializers.go
+++ b/bandersnatch/pointserializer/values_serializers.go
@@ -72,7 +72,7 @@ type valuesSerializer interface {
 func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadPtr *int, expectToRead int) {
 	if *errPtr != nil {
 		var bytesRead int = *bytesReadPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.ReadErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_READ, bytesRead != 0 && bytesRead != expectToRead,
 			// NOTE: We do not update the "BytesRead" metadata in the error. This is intentional: "BytesRead" refers to the failing sub-call.
 		)
@@ -85,7 +85,7 @@ func updateReadError(errPtr *bandersnatchErrors.DeserializationError, bytesReadP
 func updateWriteError(errPtr *bandersnatchErrors.SerializationError, bytesWrittenPtr *int, expectToWrite int) {
 	if *errPtr != nil {
 		var bytesWritten int = *bytesWrittenPtr
-		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr,
+		*errPtr = errorsWithData.AddDataToError_params[bandersnatchErrors.WriteErrorData](*errPtr, errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 			FIELDNAME_PARTIAL_WRITE, (bytesWritten != 0) && (bytesWritten != expectToWrite),
 			// NOTE: We do not update the "BytesWritten" metadata in the error. This is intentional: "BytesWritten" refers to the failing sub-call.
 		)
diff --git a/internal/errorTransform/error_transform.go b/internal/errorTransform/error_transform.go
index b37f565..39a8b64 100644
--- a/internal/errorTransform/error_transform.go
+++ b/internal/errorTransform/error_transform.go
@@ -23,7 +23,7 @@ func UnexpectEOF(errPtr *error) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
 		if len(m) > 0 {
-			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", m)
+			*errPtr = errorsWithData.NewErrorWithData_any_map(io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, m)
 		} else {
 			*errPtr = io.ErrUnexpectedEOF
 		}
@@ -34,6 +34,6 @@ func UnexpectEOF(errPtr *error) {
 func UnexpectEOF2[StructType any](errPtr *errorsWithData.ErrorWithData[StructType]) {
 	if errors.Is(*errPtr, io.EOF) {
 		m := errorsWithData.GetData_map(*errPtr)
-		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", m)
+		*errPtr = errorsWithData.NewErrorWithData_map[StructType](io.ErrUnexpectedEOF, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, m)
 	}
 }
diff --git a/internal/errorTransform/serializer_errors.go b/internal/errorTransform/serializer_errors.go
index 23d260b..f10016f 100644
--- a/internal/errorTransform/serializer_errors.go
+++ b/internal/errorTransform/serializer_errors.go
@@ -83,5 +83,5 @@ var (
 	ErrCannotSerializePointAtInfinity = errors.New("bandersnatch / point serialization: The selected serializer cannot serialize points at infinity")
 	ErrCannotSerializeNaP             = errors.New("bandersnatch / point serialization: cannot serialize NaP")
 	ErrCannotDeserializeNaP           = errors.New("bandersnatch / point deserialization: cannot deserialize coordinates corresponding to NaP")
-	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0")
+	ErrCannotDeserializeXYAllZero     = errorsWithData.NewErrorWithData_params[struct{}](ErrCannotDeserializeNaP, "bandersnatch / point deserialization: trying to deserialize a point with coordinates x==y==0", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent)
 )
-- 
2.43.0


From ba312875abad65923421dc04f40f8acc284d9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 03/44] fix: Exponent.ModuloP253 returned the negative of the
 residue

---
 bandersnatch/exponents/exponents.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index d6ddcbc..7666d3c 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -55,7 +55,7 @@ func (z *Exponent) ModuloP253() (ret Exponent) {
 	if z.isNormalized_Subgroup() {
 		ret = *z
 	} else {
-		ret.Sub(&p253Exponent, z)
+		ret.Sub(z, &p253Exponent)
 	}
 	return
 }
-- 
2.43.0


From 16d7a48b3076b83acb0b84ffd0ef739ba53dadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:49 +0000
Subject: [PATCH 04/44] fix: Exponent.Neg ignored its argument

---
 bandersnatch/exponents/exponents.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/exponents/exponents.go b/bandersnatch/exponents/exponents.go
index 7666d3c..f22d3fd 100644
--- a/bandersnatch/exponents/exponents.go
+++ b/bandersnatch/exponents/exponents.go
@@ -227,10 +227,10 @@ func (z *Exponent) Neg(x *Exponent) {
 		return
 	}
 	var borrow uint64
-	z.value[0], borrow = bits.Sub64(curveExponent_0, z.value[0], 0)
-	z.value[1], borrow = bits.Sub64(curveExponent_1, z.value[1], borrow)
-	z.value[2], borrow = bits.Sub64(curveExponent_2, z.value[2], borrow)
-	z.value[3], _ = bits.Sub64(curveExponent_3, z.value[3], borrow)
+	z.value[0], borrow = bits.Sub64(curveExponent_0, x.value[0], 0)
+	z.value[1], borrow = bits.Sub64(curveExponent_1, x.value[1], borrow)
+	z.value[2], borrow = bits.Sub64(curveExponent_2, x.value[2], borrow)
+	z.value[3], _ = bits.Sub64(curveExponent_3, x.value[3], borrow)
 }
 
 // SetZero sets the exponent value to 0
-- 
2.43.0


From d11f44e72a72606f37d149a2acca0c3475b7096d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:51 +0000
Subject: [PATCH 05/44] fix: Uint256 buffer/slice deserializers did not consume
 and report the bytes read

---
 bandersnatch/fieldElements/uint256_serialize.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/fieldElements/uint256_serialize.go b/bandersnatch/fieldElements/uint256_serialize.go
index 10f7a31..2173813 100644
--- a/bandersnatch/fieldElements/uint256_serialize.go
+++ b/bandersnatch/fieldElements/uint256_serialize.go
@@ -210,7 +210,8 @@ func (z *Uint256) Deserialize_Buffer(input *bytes.Buffer, byteOrder FieldElement
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // Next also consumes the read bytes
+	bytesRead = 32
 	return
 }
 
@@ -222,6 +223,7 @@ func (z *Uint256) Deserialize_Bytes(input []byte, byteOrder FieldElementEndianne
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	return
 }
 
@@ -295,7 +297,8 @@ func (z *Uint256) DeserializeAndGetPrefix_Buffer(input *bytes.Buffer, prefixLeng
 	}
 
 	// Write to z
-	byteOrder.Uint256_indirect(input.Bytes(), (*[4]uint64)(z))
+	byteOrder.Uint256_indirect(input.Next(32), (*[4]uint64)(z)) // Next also consumes the read bytes
+	bytesRead = 32
 
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
@@ -324,6 +327,7 @@ func (z *Uint256) DeserializeAndGetPrefix_Bytes(input []byte, prefixLength uint8
 
 	// Write to z
 	byteOrder.Uint256_indirect(input, (*[4]uint64)(z))
+	bytesRead = 32
 	// read out the top prefixLength many bits.
 	prefix = common.PrefixBits(z[3] >> (64 - prefixLength))
 
-- 
2.43.0


From c0336f77e4eb845e651ed41763019a315741f63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:12 +0000
Subject: [PATCH 06/44] fix: unterminated nested conditions in interpolation
 strings no longer panic

---
 bandersnatch/errorsWithData/formatting_parse.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_parse.go b/bandersnatch/errorsWithData/formatting_parse.go
index d5fe6c7..a79913e 100644
--- a/bandersnatch/errorsWithData/formatting_parse.go
+++ b/bandersnatch/errorsWithData/formatting_parse.go
@@ -777,7 +777,7 @@ func make_ast(tokens tokenList) (ret ast_root, err error) {
 		// nodes of types ast_condPercent and ast_condDollar and causes
 		// the condition to be ignored, so the conditional interpolation is always evaluated.
 		// This is mostly to ensure that diagnostic is not hidden.
-		for i := 0; i < (stack.Len()/2)-1; i++ {
+		for stack.Len() > 2 {
 			_ = stack.Pop().(ast_list)
 			condNode := stack.Pop().(ast_cond)
 			condition := condNode.get_condition()
-- 
2.43.0


From b9a7158a578bbacddc305eb811bf58cd2ae171ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 07/44] fix: check interpolation syntax inside conditional
 sub-messages

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index d4fcbfc..2a32f65 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -202,15 +202,16 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 // It checks that the strings given as format verbs, conditions, variable names satisfy specific constraints
 // and ensures that errors are handled correctly later.
 //
-// For ast_cond, we just flag the conditional as invalid on failure.
+// For ast_cond, we flag the conditional as invalid on failure and recurse into the subtree.
 func (abase *base_ast_condition) handleSyntaxConditions() error {
+	// We always need to process the subtree, even if the condition is invalid: there might be further invalid nodes in it, which need to be marked.
+	errChild := abase.child.handleSyntaxConditions()
 	if !validConditionString(abase.condition) {
 		// make_invalid(3) causes Interpolate to display children unconditionally && display an error message containing the condition.
 		abase.make_invalid(3)
 		return fmt.Errorf(ErrorPrefix+"invalid condition string: %s", abase.condition)
-	} else {
-		return nil
 	}
+	return errChild
 }
 
 /**
-- 
2.43.0


From 9e95ba54d6e6cd412a5473effa1978b49a7d006d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:15 +0000
Subject: [PATCH 08/44] fix: garbled in-message report for format verbs
 containing a percent sign

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 2a32f65..49ff7f0 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -178,7 +178,7 @@ func (abase *base_ast_fmt) handleSyntaxConditions() error {
 	}
 
 	if strings.ContainsRune(abase.formatString, '%') {
-		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`+abase.formatString, abase.variableName)
+		abase.errorString = fmt.Errorf(`<!Format Verb %s for %s contains %%>`, abase.formatString, abase.variableName)
 		return fmt.Errorf(ErrorPrefix+`Interpolation string contains a format string verb %s, which contains  '%%'. This will not work with the fmt package`, abase.formatString)
 	}
 
-- 
2.43.0


From 0318a988647b68fbcafe07ffe69b6271ddcc7362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:16 +0000
Subject: [PATCH 09/44] fix: validation no longer reports references to the
 parameter map as missing

---
 bandersnatch/errorsWithData/formatting_interpolate.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/bandersnatch/errorsWithData/formatting_interpolate.go b/bandersnatch/errorsWithData/formatting_interpolate.go
index 49ff7f0..3218589 100644
--- a/bandersnatch/errorsWithData/formatting_interpolate.go
+++ b/bandersnatch/errorsWithData/formatting_interpolate.go
@@ -348,6 +348,9 @@ func (a ast_string) VerifyParameters_passed(ParamMap, ParamMap, error) error {
 // VerifyParameters_direct for %fmtVerb{variableName} checks whether the paramter is present.
 func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ error) (err error) {
 
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // refers to the parameter map itself, which is always available
+	}
 	_, ok := parameters_direct[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
@@ -359,6 +362,9 @@ func (a ast_fmtPercent) VerifyParameters_direct(parameters_direct ParamMap, _ er
 func (a ast_fmtPercent) VerifyParameters_passed(parameters_direct ParamMap, _ ParamMap, _ error) (err error) {
 
 	// same as VerifyParameters_direct. We ignore the parameters_passed map
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // refers to the parameter map itself, which is always available
+	}
 	_, ok := parameters_direct[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
@@ -376,6 +382,9 @@ func (a ast_fmtDollar) VerifyParameters_direct(_ ParamMap, _ error) error {
 // NOTE: we assume that parameters_passed is not nil. This is checked/handled at the root node.
 func (a ast_fmtDollar) VerifyParameters_passed(_ ParamMap, parameters_passed ParamMap, _ error) (err error) {
 
+	if utils.ElementInList(a.variableName, validMapSelectors[:]) {
+		return nil // refers to the parameter map itself, which is always available
+	}
 	_, ok := parameters_passed[a.variableName]
 	if !ok {
 		return fmt.Errorf(ErrorPrefix+"Interpolations string contains variable name %s, which is not present in the error", a.variableName)
-- 
2.43.0


From 6e30ee43d3d74910d623c5d65637e7a6b3fa79e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:18 +0000
Subject: [PATCH 10/44] fix: ValidateError_Params(nil) uses the error's own
 parameters

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index abf1b81..e9a19a9 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -268,5 +268,8 @@ func (e *errorWithParameters_common) ValidateError_Base() error {
 //
 // This method is required for [ValidateError_Base] or [ValidateError_Final] to recurse and part of the [ErrorInterpolater] interface.
 func (e *errorWithParameters_common) ValidateError_Params(params_passed ParamMap) error {
+	if params_passed == nil {
+		params_passed = e.params
+	}
 	return e.parsedInterpolationString.VerifyParameters_passed(e.params, params_passed, e.wrapped_error)
 }
-- 
2.43.0


From a781dc80dd4748583bcbcdb32f567f969589142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:19 +0000
Subject: [PATCH 11/44] fix: post-process the syntax tree of error messages at
 creation (data race on first use)

---
 bandersnatch/errorsWithData/plainErrorWithParams.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index e9a19a9..cdbd831 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -157,6 +157,9 @@ func makeErrorWithParametersCommon(baseError error, interpolationString string)
 	// Parse the intepolation string.
 	// We ignore potential returned errors: If there is a parsing error, this is additionally recorded in ret.parsedInterpolationString itself.
 	ret.parsedInterpolationString, _ = make_ast(tokens)
+	// Post-process the syntax tree right now rather than on first usage. This modifies the syntax tree, so deferring it
+	// would be a data race if the error is used concurrently. Possible errors are recorded in the tree as well.
+	_ = ret.parsedInterpolationString.handleSyntaxConditions()
 	ret.params = GetData_map(baseError)
 	return
 }
-- 
2.43.0


From 20b0974082d13e6d8c4c61bfa96f8e2b1e1a972a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 12/44] fix: NewErrorWithData_struct checks inherited data that
 takes precedence

---
 bandersnatch/errorsWithData/modify_errors.go        | 3 ++-
 bandersnatch/errorsWithData/plainErrorWithParams.go | 7 ++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/errorsWithData/modify_errors.go b/bandersnatch/errorsWithData/modify_errors.go
index 04c6bad..26c832a 100644
--- a/bandersnatch/errorsWithData/modify_errors.go
+++ b/bandersnatch/errorsWithData/modify_errors.go
@@ -28,7 +28,8 @@ import (
 //
 // For baseError == nil, interpolationString == "", this function panics.
 // For baseError == nil, interpolationString != "", creates a new error that does not wrap an error.
-// The function also panics if StructType is unsuited (e.g. contains unexported fields)
+// The function also panics if StructType is unsuited (e.g. contains unexported fields) or
+// if, due to mode, pre-existing parameters of the wrong type take precedence over data.
 func NewErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode ...PreviousDataTreatment) ErrorWithData[StructType] {
 	if len(mode) > 1 {
 		panic(ErrorPrefix + "called NewErrorWithData_struct with more than 1 mode")
diff --git a/bandersnatch/errorsWithData/plainErrorWithParams.go b/bandersnatch/errorsWithData/plainErrorWithParams.go
index cdbd831..87969a1 100644
--- a/bandersnatch/errorsWithData/plainErrorWithParams.go
+++ b/bandersnatch/errorsWithData/plainErrorWithParams.go
@@ -214,11 +214,16 @@ func deleteParameterFromError[StructType any](baseError error, interpolationStri
 // mode controls how already-present data in baseError should be handled.
 //
 // The function may panic if called with invalid StructType, so StructType should be checked by the caller beforehand.
-// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error.
+// By design, it also panics if mode==[AssertDataIsNotReplaced] and there is different data in base error
+// or if mode==[PreferPreviousData] and the data in base error that takes precedence is unsuited to construct an instance of StructType.
 func newErrorWithData_struct[StructType any](baseError error, interpolationString string, data *StructType, mode PreviousDataTreatment) (ret *errorWithParameters_T[StructType]) {
 	ret = new(errorWithParameters_T[StructType])
 	ret.errorWithParameters_common = makeErrorWithParametersCommon(baseError, interpolationString)
 	fillMapFromStruct(data, &ret.errorWithParameters_common.params, mode)
+	// If mode is [PreferPreviousData], data inherited from baseError takes precedence over *data and might have the wrong type.
+	if err := ensureCanMakeStructFromParameters[StructType](&ret.errorWithParameters_common.params, EnsureDataIsPresent); err != nil {
+		panic(err)
+	}
 	return
 }
 
-- 
2.43.0


From c8d9462f6ab49978bf242572b1277d19d17f1ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:22 +0000
Subject: [PATCH 13/44] fix: errors made incomparable keep their data and
 position in the error chain

---
 bandersnatch/errorsWithData/errorsWithData.go |  6 ++---
 .../errorsWithData/incomparableWrapper.go     | 24 ++++++++++++++++++-
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/errorsWithData/errorsWithData.go b/bandersnatch/errorsWithData/errorsWithData.go
index a6e7246..b682615 100644
--- a/bandersnatch/errorsWithData/errorsWithData.go
+++ b/bandersnatch/errorsWithData/errorsWithData.go
@@ -362,7 +362,7 @@ func isExportedIdentifier(s string) bool {
 // The implementations simply follows err's error chain until we find some error that we can work with.
 func GetData_map(err error) map[string]any {
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.GetData_map()
 		}
 	}
@@ -381,7 +381,7 @@ func HasParameter(err error, parameterName string) bool {
 		}
 	*/
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.HasParameter(parameterName)
 		}
 	}
@@ -411,7 +411,7 @@ func GetParameter(err error, parameterName string) (value any, wasPresent bool)
 	*/
 
 	for errorChain := err; errorChain != nil; errorChain = errors.Unwrap(errorChain) {
-		if errChainGood, ok := errorChain.(ErrorWithData_any); ok {
+		if errChainGood, ok := UnboxError(errorChain).(ErrorWithData_any); ok {
 			return errChainGood.GetParameter(parameterName)
 		}
 	}
diff --git a/bandersnatch/errorsWithData/incomparableWrapper.go b/bandersnatch/errorsWithData/incomparableWrapper.go
index 11568b8..9f87616 100644
--- a/bandersnatch/errorsWithData/incomparableWrapper.go
+++ b/bandersnatch/errorsWithData/incomparableWrapper.go
@@ -1,6 +1,10 @@
 package errorsWithData
 
-import "github.com/GottfriedHerold/Bandersnatch/internal/utils"
+import (
+	"errors"
+
+	"github.com/GottfriedHerold/Bandersnatch/internal/utils"
+)
 
 // TODO: Needs some cleanup (mostly removing parts of the API)
 
@@ -191,6 +195,24 @@ func (e incomparableError[StructType]) AsComparable() IncomparableMaker {
 	return e.ewd_MakeIncomparable_struct
 }
 
+// Unwrap is provided to make [errors.Is] etc. work across the boxed error. Since the box itself does not wrap the contained error, but rather
+// behaves like it, this unwraps the contained error.
+func (e incomparableError_plain) Unwrap() error {
+	return errors.Unwrap(e.IncomparableMaker)
+}
+
+// Unwrap is provided to make [errors.Is] etc. work across the boxed error. Since the box itself does not wrap the contained error, but rather
+// behaves like it, this unwraps the contained error.
+func (e incomparableError_any) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_any)
+}
+
+// Unwrap is provided to make [errors.Is] etc. work across the boxed error. Since the box itself does not wrap the contained error, but rather
+// behaves like it, this unwraps the contained error.
+func (e incomparableError[StructType]) Unwrap() error {
+	return errors.Unwrap(e.ewd_MakeIncomparable_struct)
+}
+
 // Do we even need those 2?
 
 // AsComparable_typed is similar to [AsComparable], but preserves the [ErrorWithData_any] extension of the error interface.
-- 
2.43.0


From e3caa39e776aa87d25d75ad27ae178aa0208622e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 14/44] fix: Double with a point type unknown to the package
 silently kept the receiver

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index d00e343..8f8c618 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -796,6 +796,20 @@ func (p *point_efgh_base) Double(x CurvePointPtrInterfaceRead) {
 		p.double_ss(&x.point_efgh_base)
 	case *Point_efgh_subgroup:
 		p.double_ss(&x.point_efgh_base)
+	default:
+		if x.IsNaP() {
+			napEncountered("NaP encountered while Doubling", false, x)
+			*p = point_efgh_base{}
+			return
+		}
+		// make a copy of the point in point_xtw_base coordinates.
+		// Note that we can work with a P vs. P+A ambiguity, because doubling P and P+A gives the same result.
+		var xConverted point_xtw_base
+		xConverted.x = x.X_decaf_projective()
+		xConverted.y = x.Y_decaf_projective()
+		xConverted.t = x.T_decaf_projective()
+		xConverted.z = x.Z_decaf_projective()
+		p.double_st(&xConverted)
 	}
 }
 
-- 
2.43.0


From fbe7f2dcb979150bbf2a57e2095794c39732a402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:13 +0000
Subject: [PATCH 15/44] fix: Endo of an invalid point of a type unknown to the
 package must give an invalid point

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 8f8c618..9aa7b4a 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -871,6 +871,8 @@ func (p *Point_efgh_subgroup) Endo(input CurvePointPtrInterfaceRead) {
 		ensureSubgroupOnly(input)
 		if input.IsNaP() {
 			napEncountered("Computing endomorphism of NaP", false, input)
+			p.point_efgh_base = point_efgh_base{}
+			return
 		}
 		if input.IsNeutralElement() {
 			p.point_efgh_base = neutralElement_efghbase
-- 
2.43.0


From 76097bda4a8d3aca503f8a3f4b8ace3a24b6b491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 16/44] fix: efgh SetFrom must read all coordinates of a
 wrapped receiver before writing

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 9aa7b4a..623740b 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1092,10 +1092,12 @@ func (p *Point_efgh_subgroup) SetFrom(input CurvePointPtrInterfaceRead) {
 			return
 		}
 		ensureSubgroupOnly(input)
-		p.e = input.X_decaf_projective()
-		p.f = input.Z_decaf_projective()
-		p.g = p.f
-		p.h = input.Y_decaf_projective()
+		// Note: input might be a wrapper around p, so we read all coordinates before changing p.
+		x, y, z := input.X_decaf_projective(), input.Y_decaf_projective(), input.Z_decaf_projective()
+		p.e = x
+		p.f = z
+		p.g = z
+		p.h = y
 	}
 }
 
-- 
2.43.0


From dbbb314cba27472139427666b610b2b2e7daa0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:56 +0000
Subject: [PATCH 17/44] fix: CanRepresentInfinity and CanOnlyRepresentSubgroup
 must work on nil receivers as documented

---
 bandersnatch/curvePoints/curve_point.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index f1cb5e6..79c8754 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -266,6 +266,21 @@ func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             {
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
+// The following need to be declared explicitly on the concrete pointer types: They are required to work for nil receivers, but methods promoted from embedded structs panic for those.
+
+func (*Point_xtw_full) CanRepresentInfinity() bool          { return true }
+func (*Point_xtw_full) CanOnlyRepresentSubgroup() bool      { return false }
+func (*Point_xtw_subgroup) CanRepresentInfinity() bool      { return false }
+func (*Point_xtw_subgroup) CanOnlyRepresentSubgroup() bool  { return true }
+func (*Point_axtw_full) CanRepresentInfinity() bool         { return false }
+func (*Point_axtw_full) CanOnlyRepresentSubgroup() bool     { return false }
+func (*Point_axtw_subgroup) CanRepresentInfinity() bool     { return false }
+func (*Point_axtw_subgroup) CanOnlyRepresentSubgroup() bool { return true }
+func (*Point_efgh_full) CanRepresentInfinity() bool         { return true }
+func (*Point_efgh_full) CanOnlyRepresentSubgroup() bool     { return false }
+func (*Point_efgh_subgroup) CanRepresentInfinity() bool     { return false }
+func (*Point_efgh_subgroup) CanOnlyRepresentSubgroup() bool { return true }
+
 func ensureSubgroupOnly(input CurvePointPtrInterfaceBaseRead) {
 	if !input.CanOnlyRepresentSubgroup() {
 		panic("bandersnatch / curve_point: trying to assign (via an operation) to a point type that can only store subgroup points, but the operands are general. This is not allowed. Use explicit conversion instead.")
-- 
2.43.0


From 8948fa920c9222a33c2f4dc51608c2c1ef209536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 18/44] fix: converting an infinite or invalid point of a type
 without T coordinates to xtw_full

---
 bandersnatch/curvePoints/curve_point_xtw.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index f1aaa40..130904a 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1168,10 +1168,21 @@ func (p *Point_xtw_full) SetFrom(input CurvePointPtrInterfaceRead) {
 	case CurvePointPtrInterfaceCooReadExtended:
 		p.x, p.y, p.t, p.z = input.XYTZ_projective()
 	default:
-		p.x, p.y, p.z = input.XYZ_projective()
-		if p.z.IsZero() {
-			panic("Not implemented.") // TODO: FIX THIS
+		if input.IsNaP() {
+			napEncountered("Converting NaP to xtw_full", false, input)
+			*p = Point_xtw_full{}
+			return
+		}
+		if input.IsAtInfinity() {
+			// X:Y:Z coordinates do not determine which of the two points at infinity we have.
+			if input.(CurvePointPtrInterfaceDistinguishInfinity).IsE1() {
+				p.SetE1()
+			} else {
+				p.SetE2()
+			}
+			return
 		}
+		p.x, p.y, p.z = input.XYZ_projective()
 		p.t.Mul(&p.x, &p.y)
 		p.x.MulEq(&p.z)
 		p.y.MulEq(&p.z)
-- 
2.43.0


From 96f92a7d00c77b3abed6cf7b224561677fb5cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:16 +0000
Subject: [PATCH 19/44] fix: a failing xtw SetFromSubgroupPoint must leave the
 receiver unchanged, for invalid input as well

---
 bandersnatch/curvePoints/curve_point_xtw.go | 2 --
 1 file changed, 2 deletions(-)

diff --git a/bandersnatch/curvePoints/curve_point_xtw.go b/bandersnatch/curvePoints/curve_point_xtw.go
index 130904a..c5198b7 100644
--- a/bandersnatch/curvePoints/curve_point_xtw.go
+++ b/bandersnatch/curvePoints/curve_point_xtw.go
@@ -1064,7 +1064,6 @@ func (p *point_xtw_base) NegEq() {
 func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP to xtw via SetFromSubgroupPoint", false, input)
-		*p = Point_xtw_subgroup{}
 		return false
 	}
 	if input.CanOnlyRepresentSubgroup() {
@@ -1106,7 +1105,6 @@ func (p *Point_xtw_subgroup) SetFromSubgroupPoint(input CurvePointPtrInterfaceRe
 func (p *Point_xtw_full) SetFromSubgroupPoint(input CurvePointPtrInterfaceRead, trusted IsInputTrusted) (ok bool) {
 	if input.IsNaP() {
 		napEncountered("Converting NaP point to xtw subgroup point", false, input)
-		*p = Point_xtw_full{}
 		return false
 	}
 	if !trusted.Bool() {
-- 
2.43.0


From addbeab53a93f448ede3cdf3e4ad532980a5b301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:39 +0000
Subject: [PATCH 20/44] fix: IsInSubgroup must check for and report invalid
 points

---
 bandersnatch/curvePoints/curve_point.go         | 17 +++++++++++++++++
 .../curvePoints/curve_point_doubleproj.go       |  3 +++
 2 files changed, 20 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point.go b/bandersnatch/curvePoints/curve_point.go
index 79c8754..45018e2 100644
--- a/bandersnatch/curvePoints/curve_point.go
+++ b/bandersnatch/curvePoints/curve_point.go
@@ -266,6 +266,23 @@ func (thisCurvePointCanOnlyRepresentSubgroup) IsInSubgroup() bool             {
 func (thisCurvePointCanRepresentFullCurve) CanOnlyRepresentSubgroup() bool    { return false }
 func (thisCurvePointCanRepresentFullCurve) HasDecaf() bool                    { return false }
 
+// For the types that can only represent subgroup points, every point is in the subgroup unless it is a NaP.
+
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+func (p *Point_xtw_subgroup) IsInSubgroup() bool {
+	return !p.IsNaP() || napEncountered("Checking whether NaP is in subgroup", true, p)
+}
+
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+func (p *Point_axtw_subgroup) IsInSubgroup() bool {
+	return !p.IsNaP() || napEncountered("Checking whether NaP is in subgroup", true, p)
+}
+
+// IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
+func (p *Point_efgh_subgroup) IsInSubgroup() bool {
+	return !p.IsNaP() || napEncountered("Checking whether NaP is in subgroup", true, p)
+}
+
 // The following need to be declared explicitly on the concrete pointer types: They are required to work for nil receivers, but methods promoted from embedded structs panic for those.
 
 func (*Point_xtw_full) CanRepresentInfinity() bool          { return true }
diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index 623740b..b12cc93 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -1130,6 +1130,9 @@ func (p *Point_efgh_full) SetFrom(input CurvePointPtrInterfaceRead) {
 
 // IsInSubgroup checks whether the given curve point is in the p253 prime-order subgroup.
 func (p *Point_efgh_full) IsInSubgroup() bool {
+	if p.IsNaP() {
+		return napEncountered("Checking whether NaP is in subgroup", true, p)
+	}
 	return legendreCheckA_EG(p.e, p.g) && legendreCheckE1_FH(p.f, p.h)
 }
 
-- 
2.43.0


From 0f537ad79de6d4e74f090da6b407f202d32de619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 21/44] fix: interpolation variable name in the message of
 CurvePointFromXAndSignY for invalid signs

---
 bandersnatch/curvePoints/serializer_curve_field.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 2c13aca..626bb20 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -253,7 +253,7 @@ func CurvePointFromXAndSignY_full(x *FieldElement, signY int, trustLevel IsInput
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_full expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
@@ -314,7 +314,7 @@ func CurvePointFromXAndSignY_subgroup(x *FieldElement, signY int, trustLevel IsI
 	// accept signs from +/- 1 in this function.
 	if signY != 1 && signY != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{signY} instead. The X coordinate given was %v{X}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromXAndSignY_subgroup expects the sign argument be either -1 or +1. Got %v{SignY} instead. The X coordinate given was %v{X}",
 			&retData{X: *x, SignY: signY},
 		)
 
-- 
2.43.0


From a3810b5a8acc45a149827b8c9300ceb669e97fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:12 +0000
Subject: [PATCH 22/44] fix: CurvePointFromYAndSignX_subgroup reports its
 arguments in the error for points outside the subgroup

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 626bb20..8bb2c95 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -483,7 +483,7 @@ func CurvePointFromYAndSignX_subgroup(y *FieldElement, signX int, trustLevel IsI
 			&struct {
 				Y     FieldElement
 				SignX int
-			}{})
+			}{Y: *y, SignX: signX})
 		point = Point_axtw_subgroup{} // just for clarity. This is the case anyway.
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From 1c9dfb6ffcac18ed67020133e6e74156cd3a92c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:50 +0000
Subject: [PATCH 23/44] fix: unescaped braces in the message for invalid signs
 made it unreadable

---
 bandersnatch/curvePoints/serializer_curve_field.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/curvePoints/serializer_curve_field.go b/bandersnatch/curvePoints/serializer_curve_field.go
index 8bb2c95..afdaf14 100644
--- a/bandersnatch/curvePoints/serializer_curve_field.go
+++ b/bandersnatch/curvePoints/serializer_curve_field.go
@@ -413,7 +413,7 @@ func CurvePointFromYAndSignX_full(y *FieldElement, signX int, trustLevel IsInput
 	}
 	if signX != +1 && signX != -1 {
 		err = errorsWithData.NewErrorWithData_struct(bandersnatchErrors.ErrInvalidSign,
-			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from {-1,0,+1}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
+			ErrorPrefix_CurveFieldElementSerializers+"CurvePointFromYAndSignX_full and CurvePointFromYAndSignX_subgroup expect signX from \\{-1,0,+1\\}. Got: %v{SignX}. The provided Y coorindate was %v{Y}",
 			&errData{Y: *y, SignX: signX})
 		if trustLevel.Bool() {
 			panic(err)
-- 
2.43.0


From f8dea7e03dc3c2d4ded9ba828f61bfe18eef757c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 24/44] fix: Id.Get reports unknown call counters instead of
 dereferencing nil

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index a050604..dbade72 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -499,7 +499,9 @@ func (id Id) Get() (ret int, ok bool) {
 	}
 	correctDependencies()
 	cc, ok := callCounters[id]
-	ret = cc.count_modified
+	if ok {
+		ret = cc.count_modified
+	}
 	return
 }
 
-- 
2.43.0


From 076910c124f3ad0922bd57b6a35f26054c9d48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 25/44] fix: CreateNewCallCounter defaults an empty display
 name to the id

---
 internal/callcounters/callcounters.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index dbade72..25dfcdf 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -208,7 +208,11 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 	if cc.initialized {
 		panic("callcounters: trying to create a call counter for an already used id")
 	}
-	cc.displayName = displayName
+	if displayName != "" {
+		cc.displayName = displayName
+	} else {
+		cc.displayName = string(id)
+	}
 	cc.id = id
 	cc.initialized = true
 	cc.displayRootNode = displayRootNode
-- 
2.43.0


From e6507517b5081752eb2482ebd7bbd03756f7f4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 26/44] fix: CreateAttachedCallCounter accepts an empty
 attachTo as documented

---
 internal/callcounters/callcounters.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index 25dfcdf..fac9ede 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -229,7 +229,9 @@ func CreateNewCallCounter(id Id, displayName string, doDisplay bool, attachTo Id
 // It also makes the attached-to parent display the difference between itself and its children.
 func CreateAttachedCallCounter(id Id, displayName string, attachTo Id) (cc *CallCounter) {
 	cc = CreateNewCallCounter(id, displayName, true, attachTo, false)
-	attachTo.SetDisplayRemaining(true)
+	if attachTo != "" {
+		attachTo.SetDisplayRemaining(true)
+	}
 	return
 }
 
-- 
2.43.0


From aef2aa9fc1002528722992cfda40d3adc2131572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 27/44] fix: structure report marks counters below hidden ones
 as recursively hidden

---
 internal/callcounters/callcounters.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/callcounters/callcounters.go b/internal/callcounters/callcounters.go
index fac9ede..a13bb9f 100644
--- a/internal/callcounters/callcounters.go
+++ b/internal/callcounters/callcounters.go
@@ -406,7 +406,7 @@ func GetCallCounterStructureReport(indent string) (ret string) {
 				ret += item.Tag
 				if !item.CC.display {
 					ret += " (hidden)"
-					if hidebelow > item.depth {
+					if hidebelow == -1 || hidebelow > item.depth {
 						hidebelow = item.depth
 					}
 				} else if hidebelow == -1 {
-- 
2.43.0


From 236db4b416e2fb6112343b827616c5875aeb7b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 28/44] fix: FaultyBuffer does not fail short reads that end
 before the threshold

---
 internal/testutils/failingIO.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/testutils/failingIO.go b/internal/testutils/failingIO.go
index 085d897..538600e 100644
--- a/internal/testutils/failingIO.go
+++ b/internal/testutils/failingIO.go
@@ -49,7 +49,7 @@ func (fb *FaultyBuffer) Read(p []byte) (n int, err error) {
 	if err != nil {
 		return
 	}
-	if fault {
+	if fault && n == L { // n < L means the content ended before the threshold; this is an ordinary short read.
 		err = fb.designatedErr
 		fb.alreadyRead += 1 // to differentiate repeated calls
 	}
-- 
2.43.0


From 03c8f442c7246a8f9d6905c1fbb003e1ae96c82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 29/44] fix: treat unsafe.Pointer as nilable in reflection
 helpers

---
 bandersnatch/common/call_fixNil.go | 3 ++-
 internal/testutils/checkpanic.go   | 2 +-
 internal/utils/reflect_type.go     | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/bandersnatch/common/call_fixNil.go b/bandersnatch/common/call_fixNil.go
index f213f74..80a7535 100644
--- a/bandersnatch/common/call_fixNil.go
+++ b/bandersnatch/common/call_fixNil.go
@@ -26,7 +26,8 @@ func CallFunction_FixNil(fun reflect.Value, in []reflect.Value) (out []reflect.V
 				reflect.Chan,
 				reflect.Func,
 				reflect.Slice,
-				reflect.Map:
+				reflect.Map,
+				reflect.UnsafePointer:
 				in[pos] = reflect.Zero(InType)
 			default:
 				panic(ErrorPrefix + "CallMethod_FixNil asked to call function, where argument list contains nil; however, nil is not valid for the function's expected argument type.")
diff --git a/internal/testutils/checkpanic.go b/internal/testutils/checkpanic.go
index 28aab02..041b42d 100644
--- a/internal/testutils/checkpanic.go
+++ b/internal/testutils/checkpanic.go
@@ -46,7 +46,7 @@ func CheckPanic2(fun interface{}, args ...interface{}) (didPanic bool, panicValu
 			}
 			nilArgType := fun_reflected.Type().In(i)
 			switch nilArgType.Kind() {
-			case reflect.Interface, reflect.Chan, reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func:
+			case reflect.Interface, reflect.Chan, reflect.Pointer, reflect.Map, reflect.Slice, reflect.Func, reflect.UnsafePointer:
 				function_arguments[i] = reflect.Zero(nilArgType)
 			default:
 				panic(fmt.Errorf("bandersnatch / testing framework: CheckPanic called with function and untyped nil as %v'th argument, but the function does not take an interface/channel/map/slice/func/pointer that could be nil for that argument", i))
diff --git a/internal/utils/reflect_type.go b/internal/utils/reflect_type.go
index 1f7c3f2..85fc67b 100644
--- a/internal/utils/reflect_type.go
+++ b/internal/utils/reflect_type.go
@@ -36,7 +36,8 @@ func IsNilable(t reflect.Type) bool {
 		reflect.Chan,
 		reflect.Func,
 		reflect.Slice,
-		reflect.Map:
+		reflect.Map,
+		reflect.UnsafePointer:
 		return true
 	case reflect.Invalid:
 		panic("IsNilable called on invalid type")
-- 
2.43.0


From 93fe6f1df1f3065e9ebae5bb2d222c3a81c31dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 30/44] fix: DoesMethodExist handles interface receiver types

---
 internal/utils/reflect_call.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/internal/utils/reflect_call.go b/internal/utils/reflect_call.go
index 91813ad..00aed18 100644
--- a/internal/utils/reflect_call.go
+++ b/internal/utils/reflect_call.go
@@ -39,17 +39,22 @@ func DoesMethodExist(receiverType reflect.Type, methodName string, inputs []refl
 		return false, fmt.Sprintf("type %v has no method named %v", typeName, methodName)
 	}
 	methodType := method.Type
-	// +1 comes from the receiver. Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input.
-	if methodType.NumIn() != len(inputs)+1 {
-		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-1)
+	// Since we called MethodByName on a reflect.Type (rather than a reflect.Value), the method is unbound and has the receiver as explicit first input,
+	// except if receiverType is an interface type.
+	receiverArgs := 1
+	if receiverType.Kind() == reflect.Interface {
+		receiverArgs = 0
+	}
+	if methodType.NumIn() != len(inputs)+receiverArgs {
+		return false, fmt.Sprintf("method %v.%v has an unexpected number of input arguments. We expected %v, got %v", typeName, methodName, len(inputs), methodType.NumIn()-receiverArgs)
 	}
 	if methodType.NumOut() != len(outputs) {
 		return false, fmt.Sprintf("method %v.%v has an unexpected number of output arguments. We expected %v, got %v", typeName, methodName, len(outputs), methodType.NumOut())
 	}
 
 	for i, t := range inputs {
-		if !t.AssignableTo(methodType.In(i + 1)) {
-			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+1)))
+		if !t.AssignableTo(methodType.In(i + receiverArgs)) {
+			return false, fmt.Sprintf("method %v.%v's %v'th parameter type %v is not assignable to the expected parameter %v", typeName, methodName, i+1, GetReflectName(t), GetReflectName(methodType.In(i+receiverArgs)))
 		}
 	}
 
-- 
2.43.0


From d7fce247ee0805ed8e2b3415c6f9cf51eb0ca6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:44 +0000
Subject: [PATCH 31/44] fix: PrecomputedCache does not stay locked if creating
 elements panics

---
 internal/testutils/precomputation_meta.go | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/internal/testutils/precomputation_meta.go b/internal/testutils/precomputation_meta.go
index b1e08e9..d4b1e40 100644
--- a/internal/testutils/precomputation_meta.go
+++ b/internal/testutils/precomputation_meta.go
@@ -181,12 +181,14 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 	pc.pageMutex.RUnlock()
 	// sync.RWMutex cannot atomically upgrade read-locks to rw-locks. So pc.elements may get extended in the meantime. This is fine.
 	creationFun := source.creationFun
-	pc.pageMutex.Lock()
-	// extend as appropriate
-	for len(pc.elements) < amount {
-		pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
-	}
-	pc.pageMutex.Unlock()
+	func() {
+		pc.pageMutex.Lock()
+		defer pc.pageMutex.Unlock() // deferred, because creationFun may panic (in particular, if it is nil)
+		// extend as appropriate
+		for len(pc.elements) < amount {
+			pc.elements = append(pc.elements, creationFun(pc.rng, pc.key))
+		}
+	}()
 
 	// We are now guaranteed to read the desired amount
 	pc.pageMutex.RLock()
-- 
2.43.0


From 0712a9fa66815900397272c0a70df8aa424777fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:55 +0000
Subject: [PATCH 32/44] fix: consumeExpectRead reports no partial read if
 nothing was read

---
 bandersnatch/pointserializer/utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index 3d167d3..ee887b1 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -100,7 +100,7 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 		if errors.Is(err, io.ErrUnexpectedEOF) {
 			// Note: Sprintf is only used for the length of the expected input. The other %%v{arg} are done via errorsWithData, hence escaping the %.
 			message := fmt.Sprintf(ErrorPrefix+"Unexpected EOF after reading %%v{BytesRead} out of %v bytes when reading header.\nReported error was %%w.\nBytes expected were 0x%%x{ExpectedToRead}, got 0x%%x{ActuallyRead}", len(expectToRead))
-			returnedErrorData.PartialRead = true
+			returnedErrorData.PartialRead = (bytes_read > 0) // NOTE: bytes_read == 0 is possible if input itself reports io.ErrUnexpectedEOF.
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
 		} else if errors.Is(err, io.EOF) {
-- 
2.43.0


From 19abb883294aaed684ea30ba33eee3d9a93cf178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 33/44] fix: slice deserialization reports EOF within a slice
 as io.ErrUnexpectedEOF

---
 bandersnatch/pointserializer/serialize_curve_points.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 8c7c054..4ff19b9 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -195,6 +195,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointHeader(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we have at least read the slice size before
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 				ErrorPrefix+"slice deserialization failed when reading per-point header after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 				"PointsDeserialized", i,
@@ -205,6 +206,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_point.DeserializeCurvePoint(inputStream, trustLevel, targetSlice.GetByIndex(i))
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch) // we have at least read the slice size before
 			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
@@ -221,6 +223,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesJustRead, errNonBatch = deserializer_header.deserializePerPointFooter(inputStream)
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
+			errorTransform.UnexpectEOF2(&errNonBatch)
 			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+"slice deserialization failed when reading per-point footer after reading %v{PointsDeserialized} points. Errors was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, "PointsDeserialized", i+1, FIELDNAME_PARTIAL_READ, true)
 			return
 		}
@@ -291,6 +294,7 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	bytesJustRead, errNonBatch = md.headerDeserializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch)
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
@@ -352,6 +356,7 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	bytesJustRead, errNonBatch = md.headerSerializer.deserializeGlobalSliceFooter(inputStream)
 	bytesRead += bytesJustRead
 	if errNonBatch != nil {
+		errorTransform.UnexpectEOF2(&errNonBatch)
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
 		return
 	}
-- 
2.43.0


From d425ba546c94e91ec5319ef385594cafdeab6747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 34/44] fix: slice deserialization reports a partial read if
 the stream fails right before the footer

---
 bandersnatch/pointserializer/serialize_curve_points.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index 4ff19b9..a5819a1 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -296,6 +296,9 @@ func (md *multiDeserializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader,
 	if errNonBatch != nil {
 		errorTransform.UnexpectEOF2(&errNonBatch)
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
+		if bytesJustRead == 0 { // nothing of the footer was read, but everything before was
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
+		}
 		return
 	}
 
@@ -358,6 +361,9 @@ func (md *multiSerializer[_, _, _, _]) DeserializeSlice(inputStream io.Reader, t
 	if errNonBatch != nil {
 		errorTransform.UnexpectEOF2(&errNonBatch)
 		err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch, ErrorPrefix+" slice deserialization could not read footer. Error was: %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_POINTSDESERIALIZED, int(size))
+		if bytesJustRead == 0 { // nothing of the footer was read, but everything before was
+			err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](err, "", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent, FIELDNAME_PARTIAL_READ, true)
+		}
 		return
 	}
 
-- 
2.43.0


From 8927d47d121ee5fed3ea065242a898eecccee31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 35/44] fix: slice deserialization does not report a partial
 read if the whole slice was read

---
 bandersnatch/pointserializer/serialize_curve_points.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_points.go b/bandersnatch/pointserializer/serialize_curve_points.go
index a5819a1..39a3f40 100644
--- a/bandersnatch/pointserializer/serialize_curve_points.go
+++ b/bandersnatch/pointserializer/serialize_curve_points.go
@@ -207,7 +207,7 @@ func deserializeSlice_mainloop(inputStream io.Reader, trustLevel common.IsInputT
 		bytesRead += bytesJustRead
 		if errNonBatch != nil {
 			errorTransform.UnexpectEOF2(&errNonBatch) // we have at least read the slice size before
-			if i != size || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialPerPointFooter() || bytesJustRead == 0 {
+			if i != size-1 || !deserializer_header.trivialPerPointFooter() || !deserializer_header.trivialGlobalSliceFooter() || bytesJustRead == 0 {
 				err = errorsWithData.NewErrorWithData_params[BatchDeserializationErrorData](errNonBatch,
 					ErrorPrefix+"slice deserialization failed after successfully reading %v{PointsDeserialized} points. The error was %w", errorsWithData.ReplacePreviousData, errorsWithData.EnsureDataIsPresent,
 					"PointsDeserialized", i,
-- 
2.43.0


From f61d2610c3d8bf013d59a9c36add4fe948634512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 36/44] fix: SliceOutputLength overflow message shows the
 overhead size

---
 bandersnatch/pointserializer/serialize_curve_point.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/serialize_curve_point.go b/bandersnatch/pointserializer/serialize_curve_point.go
index 047fd35..0d3c1d8 100644
--- a/bandersnatch/pointserializer/serialize_curve_point.go
+++ b/bandersnatch/pointserializer/serialize_curve_point.go
@@ -740,7 +740,7 @@ func (md *multiDeserializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
@@ -774,7 +774,7 @@ func (md *multiSerializer[_, _, _, _]) SliceOutputLength(numPoints int32) (int32
 
 		OverheadSizeExists := errorsWithData.HasParameter(errOverhead, "Size") // Check whether the error has an embedded "Size" datum (which is an int64 containing the true non-overflown value)
 		if OverheadSizeExists {
-			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Data}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
+			err = errorsWithData.NewErrorWithData_any_params(errOverhead, ErrorPrefix+"requested SliceOutputLength exceeds MaxInt32 by overhead alone. Overhead size is %v{Size}, actual points would use another %v{PointSize}", errorsWithData.ReplacePreviousData, "PointSize", pointCost64)
 			err = errorsWithData.DeleteParameterFromError_any(err, "Size") // Delete parameter, because it only relates to the header size.
 			// TODO: Update with "Size" + pointCost64?
 		} else {
-- 
2.43.0


From ee32cd275c3223e1613d28565c74684599117605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 37/44] fix: reciprocal of a modulus was one too large if the
 last estimate had to be decremented

---
 bandersnatch/fieldElements/modulus.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index 777efc1..a1ed30b 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -456,6 +456,17 @@ func (z *modulus) reciprocal() {
 	// commit the decrement if the subtraction underflowed (reciprocal was too large)
 	if b != 0 {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
+
+		// q must match the decremented result, otherwise it would be incremented again below
+		q0, c = bits.Add64(q0, y[0], 0)
+		q1, c = bits.Add64(q1, y[1], c)
+		q2, c = bits.Add64(q2, y[2], c)
+		q3, c = bits.Add64(q3, y[3], c)
+		q4, c = bits.Add64(q4, 0, c)
+		q5, c = bits.Add64(q5, 0, c)
+		q6, c = bits.Add64(q6, 0, c)
+		q7, c = bits.Add64(q7, 0, c)
+		q8, _ = bits.Add64(q8, 0, c)
 	}
 
 	// subtract y from q
-- 
2.43.0


From 6c8af8686cfb9fb1c9136229e5a6df16de9fe196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 38/44] fix: reciprocal of moduli below 2^193 lost its lowest
 bit

---
 bandersnatch/fieldElements/modulus.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/bandersnatch/fieldElements/modulus.go b/bandersnatch/fieldElements/modulus.go
index a1ed30b..d1dcaac 100644
--- a/bandersnatch/fieldElements/modulus.go
+++ b/bandersnatch/fieldElements/modulus.go
@@ -469,12 +469,12 @@ func (z *modulus) reciprocal() {
 		q8, _ = bits.Add64(q8, 0, c)
 	}
 
-	// subtract y from q
-	/*q0*/
-	_, b = bits.Sub64(q0, y[0], 0)
-	/*q1*/ _, b = bits.Sub64(q1, y[1], b)
-	/*q2*/ _, b = bits.Sub64(q2, y[2], b)
-	/*q3*/ _, b = bits.Sub64(q3, y[3], b)
+	// subtract y from q. We keep the low words, since they are the remainder if the increment below is committed.
+	var rem [4]uint64
+	rem[0], b = bits.Sub64(q0, y[0], 0)
+	rem[1], b = bits.Sub64(q1, y[1], b)
+	rem[2], b = bits.Sub64(q2, y[2], b)
+	rem[3], b = bits.Sub64(q3, y[3], b)
 	/*q4*/ _, b = bits.Sub64(q4, 0, b)
 	/*q5*/ _, b = bits.Sub64(q5, 0, b)
 	/*q6*/ _, b = bits.Sub64(q6, 0, b)
@@ -491,6 +491,8 @@ func (z *modulus) reciprocal() {
 	// commit the increment if the subtraction did not underflow (reciprocal was too small)
 	if b == 0 {
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
+	} else {
+		rem = [4]uint64{q0, q1, q2, q3}
 	}
 
 	// Shift to correct bit alignment, truncating excess bits
@@ -504,6 +506,17 @@ func (z *modulus) reciprocal() {
 	x4, _ = bits.Add64(r4h, r4h, c)
 
 	if p < 0 {
+		// Doubling gains a bit of precision, which is set iff 2*rem >= y.
+		rem[0], c = bits.Add64(rem[0], rem[0], 0)
+		rem[1], c = bits.Add64(rem[1], rem[1], c)
+		rem[2], c = bits.Add64(rem[2], rem[2], c)
+		rem[3], c = bits.Add64(rem[3], rem[3], c)
+		_, b = bits.Sub64(rem[0], y[0], 0)
+		_, b = bits.Sub64(rem[1], y[1], b)
+		_, b = bits.Sub64(rem[2], y[2], b)
+		_, b = bits.Sub64(rem[3], y[3], b)
+		x0 |= c | (1 - b)
+
 		r4h, r4i, r4j, r4k, r4l = x4, x3, x2, x1, x0
 		p = 0 // avoid negative shift below
 	}
-- 
2.43.0


From d95608423bdbe64468bdcf793ad1bde4f6bbfdbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:01 +0000
Subject: [PATCH 39/44] fix: batch normalization left points corrupted when the
 NaP handler panics or looks at the slice

---
 bandersnatch/curvePoints/batch_operations.go | 134 +++++++++++--------
 1 file changed, 77 insertions(+), 57 deletions(-)

diff --git a/bandersnatch/curvePoints/batch_operations.go b/bandersnatch/curvePoints/batch_operations.go
index 752c251..0bf8562 100644
--- a/bandersnatch/curvePoints/batch_operations.go
+++ b/bandersnatch/curvePoints/batch_operations.go
@@ -46,34 +46,39 @@ func (points CurvePointSlice_xtw_full) BatchNormalizeForZ() (failingIndices []in
 			point.t.MulEq(&point.z)
 			point.z.SetOne()
 		} else {
-			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so z was unchanged at 0. We treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Z==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForZ for a slice of Point_xtw_full points", false, point)
-				*point = Point_xtw_full{} // standard-NAP
-				continue
-			}
-			// Points at infinity get replaced by default representations of the appropriate point at infinity:
-			if point.IsE1() {
-				point.SetE1()
-				continue
-			}
-			if point.IsE2() {
-				point.SetE2()
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All other points are in a valid state again now, so reporting NaPs (which runs user-supplied code that may panic) is safe.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Z==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForZ for a slice of Point_xtw_full points", false, point)
+			*point = Point_xtw_full{} // standard-NAP
+			continue
+		}
+		// Points at infinity get replaced by default representations of the appropriate point at infinity:
+		if point.IsE1() {
+			point.SetE1()
+			continue
 		}
+		if point.IsE2() {
+			point.SetE2()
+			continue
+		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -118,25 +123,30 @@ func (points CurvePointSlice_xtw_subgroup) BatchNormalizeForZ() (failingIndices
 			point.t.MulEq(&point.z)
 			point.z.SetOne()
 		} else {
-			// i is in failingIndices, so z was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so z was unchanged at 0. We treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Z==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForZ for slice of Point_xtw_subgroup points", false, point)
-				*point = Point_xtw_subgroup{} // standard-NAP
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All other points are in a valid state again now, so reporting NaPs (which runs user-supplied code that may panic) is safe.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Z==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForZ for slice of Point_xtw_subgroup points", false, point)
+			*point = Point_xtw_subgroup{} // standard-NAP
+			continue
 		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Z==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -181,34 +191,39 @@ func (points CurvePointSlice_xtw_full) BatchNormalizeForY() (failingIndices []in
 			point.z.MulEq(&point.y)
 			point.y.SetOne()
 		} else {
-			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so y was unchanged at 0. We treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			// We normalize points with Y==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			if point.IsNaP() {
-				napEncountered("NaP encountered in BatchNormalizeForY for a slice of Point_xtw_full points", false, point)
-				*point = Point_xtw_full{} // standard-NAP
-				continue
-			}
-			// Points at infinity get replaced by default representations of the appropriate point at infinity:
-			if point.IsE1() {
-				point.SetE1()
-				continue
-			}
-			if point.IsE2() {
-				point.SetE2()
-				continue
-			}
-			panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
+	// All other points are in a valid state again now, so reporting NaPs (which runs user-supplied code that may panic) is safe.
+	for _, i := range failingIndices {
+		point := &points[i]
+
+		// We normalize points with Y==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		if point.IsNaP() {
+			napEncountered("NaP encountered in BatchNormalizeForY for a slice of Point_xtw_full points", false, point)
+			*point = Point_xtw_full{} // standard-NAP
+			continue
+		}
+		// Points at infinity get replaced by default representations of the appropriate point at infinity:
+		if point.IsE1() {
+			point.SetE1()
+			continue
 		}
+		if point.IsE2() {
+			point.SetE2()
+			continue
+		}
+		panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 	}
 	return
 }
@@ -254,25 +269,30 @@ func (points CurvePointSlice_xtw_subgroup) BatchNormalizeForY() (failingIndices
 
 			point.y.SetOne()
 		} else {
-			// i is in failingIndices, so y was unchanged at 0. We need to treat these cases specially:
+			// i is in failingIndices, so y was unchanged at 0. We treat these cases specially below.
 
-			// First ensure the next entry in failingIndices will we handled properly:
+			// Ensure the next entry in failingIndices will we handled properly:
 			failingIndicesProcessed++
 			if failingIndicesProcessed == len(failingIndices) {
 				nextFailingIndex = L
 			} else {
 				nextFailingIndex = failingIndices[failingIndicesProcessed]
 			}
+		}
+	}
 
-			if !point.IsNaP() {
-				panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
-			}
+	// All other points are in a valid state again now, so reporting NaPs (which runs user-supplied code that may panic) is safe.
+	for _, i := range failingIndices {
+		point := &points[i]
 
-			// We normalize points with Y==0:
-			// NaPs become standard (0:0:0:0)-NaPs
-			napEncountered("NaP encountered in BatchNormalizeForY for slice of Point_xtw_subgroup points", false, point)
-			*point = Point_xtw_subgroup{} // standard-NAP
+		if !point.IsNaP() {
+			panic(fmt.Errorf(ErrorPrefix+"Point with Y==0 encountered that was neither a NaP nor a point at inifity. This is not supposed to be possible. The Point in question was %v", *point))
 		}
+
+		// We normalize points with Y==0:
+		// NaPs become standard (0:0:0:0)-NaPs
+		napEncountered("NaP encountered in BatchNormalizeForY for slice of Point_xtw_subgroup points", false, point)
+		*point = Point_xtw_subgroup{} // standard-NAP
 	}
 	return
 }
-- 
2.43.0


From 25fcf6e4f3faee8d9faf0abf82a285c0295969bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:22 +0000
Subject: [PATCH 40/44] fix: SetBitHeader left an invalid BitHeader behind
 after panicking

---
 bandersnatch/common/embedded_params.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bandersnatch/common/embedded_params.go b/bandersnatch/common/embedded_params.go
index 024a8a5..66d9a58 100644
--- a/bandersnatch/common/embedded_params.go
+++ b/bandersnatch/common/embedded_params.go
@@ -51,9 +51,7 @@ func (bh *BitHeader) GetBitHeader() BitHeader {
 // You are supposed to write e.g. bh.SetBitHeader(PrefixBits(0b0101), 4)
 // with explicit type conversion to PrefixBits in order to not mess up the order of parameters.
 func (bh *BitHeader) SetBitHeader(prefixBits PrefixBits, prefixLen uint8) {
-	bh.prefixBits = prefixBits
-	bh.prefixLen = prefixLen
-	bh.validate()
+	*bh = MakeBitHeader(prefixBits, prefixLen) // validates first, so bh is unchanged if this panics
 }
 
 // MakeBitHeader creates a new BitHeader with the given prefixBits and prefixLen.
-- 
2.43.0


From f0e37b4c72e2f26472850ff7e2a84074670de963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:17 +0000
Subject: [PATCH 41/44] fix: CheckIsSubtype did not check its second type if
 the first has no fields

---
 bandersnatch/errorsWithData/validate.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bandersnatch/errorsWithData/validate.go b/bandersnatch/errorsWithData/validate.go
index 0e42394..ad4de62 100644
--- a/bandersnatch/errorsWithData/validate.go
+++ b/bandersnatch/errorsWithData/validate.go
@@ -87,6 +87,10 @@ func CheckIsSubtype[StructType1 any, StructType2 any]() {
 	if err != nil {
 		panic(err)
 	}
+	// StructType2 needs to be suitable even if StructType1 has no fields to look for.
+	if err := StructSuitableForErrorsWithData[StructType2](); err != nil {
+		panic(err)
+	}
 	for _, expectedField1 := range allExpectedFields1 {
 		CheckParameterForStruct[StructType2](expectedField1.Name)
 	}
-- 
2.43.0


From 7e1fafd8dc0cf93f32dba8b0f0d9ba9ff7825b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:53 +0000
Subject: [PATCH 42/44] fix: consumeExpectRead did not report a partial read if
 the stream's error wraps io.EOF

---
 bandersnatch/pointserializer/utils.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bandersnatch/pointserializer/utils.go b/bandersnatch/pointserializer/utils.go
index ee887b1..5f49f68 100644
--- a/bandersnatch/pointserializer/utils.go
+++ b/bandersnatch/pointserializer/utils.go
@@ -103,10 +103,10 @@ func consumeExpectRead(input io.Reader, expectToRead []byte) (bytes_read int, re
 			returnedErrorData.PartialRead = (bytes_read > 0) // NOTE: bytes_read == 0 is possible if input itself reports io.ErrUnexpectedEOF.
 			returnedError = errorsWithData.NewErrorWithData_struct(err, message, &returnedErrorData)
 			return
-		} else if errors.Is(err, io.EOF) {
+		} else if bytes_read == 0 && errors.Is(err, io.EOF) {
 			message := ErrorPrefix + "EOF when trying to read buffer.\nExpected to read 0x%x{ExpectedToRead}, got EOF instead"
 
-			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is io.EOF
+			// Note: bytes_read == 0 is guaranteed by io.ReadFull if the error is io.EOF itself; an error of the stream wrapping io.EOF may come after some bytes.
 
 			returnedErrorData.ActuallyRead = make([]byte, 0)
 			returnedErrorData.PartialRead = false
-- 
2.43.0


From 4470b9eb60c091bcf3c5d41576d70ada638f5057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:18 +0000
Subject: [PATCH 43/44] fix: Point_efgh_full.EndoEq must not turn a NaP into
 the order-two point

---
 bandersnatch/curvePoints/curve_point_doubleproj.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bandersnatch/curvePoints/curve_point_doubleproj.go b/bandersnatch/curvePoints/curve_point_doubleproj.go
index b12cc93..ff1f4c7 100644
--- a/bandersnatch/curvePoints/curve_point_doubleproj.go
+++ b/bandersnatch/curvePoints/curve_point_doubleproj.go
@@ -992,6 +992,11 @@ func (p *Point_efgh_subgroup) EndoEq() {
 //
 // p.EndoEq() is equivalent to p.Endo(&p).
 func (p *Point_efgh_full) EndoEq() {
+	if p.IsNaP() {
+		napEncountered("Computing endomorphism of NaP", false, p)
+		p.point_efgh_base = point_efgh_base{}
+		return
+	}
 	if p.IsAtInfinity() {
 		p.point_efgh_base = orderTwoPoint_efghbase
 	} else {
-- 
2.43.0


From 9949e9062bc05bec0c2c23bdb8fd19532a9b87e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:31 +0000
Subject: [PATCH 44/44] fix: PrecomputedCache must stay usable if a
 user-provided function panics or uses the cache

---
 internal/testutils/precomputation_meta.go | 48 +++++++++++------------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/internal/testutils/precomputation_meta.go b/internal/testutils/precomputation_meta.go
index d4b1e40..67ba88e 100644
--- a/internal/testutils/precomputation_meta.go
+++ b/internal/testutils/precomputation_meta.go
@@ -88,23 +88,19 @@ func MakePrecomputedCache[KeyType comparable, ElementType any](createRandFromSee
 //   - This method ONLY works if no entries have ever been retrieved under the given key and we did not prepopulate the key before. We panic otherwise.
 //   - the given entries are copied into the cache into a fresh backing array.
 func (pc *PrecomputedCache[KeyType, ElementType]) PrepopulateCache(key KeyType, cacheEntries []ElementType) {
+	// We prepare the new page before taking any lock. The user-provided functions called here may panic or make use of the cache.
 	copyFun := pc.copyFun
-	pc.tableMutex.Lock()
-	page, ok := pc.data[key]
-	if ok {
-		pc.tableMutex.Unlock()
-		panic(fmt.Errorf("trying to populate cache under key %v, which already exists", key))
-	}
-	Assert(page == nil)
-	page = pc.newCachePage(key)
-	pc.data[key] = page
-	page.pageMutex.Lock() // cannot block, because no other goroutine can see the newly created cache page until we unlock the table mutex.
-	pc.tableMutex.Unlock()
+	page := pc.newCachePage(key)
 	for _, entry := range cacheEntries {
 		page.elements = append(page.elements, copyFun(entry))
 	}
-	page.pageMutex.Unlock()
 
+	pc.tableMutex.Lock()
+	defer pc.tableMutex.Unlock()
+	if _, ok := pc.data[key]; ok {
+		panic(fmt.Errorf("trying to populate cache under key %v, which already exists", key))
+	}
+	pc.data[key] = page
 }
 
 // GetElements returns (a copy of) the first amount many precomputed elements that are stored under the given key.
@@ -164,21 +160,25 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 
 	copyFun := source.copyFun // avoid indirection through source at each access.
 
-	// Check if the cache contains enough elements:
-	pc.pageMutex.RLock()
-	currentLen := len(pc.elements)
-
-	// If the cache contains enough elements, just copy them and be done
-	if currentLen >= amount {
+	// copyElements tries to fill ret. It returns false (doing nothing) if the cache does not contain enough elements.
+	copyElements := func() bool {
+		pc.pageMutex.RLock()
+		defer pc.pageMutex.RUnlock() // deferred, because copyFun may panic
+		if len(pc.elements) < amount {
+			return false
+		}
 		for i := 0; i < amount; i++ {
 			ret[i] = copyFun(pc.elements[i])
 		}
-		pc.pageMutex.RUnlock()
+		return true
+	}
+
+	// If the cache contains enough elements, just copy them and be done
+	if copyElements() {
 		return
 	}
 
-	// Otherwise, we (may) need to create more entries
-	pc.pageMutex.RUnlock()
+	// Otherwise, we (may) need to create more entries.
 	// sync.RWMutex cannot atomically upgrade read-locks to rw-locks. So pc.elements may get extended in the meantime. This is fine.
 	creationFun := source.creationFun
 	func() {
@@ -191,11 +191,7 @@ func (pc *precomputedCachePage[KeyType, ElementType]) getElements(
 	}()
 
 	// We are now guaranteed to read the desired amount
-	pc.pageMutex.RLock()
-	for i := 0; i < amount; i++ {
-		ret[i] = copyFun(pc.elements[i])
-	}
-	pc.pageMutex.RUnlock()
+	Assert(copyElements())
 	return
 }
 
-- 
2.43.0

