package federation

import (
	"errors"

	"github.com/mercari/grpc-federation/zzvrt"
)

// Contracts of the checked integer conversions (P01): the result is exact or
// the overflow error is returned, and a value that fits is always converted.

//verif:property P01
//verif:title Int64ToInt32 is exact or reports the overflow
func contract_cast_Int64ToInt32() {
	v := zzvrt.Int64("v")
	r, err := Int64ToInt32(v)
	fits := v >= -1<<31 && v <= 1<<31-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, int64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Int64ToUint32 is exact or reports the overflow
func contract_cast_Int64ToUint32() {
	v := zzvrt.Int64("v")
	r, err := Int64ToUint32(v)
	fits := v >= 0 && v <= 1<<32-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, int64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Int64ToUint64 is exact or reports the overflow
func contract_cast_Int64ToUint64() {
	v := zzvrt.Int64("v")
	r, err := Int64ToUint64(v)
	fits := v >= 0
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, int64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Int32ToUint32 is exact or reports the overflow
func contract_cast_Int32ToUint32() {
	v := zzvrt.Int32("v")
	r, err := Int32ToUint32(v)
	fits := v >= 0
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, int32(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Int32ToUint64 is exact or reports the overflow
func contract_cast_Int32ToUint64() {
	v := zzvrt.Int32("v")
	r, err := Int32ToUint64(v)
	fits := v >= 0
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, int32(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Uint64ToInt32 is exact or reports the overflow
func contract_cast_Uint64ToInt32() {
	v := zzvrt.Uint64("v")
	r, err := Uint64ToInt32(v)
	fits := v <= 1<<31-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, uint64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Uint64ToInt64 is exact or reports the overflow
func contract_cast_Uint64ToInt64() {
	v := zzvrt.Uint64("v")
	r, err := Uint64ToInt64(v)
	fits := v <= 1<<63-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, uint64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Uint64ToUint32 is exact or reports the overflow
func contract_cast_Uint64ToUint32() {
	v := zzvrt.Uint64("v")
	r, err := Uint64ToUint32(v)
	fits := v <= 1<<32-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, uint64(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}

//verif:property P01
//verif:title Uint32ToInt32 is exact or reports the overflow
func contract_cast_Uint32ToInt32() {
	v := zzvrt.Uint32("v")
	r, err := Uint32ToInt32(v)
	fits := v <= 1<<31-1
	zzvrt.Ensures("a value that fits is converted", zzvrt.Implies(fits, err == nil))
	zzvrt.Ensures("the converted value equals the original", zzvrt.Implies(fits, uint32(r) == v))
	zzvrt.Ensures("a value that does not fit is rejected", zzvrt.Implies(!fits, err != nil))
	zzvrt.Ensures("the error is the overflow error", zzvrt.Implies(!fits, errors.Is(err, ErrOverflowTypeConversion)))
}
