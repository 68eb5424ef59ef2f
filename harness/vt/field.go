package vt

import (
	"reflect"
	"unsafe"
)

// Field finds the one field of type T in the struct that p points at, whatever
// its name, exported or not. It is a harness error if there is none.
func Field[T any](p any) *T {
	v := reflect.ValueOf(p).Elem()
	want := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == want {
			return (*T)(unsafe.Pointer(v.Field(i).UnsafeAddr()))
		}
	}
	Harnessf("%v has no field of type %v", v.Type(), want)
	return nil
}
