// Package vtick counts the work of the code under test in replay builds.
package vtick

import (
	"reflect"
	"sync/atomic"
)

// N is the work so far.
var N int64

// Tick counts one call or iteration.
func Tick() { atomic.AddInt64(&N, 1) }

// Len counts the elements of a slice or string about to be copied.
func Len[T any](s T) T {
	switch v := reflect.ValueOf(s); v.Kind() {
	case reflect.Slice, reflect.String:
		atomic.AddInt64(&N, int64(v.Len()))
	}
	return s
}
