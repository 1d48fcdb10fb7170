// Package verifshim is compiled into the library through a build overlay. It puts the
// library's nondeterminism (map iteration order, thread schedule) behind seams that the
// model checker decides. It exists only in verification builds.
package verifshim

import (
	"fmt"
	"reflect"
	"sort"
)

// Orders of map iteration.
const (
	Ascending  = 0
	Descending = 1
	Chosen     = 2 // Choose is asked
)

var (
	// Order is the order in which instrumented loops visit map entries.
	Order = Ascending
	// Choose returns the permutation of n sorted keys to use (Order Chosen).
	Choose func(n int) []int
	// Instrumented is set by the generated file of an instrumented build.
	Instrumented = false
	// Scheduled is set by the generated file if the library's locks are controlled.
	Scheduled = false
)

// Keys returns the keys of a map in the order the explorer decides.
func Keys(m interface{}) []interface{} {
	v := reflect.ValueOf(m)
	if !v.IsValid() || v.Len() == 0 {
		return nil
	}
	ks := v.MapKeys()
	if len(ks) > 1 {
		if v.Type().Key().Kind() == reflect.String {
			sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		} else {
			names := make(map[int]string, len(ks))
			idx := make([]int, len(ks))
			for i, k := range ks {
				names[i] = fmt.Sprintf("%T %v", k.Interface(), k.Interface())
				idx[i] = i
			}
			sort.SliceStable(idx, func(a, b int) bool { return names[idx[a]] < names[idx[b]] })
			sorted := make([]reflect.Value, len(ks))
			for i, j := range idx {
				sorted[i] = ks[j]
			}
			ks = sorted
		}
	}
	r := make([]interface{}, len(ks))
	switch {
	case Order == Chosen && Choose != nil && len(ks) > 1:
		for i, j := range Choose(len(ks)) {
			r[i] = ks[j].Interface()
		}
	case Order == Descending:
		for i := range ks {
			r[len(ks)-1-i] = ks[i].Interface()
		}
	default:
		for i := range ks {
			r[i] = ks[i].Interface()
		}
	}
	return r
}
