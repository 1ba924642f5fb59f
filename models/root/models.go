package appdash

import "reflect"

// Stand-ins for functions the verifier cannot read (they work by reflection). They
// are only seen by the verifier, through a load overlay; "model" clauses of the
// contracts say where one is used.

func verifPairs(prefix string, v reflect.Value) int { return 0 }
func verifPairKey(prefix string, v reflect.Value, i int) string { return "" }
func verifPairVal(prefix string, v reflect.Value, i int) string { return "" }

// flattenValue: hands some finite sequence of pairs, a function of the value, to f.
func verifFlattenValue(prefix string, v reflect.Value, f func(k, v string)) {
	n := verifPairs(prefix, v)
	for i := 0; i < n; i++ {
		f(verifPairKey(prefix, v, i), verifPairVal(prefix, v, i))
	}
}
