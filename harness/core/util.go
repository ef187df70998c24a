package core

import "sort"

func sortStrings(s []string) { sort.Strings(s) }

// Product calls f with every index tuple of the given sizes until f returns false.
func Product(sizes []int, f func(idx []int) bool) bool {
	idx := make([]int, len(sizes))
	for _, s := range sizes {
		if s == 0 {
			return true
		}
	}
	for {
		if !f(idx) {
			return false
		}
		i := len(sizes) - 1
		for ; i >= 0; i-- {
			idx[i]++
			if idx[i] < sizes[i] {
				break
			}
			idx[i] = 0
		}
		if i < 0 {
			return true
		}
	}
}

// Sequences calls f with every sequence over 0..n-1 of length lo..hi, shortest first.
func Sequences(n, lo, hi int, f func(seq []int) bool) bool {
	for l := lo; l <= hi; l++ {
		sz := make([]int, l)
		for i := range sz {
			sz[i] = n
		}
		if l == 0 {
			if !f(nil) {
				return false
			}
			continue
		}
		if !Product(sz, func(idx []int) bool { return f(append([]int{}, idx...)) }) {
			return false
		}
	}
	return true
}
