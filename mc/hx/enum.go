package hx

// WeakOrders calls f with every weak ordering of n elements, written as ranks
// 0..k-1 with every rank used. The slice is reused.
func WeakOrders(n int, f func(r []int)) {
	r := make([]int, n)
	// r is a weak ordering iff its set of values is {0..max}.
	var rec func(i, used, max int)
	rec = func(i, used, max int) {
		if i == n {
			if used == 1<<uint(max+1)-1 {
				f(r)
			}
			return
		}
		for v := 0; v < n; v++ {
			m := max
			if v > m {
				m = v
			}
			u := used | 1<<uint(v)
			// missing ranks below m must fit in what is left
			miss := 0
			for b := 0; b <= m; b++ {
				if u>>uint(b)&1 == 0 {
					miss++
				}
			}
			if miss > n-i-1 {
				continue
			}
			r[i] = v
			rec(i+1, u, m)
		}
	}
	if n == 0 {
		f(r)
		return
	}
	rec(0, 0, -1)
}

// Seqs calls f with every sequence over 0..k-1 of length exactly n.
func Seqs(k, n int, f func(s []int)) {
	s := make([]int, n)
	for {
		f(s)
		i := n - 1
		for ; i >= 0; i-- {
			s[i]++
			if s[i] < k {
				break
			}
			s[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Product calls f with every element of the product of ranges 0..dims[i]-1.
func Product(dims []int, f func(s []int)) {
	s := make([]int, len(dims))
	for _, d := range dims {
		if d == 0 {
			return
		}
	}
	for {
		f(s)
		i := len(dims) - 1
		for ; i >= 0; i-- {
			s[i]++
			if s[i] < dims[i] {
				break
			}
			s[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Perms calls f with every permutation of 0..n-1.
func Perms(n int, f func(p []int)) {
	p := make([]int, n)
	used := make([]bool, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			f(p)
			return
		}
		for v := 0; v < n; v++ {
			if !used[v] {
				used[v] = true
				p[i] = v
				rec(i + 1)
				used[v] = false
			}
		}
	}
	rec(0)
}

// Near says whether a and b agree to within tol relative to scale (at least 1).
func Near(a, b, scale, tol float64) bool {
	d := a - b
	if d < 0 {
		d = -d
	}
	if scale < 0 {
		scale = -scale
	}
	if scale < 1 {
		scale = 1
	}
	return d <= tol*scale
}

// Rel says whether a and b agree to within tol relative to the larger one.
func Rel(a, b, tol float64) bool {
	if a == b {
		return true
	}
	abs := func(x float64) float64 {
		if x < 0 {
			return -x
		}
		return x
	}
	return abs(a-b) <= tol*max(abs(a), abs(b))
}

// Off says whether got is further than tol from want, or is not a number.
func Off(got, want, tol float64) bool {
	d := got - want
	return !(d <= tol && -d <= tol)
}
