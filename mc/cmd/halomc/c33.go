package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/phil-mansfield/gotetra/render/halo"
	"github.com/phil-mansfield/gotetra/render/io"
	"verif/mc/hx"
)

const ruleC33 = "every definition with every combination of a lattice of cosmologies, redshifts and masses, separately and in one slice, in place and not; every name of up to five symbols of the alphabet; non-trivial when the redshift is not zero"

type def struct {
	r     halo.Radius
	name  string
	mult  float64
	mean  bool // a multiple of the mean density
	col   int  // column in a Rockstar catalogue
	mass  bool // the column holds a mass
	names []string
}

var defs = []def{
	{halo.RVirial, "RVir", 177.653, false, 11, false, []string{"vir", "rvir"}},
	{halo.R200c, "R200c", 200, false, 37, true, []string{"200c", "r200c"}},
	{halo.R200m, "R200m", 200, true, 36, true, []string{"200m", "r200m"}},
	{halo.R500c, "R500c", 500, false, 38, true, []string{"500c", "r500c"}},
	{halo.R2500c, "R2500c", 2500, false, 39, true, []string{"2500c", "r2500c"}},
}

// factor is the mass of one physical cubic megaparsec's sphere of unit radius.
func (d def) factor(c *io.CosmologyHeader) float64 {
	const G, mpc, msun = 6.67259e-11, 3.08560e22, 1.98900e30
	h := 100 * 1000 / mpc
	crit0 := 3 * h * h / (8 * math.Pi * G) * mpc * mpc * mpc / msun
	z := 1 + c.Z
	rho := crit0 * (c.OmegaM*z*z*z + c.OmegaL)
	if d.mean {
		// Curvature is left out, so the critical density today is that of the
		// densities given.
		rho = crit0 * (c.OmegaM + c.OmegaL) * c.OmegaM * z * z * z
	}
	return 4 * math.Pi / 3 * d.mult * rho
}

func (d def) mass_(c *io.CosmologyHeader, r float64) float64 {
	p := r / (1 + c.Z)
	return d.factor(c) * p * p * p
}

func (d def) radius(c *io.CosmologyHeader, m float64) float64 {
	return math.Cbrt(m/d.factor(c)) * (1 + c.Z)
}

func cosmologies(thorough bool) []io.CosmologyHeader {
	h100s, oms, ols, zs := []float64{0.5, 0.7, 1}, []float64{0.2, 0.27, 1}, []float64{0, 0.73, 0.8}, []float64{0, 0.5, 1, 9}
	if thorough {
		h100s = append(h100s, 0.6774, 2)
		oms = append(oms, 0.3089, 0.01)
		ols = append(ols, 0.7, 1)
		zs = append(zs, 0.01, 3, 49, 1000)
	}
	cs := []io.CosmologyHeader{}
	hx.Product([]int{len(h100s), len(oms), len(ols), len(zs)}, func(s []int) {
		cs = append(cs, io.CosmologyHeader{H100: h100s[s[0]], OmegaM: oms[s[1]], OmegaL: ols[s[2]], Z: zs[s[3]]})
	})
	return cs
}

func runC33(c *hx.C) {
	masses := []float64{0, 1e-3, 1, 1e8, 3.3e12, 7.77e14, 1e16, 1e20}
	radii := []float64{0, 1e-6, 1e-3, 0.25, 1, 1.7, 20, 1e3}
	if c.Thorough() {
		for k := -6; k < 24; k++ {
			masses = append(masses, 1.234*math.Pow(10, float64(k)))
			radii = append(radii, 4.567*math.Pow(10, float64(k)/3-4))
		}
	}
	for _, d := range defs {
		d := d
		c.Case("definition/"+d.name, func(t *hx.T) {
			for _, cs := range cosmologies(c.Thorough()) {
				defCheck(t, d, cs, masses, radii)
			}
		})
	}
	c.Case("names", func(t *hx.T) { nameCheck(t, c.Pick(5, 6)) })
}

func defCheck(t *hx.T, d def, cs io.CosmologyHeader, masses, radii []float64) {
	keep := cs
	try := func(what string, f func(c *io.CosmologyHeader, in, out []float64), in []float64, want, back func(*io.CosmologyHeader, float64) float64, inv func(c *io.CosmologyHeader, in, out []float64)) {
		judge := func(form string, in, got []float64) {
			for i := range in {
				t.Eval(cs.Z != 0)
				if w := want(&cs, in[i]); hx.Off(got[i], w, 1e-11*w) {
					t.Fail("%s of %v at %+v%s: %s %v, want %v", d.name, in[i], cs, form, what, got[i], w)
				}
			}
		}
		orig := append([]float64{}, in...)
		out := make([]float64, len(in))
		f(&cs, in, out)
		judge("", in, out)
		for i := range in {
			if in[i] != orig[i] {
				t.Fail("%s: %s changes its argument %v to %v", d.name, what, orig[i], in[i])
			}
			one := []float64{math.NaN()}
			f(&cs, in[i:i+1], one)
			if math.Float64bits(one[0]) != math.Float64bits(out[i]) {
				t.Fail("%s at %+v: %s of %v is %v alone and %v among others", d.name, cs, what, in[i], one[0], out[i])
			}
		}
		place := append([]float64{}, in...)
		f(&cs, place, place)
		judge(" in place", in, place)
		inv(&cs, out, out)
		for i := range in {
			if hx.Off(out[i], in[i], 1e-11*in[i]) {
				t.Fail("%s at %+v: %s of %v and back gives %v", d.name, cs, what, in[i], out[i])
			}
		}
	}
	try("radius", d.r.Radius, masses, d.radius, d.mass_, d.r.Mass)
	try("mass", d.r.Mass, radii, d.mass_, d.radius, d.r.Radius)
	d.r.Radius(&cs, nil, nil)
	d.r.Mass(&cs, nil, nil)
	if cs != keep {
		t.Fail("%s changes the header from %+v to %+v", d.name, keep, cs)
	}
}

func nameCheck(t *hx.T, top int) {
	known := map[string]halo.Radius{}
	for _, d := range defs {
		t.Eval(true)
		if s := d.r.String(); s != d.name {
			t.Fail("definition %d prints as %q, want %q", int(d.r), s, d.name)
		}
		if d.r.RockstarColumn() != d.col || d.r.RockstarMass() != d.mass {
			t.Fail("%s is column %d (mass: %v), want %d (%v)", d.name, d.r.RockstarColumn(), d.r.RockstarMass(), d.col, d.mass)
		}
		for _, n := range append(d.names, d.name) {
			known[n] = d.r
			if r, ok := halo.RadiusFromString(n); !ok || r != d.r {
				t.Fail("the name %q gives %v, %v, want %s", n, r, ok, d.name)
			}
		}
	}
	// Everything else is refused. Case variants of known names are not judged.
	judge := func(s string) {
		if _, ok := known[strings.ToLower(s)]; ok || known[s] != 0 {
			return
		}
		for _, d := range defs {
			if strings.EqualFold(s, d.name) {
				return
			}
		}
		t.Eval(false)
		if r, ok := halo.RadiusFromString(s); ok {
			t.Fail("the name %q is taken for %v", s, r)
		}
	}
	syms := []string{"r", "2", "5", "0", "00", "c", "m", "v", "vir", "b", " "}
	for l := 0; l <= top; l++ {
		hx.Seqs(len(syms), l, func(s []int) {
			x := ""
			for _, i := range s {
				x += syms[i]
			}
			judge(x)
		})
	}
	for n := range known {
		for i := 0; i <= len(n); i++ {
			for b := 0; b < 128; b++ {
				judge(n[:i] + string(rune(b)) + n[i:])
				if i < len(n) {
					judge(n[:i] + string(rune(b)) + n[i+1:])
				}
			}
			if i < len(n) {
				judge(n[:i] + n[i+1:])
			}
		}
	}
	for _, r := range []halo.Radius{-1, 5, 6, 100} {
		if hx.Try(func() { _ = r.RockstarColumn() }) == nil {
			t.Fail("definition %d, which does not exist, has a column", int(r))
		}
	}
	t.Extra("names", int64(len(known)))
	t.Outcome(fmt.Sprint(len(known)))
}
