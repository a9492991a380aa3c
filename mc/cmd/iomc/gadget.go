package main

import (
	"bytes"
	"encoding/binary"
)

// snapshot is one Gadget-2 file as the format has it.
type snapshot struct {
	order           binary.ByteOrder
	idBits          int
	x64, v64        bool
	box, time, mass float64
	z, om, ol, h    float64
	total           uint32
	hi              uint32 // high word of the total
	ids             []uint64
	xs, vs          [][3]float64
}

func (s *snapshot) put(w *bytes.Buffer, x interface{}) {
	if err := binary.Write(w, s.order, x); err != nil {
		panic(err)
	}
}

// bytes gives the file, and where the header, positions, velocities and IDs end.
func (s *snapshot) bytes() ([]byte, [4]int) {
	w := &bytes.Buffer{}
	ends := [4]int{}
	n := uint32(len(s.ids))
	s.put(w, int32(256))
	s.put(w, [6]uint32{0, n})
	s.put(w, [6]float64{0, s.mass})
	s.put(w, []float64{s.time, s.z})
	s.put(w, []int32{0, 0})
	s.put(w, [6]uint32{s.hi, s.total})
	s.put(w, []int32{0, 1})
	s.put(w, []float64{s.box, s.om, s.ol, s.h})
	s.put(w, []int32{0, 0})
	s.put(w, [88]byte{})
	s.put(w, int32(256))
	ends[0] = w.Len()
	vec := func(v [][3]float64, wide bool) {
		size := int32(12 * n)
		if wide {
			size *= 2
		}
		s.put(w, size)
		for _, p := range v {
			for _, c := range p {
				if wide {
					s.put(w, c)
				} else {
					s.put(w, float32(c))
				}
			}
		}
		s.put(w, size)
	}
	vec(s.xs, s.x64)
	ends[1] = w.Len()
	vec(s.vs, s.v64)
	ends[2] = w.Len()
	s.put(w, int32(int(n)*s.idBits/8))
	for _, id := range s.ids {
		if s.idBits == 64 {
			s.put(w, id)
		} else {
			s.put(w, uint32(id))
		}
	}
	ends[3] = w.Len()
	s.put(w, int32(int(n)*s.idBits/8))
	return w.Bytes(), ends
}
