//go:build verif

package main

import "github.com/alexZaicev/go-vtd-xml/vtdxml/parser"

const hooksAvailable = true

// locationCache exports the location cache buffers of levels 1 to 5
func locationCache(p *parser.VtdParser) ([][]int64, error) {
	var out [][]int64
	for i, b := range p.VerifBuffers() {
		if i == 0 {
			continue
		}
		var level []int64
		if !isNil(b) {
			n := b.GetSize()
			for k := 0; k < n; k++ {
				v, err := b.LongAt(k)
				if err != nil {
					return nil, err
				}
				level = append(level, v)
			}
		}
		out = append(out, level)
	}
	return out, nil
}
