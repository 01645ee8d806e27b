// Package rand is crypto/rand fed from the run's seed.
package rand

import (
	std "crypto/rand"
	"io"
	"math/big"

	"github.com/carlisia/bio-adapt/zzverif/rt"
)

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

// Reader is the simulated entropy source.
var Reader io.Reader = reader{}

// Read fills b; entropy-edge faults fill it with all zeros or all ones.
func Read(b []byte) (int, error) {
	if !rt.Active() {
		return std.Read(b)
	}
	rt.Point("rand")
	d := rt.Data()
	if p := rt.Cfg().RandEdge; p > 0 && d.Bool(p) {
		lead, rest := byte(0), byte(0)
		switch d.Intn(4) {
		case 0:
			rt.Fault("entropy_all_zeros")
		case 1:
			lead, rest = 0xff, 0xff
			rt.Fault("entropy_all_ones")
		case 2:
			lead, rest = 0x7f, 0xff
			rt.Fault("entropy_low_ones")
		default:
			lead = 0x80
			rt.Fault("entropy_top_bit")
		}
		for i := range b {
			b[i] = rest
			if i == 0 {
				b[i] = lead
			}
		}
		return len(b), nil
	}
	var x uint64
	for i := range b {
		if i%8 == 0 {
			x = d.U64()
		}
		b[i] = byte(x)
		x >>= 8
	}
	return len(b), nil
}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return std.Int(r, max) }
func Prime(r io.Reader, bits int) (*big.Int, error)   { return std.Prime(r, bits) }

const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"

func Text() string {
	b := make([]byte, 26)
	_, _ = Read(b)
	for i := range b {
		b[i] = alpha[b[i]%32]
	}
	return string(b)
}
