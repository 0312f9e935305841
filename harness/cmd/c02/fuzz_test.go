package main

import (
	"encoding/binary"
	"math/rand/v2"
	"os"
	"testing"
)

// pack and unpack store an input in a single byte slice.
func packInput(in input) []byte {
	b := binary.BigEndian.AppendUint16(nil, uint16(in.n))
	b = binary.BigEndian.AppendUint16(b, uint16(min(len(in.b), 65535)))
	b = append(b, in.b[:min(len(in.b), 65535)]...)
	return append(b, in.a...)
}

// FuzzDecoder is used by tools/fuzz.sh to make the corpus.
func FuzzDecoder(f *testing.F) {
	name := os.Getenv("DECODER")
	var d *decoder
	for _, x := range decoders {
		if x.name == name {
			d = x
		}
	}
	if d == nil {
		f.Skip("no decoder")
	}
	rng := rand.New(rand.NewPCG(1, 2))
	for i := 0; i < 40; i++ {
		if in := small(rng, d, 2000); in.size() < 8000 {
			f.Add(packInput(in))
		}
	}
	f.Fuzz(func(t *testing.T, data []byte) {
		in, ok := unpackInput(data)
		if !ok || len(data) > 20000 {
			return
		}
		use, err := d.decode(in)
		if err != nil {
			return
		}
		use(func(name string, fn func()) { fn() })
	})
}
