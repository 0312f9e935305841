package main

import "encoding/binary"

func unpackInput(data []byte) (in input, ok bool) {
	if len(data) < 4 {
		return in, false
	}
	in.n = int(binary.BigEndian.Uint16(data))
	k := int(binary.BigEndian.Uint16(data[2:]))
	data = data[4:]
	if k > len(data) {
		return in, false
	}
	in.b = data[:k:k]
	in.a = data[k:]
	return in, true
}
