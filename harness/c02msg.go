package main

import (
	"math/big"
	"math/rand"

	"github.com/btcsuite/btcd/btcec"
)

// randMessage makes a message to sign that does not reduce to zero; sometimes related to an earlier one.
func randMessage(r *rand.Rand, prev [][]byte) []byte {
	for {
		var m []byte
		switch r.Intn(9) {
		case 0:
			m = randBytes(r, 1+r.Intn(31))
		case 1:
			m = randBytes(r, 33+r.Intn(48))
		case 2: // leading zeros
			m = make([]byte, 32)
			copy(m[1+r.Intn(30):], randBytes(r, 32))
		case 3: // at or above the group order
			v := new(big.Int).Add(btcec.S256().N, big.NewInt(int64(1+r.Intn(5))))
			m = v.Bytes()
			if r.Intn(2) == 0 {
				for i := range m {
					m[i] = 0xff
				}
			}
		case 4:
			if len(prev) > 0 { // exact repeat
				m = append([]byte{}, prev[r.Intn(len(prev))]...)
			}
		case 5:
			if len(prev) > 0 { // same first 32 bytes, different tail
				m = append([]byte{}, prev[r.Intn(len(prev))]...)
				if len(m) >= 32 {
					m = append(m[:32], randBytes(r, 1+r.Intn(4))...)
				}
			}
		default:
			m = randBytes(r, 32)
		}
		if len(m) > 0 && new(big.Int).Mod(hashInt(m), btcec.S256().N).Sign() != 0 {
			return m
		}
	}
}
