package appdash

import (
	"crypto/aes"
	"encoding/binary"
	"fmt"
	"testing"
)

func TestReplay_C02(t *testing.T) {
	r := vrStart(t)
	starts := [][]byte{}
	for k := 0; k <= 16; k++ { // k trailing 0xff bytes: the carry crosses k bytes
		s := make([]byte, 16)
		r.rnd.Read(s)
		for i := 0; i < k; i++ {
			s[15-i] = 0xff
		}
		if k < 16 {
			s[15-k] = byte(r.rnd.Intn(255))
		}
		starts = append(starts, s)
	}
	for _, st := range starts {
		r.do(fmt.Sprintf("counter starting at %x", st), func() {
			key := make([]byte, 16)
			r.rnd.Read(key)
			blk, _ := aes.NewCipher(key)
			c = blk
			ctr = append([]byte(nil), st...)
			n = aes.BlockSize
			want := append([]byte(nil), st...)
			for i := 0; i < 40; i++ {
				out := make([]byte, 16)
				blk.Encrypt(out, want)
				for j := 15; j >= 0; j-- {
					want[j]++
					if want[j] != 0 {
						break
					}
				}
				for _, w := range []uint64{binary.LittleEndian.Uint64(out), binary.LittleEndian.Uint64(out[8:])} {
					if id := generateID(); uint64(id) != w {
						r.fail("block %d: ID %x, the keystream has %x", i, uint64(id), w)
					}
				}
			}
		})
	}
}
