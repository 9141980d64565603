package ref

import (
	"encoding/hex"
	"strings"
	"testing"
)

func TestRmd(t *testing.T) {
	for in, want := range map[string]string{
		"":    "9c1185a5c5e9fc54612808977ee8f548b2258d31",
		"a":   "0bdc9d2d256b3ee9daae347be6f4dc835a467ffe",
		"abc": "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc",
		"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq": "12a053384a9c0c88e405a06c27dcf49ada62eb2b",
		strings.Repeat("1234567890", 8):                            "9b752e45573d4b39f4dbd3323cab82bf63326bfb",
		strings.Repeat("a", 1000000):                               "52783243c1697bdbe16d37f97f68f08325dc1528",
	} {
		h := RIPEMD160([]byte(in))
		if hex.EncodeToString(h[:]) != want {
			t.Errorf("%.20q: %x", in, h)
		}
	}
	if RIPEMD160Zeros(1000) != RIPEMD160(make([]byte, 1000)) {
		t.Error("zeros")
	}
}
