package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/bits"
)

// RIPEMD160 is a direct transcription of the definition (Dobbertin, Bosselaers, Preneel): the whole padded
// message is built first, and each of the two lines is a loop over 80 steps.
func RIPEMD160(msg []byte) [20]byte {
	n := uint64(len(msg))
	p := append(append(make([]byte, 0, len(msg)+72), msg...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], n*8)
	p = append(p, l[:]...)
	h := rmdIV
	for ; len(p) > 0; p = p[64:] {
		rmdBlock(&h, p[:64])
	}
	return rmdOut(h)
}

// RIPEMD160Zeros is the digest of n zero bytes, without storing them.
func RIPEMD160Zeros(n uint64) [20]byte {
	h := rmdIV
	var z [64]byte
	k := n
	for ; k >= 64; k -= 64 {
		rmdBlock(&h, z[:])
	}
	p := append(make([]byte, k), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	var l [8]byte
	binary.LittleEndian.PutUint64(l[:], n*8)
	p = append(p, l[:]...)
	for ; len(p) > 0; p = p[64:] {
		rmdBlock(&h, p[:64])
	}
	return rmdOut(h)
}

var rmdIV = [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}

func rmdOut(h [5]uint32) (out [20]byte) {
	for i, v := range h {
		binary.LittleEndian.PutUint32(out[4*i:], v)
	}
	return
}

var (
	rmdRho = [16]int{7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8}
	rmdSh  = [5][16]int{
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5},
	}
	rmdK  = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	rmdKK = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
	rmdL  [5][16]int
	rmdR  [5][16]int
)

// the message word orders follow from the permutations rho and pi: rounds use id, rho, rho^2, ... on the
// left and pi, rho pi, rho^2 pi, ... on the right
func init() {
	for i := 0; i < 16; i++ {
		l, r := i, (9*i+5)%16
		for j := 0; j < 5; j++ {
			rmdL[j][i], rmdR[j][i] = l, r
			l, r = rmdRho[l], rmdRho[r]
		}
	}
}

func rmdF(j int, x, y, z uint32) uint32 {
	switch j {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

func rmdBlock(h *[5]uint32, p []byte) {
	var x [16]uint32
	for i := range x {
		x[i] = binary.LittleEndian.Uint32(p[4*i:])
	}
	line := func(right bool) [5]uint32 {
		a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
		for j := 0; j < 5; j++ {
			for i := 0; i < 16; i++ {
				f, w, k := j, rmdL[j][i], rmdK[j]
				if right {
					f, w, k = 4-j, rmdR[j][i], rmdKK[j]
				}
				// the shift belongs to the word and the round
				s := rmdSh[j][w]
				t := bits.RotateLeft32(a+rmdF(f, b, c, d)+x[w]+k, s) + e
				a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
			}
		}
		return [5]uint32{a, b, c, d, e}
	}
	l, r := line(false), line(true)
	h[0], h[1], h[2], h[3], h[4] = h[1]+l[2]+r[3], h[2]+l[3]+r[4], h[3]+l[4]+r[0], h[4]+l[0]+r[1], h[0]+l[1]+r[2]
}

const b58Alphabet = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58 is the schoolbook conversion, one digit at a time.
func Base58(b []byte) string {
	z := 0
	for z < len(b) && b[z] == 0 {
		z++
	}
	digits := []byte{} // little endian
	for _, c := range b[z:] {
		carry := int(c)
		for i := range digits {
			carry += int(digits[i]) << 8
			digits[i] = byte(carry % 58)
			carry /= 58
		}
		for carry > 0 {
			digits = append(digits, byte(carry%58))
			carry /= 58
		}
	}
	out := make([]byte, 0, z+len(digits))
	for i := 0; i < z; i++ {
		out = append(out, '1')
	}
	for i := len(digits) - 1; i >= 0; i-- {
		out = append(out, b58Alphabet[digits[i]])
	}
	return string(out)
}

var b58Index = func() (t [256]int) {
	for i := range t {
		t[i] = -1
	}
	for i := range b58Alphabet {
		t[b58Alphabet[i]] = i
	}
	return
}()

// Base58Decode returns ok = false for a byte outside the alphabet.
func Base58Decode(s string) (out []byte, ok bool) {
	z := 0
	for z < len(s) && s[z] == '1' {
		z++
	}
	n := new(big.Int)
	radix := big.NewInt(58)
	for i := 0; i < len(s); i++ {
		d := b58Index[s[i]]
		if d < 0 {
			return nil, false
		}
		n.Mul(n, radix).Add(n, big.NewInt(int64(d)))
	}
	return append(make([]byte, z), n.Bytes()...), true
}

func Sha256d4(b []byte) []byte {
	h := sha256.Sum256(b)
	h = sha256.Sum256(h[:])
	return append([]byte{}, h[:4]...)
}

func Rmd4(b []byte, suffix string) []byte {
	h := RIPEMD160(append(append([]byte{}, b...), suffix...))
	return append([]byte{}, h[:4]...)
}

// KeyText is the checksummed text of a key or signature.
func KeyText(prefix, suffix string, data []byte) string {
	return prefix + Base58(append(append([]byte{}, data...), Rmd4(data, suffix)...))
}
