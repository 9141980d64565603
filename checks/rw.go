package checks

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"strings"
)

// Readers and writers differ in what they implement besides Read and Write. None of it may matter.

const rdKinds = 5

// readerOf gives a reader of b and a function that tells how many bytes are left in it.
func readerOf(kind int, b []byte) (io.Reader, func() int) {
	switch kind % rdKinds {
	case 0:
		r := bytes.NewReader(b)
		return r, r.Len
	case 1:
		r := bytes.NewReader(b)
		return struct{ io.Reader }{r}, r.Len
	case 2:
		r := bytes.NewBuffer(b[:len(b):len(b)])
		return r, r.Len
	case 3:
		r := bytes.NewReader(b)
		return struct{ *bytes.Reader }{r}, r.Len
	default:
		r := strings.NewReader(string(b))
		return r, r.Len
	}
}

// kindFor spreads the kinds of readers over inputs, the same for the same input.
func kindFor(b []byte) int {
	k := len(b)
	if k > 0 {
		k += int(b[k/2]) + int(b[0])
	}
	return k
}

// intoAll runs an encoding on writers of other kinds and compares with what a bytes.Buffer got
// (a panic is a violation).
func intoAll(good []byte, gerr error, encode func(io.Writer) error) {
	switch (len(good) + 1) % 4 {
	case 0:
		var b bytes.Buffer
		err := encode(struct{ io.Writer }{&b})
		if (err == nil) != (gerr == nil) || gerr == nil && !bytes.Equal(b.Bytes(), good) {
			panic(fmt.Sprintf("a writer with nothing but Write gets %s, %v, a bytes.Buffer gets %s, %v", hexs(b.Bytes()), err, hexs(good), gerr))
		}
	case 1:
		var b bytes.Buffer
		err := encode(struct{ *bytes.Buffer }{&b})
		if (err == nil) != (gerr == nil) || gerr == nil && !bytes.Equal(b.Bytes(), good) {
			panic(fmt.Sprintf("a writer with all optional methods gets %s, %v, a bytes.Buffer gets %s, %v", hexs(b.Bytes()), err, hexs(good), gerr))
		}
	case 2:
		var b strings.Builder
		err := encode(&b)
		if (err == nil) != (gerr == nil) || gerr == nil && b.String() != string(good) {
			panic(fmt.Sprintf("a strings.Builder gets %s, %v, a bytes.Buffer gets %s, %v", hexs([]byte(b.String())), err, hexs(good), gerr))
		}
	default:
		var b bytes.Buffer
		bw := bufio.NewWriterSize(&b, 16)
		err := encode(bw)
		bw.Flush()
		if (err == nil) != (gerr == nil) || gerr == nil && !bytes.Equal(b.Bytes(), good) {
			panic(fmt.Sprintf("a bufio.Writer gets %s, %v, a bytes.Buffer gets %s, %v", hexs(b.Bytes()), err, hexs(good), gerr))
		}
	}
}

// richW gives a failing writer the optional methods of writers.
type richW struct{ io.Writer }

func (w richW) WriteString(s string) (int, error) { return w.Write([]byte(s)) }
func (w richW) WriteByte(b byte) error            { _, err := w.Write([]byte{b}); return err }
func (w richW) WriteRune(r rune) (int, error)     { return w.Write([]byte(string(r))) }
func (w richW) ReadFrom(r io.Reader) (n int64, err error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return 0, err
	}
	k, err := w.Write(b)
	return int64(k), err
}
func (w richW) Flush() error { return nil }

// richR gives a reader the optional methods of readers.
type richR struct {
	r    io.Reader
	back []byte
	last int
}

func newRichR(r io.Reader) *richR { return &richR{r: r, last: -1} }

func (r *richR) Read(p []byte) (n int, err error) {
	if len(r.back) > 0 && len(p) > 0 {
		n = copy(p, r.back)
		r.back = r.back[n:]
	} else {
		n, err = r.r.Read(p)
	}
	if n > 0 {
		r.last = int(p[n-1])
	}
	return
}

func (r *richR) ReadByte() (byte, error) {
	var b [1]byte
	for i := 0; i < 100; i++ {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil // an error comes again with the next read
		}
		if err != nil {
			return 0, err
		}
	}
	return 0, io.ErrNoProgress
}

func (r *richR) UnreadByte() error {
	if r.last < 0 {
		return fmt.Errorf("nothing to unread")
	}
	r.back = append([]byte{byte(r.last)}, r.back...)
	r.last = -1
	return nil
}

func (r *richR) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{r})
}
