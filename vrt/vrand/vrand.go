// Package vrand replaces crypto/rand.Read in instrumented code.
package vrand

import (
	"crypto/rand"
	"io"
	"math/big"

	"github.com/tg123/phabrik/zzverif/vrt"
)

// Feed, when set, decides the random bytes (also outside executions).
var Feed func(b []byte)

func Read(b []byte) (int, error) {
	if Feed != nil {
		Feed(b)
		return len(b), nil
	}
	if vrt.X == nil {
		return rand.Read(b)
	}
	vrt.Rand(b)
	return len(b), nil
}

type reader struct{}

func (reader) Read(b []byte) (int, error) { return Read(b) }

// Reader, Int and Text draw from the same source as Read.
var Reader io.Reader = reader{}

func Int(r io.Reader, max *big.Int) (*big.Int, error) { return rand.Int(r, max) }

func Text() string {
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	Read(b)
	for i := range b {
		b[i] = abc[b[i]%32]
	}
	return string(b)
}
