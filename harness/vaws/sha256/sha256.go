// Package sha256 stands in for the digest: the sum of data is the data itself.
package sha256

import "hash"

const Size = 32

const BlockSize = 64

type digest struct{ data []byte }

func New() hash.Hash { return &digest{} }

func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *digest) Sum(b []byte) []byte { return append(b, d.data...) }

func (d *digest) Reset() { d.data = nil }

func (d *digest) Size() int { return Size }

func (d *digest) BlockSize() int { return BlockSize }
