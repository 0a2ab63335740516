// Stub of golang.org/x/crypto/sha3 (declarations only).
package sha3

import "hash"

type ShakeHash interface {
	hash.Hash
	Read(p []byte) (int, error)
}

func NewLegacyKeccak256() hash.Hash { panic("stub") }
func NewLegacyKeccak512() hash.Hash { panic("stub") }
func New256() hash.Hash             { panic("stub") }
func Sum256(data []byte) [32]byte   { panic("stub") }
