// Stub of go-ethereum/common (declarations only).
package common

import ("math/big";"fmt")

const (
	HashLength    = 32
	AddressLength = 20
)

type Hash [HashLength]byte
type Address [AddressLength]byte

var (
	Big0   = big.NewInt(0)
	Big1   = big.NewInt(1)
	Big2   = big.NewInt(2)
	Big32  = big.NewInt(32)
	Big256 = big.NewInt(256)
	Big257 = big.NewInt(257)
)

func BytesToHash(b []byte) Hash            { panic("stub") }
func BigToHash(b *big.Int) Hash            { panic("stub") }
func HexToHash(s string) Hash              { panic("stub") }
func (h Hash) Cmp(other Hash) int          { panic("stub") }
func (h Hash) Bytes() []byte               { panic("stub") }
func (h Hash) Big() *big.Int               { panic("stub") }
func (h Hash) Hex() string                 { panic("stub") }
func (h Hash) String() string              { panic("stub") }
func (h *Hash) SetBytes(b []byte)          { panic("stub") }
func BytesToAddress(b []byte) Address      { panic("stub") }
func BigToAddress(b *big.Int) Address      { panic("stub") }
func HexToAddress(s string) Address        { panic("stub") }
func IsHexAddress(s string) bool           { panic("stub") }
func (a Address) Cmp(other Address) int    { panic("stub") }
func (a Address) Bytes() []byte            { panic("stub") }
func (a Address) Big() *big.Int            { panic("stub") }
func (a Address) Hash() Hash               { panic("stub") }
func (a Address) Hex() string              { panic("stub") }
func (a Address) String() string           { panic("stub") }
func (a *Address) SetBytes(b []byte)       { panic("stub") }
func FromHex(s string) []byte              { panic("stub") }
func Hex2Bytes(str string) []byte          { panic("stub") }
func Bytes2Hex(d []byte) string            { panic("stub") }
func CopyBytes(b []byte) (copiedBytes []byte) { panic("stub") }
func RightPadBytes(slice []byte, l int) []byte { panic("stub") }
func LeftPadBytes(slice []byte, l int) []byte  { panic("stub") }

var _ = fmt.Sprint
