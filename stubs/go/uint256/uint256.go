// Stub of github.com/holiman/uint256 v1.3 (declarations only; used for static analysis, never run).
package uint256

import ("fmt";"math/big")

type Int [4]uint64

func NewInt(val uint64) *Int { panic("stub") }
func FromBig(b *big.Int) (*Int, bool) { panic("stub") }
func MustFromBig(b *big.Int) *Int { panic("stub") }
func FromHex(hex string) (*Int, error) { panic("stub") }
func MustFromHex(hex string) *Int { panic("stub") }
func FromDecimal(d string) (*Int, error) { panic("stub") }
func MustFromDecimal(d string) *Int { panic("stub") }
func (z *Int) Add(x, y *Int) *Int { panic("stub") }
func (z *Int) Sub(x, y *Int) *Int { panic("stub") }
func (z *Int) Mul(x, y *Int) *Int { panic("stub") }
func (z *Int) Div(x, y *Int) *Int { panic("stub") }
func (z *Int) Mod(x, y *Int) *Int { panic("stub") }
func (z *Int) SDiv(x, y *Int) *Int { panic("stub") }
func (z *Int) SMod(x, y *Int) *Int { panic("stub") }
func (z *Int) And(x, y *Int) *Int { panic("stub") }
func (z *Int) Or(x, y *Int) *Int { panic("stub") }
func (z *Int) Xor(x, y *Int) *Int { panic("stub") }
func (z *Int) Exp(x, y *Int) *Int { panic("stub") }
func (z *Int) AddOverflow(x, y *Int) (*Int, bool) { panic("stub") }
func (z *Int) SubOverflow(x, y *Int) (*Int, bool) { panic("stub") }
func (z *Int) MulOverflow(x, y *Int) (*Int, bool) { panic("stub") }
func (z *Int) MulDivOverflow(x, y, d *Int) (*Int, bool) { panic("stub") }
func (z *Int) AddMod(x, y, mod *Int) *Int { panic("stub") }
func (z *Int) MulMod(x, y, mod *Int) *Int { panic("stub") }
func (z *Int) DivMod(x, y, mod *Int) (*Int, *Int) { panic("stub") }
func (z *Int) AddUint64(x *Int, y uint64) *Int { panic("stub") }
func (z *Int) SubUint64(x *Int, y uint64) *Int { panic("stub") }
func (z *Int) Not(x *Int) *Int { panic("stub") }
func (z *Int) Neg(x *Int) *Int { panic("stub") }
func (z *Int) Abs(x *Int) *Int { panic("stub") }
func (z *Int) Sqrt(x *Int) *Int { panic("stub") }
func (z *Int) Set(x *Int) *Int { panic("stub") }
func (z *Int) Lsh(x *Int, n uint) *Int { panic("stub") }
func (z *Int) Rsh(x *Int, n uint) *Int { panic("stub") }
func (z *Int) SRsh(x *Int, n uint) *Int { panic("stub") }
func (z *Int) ExtendSign(x, byteNum *Int) *Int { panic("stub") }
func (z *Int) Byte(n *Int) *Int { panic("stub") }
func (z *Int) Lt(x *Int) bool { panic("stub") }
func (z *Int) Gt(x *Int) bool { panic("stub") }
func (z *Int) Slt(x *Int) bool { panic("stub") }
func (z *Int) Sgt(x *Int) bool { panic("stub") }
func (z *Int) Eq(x *Int) bool { panic("stub") }
func (z *Int) LtUint64(n uint64) bool { panic("stub") }
func (z *Int) GtUint64(n uint64) bool { panic("stub") }
func (z *Int) Cmp(x *Int) int { panic("stub") }
func (z *Int) CmpUint64(x uint64) int { panic("stub") }
func (z *Int) CmpBig(x *big.Int) int { panic("stub") }
func (z *Int) Sign() int { panic("stub") }
func (z *Int) IsZero() bool { panic("stub") }
func (z *Int) IsUint64() bool { panic("stub") }
func (z *Int) Clear() *Int { panic("stub") }
func (z *Int) SetOne() *Int { panic("stub") }
func (z *Int) SetAllOne() *Int { panic("stub") }
func (z *Int) Clone() *Int { panic("stub") }
func (z *Int) SetUint64(x uint64) *Int { panic("stub") }
func (z *Int) SetBytes(buf []byte) *Int { panic("stub") }
func (z *Int) SetBytes1(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes2(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes3(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes4(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes5(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes6(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes7(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes8(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes9(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes10(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes11(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes12(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes13(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes14(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes15(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes16(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes17(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes18(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes19(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes20(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes21(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes22(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes23(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes24(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes25(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes26(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes27(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes28(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes29(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes30(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes31(in []byte) *Int { panic("stub") }
func (z *Int) SetBytes32(in []byte) *Int { panic("stub") }
func (z *Int) Bytes() []byte { panic("stub") }
func (z *Int) Bytes32() [32]byte { panic("stub") }
func (z *Int) Bytes20() [20]byte { panic("stub") }
func (z *Int) PaddedBytes(n int) []byte { panic("stub") }
func (z *Int) WriteToSlice(dest []byte)  { panic("stub") }
func (z *Int) WriteToArray20(dest *[20]byte)  { panic("stub") }
func (z *Int) WriteToArray32(dest *[32]byte)  { panic("stub") }
func (z *Int) PutUint256(dest []byte)  { panic("stub") }
func (z *Int) Uint64() uint64 { panic("stub") }
func (z *Int) Uint64WithOverflow() (uint64, bool) { panic("stub") }
func (z *Int) IntoBig(b **big.Int)  { panic("stub") }
func (z *Int) ToBig() *big.Int { panic("stub") }
func (z *Int) BitLen() int { panic("stub") }
func (z *Int) ByteLen() int { panic("stub") }
func (z *Int) Log10() uint { panic("stub") }
func (z *Int) Float64() float64 { panic("stub") }
func (z *Int) SetFromBig(b *big.Int) bool { panic("stub") }
func (z *Int) SetFromHex(h string) error { panic("stub") }
func (z *Int) SetFromDecimal(s string) error { panic("stub") }
func (z *Int) Hex() string { panic("stub") }
func (z *Int) Dec() string { panic("stub") }
func (z *Int) String() string { panic("stub") }
func (z *Int) PrettyDec(sep byte) string { panic("stub") }
func (z *Int) Format(s fmt.State, ch rune)  { panic("stub") }
func (z *Int) MarshalText() ([]byte, error) { panic("stub") }
func (z *Int) UnmarshalText(input []byte) error { panic("stub") }
func (z *Int) MarshalJSON() ([]byte, error) { panic("stub") }
func (z *Int) UnmarshalJSON(input []byte) error { panic("stub") }
func (z *Int) Scan(src interface{}) error { panic("stub") }
var _ = fmt.Sprint
