// Stub of pgregory.net/rand (declarations only).
package rand

type Rand struct{ x uint64 }

func New(seed ...uint64) *Rand                        { panic("stub") }
func (r *Rand) Seed(seed uint64)                      { panic("stub") }
func (r *Rand) Int() int                              { panic("stub") }
func (r *Rand) Int31() int32                          { panic("stub") }
func (r *Rand) Int31n(n int32) int32                  { panic("stub") }
func (r *Rand) Int63() int64                          { panic("stub") }
func (r *Rand) Int63n(n int64) int64                  { panic("stub") }
func (r *Rand) Intn(n int) int                        { panic("stub") }
func (r *Rand) Uint32() uint32                        { panic("stub") }
func (r *Rand) Uint32n(n uint32) uint32               { panic("stub") }
func (r *Rand) Uint64() uint64                        { panic("stub") }
func (r *Rand) Uint64n(n uint64) uint64               { panic("stub") }
func (r *Rand) Float64() float64                      { panic("stub") }
func (r *Rand) Float32() float32                      { panic("stub") }
func (r *Rand) ExpFloat64() float64                   { panic("stub") }
func (r *Rand) NormFloat64() float64                  { panic("stub") }
func (r *Rand) Perm(n int) []int                      { panic("stub") }
func (r *Rand) Shuffle(n int, swap func(i, j int))    { panic("stub") }
func (r *Rand) Read(p []byte) (n int, err error)      { panic("stub") }
func Int() int                                        { panic("stub") }
func Int31n(n int32) int32                            { panic("stub") }
func Intn(n int) int                                  { panic("stub") }
func Uint64() uint64                                  { panic("stub") }
func Uint64n(n uint64) uint64                         { panic("stub") }
func Uint32() uint32                                  { panic("stub") }
func Float64() float64                                { panic("stub") }
func Perm(n int) []int                                { panic("stub") }
func Shuffle(n int, swap func(i, j int))              { panic("stub") }
func Read(p []byte) (n int, err error)                { panic("stub") }
