// Stub of github.com/hashicorp/golang-lru/v2 (declarations only). The real type is safe for concurrent use.
package lru

type Cache[K comparable, V any] struct{ x int }

func New[K comparable, V any](size int) (*Cache[K, V], error) { panic("stub") }
func NewWithEvict[K comparable, V any](size int, onEvicted func(key K, value V)) (*Cache[K, V], error) {
	panic("stub")
}
func (c *Cache[K, V]) Purge()                                          { panic("stub") }
func (c *Cache[K, V]) Add(key K, value V) (evicted bool)               { panic("stub") }
func (c *Cache[K, V]) Get(key K) (value V, ok bool)                    { panic("stub") }
func (c *Cache[K, V]) Contains(key K) bool                             { panic("stub") }
func (c *Cache[K, V]) Peek(key K) (value V, ok bool)                   { panic("stub") }
func (c *Cache[K, V]) ContainsOrAdd(key K, value V) (ok, evicted bool) { panic("stub") }
func (c *Cache[K, V]) PeekOrAdd(key K, value V) (previous V, ok, evicted bool) {
	panic("stub")
}
func (c *Cache[K, V]) Remove(key K) (present bool)                { panic("stub") }
func (c *Cache[K, V]) Resize(size int) (evicted int)              { panic("stub") }
func (c *Cache[K, V]) RemoveOldest() (key K, value V, ok bool)    { panic("stub") }
func (c *Cache[K, V]) GetOldest() (key K, value V, ok bool)       { panic("stub") }
func (c *Cache[K, V]) Keys() []K                                  { panic("stub") }
func (c *Cache[K, V]) Values() []V                                { panic("stub") }
func (c *Cache[K, V]) Len() int                                   { panic("stub") }
