// Package ristretto stands in for the cache: it keeps what is set unless the
// harness says that it is dropped.
package ristretto

import (
	"errors"
	"sync"
)

type Config struct {
	NumCounters int64
	MaxCost     int64
	BufferItems int64
	Metrics     bool
	OnEvict     func(key uint64, value interface{}, cost int64)
	KeyToHash   func(key interface{}) uint64
	Cost        func(value interface{}) int64
}

type Cache struct {
	mu    sync.Mutex
	items map[uint64]interface{}
	hash  func(key interface{}) uint64
}

// Dropped, when set, is asked before an entry is found.
var Dropped func() bool

func NewCache(c *Config) (*Cache, error) {
	if c.NumCounters == 0 || c.MaxCost == 0 || c.BufferItems == 0 || c.KeyToHash == nil {
		return nil, errors.New("bad configuration")
	}
	return &Cache{items: map[uint64]interface{}{}, hash: c.KeyToHash}, nil
}

func (c *Cache) Get(key interface{}) (interface{}, bool) {
	if c == nil || key == nil {
		return nil, false
	}
	k := c.hash(key)
	c.mu.Lock()
	v, ok := c.items[k]
	c.mu.Unlock()
	if ok && Dropped != nil && Dropped() {
		return nil, false
	}
	return v, ok
}

func (c *Cache) Set(key, value interface{}, cost int64) bool {
	if c == nil || key == nil {
		return false
	}
	k := c.hash(key)
	c.mu.Lock()
	c.items[k] = value
	c.mu.Unlock()
	return true
}

func (c *Cache) Del(key interface{}) {
	if c != nil && key != nil {
		k := c.hash(key)
		c.mu.Lock()
		delete(c.items, k)
		c.mu.Unlock()
	}
}

func (c *Cache) Close() {}

func (c *Cache) Clear() { c.items = map[uint64]interface{}{} }
