package main

// syncMapSource stands for the hash trie of sync.Map, which works on the memory
// of the runtime.
const syncMapSource = `package sync

type Map struct {
	_ noCopy
	m map[any]any
}

func (m *Map) Load(key any) (value any, ok bool) {
	value, ok = m.m[key]
	return value, ok
}

func (m *Map) Store(key, value any) { m.Swap(key, value) }

func (m *Map) Clear() { m.m = nil }

func (m *Map) LoadOrStore(key, value any) (actual any, loaded bool) {
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.Swap(key, value)
	return value, false
}

func (m *Map) LoadAndDelete(key any) (value any, loaded bool) {
	value, loaded = m.m[key]
	delete(m.m, key)
	return value, loaded
}

func (m *Map) Delete(key any) { delete(m.m, key) }

func (m *Map) Swap(key, value any) (previous any, loaded bool) {
	previous, loaded = m.m[key]
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[key] = value
	return previous, loaded
}

func (m *Map) CompareAndSwap(key, old, new any) (swapped bool) {
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.m[key] = new
	return true
}

func (m *Map) CompareAndDelete(key, old any) (deleted bool) {
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	delete(m.m, key)
	return true
}

func (m *Map) Range(f func(key, value any) bool) {
	for k, v := range m.m {
		if !f(k, v) {
			break
		}
	}
}
`

// md5Source gathers the data of a running digest, so that its sum is the modelled
// sum of the whole.
const md5Source = `package md5

import (
	"errors"
	"hash"
)

const Size = 16

const BlockSize = 64

const maxAsmIters = 1024
const maxAsmSize = BlockSize * maxAsmIters

type digest struct {
	s    [4]uint32
	data []byte
}

func (d *digest) Reset() { d.data = nil }

func (d *digest) Clone() (hash.Cloner, error) {
	return nil, errors.New("not modelled")
}

func New() hash.Hash { return new(digest) }

func (d *digest) Size() int { return Size }

func (d *digest) BlockSize() int { return BlockSize }

func (d *digest) Write(p []byte) (nn int, err error) {
	d.data = append(d.data, p...)
	return len(p), nil
}

func (d *digest) Sum(in []byte) []byte {
	h := Sum(d.data)
	return append(in, h[:]...)
}

func Sum(data []byte) [Size]byte { return [Size]byte{} }
`

// atomicValueSource keeps the value as it is instead of as two words of memory.
const atomicValueSource = `package atomic

type Value struct {
	v any
}

func (v *Value) Load() (val any) { return v.v }

func (v *Value) Store(val any) {
	if val == nil {
		panic("sync/atomic: store of nil value into Value")
	}
	v.v = val
}

func (v *Value) Swap(new any) (old any) {
	old = v.v
	v.Store(new)
	return old
}

func (v *Value) CompareAndSwap(old, new any) (swapped bool) {
	if v.v != old {
		return false
	}
	v.Store(new)
	return true
}
`

// sortSliceSource leaves the length and the swapping of a slice of unknown type
// to two modelled functions.
const sortSliceSource = `package sort

import "math/bits"

func lenOf(x any) int { return 0 }

func swapIn(x any, i, j int) {}

func Slice(x any, less func(i, j int) bool) {
	n := lenOf(x)
	pdqsort_func(lessSwap{less, func(i, j int) { swapIn(x, i, j) }}, 0, n, bits.Len(uint(n)))
}

func SliceStable(x any, less func(i, j int) bool) {
	stable_func(lessSwap{less, func(i, j int) { swapIn(x, i, j) }}, lenOf(x))
}

func SliceIsSorted(x any, less func(i, j int) bool) bool {
	for i := lenOf(x) - 1; i > 0; i-- {
		if less(i, i-1) {
			return false
		}
	}
	return true
}
`
