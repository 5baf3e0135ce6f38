package drive

import (
	"bytes"
	"errors"
	"io"
	"sync"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

const pageSize = 1 << 12

var zeroPage [pageSize]byte

// Sparse is a file of any size, of which only pages that are not all zero are kept
type Sparse struct {
	mu    sync.Mutex
	pages map[int64]*[pageSize]byte
	size  int64
	Open  int
	Read  int64 // bytes read
	High  int64 // reads over 4 GB
	gens  []gen
}

// gen makes bytes from at to end when they are read
type gen struct {
	at, end int64
	bytes   func(off int64, b []byte) // off from at
}

// Generate has bytes of the file made when they are read
func (s *Sparse) Generate(at, n int64, bytes func(off int64, b []byte)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.size = max(s.size, at+n)
	s.gens = append(s.gens, gen{at, at + n, bytes})
}

func NewSparse() *Sparse { return &Sparse{pages: map[int64]*[pageSize]byte{}} }

// Put writes at an offset
func (s *Sparse) Put(off int64, b []byte) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.put(off, b)
}

func (s *Sparse) put(off int64, b []byte) {
	s.size = max(s.size, off+int64(len(b)))
	for len(b) > 0 {
		at := int(off % pageSize)
		n := min(pageSize-at, len(b))
		p := s.pages[off/pageSize]
		if p == nil && !bytes.Equal(b[:n], zeroPage[:n]) {
			p = new([pageSize]byte)
			s.pages[off/pageSize] = p
		}
		if p != nil {
			copy(p[at:], b[:n])
		}
		off += int64(n)
		b = b[n:]
	}
}

func (s *Sparse) Size() int64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.size
}

// Get reads at an offset
func (s *Sparse) Get(off int64, b []byte) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.get(off, b)
}

func (s *Sparse) get(off int64, b []byte) int {
	if left := s.size - off; left < int64(len(b)) {
		b = b[:max(0, left)]
	}
	for _, g := range s.gens {
		if lo, hi := max(off, g.at), min(off+int64(len(b)), g.end); lo < hi {
			s.stored(off, b[:lo-off])
			g.bytes(lo-g.at, b[lo-off:hi-off])
			s.get(hi, b[hi-off:])
			return len(b)
		}
	}
	return s.stored(off, b)
}

func (s *Sparse) stored(off int64, b []byte) int {
	done := 0
	for done < len(b) {
		at := int(off % pageSize)
		n := min(pageSize-at, len(b)-done)
		if p := s.pages[off/pageSize]; p != nil {
			copy(b[done:], p[at:at+n])
		} else {
			copy(b[done:], zeroPage[:n])
		}
		done += n
		off += int64(n)
	}
	return done
}

// Handle opens a handle at the start
func (s *Sparse) Handle() orcio.File {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Open++
	return &sparseHandle{s: s}
}

type sparseHandle struct {
	s      *Sparse
	off    int64
	closed bool
}

func (h *sparseHandle) lock() error {
	h.s.mu.Lock()
	if h.closed {
		h.s.mu.Unlock()
		return errors.New("file already closed")
	}
	return nil
}

func (h *sparseHandle) Read(p []byte) (int, error) {
	if err := h.lock(); err != nil {
		return 0, err
	}
	defer h.s.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if h.off >= h.s.size {
		return 0, io.EOF
	}
	n := h.s.get(h.off, p)
	if h.off >= 1<<32 {
		h.s.High++
	}
	h.off += int64(n)
	h.s.Read += int64(n)
	return n, nil
}

func (h *sparseHandle) Write(p []byte) (int, error) {
	if err := h.lock(); err != nil {
		return 0, err
	}
	defer h.s.mu.Unlock()
	h.s.put(h.s.size, p)
	return len(p), nil
}

func (h *sparseHandle) Seek(offset int64, whence int) (int64, error) {
	if err := h.lock(); err != nil {
		return 0, err
	}
	defer h.s.mu.Unlock()
	switch whence {
	case io.SeekCurrent:
		offset += h.off
	case io.SeekEnd:
		offset += h.s.size
	}
	if offset < 0 {
		return 0, errors.New("negative offset")
	}
	h.off = offset
	return offset, nil
}

func (h *sparseHandle) Size() (int64, error) {
	if err := h.lock(); err != nil {
		return 0, err
	}
	defer h.s.mu.Unlock()
	return h.s.size, nil
}

func (h *sparseHandle) Clone() (orcio.File, error) {
	if err := h.lock(); err != nil {
		return nil, err
	}
	defer h.s.mu.Unlock()
	h.s.Open++
	return &sparseHandle{s: h.s}, nil
}

func (h *sparseHandle) Close() error {
	if err := h.lock(); err != nil {
		return err
	}
	defer h.s.mu.Unlock()
	h.closed = true
	h.s.Open--
	return nil
}
