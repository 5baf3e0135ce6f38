// Package drive runs the library under test on model schemas and values.
package drive

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"

	orcio "github.com/patrickhuang888/goorc/orc/io"
)

// ErrInjected is what a failing operation returns
var ErrInjected = errors.New("injected fault")

// FS is a file in memory, with its handles monitored and its operations failing on order
type FS struct {
	mu   sync.Mutex
	Data []byte

	Ops     int // calls counted
	Reads   int64
	Log     []string
	KeepLog bool

	// FailAt is the call which fails, from 1. Sticky ones fail from then on.
	FailAt   int
	Sticky   bool
	Short    bool // a failing write or read handles a part
	Failed   int  // number of failures given
	FailedOp string
	Filter   func(op string) bool // operations counted and failing

	// Partial makes reads return less than asked for, with no error
	Partial     *rand.Rand
	PartialMost int
	Parts       int
	EOFWithData bool // with the last bytes

	// OnOp is called before each operation
	OnOp func(op string, n int)

	// OnRead is called with what was read
	OnRead func(off int64, n int)

	MaxReadBytes int64 // reading over it panics, as it never ends

	Open   int // handles open
	Opened int
	Misuse []string // closed twice, used after close
	next   int
}

// Budget is the panic of reading over MaxReadBytes
type Budget struct{ Bytes int64 }

func NewFS(data []byte) *FS { return &FS{Data: data} }

// Handle opens a handle at the start
func (fs *FS) Handle() *Handle {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	return fs.handle()
}

func (fs *FS) handle() *Handle {
	fs.Open++
	fs.Opened++
	fs.next++
	return &Handle{fs: fs, id: fs.next}
}

type Handle struct {
	fs     *FS
	id     int
	off    int64
	closed bool
}

var _ orcio.File = &Handle{}

func (fs *FS) op(h *Handle, op string) error {
	if fs.OnOp != nil {
		fs.OnOp(op, fs.Ops)
	}
	if h.closed {
		fs.Misuse = append(fs.Misuse, fmt.Sprintf("%s on closed handle %d", op, h.id))
		return errors.New("file already closed")
	}
	if fs.KeepLog {
		fs.Log = append(fs.Log, op)
	}
	if fs.Filter != nil && !fs.Filter(op) {
		return nil
	}
	fs.Ops++
	if fs.FailAt > 0 && (fs.Ops == fs.FailAt || fs.Sticky && fs.Ops > fs.FailAt) {
		fs.Failed++
		if fs.FailedOp == "" {
			fs.FailedOp = op
		}
		return ErrInjected
	}
	return nil
}

func (h *Handle) Read(p []byte) (int, error) {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	if err := h.fs.op(h, "read"); err != nil {
		if h.fs.Short && !h.closed && h.off < int64(len(h.fs.Data)) && len(p) > 1 {
			n := copy(p[:len(p)/2], h.fs.Data[h.off:])
			h.off += int64(n)
			return n, err
		}
		return 0, err
	}
	if len(p) == 0 {
		return 0, nil
	}
	if h.off >= int64(len(h.fs.Data)) {
		return 0, io.EOF
	}
	if fs := h.fs; fs.Partial != nil && len(p) > 1 {
		if k := 1 + fs.Partial.Intn(fs.PartialMost); k < len(p) {
			p = p[:k]
			fs.Parts++
		}
	}
	n := copy(p, h.fs.Data[h.off:])
	if h.fs.OnRead != nil {
		h.fs.OnRead(h.off, n)
	}
	h.off += int64(n)
	if h.fs.EOFWithData && h.off == int64(len(h.fs.Data)) {
		return n, io.EOF
	}
	h.fs.Reads += int64(n)
	if h.fs.MaxReadBytes > 0 && h.fs.Reads > h.fs.MaxReadBytes {
		panic(Budget{h.fs.Reads})
	}
	return n, nil
}

func (h *Handle) Seek(offset int64, whence int) (int64, error) {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	if err := h.fs.op(h, "seek"); err != nil {
		return 0, err
	}
	o := offset
	switch whence {
	case io.SeekCurrent:
		o += h.off
	case io.SeekEnd:
		o += int64(len(h.fs.Data))
	}
	if o < 0 {
		return 0, errors.New("negative offset")
	}
	h.off = o
	return o, nil
}

func (h *Handle) Close() error {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	err := h.fs.op(h, "close")
	if !h.closed {
		h.closed = true
		h.fs.Open--
	}
	return err
}

func (h *Handle) Write(p []byte) (int, error) {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	if err := h.fs.op(h, "write"); err != nil {
		if h.fs.Short && len(p) > 1 && !h.closed {
			h.fs.Data = append(h.fs.Data, p[:len(p)/2]...)
			return len(p) / 2, err
		}
		return 0, err
	}
	h.fs.Data = append(h.fs.Data, p...)
	return len(p), nil
}

func (h *Handle) Size() (int64, error) {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	if err := h.fs.op(h, "size"); err != nil {
		return 0, err
	}
	return int64(len(h.fs.Data)), nil
}

func (h *Handle) Clone() (orcio.File, error) {
	h.fs.mu.Lock()
	defer h.fs.mu.Unlock()
	if err := h.fs.op(h, "clone"); err != nil {
		return nil, err
	}
	return h.fs.handle(), nil
}
