package kit

import (
	"errors"
	"fmt"
	"io"
	"os"
)

// ErrInjected is the error of an injected fault.
var ErrInjected = errors.New("injected I/O failure")

// Mutation is a modification of a file's contents.
type Mutation struct {
	Off   int64
	Data  []byte // written bytes
	Trunc bool
	Size  int64 // new size if Trunc
}

// Disk holds a file's contents, independently of the handles opened on it.
type Disk struct {
	Data []byte
	Log  []Mutation
	// Record tells whether to log the mutations.
	Record bool
	// OnMutate is called before every recorded mutation.
	OnMutate func()
	base     []byte
}

// NewDisk makes a disk file having the contents (copied).
func NewDisk(data []byte) *Disk {
	return &Disk{Data: append([]byte{}, data...), base: append([]byte{}, data...), Record: true}
}

// sane upper bound of what a case may legitimately make a file grow to
const maxFile = 64 << 20

func (d *Disk) apply(m Mutation) {
	if d.Record && d.OnMutate != nil {
		d.OnMutate()
	}
	if m.Trunc {
		if m.Size > maxFile {
			panic(failure{fmt.Sprintf("the file is extended to %d bytes", m.Size)})
		}
		for int64(len(d.Data)) < m.Size {
			d.Data = append(d.Data, 0)
		}
		d.Data = d.Data[:m.Size:m.Size]
	} else if len(m.Data) > 0 {
		end := m.Off + int64(len(m.Data))
		if end > maxFile {
			panic(failure{fmt.Sprintf("the file is written at offset %d", m.Off)})
		}
		if int64(len(d.Data)) < end {
			d.Data = append(d.Data, make([]byte, end-int64(len(d.Data)))...)
		}
		copy(d.Data[m.Off:], m.Data)
	}
	if d.Record {
		d.Log = append(d.Log, m)
	}
}

// Image returns the contents after the first n mutations, plus the first
// `extra` bytes of the next one.
func (d *Disk) Image(n, extra int) []byte {
	img := &Disk{Data: append([]byte{}, d.base...)}
	for i := 0; i < n; i++ {
		img.apply(d.Log[i])
	}
	if extra > 0 && n < len(d.Log) && !d.Log[n].Trunc {
		m := d.Log[n]
		img.apply(Mutation{Off: m.Off, Data: m.Data[:extra]})
	}
	return img.Data
}

// Fault tells which file operation fails, counting from 0 since it was armed.
type Fault struct {
	At    int // operation number
	Bytes int // bytes transferred before the failure (partial reads and writes)
	Kinds string
}

// MemFile is a handle of a Disk with fault injection. It behaves as an OS file.
type MemFile struct {
	D      *Disk
	Off    int64
	Closed bool
	Closes int
	fault  *Fault
	ops    int
	// Hits is the number of faults that have fired.
	Hits int
	// HitOp is the kind of the operation that failed last: r, w, s, t or c.
	HitOp byte
	// Ops counts operations since the fault was armed.
}

// Handle opens the disk.
func (d *Disk) Handle() *MemFile { return &MemFile{D: d} }

// Arm makes an operation to come fail once.
func (f *MemFile) Arm(fault *Fault) { f.fault, f.ops = fault, 0 }

// OpCount returns the number of operations since Arm.
func (f *MemFile) OpCount() int { return f.ops }

// Whether the current operation must fail, and how many bytes to transfer.
func (f *MemFile) hit(kind byte, size int) (int, bool) {
	if f.fault == nil {
		f.ops++
		return 0, false
	}
	if f.fault.Kinds != "" {
		found := false
		for i := range f.fault.Kinds {
			found = found || f.fault.Kinds[i] == kind
		}
		if !found {
			return 0, false
		}
	}
	n := f.ops
	f.ops++
	if n != f.fault.At {
		return 0, false
	}
	bytes := f.fault.Bytes
	if bytes >= size {
		bytes = size - 1
	}
	if bytes < 0 {
		bytes = 0
	}
	f.fault = nil
	f.Hits++
	f.HitOp = kind
	return bytes, true
}

func (f *MemFile) Read(b []byte) (int, error) {
	if f.Closed {
		return 0, os.ErrClosed
	}
	if n, fail := f.hit('r', len(b)); fail {
		n, _ = f.read(b[:n])
		return n, ErrInjected
	}
	return f.read(b)
}

func (f *MemFile) read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if f.Off >= int64(len(f.D.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.D.Data[f.Off:])
	f.Off += int64(n)
	return n, nil
}

func (f *MemFile) Write(b []byte) (int, error) {
	if f.Closed {
		return 0, os.ErrClosed
	}
	if n, fail := f.hit('w', len(b)); fail {
		f.write(b[:n])
		return n, ErrInjected
	}
	f.write(b)
	return len(b), nil
}

func (f *MemFile) write(b []byte) {
	if len(b) == 0 {
		return
	}
	f.D.apply(Mutation{Off: f.Off, Data: append([]byte{}, b...)})
	f.Off += int64(len(b))
}

func (f *MemFile) Seek(offset int64, whence int) (int64, error) {
	if f.Closed {
		return 0, os.ErrClosed
	}
	if _, fail := f.hit('s', 1); fail {
		return 0, ErrInjected
	}
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		offset += f.Off
	case io.SeekEnd:
		offset += int64(len(f.D.Data))
	default:
		return 0, os.ErrInvalid
	}
	if offset < 0 {
		return 0, os.ErrInvalid
	}
	f.Off = offset
	return offset, nil
}

func (f *MemFile) Truncate(size int64) error {
	if f.Closed {
		return os.ErrClosed
	}
	if _, fail := f.hit('t', 1); fail {
		return ErrInjected
	}
	if size < 0 {
		return os.ErrInvalid
	}
	f.D.apply(Mutation{Trunc: true, Size: size})
	return nil
}

func (f *MemFile) Close() error {
	f.Closes++
	if f.Closed {
		return os.ErrClosed
	}
	if _, fail := f.hit('c', 1); fail {
		f.Closed = true
		return ErrInjected
	}
	f.Closed = true
	return nil
}
