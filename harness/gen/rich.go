package gen

import (
	"errors"
	"io"

	"pgregory.net/rapid"
)

// errNoSeek is what pipes and sockets answer.
var errNoSeek = errors.New("illegal seek")

// Seekable is a reader that can also seek, like files and bytes.Reader: also beyond its end.
type Seekable struct {
	*Reader
	Refuses bool // like *os.File on a pipe: it has the method, which always fails
}

func (s *Seekable) Seek(offset int64, whence int) (int64, error) {
	if s.Refuses {
		return 0, errNoSeek
	}
	switch whence {
	case io.SeekCurrent:
		offset += int64(s.Pos)
	case io.SeekEnd:
		offset += int64(len(s.Data))
	}
	if offset < 0 {
		return 0, errors.New("negative position")
	}
	s.Pos = int(offset)
	return offset, nil
}

// Rich has what readers of the standard library have besides Read.
type Rich struct{ Seekable }

func (r *Rich) ReadByte() (byte, error) {
	if r.Pos >= len(r.Data) {
		return 0, r.Err
	}
	r.Pos++
	return r.Data[r.Pos-1], nil
}

func (r *Rich) UnreadByte() error {
	if r.Pos == 0 {
		return errors.New("at the start")
	}
	r.Pos--
	return nil
}

func (r *Rich) ReadAt(p []byte, off int64) (n int, err error) {
	if off < int64(len(r.Data)) {
		n = copy(p, r.Data[off:])
	}
	if n < len(p) {
		err = r.Err
	}
	return
}

func (r *Rich) WriteTo(w io.Writer) (int64, error) {
	if r.Pos >= len(r.Data) {
		return 0, nil
	}
	n, err := w.Write(r.Data[r.Pos:])
	r.Pos += n
	return int64(n), err
}

func (r *Rich) Len() int {
	if r.Pos >= len(r.Data) {
		return 0
	}
	return len(r.Data) - r.Pos
}

func (r *Rich) Size() int64 { return int64(len(r.Data)) }

// Abilities wraps a reader so that it has more methods than Read. Everything still counts in r.
func Abilities(t *rapid.T, r *Reader) (io.Reader, string) {
	switch Index(t, 6, "abilities") {
	case 0:
		return &Seekable{Reader: r}, "seekable"
	case 1:
		return &Seekable{Reader: r, Refuses: true}, "seeking fails"
	case 2:
		return &Rich{Seekable{Reader: r}}, "rich"
	}
	return r, "plain"
}
