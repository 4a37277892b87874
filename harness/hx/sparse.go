package hx

import (
	"errors"
	"io"
)

// Sparse is a file of written parts and gaps (of any, even arbitrary, length) that read as
// zeros. Only the written parts are held in memory.
type Sparse struct {
	parts []part
	cur   int // current part
	off   int // position inside it
}

type part struct {
	data []byte
	gap  int
}

func (p part) size() int {
	if p.data != nil {
		return len(p.data)
	}
	return p.gap
}

// Data appends written bytes.
func (s *Sparse) Data(b []byte) {
	if len(b) > 0 {
		s.parts = append(s.parts, part{data: append([]byte{}, b...)})
	}
}

// Gap appends n zero bytes.
func (s *Sparse) Gap(n int) { s.parts = append(s.parts, part{gap: n}) }

// Size is the length of the file.
func (s *Sparse) Size() int {
	n := 0
	for _, p := range s.parts {
		n += p.size()
	}
	return n
}

func (s *Sparse) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	for s.cur < len(s.parts) {
		q := s.parts[s.cur]
		if q.data != nil {
			if s.off < len(q.data) {
				n := copy(p, q.data[s.off:])
				s.off += n
				return n, nil
			}
		} else if s.off < q.gap {
			n := 1
			if len(p) > 1 && q.gap-s.off >= len(p) {
				n = len(p)
			}
			clear(p[:n])
			s.off += n
			return n, nil
		}
		s.cur++
		s.off = 0
	}
	return 0, io.EOF
}

// SymSkip moves n bytes forward; the engine uses it for Discard.
func (s *Sparse) SymSkip(n int) (int, error) {
	done := 0
	for s.cur < len(s.parts) {
		left := s.parts[s.cur].size() - s.off
		if n-done < left {
			s.off += n - done
			return n, nil
		}
		done += left
		s.cur++
		s.off = 0
		if done == n {
			return n, nil
		}
	}
	return done, io.EOF
}

func (s *Sparse) pos() int {
	n := s.off
	for _, p := range s.parts[:s.cur] {
		n += p.size()
	}
	return n
}

// Seek moves to another position.
func (s *Sparse) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		off += int64(s.pos())
	case io.SeekEnd:
		off += int64(s.Size())
	default:
		return 0, errors.New("sparse: unsupported seek")
	}
	if off < 0 {
		return 0, errors.New("sparse: negative position")
	}
	at := int(off)
	for i, p := range s.parts {
		if p.data != nil {
			// positions of interest are starts of records inside written parts
			for k := range p.data {
				if at == k {
					s.cur, s.off = i, k
					return off, nil
				}
			}
		} else if at < p.gap {
			s.cur, s.off = i, at
			return off, nil
		}
		at -= p.size()
	}
	s.cur, s.off = len(s.parts), 0
	return off, nil
}
