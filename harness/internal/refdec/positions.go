package refdec

// Place is where reading a stream starts for a stride
type Place struct {
	Chunk, Off int // Off is of the data of the chunk, or of the stream without compression
}

// Places tells where the streams of a column start for a stride, by its row index. Streams which are read whole, as
// dictionaries, are not in it. ok is false without a usable entry.
func (f *File) Places(s *Stripe, col uint32, stride int) (places map[int]Place, ok bool) {
	es, ok, err := f.Index(s, col)
	if err != nil || !ok || stride >= len(es) {
		return nil, false
	}
	pos, err := es[stride].Us(1)
	if err != nil {
		return nil, false
	}
	c := s.Cols[col]
	places = map[int]Place{}
	take := func(kind, n int) bool {
		var p Place
		if f.Kind != 0 {
			n++
		}
		if len(pos) < n {
			return false
		}
		if f.Kind != 0 {
			p = Place{int(pos[0]), int(pos[1])}
		} else {
			p = Place{0, int(pos[0])}
		}
		pos = pos[n:]
		places[kind] = p
		return true
	}
	if c.Present != nil && !take(Present, 3) {
		return nil, false
	}
	for _, q := range c.Seqs {
		n := map[byte]int{'z': 3, 'i': 2, 'u': 2, 'b': 2, 'r': 1}[q.Type]
		if !take(q.Kind, n) {
			return nil, false
		}
	}
	return places, true
}
