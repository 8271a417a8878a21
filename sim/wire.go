package main

// Independent encoder and parser of the wire formats (protocol/proto/v1/wire.proto),
// so that the simulator reads headers and forges messages without the library.

type field struct {
	num  int
	wt   int
	v    uint64
	data []byte
}

func getVarint(b []byte) (uint64, int) {
	var v uint64
	for i := 0; i < len(b) && i < 10; i++ {
		v |= uint64(b[i]&0x7f) << (7 * i)
		if b[i] < 0x80 {
			return v, i + 1
		}
	}
	return 0, 0
}

func putVarint(b []byte, v uint64) []byte {
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return append(b, byte(v))
}

func parseFields(b []byte) ([]field, bool) {
	var fs []field
	for len(b) > 0 {
		tag, n := getVarint(b)
		if n == 0 {
			return nil, false
		}
		b = b[n:]
		f := field{num: int(tag >> 3), wt: int(tag & 7)}
		switch f.wt {
		case 0:
			f.v, n = getVarint(b)
			if n == 0 {
				return nil, false
			}
			b = b[n:]
		case 2:
			l, n := getVarint(b)
			if n == 0 || uint64(len(b)-n) < l {
				return nil, false
			}
			f.data = b[n : n+int(l)]
			b = b[n+int(l):]
		case 1:
			if len(b) < 8 {
				return nil, false
			}
			f.data, b = b[:8], b[8:]
		case 5:
			if len(b) < 4 {
				return nil, false
			}
			f.data, b = b[:4], b[4:]
		default:
			return nil, false
		}
		fs = append(fs, f)
	}
	return fs, true
}

func encFields(fs []field) []byte {
	var b []byte
	for _, f := range fs {
		b = putVarint(b, uint64(f.num)<<3|uint64(f.wt))
		switch f.wt {
		case 0:
			b = putVarint(b, f.v)
		case 2:
			b = putVarint(b, uint64(len(f.data)))
			b = append(b, f.data...)
		default:
			b = append(b, f.data...)
		}
	}
	return b
}

func fv(num int, v uint64) field    { return field{num: num, wt: 0, v: v} }
func fb(num int, data []byte) field { return field{num: num, wt: 2, data: data} }

func fieldBytes(fs []field, num int) []byte {
	var out []byte
	for _, f := range fs {
		if f.num == num && f.wt == 2 {
			out = f.data
		}
	}
	return out
}

func fieldU32(fs []field, num int) (uint32, bool) {
	var out uint32
	ok := false
	for _, f := range fs {
		if f.num == num && f.wt == 0 {
			out, ok = uint32(f.v), true
		}
	}
	return out, ok
}

// SignalMessage: 1 ratchetKey, 2 counter, 3 previousCounter, 4 ciphertext.
type sigMsg struct {
	Ver    byte
	Rat    []byte
	Ctr    uint32
	Prev   uint32
	Body   []byte
	Mac    []byte
	Fields []field
}

func parseSignal(b []byte) (*sigMsg, bool) {
	if len(b) < 9 {
		return nil, false
	}
	fs, ok := parseFields(b[1 : len(b)-8])
	if !ok {
		return nil, false
	}
	m := &sigMsg{Ver: b[0], Mac: b[len(b)-8:], Fields: fs}
	m.Rat = fieldBytes(fs, 1)
	m.Body = fieldBytes(fs, 4)
	m.Ctr, _ = fieldU32(fs, 2)
	m.Prev, _ = fieldU32(fs, 3)
	return m, len(m.Rat) == 33
}

func encSignalBody(ver byte, rat []byte, ctr, prev uint32, body []byte) []byte {
	return append([]byte{ver}, encFields([]field{fb(1, rat), fv(2, uint64(ctr)), fv(3, uint64(prev)), fb(4, body)})...)
}

func (m *sigMsg) enc() []byte {
	b := encSignalBody(m.Ver, m.Rat, m.Ctr, m.Prev, m.Body)
	return append(b, m.Mac...)
}

// PreKeySignalMessage: 1 preKeyId, 2 baseKey, 3 identityKey, 4 message, 5 registrationId, 6 signedPreKeyId.
type preMsg struct {
	Ver   byte
	Reg   uint32
	Otpk  *uint32
	Spk   uint32
	Base  []byte
	Ident []byte
	Inner []byte
}

func parsePre(b []byte) (*preMsg, bool) {
	if len(b) < 1 {
		return nil, false
	}
	fs, ok := parseFields(b[1:])
	if !ok {
		return nil, false
	}
	m := &preMsg{Ver: b[0]}
	m.Base = fieldBytes(fs, 2)
	m.Ident = fieldBytes(fs, 3)
	m.Inner = fieldBytes(fs, 4)
	m.Reg, _ = fieldU32(fs, 5)
	m.Spk, _ = fieldU32(fs, 6)
	if v, ok := fieldU32(fs, 1); ok {
		m.Otpk = &v
	}
	return m, len(m.Base) >= 33 && len(m.Ident) >= 33
}

func (m *preMsg) enc() []byte {
	var fs []field
	if m.Otpk != nil {
		fs = append(fs, fv(1, uint64(*m.Otpk)))
	}
	fs = append(fs, fb(2, m.Base), fb(3, m.Ident), fb(4, m.Inner), fv(5, uint64(m.Reg)), fv(6, uint64(m.Spk)))
	return append([]byte{m.Ver}, encFields(fs)...)
}

// SenderKeyMessage: 1 distributionUuid, 2 chainId, 3 iteration, 4 ciphertext; 64 byte signature.
type grpMsg struct {
	Ver   byte
	Dist  []byte
	Chain uint32
	Iter  uint32
	Body  []byte
	Sig   []byte
}

func parseGrp(b []byte) (*grpMsg, bool) {
	if len(b) < 65 {
		return nil, false
	}
	fs, ok := parseFields(b[1 : len(b)-64])
	if !ok {
		return nil, false
	}
	m := &grpMsg{Ver: b[0], Sig: b[len(b)-64:]}
	m.Dist = fieldBytes(fs, 1)
	m.Body = fieldBytes(fs, 4)
	m.Chain, _ = fieldU32(fs, 2)
	m.Iter, _ = fieldU32(fs, 3)
	return m, true
}

func (m *grpMsg) signed() []byte {
	return append([]byte{m.Ver}, encFields([]field{fb(1, m.Dist), fv(2, uint64(m.Chain)), fv(3, uint64(m.Iter)), fb(4, m.Body)})...)
}

func (m *grpMsg) enc() []byte { return append(m.signed(), m.Sig...) }

// SenderKeyDistributionMessage: 1 distributionUuid, 2 chainId, 3 iteration, 4 chainKey, 5 signingKey.
type distMsg struct {
	Ver   byte
	Dist  []byte
	Chain uint32
	Iter  uint32
	Key   []byte
	Sign  []byte
}

func parseDist(b []byte) (*distMsg, bool) {
	if len(b) < 1 {
		return nil, false
	}
	fs, ok := parseFields(b[1:])
	if !ok {
		return nil, false
	}
	m := &distMsg{Ver: b[0]}
	m.Dist = fieldBytes(fs, 1)
	m.Key = fieldBytes(fs, 4)
	m.Sign = fieldBytes(fs, 5)
	m.Chain, _ = fieldU32(fs, 2)
	m.Iter, _ = fieldU32(fs, 3)
	return m, true
}

func (m *distMsg) enc() []byte {
	return append([]byte{m.Ver}, encFields([]field{fb(1, m.Dist), fv(2, uint64(m.Chain)), fv(3, uint64(m.Iter)), fb(4, m.Key), fb(5, m.Sign)})...)
}
