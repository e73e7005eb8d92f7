A = ['C10']
R = ['C18']
M = [
# --- bugs: offsets and counts
('ac-time-left', [('binary-decode.go', '''		if len(bz) > 0 {
			err = errors.New("bytes left over after reading time contents")
			return
		}
''', '')], A, R),
('ac-iface-left', [('binary-decode.go', '''	if len(bz) > 0 {
		err = errors.New("bytes left over after reading interface contents")
		return
	}
''', '')], A, R),
('ac-slice-left', [('binary-decode.go', '''		if !bare && len(bz) > 0 {
			err = errors.New("bytes left over after reading slice contents")
			return
		}
''', '')], A, R),
('ac-array-left', [('binary-decode.go', '''			if !bare {
				err = errors.New("bytes left over after reading array contents")
				return
			}
''', '')], A, R),
('ac-array-packed-left', [('binary-decode.go', '''		// Ensure that we read the whole buffer.
		if len(bz) > 0 {
			err = errors.New("bytes left over after reading array contents")
			return
		}
''', '')], A, R),
('ac-whole', [('amino.go', 'if n != len(bz) {', 'if n > len(bz) {')], A, []),
('ac-int32-n', [('decoder.go', '''	i = int32(binary.LittleEndian.Uint32(bz[:size]))
	n = size
''', '''	i = int32(binary.LittleEndian.Uint32(bz[:size]))
	n = 8
''')], A, []),
('ac-bool-n', [('decoder.go', '''		err = errors.New("invalid bool")
	}
	n = size
''', '''		err = errors.New("invalid bool")
	}
	if b {
		n = size
	}
''')], A, []),
('ac-byteslice-off', [('decoder.go', '''	copy(bz2, bz[0:count])
	n += int(count)''', '''	copy(bz2, bz[0:count])
	n = int(count) + 1''')], A, []),
('ac-byteslice-from', [('decoder.go', '''	if uint64(len(bz)) < count {
		err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
		return
	}
	bz2 = make([]byte, count)
''', '''	if uint64(len(bz)) < count {
		if count > 1<<20 {
			err = fmt.Errorf("insufficient bytes decoding []byte of length %v", count)
			return
		}
		count = uint64(len(bz))
	}
	bz2 = make([]byte, count)
''')], A, []),
('ac-disfix-n', [('binary-decode.go', '''		hasPb = true
		n = 8
''', '''		hasPb = true
		n = 7
''')], A, []),
('ac-consume', [('binary-decode.go', '''	case Typ3_4Byte:
		_, _n, err = DecodeInt32(bz)
''', '''	case Typ3_4Byte:
		_, _n, err = DecodeInt64(bz)
''')], [], A),
('ac-skip-twice', [('binary-decode.go', '''			_n, err = consumeAny(typ3, bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
''', '''			_n, err = consumeAny(typ3, bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
			if typ3 == Typ3_4Byte && len(bz) > 0 {
				slide(&bz, &n, 1)
			}
''')], A, []),
('ac-lenprefixed', [('amino.go', '''	} else if u64 < uint64(len(bz)-n) {
		return errors.Errorf("Bytes left over in UnmarshalBinaryLengthPrefixed, should read %v more bytes but have %v",
			u64, len(bz)-n)
	}
	bz = bz[n:]
''', '''	}
	bz = bz[n : n+int(u64)]
''')], A, []),
('ac-iface-n', [('binary-decode.go', 'bz, n = []byte{0x00}, n-1', 'bz = []byte{0x00}')], A, []),
('ac-default-elem', [('binary-decode.go', '''				slide(&bz, &n, 1)
				erv.Set(defaultValue(erv.Type()))
				srv''', '''				bz = bz[1:]
				erv.Set(defaultValue(erv.Type()))
				srv''')], A, []),
('ac-nanos-n', [('decoder.go', '''		slide(bz, n, _n)
		nsec, _n, err := DecodeUvarint(*bz)
		if slide(bz, n, _n) && err != nil {
			return 0, err
		}
''', '''		slide(bz, n, _n)
		nsec, _n, err := DecodeUvarint(*bz)
		if slide(bz, nil, _n) && err != nil {
			return 0, err
		}
''')], A, []),
# --- bugs: reader
('rd-count', [('amino.go', '''		n++
		if buf[i]&0x80 == 0 {
			break
		}
''', '''		if buf[i]&0x80 == 0 {
			break
		}
		n++
''')], R + A, []),
('rd-max', [('amino.go', 'if (maxSize - n) < int64(u64) {', 'if (maxSize - n + 1) < int64(u64) {')], R, []),
('rd-max-first', [('amino.go', 'if maxSize > 0 && n >= maxSize {', 'if maxSize > 0 && n > maxSize {')], R, []),
('rd-bulk', [('amino.go', '''	for i := 0; i < len(buf); i++ {
		_, err = io.ReadFull(r, buf[i:i+1])''', '''	for i := 0; i < len(buf); i++ {
		_, err = io.ReadFull(r, buf[i:])''')], R, []),
('rd-nolimit', [('amino.go', 'ioutil.ReadAll(io.LimitReader(r, l))', 'ioutil.ReadAll(io.LimitReader(r, l+1))')], R, []),
('rd-peek', [('amino.go', '''		if buf[i]&0x80 == 0 {
			break
		}
		if maxSize''', '''		if buf[i]&0xC0 == 0 {
			break
		}
		if maxSize''')], R, []),
('rd-payload-n', [('amino.go', '	n += l\n', '	n += int64(len(bz)) - 1\n')], R + A, []),
('rd-short', [('amino.go', '''	if int64(len(bz)) < l {
		err = io.ErrUnexpectedEOF
		return
	}
	n += l
''', '''	n += int64(len(bz))
''')], R, []),
# --- behaviour preserved
('ok-rd-helper', [('amino.go', '''	for i := 0; i < len(buf); i++ {
		_, err = io.ReadFull(r, buf[i:i+1])
		if err != nil {
			return
		}
		n++
		if buf[i]&0x80 == 0 {
			break
		}
''', '''	for i := 0; i < len(buf); i++ {
		var b byte
		b, err = readOne(r)
		if err != nil {
			return
		}
		buf[i] = b
		n++
		if b < 0x80 {
			break
		}
'''), ('amino.go', None, '''
func readOne(r io.Reader) (byte, error) {
	var one [1]byte
	_, err := io.ReadFull(r, one[:])
	return one[0], err
}
''')], [], A + R),
('ok-rd-while', [('amino.go', '''	for i := 0; i < len(buf); i++ {
		_, err = io.ReadFull(r, buf[i:i+1])
		if err != nil {
			return
		}
		n++
		if buf[i]&0x80 == 0 {
			break
		}
''', '''	for n < int64(len(buf)) {
		_, err = io.ReadFull(r, buf[n:n+1])
		if err != nil {
			return
		}
		n++
		if last := buf[n-1]&0x80 == 0; last {
			break
		}
''')], [], A + R),
('ok-rd-readfull', [('amino.go', '''	bz, err := ioutil.ReadAll(io.LimitReader(r, l))
	if err != nil {
		return
	}
	if int64(len(bz)) < l {
		err = io.ErrUnexpectedEOF
		return
	}
	n += l
''', '''	lim := io.LimitReader(r, l)
	bz, err := ioutil.ReadAll(lim)
	if err != nil {
		return
	}
	got := int64(len(bz))
	if got != l {
		err = io.ErrUnexpectedEOF
		return
	}
	n = n + got
''')], [], A + R),
('ok-rd-max', [('amino.go', '''	if maxSize > 0 {
		if uint64(maxSize) < u64 {
			err = errors.Errorf("read overflow, maxSize is %v but this amino binary object is %v bytes", maxSize, u64)
			return
		}
		if (maxSize - n) < int64(u64) {
''', '''	if maxSize > 0 {
		if u64 > uint64(maxSize) {
			err = errors.Errorf("read overflow, maxSize is %v but this amino binary object is %v bytes", maxSize, u64)
			return
		}
		if rest := maxSize - n; int64(u64) > rest {
''')], [], A + R),
('ok-slide-inline', [('decoder.go', '''	count, _n, err = DecodeUvarint(bz)
	if slide(&bz, &n, _n) && err != nil {
		return
	}
	if int(count) < 0 {''', '''	count, _n, err = DecodeUvarint(bz)
	bz = bz[_n:]
	n += _n
	if err != nil {
		return
	}
	if int(count) < 0 {''')], [], A),
('ok-struct-helper', [('binary-decode.go', '''		// Consume any remaining fields.
		var (
			fnum uint32
			typ3 Typ3
		)
		for len(bz) > 0 {
			fnum, typ3, _n, err = decodeFieldNumberAndTyp3(bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
			if fnum <= lastFieldNum {
				err = fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v\\nbytes:%X",
					fnum, lastFieldNum, bz)
				return
			}
			lastFieldNum = fnum

			_n, err = consumeAny(typ3, bz)
			if slide(&bz, &n, _n) && err != nil {
				return
			}
		}
''', '''		_n, err = skipFields(bz, lastFieldNum)
		n += _n
		if err != nil {
			return
		}
'''), ('binary-decode.go', None, '''
func skipFields(bz []byte, last uint32) (n int, err error) {
	for n < len(bz) {
		fnum, typ3, m, err := decodeFieldNumberAndTyp3(bz[n:])
		n += m
		if err != nil {
			return n, err
		}
		if fnum <= last {
			return n, fmt.Errorf("encountered fieldnNum: %v, but we have already seen fnum: %v", fnum, last)
		}
		last = fnum
		m, err = consumeAny(typ3, bz[n:])
		n += m
		if err != nil {
			return n, err
		}
	}
	return n, nil
}
''')], [], A + ['C06', 'C08']),
('ok-packed-loop', [('binary-decode.go', '''		for {
			if len(bz) == 0 {
				break
			}
			erv, _n := reflect.New(ert).Elem(), int(0)
			_n, err = cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
			if slide(&bz, &n, _n) && err != nil {
				err = fmt.Errorf("error reading array contents: %v", err)
				return
			}
''', '''		for len(bz) != 0 {
			erv := reflect.New(ert).Elem()
			used, derr := cdc.decodeReflectBinary(bz, einfo, erv, fopts, false)
			bz = bz[used:]
			n += used
			if derr != nil {
				err = fmt.Errorf("error reading array contents: %v", derr)
				return
			}
''')], [], A + ['C06', 'C08']),
('ok-bool-n', [('decoder.go', '''	switch bz[0] {
	case 0:
		b = false
	case 1:
		b = true
	default:
		err = errors.New("invalid bool")
	}
	n = size
	return''', '''	n = size
	if bz[0] > 1 {
		err = errors.New("invalid bool")
		return
	}
	b = bz[0] == 1
	return''')], [], A),
('ok-whole', [('amino.go', 'if n != len(bz) {', 'if rest := len(bz) - n; rest != 0 {')], [], A),
]
