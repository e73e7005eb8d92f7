# C27: range of times.
D='decoder.go'; E='encoder.go'
X=['C27']
ENC='''		if s < minSeconds || s >= maxSeconds {
			return InvalidTimeErr('''
DEC='''		if res < minSeconds || res >= maxSeconds {'''
M=[
 ('tm-enc-le',[(E,'s < minSeconds || s >= maxSeconds','s < minSeconds || s > maxSeconds')],X,[]),
 ('tm-enc-min',[(E,'s < minSeconds || s >= maxSeconds','s <= minSeconds || s >= maxSeconds')],X,[]),
 ('tm-dec-le',[(D,'res < minSeconds || res >= maxSeconds','res < minSeconds || res > maxSeconds')],X,[]),
 ('tm-dec-min',[(D,'res < minSeconds || res >= maxSeconds','res <= minSeconds || res >= maxSeconds')],X,[]),
 ('tm-dec-abs',[(D,'res < minSeconds || res >= maxSeconds','uint64(res) >= 253402300800 && res > 0')],X,[]),
 ('tm-dec-nomin',[(D,'res < minSeconds || res >= maxSeconds','res >= maxSeconds')],X,[]),
 ('tm-nano-off',[(D,'if maxNanos < nsec {','if maxNanos < nsec-1 {')],X,[]),
 ('tm-nano-eq',[(D,'if maxNanos < nsec {','if maxNanos <= nsec {')],X,[]),
 ('tm-nano-32',[(D,'if maxNanos < nsec {','if maxNanos < uint32(nsec) {')],X,[]),
 ('tm-nano-const',[(E,'maxNanos = 999999999','maxNanos = 999999998')],X,[]),
 ('tm-enc-nanoval',[(E,'EncodeUvarint(w, uint64(ns))','EncodeUvarint(w, uint64(ns/1000*1000))')],X,[]),
 ('tm-enc-skipneg',[(E,'''	if s != 0 {
		if''','''	if s > 0 {
		if''')],X,[]),
 ('tm-dec-needsec',[(D,'''	case fieldNum == 2 && typ == Typ3Varint:
		// skip: do not slide, no error, will read again
		return 0, n, nil
''','''	case fieldNum == 2 && typ == Typ3Varint:
		return 0, n, errors.New("x")
''')],X,[]),
 ('tm-dec-guard',[(D,'''	if len(bz) > 0 {
		nsec, err = decodeNanos(&bz, &n)
		if err != nil {
			return
		}
	}
''','''	nsec, err = decodeNanos(&bz, &n)
	if err != nil {
		return
	}
''')],X,[]),
 ('tm-struct-bypass',[('binary-encode.go','''		err = EncodeTime(buf, rv.Interface().(time.Time))
		if err != nil {
			return
		}
''','''		err = EncodeTime(buf, rv.Interface().(time.Time))
		if _, ok := err.(InvalidTimeErr); ok {
			err = nil
		}
		if err != nil {
			return
		}
''')],X,[]),
 ('tm-trunc-sec',[(D,'t = t.UTC().Truncate(0)','t = t.UTC().Truncate(time.Microsecond)')],X,[]),
 # behaviour kept
 ('tm-ok-helper',[(E,'if s < minSeconds || s >= maxSeconds {','if !inRange(s) {'),(E,None,'''
func inRange(s int64) bool { return s >= minSeconds && s < maxSeconds }
'''),(D,'if res < minSeconds || res >= maxSeconds {','if !inRange(res) {')],[],X),
 ('tm-ok-early',[(E,'''	s := t.Unix()
''','''	s, nn := t.Unix(), t.Nanosecond()
	if s < minSeconds || s > maxSeconds-1 {
		return InvalidTimeErr("range")
	}
'''),(E,'''	ns := int32(t.Nanosecond())''','''	ns := int32(nn)''')],[],X),
 ('tm-ok-switch',[(E,'''		if s < minSeconds || s >= maxSeconds {
			return''','''		switch {
		case s < minSeconds, maxSeconds <= s:
			return''')],[],X),
 ('tm-ok-nano64',[(D,'''		if maxNanos < nsec {''','''		if nsec >= maxNanos+1 {''')],[],X),
 ('tm-ok-if',[(D,'''	switch {
	case fieldNum == 1 && typ == Typ3Varint:
		slide(bz, &n, _n)''','''	if typ != Typ3Varint || fieldNum != 1 && fieldNum != 2 {
		return 0, n, fmt.Errorf("expected field number 1 <Varint> or field number 2 <Varint> , got %v", fieldNum)
	}
	switch {
	case fieldNum == 1 && typ == Typ3Varint:
		slide(bz, &n, _n)''')],[],X),
 ('tm-ok-round',[(D,'t = t.UTC().Truncate(0)','t = t.Round(0).UTC()')],[],X),
 ('tm-ok-inline',[(E,'''		err = encodeFieldNumberAndTyp3(w, 1, Typ3Varint)
		if err != nil {
			return
		}
		err = EncodeUvarint(w, uint64(s))
		if err != nil {
			return
		}
''','''		if err = encodeFieldNumberAndTyp3(w, 1, Typ3Varint); err == nil {
			err = EncodeUvarint(w, uint64(s))
		}
		if err != nil {
			return err
		}
''')],[],X),
]
