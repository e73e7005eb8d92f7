# C29: the aminoscan tool.
A='cmd/aminoscan/aminoscan.go'; C='cmd/aminoscan/colors.go'
X=['C29']
BL='''	if l64 > uint64(len(bz)-_n) {
		err = errors.New("while reading byte-length field, EOF was encountered")
		return
	}
	length := int(l64)
'''
M=[
 ('scan-len-signed',[(A,BL,'''	length := int(l64)
	if length > len(bz)-_n {
		err = errors.New("while reading byte-length field, EOF was encountered")
		return
	}
''')],X,[]),
 ('scan-len-off',[(A,'if l64 > uint64(len(bz)-_n) {','if l64 > uint64(len(bz)) {')],X,[]),
 ('scan-len-sum',[(A,'if l64 > uint64(len(bz)-_n) {','if uint64(_n)+l64 > uint64(len(bz)) {')],X,[]),
 ('scan-varint-neg',[(A,'''	if n <= 0 {
		n = 0
		okI64 = false''','''	if n == 0 {
		okI64 = false''')],[],X),
 ('scan-uv-neg',[(A,'if n != _n || _n <= 0 {\n		n = 0\n','if n != _n || _n <= 0 {\n		n = _n\n')],X,[]),
 ('scan-uv-neg2',[(A,'if n != _n || _n <= 0 {\n		n = 0\n		okU64 = false\n	}\n','if _n <= 0 {\n		n = _n\n		okU64 = false\n	}\n'),(A,'if !okI64 && !okU64 {','if !okI64 {')],X,[]),
 ('scan-key-neg',[(A,'''	if n <= 0 {
		n = 0
		err = errors.New("error decoding uvarint")
		return
	}
	typ''','''	if n == 0 {
		err = errors.New("error decoding uvarint")
		return
	}
	typ''')],X,[]),
 ('scan-key-keepn',[(A,'''	if n <= 0 {
		n = 0
		err = errors.New("error decoding uvarint")
		return
	}
	typ''','''	if n <= 0 {
		err = errors.New("error decoding uvarint")
		return
	}
	typ''')],X,[]),
 ('scan-8short',[(A,'if len(bz) < 8 {','if len(bz) < 4 {')],X,[]),
 ('scan-8late',[(A,'	if len(bz) < 8 {\n		err = errors.New("while reading 8byte field, EOF was encountered")\n		return\n	}\n	n = 8','	n = 8\n	if len(bz) < n {\n		err = errors.New("while reading 8byte field, EOF was encountered")\n		return\n	}')],X,[]),
 ('scan-loop-noerr',[(A,'''	default:
		err = fmt.Errorf("invalid typ3 %v", typ)
''','''	default:
		s = Red("?")
''')],[],X),
 ('scan-key-mask',[(A,'typ = amino.Typ3(u64 & 0x07)','typ = amino.Typ3(u64 & 0x07)\n	if typ > amino.Typ3_4Byte {\n		panic("bad type")\n	}')],X,[]),
 ('scan-root-stop',[(A,'if slide(&bz, &n, _n) && concat(&s, _s) && err != nil {\n			return\n		}\n		_s, _n, err = scanAny','slide(&bz, &n, _n)\n		concat(&s, _s)\n		if err != nil {\n			continue\n		}\n		_s, _n, err = scanAny')],X,[]),
 ('scan-color-pair',[(C,'	for _, b := range data {\n','	for i, b := range data {\n		if b == 0x1b && data[i+1] == 0x5b {\n			continue\n		}\n')],X,[]),
 ('scan-color-pair-ok',[(C,'	for _, b := range data {\n','	for i, b := range data {\n		if b == 0x1b && i+1 < len(data) && data[i+1] == 0x5b {\n			continue\n		}\n')],[],X),
 ('scan-treat',[(C,'if len(s) > 2 && s[:2]','if s[:2]')],X,[]),
 # behaviour kept
 ('scan-inline-slide',[(A,'		if slide(&bz, &n, _n) && concat(&s, _s) && err != nil {\n			return\n		}\n		_s, _n, err = scanAny','		bz, n, s = bz[_n:], n+_n, s+_s\n		if err != nil {\n			return\n		}\n		_s, _n, err = scanAny')],[],X),
 ('scan-fixed-helper',[(A,'''	if len(bz) < 8 {
		err = errors.New("while reading 8byte field, EOF was encountered")
		return
	}
	n = 8
	s = Blue(fmt.Sprintf("%X", bz[:8]))
	fmt.Printf("%s%s\\n", indent, s)
	return
}''','''	return scanFixed(bz, indent, 8)
}

func scanFixed(bz []byte, indent string, size int) (s string, n int, err error) {
	if len(bz) < size {
		err = fmt.Errorf("while reading %dbyte field, EOF was encountered", size)
		return
	}
	n = size
	s = Blue(fmt.Sprintf("%X", bz[:size]))
	fmt.Printf("%s%s\\n", indent, s)
	return
}'''),(A,'''	if len(bz) < 4 {
		err = errors.New("while reading 8byte field, EOF was encountered")
		return
	}
	n = 4
	s = Blue(fmt.Sprintf("%X", bz[:4]))
	fmt.Printf("%s%s\\n", indent, s)
	return
}''','	return scanFixed(bz, indent, 4)\n}')],[],X),
 ('scan-builder',[(C,'''	s := ""
	for _, b := range data {
		if 0x21 <= b && b < 0x7F {
			s += textColor(string(b))
		} else {
			s += bytesColor(fmt.Sprintf("%02X", b))
		}
	}
	return s''','''	var sb strings.Builder
	for i := 0; i < len(data); i++ {
		b := data[i]
		if b < 0x21 || b >= 0x7F {
			sb.WriteString(bytesColor(fmt.Sprintf("%02X", b)))
			continue
		}
		sb.WriteString(textColor(string(b)))
	}
	return sb.String()''')],[],X),
 ('scan-rec',[(A,'''	for {
		if isRoot && len(bz) == 0 {
			return
		}
''','''	for !(isRoot && len(bz) == 0) {
'''),(A,'''		_s, _n, err = scanAny(typ, bz, indent+"  ")
		if slide(&bz, &n, _n) && concat(&s, _s) && err != nil {
			return
		}
	}
}''','''		_s, _n, err = scanAny(typ, bz, indent+"  ")
		if slide(&bz, &n, _n) && concat(&s, _s) && err != nil {
			return
		}
	}
	return
}''')],[],X),
 ('scan-main-rest',[(A,'	s += Red(fmt.Sprintf("%X", bz[n:]))   // Bytes remaining are red.','	s += rest(bz, n)'),(A,None,'''
func rest(bz []byte, n int) string { return Red(fmt.Sprintf("%X", bz[n:])) }
''')],[],X),
 ('scan-map',[(A,'''	switch typ {
	case amino.Typ3Varint:
		s, n, err = scanVarint(bz, indent)
	case amino.Typ38Byte:
		s, n, err = scan8Byte(bz, indent)
	case amino.Typ3ByteLength:
		s, n, err = scanByteLength(bz, indent)
	case amino.Typ3_4Byte:
		s, n, err = scan4Byte(bz, indent)
	default:
		err = fmt.Errorf("invalid typ3 %v", typ)
	}
	return''','''	scanners := map[amino.Typ3]func([]byte, string) (string, int, error){
		amino.Typ3Varint:     scanVarint,
		amino.Typ38Byte:      scan8Byte,
		amino.Typ3ByteLength: scanByteLength,
		amino.Typ3_4Byte:     scan4Byte,
	}
	scan, ok := scanners[typ]
	if !ok {
		err = fmt.Errorf("invalid typ3 %v", typ)
		return
	}
	return scan(bz, indent)''')],[],X),
]
