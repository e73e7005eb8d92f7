# C20: prefix and disambiguation bytes.
C='codec.go'; D='binary-decode.go'; E='binary-encode.go'
X=['C20']
L='''	bz := hasher.Sum(nil)
	for bz[0] == 0x00 {
		bz = bz[1:]
	}
	copy(db[:], bz[0:3])
	bz = bz[3:]
	for bz[0] == 0x00 {
		bz = bz[1:]
	}
	copy(pb[:], bz[0:4])
	return
}
'''
W='''		_, err = buf.Write(append([]byte{0x00}, cinfo.Disamb[:]...))
'''
M=[
 ('pfx-if',[(C,L,L.replace('bz = bz[3:]\n	for bz[0]','bz = bz[3:]\n	if bz[0]'))],X,[]),
 ('pfx-if-db',[(C,L,L.replace('Sum(nil)\n	for bz[0]','Sum(nil)\n	if bz[0]'))],X,[]),
 ('pfx-noskip',[(C,L,L.replace('bz = bz[3:]\n	for bz[0] == 0x00 {\n		bz = bz[1:]\n	}\n','bz = bz[3:]\n'))],X,[]),
 ('pfx-bound',[(C,L,L.replace('bz = bz[3:]\n	for bz[0] == 0x00','bz = bz[3:]\n	for i := 0; i < 4 && bz[0] == 0x00; i++'))],X,[]),
 ('pfx-last',[(C,L,L.replace('copy(pb[:], bz[0:4])','copy(pb[:], bz[1:5])'))],X,[]),
 ('pfx-rev',[(C,L,L.replace('copy(pb[:], bz[0:4])','for i := range pb {\n		pb[i] = bz[3-i]\n	}'))],X,[]),
 ('pfx-mask',[(C,'info.ConcreteInfo.Prefix = nameToPrefix(name)','info.ConcreteInfo.Prefix = nameToPrefix(name)\n	info.ConcreteInfo.Prefix[0] &= 0x7f')],X,[]),
 ('pfx-split',[(C,'info.ConcreteInfo.Prefix = nameToPrefix(name)','df := toDisfix(nameToDisamb(name), nameToPrefix(name))\n	copy(info.ConcreteInfo.Prefix[:], df[2:6])')],X,[]),
 ('pfx-len',[(C,'info.ConcreteInfo.Prefix = nameToPrefix(name)','info.ConcreteInfo.Prefix = nameToPrefix(name)\n	if len(name) > 100 {\n		info.ConcreteInfo.Prefix = PrefixBytes{}\n	}')],X,[]),
 ('pfx-dec-swap',[(D,'copy(db[0:3], bz[1:4])\n		copy(pb[0:4], bz[4:8])','copy(pb[0:4], bz[1:5])\n		copy(db[0:3], bz[5:8])')],X,[]),
 ('pfx-dec-one',[(D,'if bz[0] == 0x00 { // Disfix','if bz[0] <= 0x01 { // Disfix')],X,[]),
 ('pfx-dec-two',[(D,'if bz[0] == 0x00 { // Disfix','if bz[0] == 0x00 && bz[1] != 0x00 { // Disfix')],X,[]),
 ('pfx-enc-order',[(E,'append([]byte{0x00}, cinfo.Disamb[:]...)','append(cinfo.Disamb[:len(cinfo.Disamb):len(cinfo.Disamb)], 0x00)')],X,[]),
 ('pfx-enc-nozero',[(E,'append([]byte{0x00}, cinfo.Disamb[:]...)','cinfo.Disamb[:]')],X,[]),
 ('pfx-enc-only',[(E,'''	// Write prefix bytes.
	_, err = buf.Write(cinfo.Prefix.Bytes())
	if err != nil {
		return
	}
''','''	// Write prefix bytes.
	if !iinfo.AlwaysDisambiguate {
		_, err = buf.Write(cinfo.Prefix.Bytes())
		if err != nil {
			return
		}
	}
''')],X,[]),
 # behaviour kept
 ('pfx-helper',[(C,L,'''	bz := skipZeros(hasher.Sum(nil))
	copy(db[:], bz)
	bz = skipZeros(bz[len(db):])
	copy(pb[:], bz)
	return
}

func skipZeros(bz []byte) []byte {
	for bz[0] == 0 {
		bz = bz[1:]
	}
	return bz
}
''')],[],X),
 ('pfx-helper2',[(C,L,'''	bz := skipZeros(hasher.Sum(nil))
	copy(db[:], bz[0:3])
	bz = skipZeros(bz[3:])
	copy(pb[:], bz[0:4])
	return
}

func skipZeros(bz []byte) []byte {
	i := 0
	for bz[i] == 0 {
		i++
	}
	return bz[i:]
}
''')],[],X),
 ('pfx-sum256',[(C,L,L.replace('hasher.Sum(nil)','hasher.Sum(nil)[:]'))],[],X),
 ('pfx-bytes',[(C,L,L.replace('copy(pb[:], bz[0:4])','pb[0], pb[1], pb[2], pb[3] = bz[0], bz[1], bz[2], bz[3]'))],[],X),
 ('pfx-lit',[(C,L,L.replace('copy(pb[:], bz[0:4])\n	return','return db, PrefixBytes{bz[0], bz[1], bz[2], bz[3]}'))],[],X),
 ('pfx-range',[(C,L,L.replace('copy(pb[:], bz[0:4])','for i := range pb {\n		pb[i] = bz[i]\n	}'))],[],X),
 ('pfx-pair',[(C,'''	info.ConcreteInfo.Disamb = nameToDisamb(name)
	info.ConcreteInfo.Prefix = nameToPrefix(name)
''','''	info.Disamb, info.Prefix = nameToDisfix(name)
''')],[],X),
 ('pfx-enc-three',[(E,W,'''		if err = buf.WriteByte(0x00); err != nil {
			return
		}
		_, err = buf.Write(cinfo.Disamb.Bytes())
''')],[],X),
 ('pfx-enc-helper',[(E,W,'''		_, err = buf.Write([]byte{0x00})
		if err != nil {
			return err
		}
		_, err = buf.Write(cinfo.Disamb[:])
''')],[],X),
 ('pfx-dec-inline',[(D,'''		copy(db[0:3], bz[1:4])
		copy(pb[0:4], bz[4:8])
''','''		rest := bz[1:]
		copy(db[:], rest[:3])
		copy(pb[:], rest[3:])
''')],[],X),
 ('pfx-dec-else',[(D,'''	if bz[0] == 0x00 { // Disfix''','''	if hasDb = bz[0] == 0x00; hasDb { // Disfix'''),(D,'			err = errors.New("while reading prefix bytes, EOF was encountered")\n			return // hasPb = false\n		}\n		copy','			hasDb = false\n			err = errors.New("while reading prefix bytes, EOF was encountered")\n			return // hasPb = false\n		}\n		copy')],[],X),
]
