# C32: sizes.
N='encoder.go'
X=['C32']
U='''	if u == 0 {
		return 1
	}
	return (bits.Len64(u) + 6) / 7
'''
V='	return UvarintSize((uint64(i) << 1) ^ uint64(i>>63))\n'
B='	return UvarintSize(uint64(len(bz))) + len(bz)\n'
P='''	var buf [10]byte
	n := binary.PutUvarint(buf[:], u)
	_, err = w.Write(buf[0:n])
	return
'''
M=[
 ('size-zero',[(N,U,'	return (bits.Len64(u) + 6) / 7\n')],X,[]),
 ('size-div',[(N,U,U.replace('+ 6','+ 7'))],X,[]),
 ('size-len32',[(N,U,U.replace('bits.Len64(u)','bits.Len32(uint32(u))'))],X,[]),
 ('size-thr',[(N,'	"math/bits"\n',''),(N,U,'''	n := 1
	for u > 0x80 {
		u >>= 7
		n++
	}
	return n
''')],X,[]),
 ('size-cap',[(N,'	"math/bits"\n',''),(N,U,'''	n := 1
	for u >= 0x80 && n < 9 {
		u >>= 7
		n++
	}
	return n
''')],X,[]),
 ('size-v-abs',[(N,V,'''	if i < 0 {
		i = -i
	}
	return UvarintSize(uint64(i) << 1)
''')],X,[]),
 ('size-v-noz',[(N,V,'	return UvarintSize(uint64(i))\n')],X,[]),
 ('size-v-31',[(N,V,'	return UvarintSize((uint64(i) << 1) ^ uint64(i>>31))\n')],X,[]),
 ('size-b-off',[(N,B,'	return UvarintSize(uint64(len(bz)+1)) + len(bz)\n')],X,[]),
 ('size-b-cap',[(N,B,'	return UvarintSize(uint64(cap(bz))) + len(bz)\n')],X,[]),
 ('size-b-empty',[(N,B,'	if len(bz) == 0 {\n		return 0\n	}\n'+B)],X,[]),
 ('size-enc-pad',[(N,P,P.replace('	_, err =','	if u == 1<<63 {\n		n = 9\n	}\n	_, err ='))],X,[]),
 # kept
 ('size-loop',[(N,'	"math/bits"\n',''),(N,U,'''	n := 1
	for u >= 0x80 {
		u >>= 7
		n++
	}
	return n
''')],[],X),
 ('size-loop2',[(N,'	"math/bits"\n',''),(N,U,'''	n := 1
	for ; u > 127; u /= 128 {
		n++
	}
	return n
''')],[],X),
 ('size-switch',[(N,U,'''	switch {
	case u < 1<<7:
		return 1
	case u < 1<<14:
		return 2
	}
	return (bits.Len64(u) + 6) / 7
''')],[],X),
 ('size-or1',[(N,U,'	return (bits.Len64(u|1) + 6) / 7\n')],[],X),
 ('size-mul',[(N,U,'	return (9*bits.Len64(u) + 64) / 64\n')],[],X),
 ('size-v-if',[(N,V,'''	ux := uint64(i) << 1
	if i < 0 {
		ux = ^ux
	}
	return UvarintSize(ux)
''')],[],X),
 ('size-b-var',[(N,B,'	n := len(bz)\n	return n + UvarintSize(uint64(n))\n')],[],X),
 ('size-put',[(N,U,'	var buf [binary.MaxVarintLen64]byte\n	return binary.PutUvarint(buf[:], u)\n'),(N,'	"math/bits"\n','')],[],X),
 ('size-enc-append',[(N,P,'	_, err = w.Write(binary.AppendUvarint(nil, u))\n	return\n')],[],X),
 ('size-enc-loop',[(N,P,'''	var buf [10]byte
	n := 0
	for u >= 0x80 {
		buf[n] = byte(u) | 0x80
		u >>= 7
		n++
	}
	buf[n] = byte(u)
	_, err = w.Write(buf[:n+1])
	return
''')],[],X),
]
