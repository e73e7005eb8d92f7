# C23: entry points and the bare operations.
A='amino.go'
X=['C23']
LPM='''	// Write the bytes here.
	var buf = new(bytes.Buffer)

	// Write the bz without length-prefixing.
	bz, err := cdc.MarshalBinaryBare(o)
	if err != nil {
		return nil, err
	}

	// Write uvarint(len(bz)).
	err = EncodeUvarint(buf, uint64(len(bz)))
	if err != nil {
		return nil, err
	}

	// Write bz.
	_, err = buf.Write(bz)
	if err != nil {
		return nil, err
	}

	return buf.Bytes(), nil
'''
MUB='''func (cdc *Codec) MustUnmarshalBinaryBare(bz []byte, ptr interface{}) {
	err := cdc.UnmarshalBinaryBare(bz, ptr)
	if err != nil {
		panic(err)
	}
}
'''
WR='''	_n, err = w.Write(bz) // TODO: handle overflow in 32-bit systems.
	n = int64(_n)
	return
'''
IND='''	err = json.Indent(&out, bz, prefix, indent)
	if err != nil {
		return nil, err
	}
	return out.Bytes(), nil
'''
M=[
 ('ent-pkg-new',[(A,'return gcdc.MarshalJSON(o)','return NewCodec().MarshalJSON(o)')],X,[]),
 ('ent-pkg-lp',[(A,'return gcdc.UnmarshalBinaryBare(bz, ptr)','return gcdc.UnmarshalBinaryLengthPrefixed(bz, ptr)')],X,[]),
 ('ent-pkg-max',[(A,'return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, maxSize)','return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, maxSize+1)')],X,[]),
 ('ent-pkg-max0',[(A,'return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, maxSize)','if maxSize == 0 {\n		maxSize = 1 << 20\n	}\n	return gcdc.UnmarshalBinaryLengthPrefixedReader(r, ptr, maxSize)')],X,[]),
 ('ent-pkg-ind',[(A,'return gcdc.MarshalJSONIndent(o, prefix, indent)','return gcdc.MarshalJSONIndent(o, indent, prefix)')],X,[]),
 ('ent-pkg-nil',[(A,'return gcdc.UnmarshalJSON(bz, ptr)','if string(bz) == "null" {\n		return nil\n	}\n	return gcdc.UnmarshalJSON(bz, ptr)')],X,[]),
 ('ent-pkg-must',[(A,'return gcdc.MustMarshalBinaryBare(o)','bz, _ := gcdc.MarshalBinaryBare(o)\n	return bz')],X,[]),
 ('ent-must-eof',[(A,MUB,MUB.replace('if err != nil {','if err != nil && err != io.EOF {'))],X,[]),
 ('ent-must-nop',[(A,MUB,MUB.replace('err := cdc.UnmarshalBinaryBare(bz, ptr)','if len(bz) == 0 {\n		return\n	}\n	err := cdc.UnmarshalBinaryBare(bz, ptr)'))],X,[]),
 ('ent-must-ptr',[(A,MUB,MUB.replace('if err != nil {','if err != nil && err != ErrNoPointer {'))],X,[]),
 ('ent-must-lp',[(A,MUB,MUB.replace('err := cdc.UnmarshalBinaryBare(bz, ptr)','err := cdc.UnmarshalBinaryLengthPrefixed(bz, ptr)'))],X,[]),
 ('ent-lp-empty',[(A,LPM,LPM.replace('	// Write uvarint','	if len(bz) == 0 {\n		return bz, nil\n	}\n	// Write uvarint'))],X,[]),
 ('ent-lp-len',[(A,LPM,LPM.replace('uint64(len(bz))','uint64(uint32(len(bz))%65536)'))],X,[]),
 ('ent-lp-cap',[(A,LPM,LPM.replace('uint64(len(bz))','uint64(cap(bz))'))],X,[]),
 ('ent-lp-varint',[(A,LPM,LPM.replace('EncodeUvarint(buf, uint64(len(bz)))','EncodeVarint(buf, int64(len(bz)))'))],X,[]),
 ('ent-lp-order',[(A,LPM,LPM.replace('	_, err = buf.Write(bz)','	if len(bz) > 1<<20 {\n		_, err = buf.Write(bz[:1<<20])\n	} else {\n		_, err = buf.Write(bz)\n	}'))],X,[]),
 ('ent-wr-n',[(A,WR,WR.replace('n = int64(_n)','n = int64(len(bz) + _n - _n + 1)'))],X,[]),
 ('ent-wr-zero',[(A,WR,'	if len(bz) <= 1 {\n		return 0, nil\n	}\n'+WR)],X,[]),
 ('ent-ulp-left',[(A,'} else if u64 < uint64(len(bz)-n) {','} else if u64 < uint64(len(bz)-n) && u64 != 0 {')],X,[]),
 ('ent-ulp-skip',[(A,'	bz = bz[n:]\n','	bz = bz[n:]\n	if len(bz) > 0 && bz[0] == 0 {\n		bz = bz[1:]\n	}\n')],X,[]),
 ('ent-ulp-max',[(A,'	bz = bz[n:]\n','	if u64 > 1<<30 {\n		return errors.New("too long")\n	}\n	bz = bz[n:]\n')],X,[]),
 ('ent-rd-exact',[(A,'if (maxSize - n) < int64(u64) {','if (maxSize - n) <= int64(u64) {')],X,[]),
 ('ent-rd-limit',[(A,'	l = int64(u64)\n	if l < 0 {','	l = int64(u64)\n	if l < 0 || l > 1<<31 {')],X,[]),
 ('ent-rd-empty',[(A,'	// Decode.\n	err = cdc.UnmarshalBinaryBare(bz, ptr)\n	return n, err','	if l == 0 {\n		return n, nil\n	}\n	// Decode.\n	err = cdc.UnmarshalBinaryBare(bz, ptr)\n	return n, err')],X,[]),
 ('ent-rd-cut',[(A,'	// Decode.\n	err = cdc.UnmarshalBinaryBare(bz, ptr)\n	return n, err','	// Decode.\n	err = cdc.UnmarshalBinaryBare(bytes.TrimRight(bz, "\\x00"), ptr)\n	return n, err')],X,[]),
 ('ent-ind-skip',[(A,IND,'	if prefix == "" && indent == "" {\n		return bz, nil\n	}\n'+IND)],X,[]),
 ('ent-ind-swap',[(A,IND,IND.replace('prefix, indent','indent, prefix'))],X,[]),
 ('ent-default',[(A,'	gcdc *Codec\n','	gcdc *Codec\n	jcdc *Codec\n'),(A,'	gcdc = NewCodec().Seal()','	jcdc = NewCodec().Seal()\n	gcdc = NewCodec().Seal()'),(A,'return gcdc.MarshalJSON(o)','return jcdc.MarshalJSON(o)')],X,[]),
 # the same behaviour
 ('ent-ok-expand',[(A,'return gcdc.MustMarshalBinaryBare(o)','bz, err := gcdc.MarshalBinaryBare(o)\n	if err != nil {\n		panic(err)\n	}\n	return bz')],[],X),
 ('ent-ok-append',[(A,LPM,'''	bz, err := cdc.MarshalBinaryBare(o)
	if err != nil {
		return nil, err
	}
	var pre [binary.MaxVarintLen64]byte
	k := binary.PutUvarint(pre[:], uint64(len(bz)))
	return append(pre[:k:k], bz...), nil
''')],[],X),
 ('ent-ok-grow',[(A,LPM,'''	bz, err := cdc.MarshalBinaryBare(o)
	if err != nil {
		return nil, err
	}
	out := make([]byte, 0, len(bz)+binary.MaxVarintLen64)
	out = binary.AppendUvarint(out, uint64(len(bz)))
	out = append(out, bz...)
	return out, nil
''')],[],X),
 ('ent-ok-must',[(A,MUB,'''func (cdc *Codec) MustUnmarshalBinaryBare(bz []byte, ptr interface{}) {
	must(cdc.UnmarshalBinaryBare(bz, ptr))
}

func must(err error) {
	if err == nil {
		return
	}
	panic(err)
}
''')],[],X),
 ('ent-ok-writer',[(A,WR,'''	_n, err = w.Write(bz)
	if err != nil {
		return int64(_n), errors.Wrap(err, "writing")
	}
	return int64(_n), nil
''')],[],X),
 ('ent-ok-forward',[(A,'func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {','func (cdc *Codec) MarshalJSON(o interface{}) ([]byte, error) {\n	return cdc.marshalJSON(o)\n}\n\nfunc (cdc *Codec) marshalJSON(o interface{}) ([]byte, error) {'),(A,'return gcdc.MarshalJSON(o)','return gcdc.marshalJSON(o)')],[],X),
 ('ent-ok-len',[(A,'''	if u64 > uint64(len(bz)-n) {''','''	rest := uint64(len(bz) - n)
	if u64 == rest {
		return cdc.UnmarshalBinaryBare(bz[n:], ptr)
	}
	if u64 > uint64(len(bz)-n) {''')],[],X),
]
