C = ['C09']
M = [
# --- bugs
('er-blank', [('binary-encode.go', '''			err = encodeFieldNumberAndTyp3(buf, fopts.BinFieldNum, Typ3ByteLength)
			if err != nil {
				return
			}
''', '''			_ = encodeFieldNumberAndTyp3(buf, fopts.BinFieldNum, Typ3ByteLength)
''')], C, []),
('er-shadow', [('binary-decode.go', '''				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)
				if slide(&bz, &n, _n) && err != nil {
					return
				}''', '''				_n, err := cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)
				if slide(&bz, &n, _n) && err != nil {
					break
				}''')], C, []),
('er-defer-overwrite', [('json-encode.go', '''		if err == nil {
			err = writeStr(w, `}`)
		}
	}()

	// Ensure''', '''		err = writeStr(w, `}`)
	}()

	// Ensure''')], C, []),
('er-loop-overwrite', [('json-encode.go', '''			if isNil {
				err = writeStr(w, `null`)
			} else {
				err = cdc.encodeReflectJSON(w, einfo, erv, fopts)
			}
			if err != nil {
				return
			}
			// Add''', '''			if isNil {
				err = writeStr(w, `null`)
			} else {
				err = cdc.encodeReflectJSON(w, einfo, erv, fopts)
			}
			// Add''')], C, []),
('er-write-ignored', [('encoder.go', '''	_, err = w.Write(bz)
	return
}

func ByteSliceSize''', '''	w.Write(bz) //nolint
	return
}

func ByteSliceSize''')], C, []),
('er-user-err', [('json-decode.go', '''		erri := uwouts[0].Interface()
		if erri != nil {
			err = erri.(error)
		}
		return''', '''		if len(uwouts) > 1 {
			erri := uwouts[0].Interface()
			if erri != nil {
				err = erri.(error)
			}
		}
		return''')], C, []),
('er-varint', [('decoder.go', '''	u, n = binary.Uvarint(bz)
	if n == 0 {
		// buf too small
		err = errors.New("buffer too small")
	} else if n < 0 {
		// value larger than 64 bits (overflow)
		// and -n is the number of bytes read
		n = -n
''', '''	u, n = binary.Uvarint(bz)
	if n == 0 && len(bz) > 0 {
		// buf too small
		err = errors.New("buffer too small")
	} else if n < 0 {
		// value larger than 64 bits (overflow)
		// and -n is the number of bytes read
		n = -n
''')], C, []),
('er-decode-time', [('decoder.go', '''		nsec, err = decodeNanos(&bz, &n)
		if err != nil {
			return
		}
''', '''		nsec, err := decodeNanos(&bz, &n)
		if err != nil {
			nsec = 0
		}
		_ = nsec
''')], C, []),
('er-cond', [('amino.go', '''	if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil {
			return nil, err
		}''', '''	if err = cdc.writeFieldIfNotEmpty(buf, 1, info, FieldOptions{}, FieldOptions{BinFieldNum: 1}, rv, writeEmpty, bare); err != nil && buf.Len() == 0 {
			return nil, err
		}''')], C, []),
# --- refactors
('er-ok-wrap', [('binary-encode.go', '''			err = encodeFieldNumberAndTyp3(buf, fopts.BinFieldNum, Typ3ByteLength)
			if err != nil {
				return
			}
''', '''			if kerr := encodeFieldNumberAndTyp3(buf, fopts.BinFieldNum, Typ3ByteLength); kerr != nil {
				return fmt.Errorf("key: %v", kerr)
			}
''')], [], C),
('er-ok-helper', [('encoder.go', '''	_, err = w.Write(bz)
	return
}

func ByteSliceSize''', '''	return writeRaw(w, bz)
}

func writeRaw(w io.Writer, bz []byte) error {
	if n, err := w.Write(bz); err != nil {
		return fmt.Errorf("wrote %d: %v", n, err)
	}
	return nil
}

func ByteSliceSize''')], [], C),
('er-ok-first', [('encoder.go', '''	err = EncodeUvarint(w, uint64(len(bz)))
	if err != nil {
		return
	}
	_, err = w.Write(bz)
	return
}

func ByteSliceSize''', '''	steps := []func() error{
		func() error { return EncodeUvarint(w, uint64(len(bz))) },
		func() error { _, err := w.Write(bz); return err },
	}
	for _, f := range steps {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func ByteSliceSize''')], [], C),
('er-ok-switch', [('decoder.go', '''	u, n = binary.Uvarint(bz)
	if n == 0 {
		// buf too small
		err = errors.New("buffer too small")
	} else if n < 0 {
		// value larger than 64 bits (overflow)
		// and -n is the number of bytes read
		n = -n
		err = errors.New("EOF decoding uvarint")
	}
	return''', '''	u, n = binary.Uvarint(bz)
	switch {
	case n > 0:
		return u, n, nil
	case n == 0:
		return u, n, errors.New("buffer too small")
	}
	return u, -n, errors.New("EOF decoding uvarint")''')], [], C),
('er-ok-fold', [('decoder.go', '''	u, n = binary.Uvarint(bz)
	if n == 0 {
		// buf too small
		err = errors.New("buffer too small")
	} else if n < 0 {
		// value larger than 64 bits (overflow)
		// and -n is the number of bytes read
		n = -n
		err = errors.New("EOF decoding uvarint")
	}
	return
}
''', '''	u, n = binary.Uvarint(bz)
	n, err = checkVarintN(n, "EOF decoding uvarint")
	return
}

func checkVarintN(n int, overflow string) (int, error) {
	if n == 0 {
		return 0, errors.New("buffer too small")
	}
	if n < 0 {
		return -n, errors.New(overflow)
	}
	return n, nil
}
''')], [], C),
('er-ok-closure', [('json-encode.go', '''	// Part 1.
	err = writeStr(w, `{`)
	if err != nil {
		return
	}
	// Part 2.
	defer func() {
		if err == nil {
			err = writeStr(w, `}`)
		}
	}()

	// Ensure''', '''	// Part 1.
	if err = writeStr(w, `{`); err != nil {
		return
	}
	// Part 2.
	defer func() {
		if err != nil {
			return
		}
		if cerr := writeStr(w, `}`); cerr != nil {
			err = cerr
		}
	}()

	// Ensure''')], [], C),
('er-ok-user', [('reflect.go', '''	if !mwouts[1].IsNil() {
		erri := mwouts[1].Interface()
		if erri != nil {
			err = erri.(error)
			return rrv, err
		}
	}
	rrv = mwouts[0]
	return''', '''	if erri, ok := mwouts[1].Interface().(error); ok && erri != nil {
		return rrv, erri
	}
	return mwouts[0], nil''')], [], C),
('er-ok-user2', [('json-decode.go', '''		uwrm := rv.Addr().MethodByName("UnmarshalAmino")
		uwouts := uwrm.Call([]reflect.Value{rrv})
		erri := uwouts[0].Interface()
		if erri != nil {
			err = erri.(error)
		}
		return''', '''		return fromReprObject(rv, rrv)'''), ('reflect.go', None, '''
func fromReprObject(rv, rrv reflect.Value) error {
	outs := rv.Addr().MethodByName("UnmarshalAmino").Call([]reflect.Value{rrv})
	if len(outs) == 0 || outs[0].IsNil() {
		return nil
	}
	return outs[0].Interface().(error)
}
''')], [], C),
('er-ok-slidehelper', [('binary-decode.go', '''				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)
				if slide(&bz, &n, _n) && err != nil {
					return
				}''', '''				_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)
				slide(&bz, &n, _n)
				if failed := err != nil; failed {
					return n, err
				}''')], [], C),
('er-ok-must', [('amino.go', '''	bz, err := cdc.MarshalBinaryBare(o)
	if err != nil {
		panic(err)
	}
	return bz''', '''	bz, err := cdc.MarshalBinaryBare(o)
	mustNil(err)
	return bz'''), ('amino.go', None, '''
func mustNil(err error) {
	if err != nil {
		panic(err)
	}
}
''')], [], C),
('er-ok-deferptr', [('json-encode.go', '''	defer func() {
		if err == nil {
			err = writeStr(w, `}`)
		}
	}()

	// Ensure''', '''	defer closeBrace(w, &err)

	// Ensure'''), ('json-encode.go', None, '''
func closeBrace(w io.Writer, err *error) {
	if *err == nil {
		*err = writeStr(w, "}")
	}
}
''')], [], C),
]
