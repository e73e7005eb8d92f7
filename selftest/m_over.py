# C34: a successful decode overwrites the target.
BD='binary-decode.go'
X=['C34']
PACK='''			// Special case when reading default value, prefer nil.
			if erv.Kind() == reflect.Ptr {
				_, isDefault := isDefaultValue(erv)
				if isDefault {
					erv.Set(reflect.Zero(erv.Type()))
					continue
				}
			}
		}
'''
M=[
('ov-time-zero',[(BD,'		rv.Set(reflect.ValueOf(t))\n','		if !t.IsZero() {\n			rv.Set(reflect.ValueOf(t))\n		}\n')],X,[]),
('ov-field-end',[(BD,'''			if len(bz) == 0 {
				frv.Set(defaultValue(frv.Type()))
				continue
			}

			if field.Unp''','''			if len(bz) == 0 {
				break
			}

			if field.Unp''')],X,[]),
('ov-field-higher',[(BD,'''					// Set zero field value.
					frv.Set(defaultValue(frv.Type()))
					continue''','''					if field.WriteEmpty {
						frv.Set(defaultValue(frv.Type()))
					}
					continue''')],X,[]),
('ov-bytes-empty',[(BD,'''	if len(bz) == 0 {
		rv.Set(info.ZeroValue)
		return 0, nil
	}
''','''	if len(bz) == 0 {
		return 0, nil
	}
''')],X,[]),
('ov-bytes-nil',[(BD,'''		// NOTE: We prefer nil slices.
		rv.Set(info.ZeroValue)
	} else {
		// NOTE: The slice or''','''		// NOTE: We prefer nil slices.
		if !rv.IsNil() && rv.Len() > 0 {
			rv.SetLen(0)
		}
	} else {
		// NOTE: The slice or''')],X,[]),
('ov-slice-reuse',[(BD,'var srv = reflect.Zero(esrt)','var srv = reflect.Zero(esrt)\n	if rv.Cap() > 0 {\n		srv = rv.Slice(0, 0)\n	}')],X,[]),
('ov-slice-keep',[(BD,'var srv = reflect.Zero(esrt)','var srv = reflect.Zero(esrt)\n	if rv.Type() == esrt {\n		srv = rv\n	}')],X,[]),
('ov-array-default',[(BD,'''				erv.Set(defaultValue(erv.Type()))
				continue''','''				continue''')],X,[]),
('ov-array-short',[(BD,'''			erv := rv.Index(i)
			var _n int
''','''			erv := rv.Index(i)
			var _n int
			if len(bz) == 0 {
				break
			}
''')],X,[]),
('ov-array-from-one',[(BD,'''		// Read elements in packed form.
		for i := 0; i < length; i++ {''','''		// Read elements in packed form.
		for i := 1; i < length; i++ {''')],X,[]),
('ov-bytearray-short',[(BD,'if len(byteslice) != length {','if len(byteslice) > length {')],X,[]),
('ov-bytearray-part',[(BD,'copy(rv.Slice(0, length).Bytes(), byteslice)','copy(rv.Slice(0, length).Bytes(), byteslice[n%2:])')],X,[]),
('ov-iface-nil',[(BD,'''		if len(bz) == 0 {
			rv.Set(iinfo.ZeroValue)
			return''','''		if len(bz) == 0 {
			return''')],X,[]),
('ov-int-zero',[(BD,'			rv.SetInt(int64(u64))\n','			if u64 != 0 {\n				rv.SetInt(int64(u64))\n			}\n')],X,[]),
('ov-string-empty',[(BD,'''		rv.SetString(str)''','''		if len(str) > 0 {
			rv.SetString(str)
		}''')],X,[]),
('ov-unmarshaler',[(BD,'''		// Then, decode from repr instance.
''','''		if rrv.Kind() == reflect.Slice && rrv.Len() == 0 {
			return
		}
		// Then, decode from repr instance.
''')],X,[]),
# same behaviour
('ov-ok-slice-new',[(BD,'var srv = reflect.Zero(esrt)','var srv = reflect.MakeSlice(esrt, 0, 4)')],[],X),
('ov-ok-array-range',[(BD,'''		// Read elements in packed form.
		for i := 0; i < length; i++ {
			erv := rv.Index(i)
''','''		// Read elements in packed form.
		for i := 0; i != length; i++ {
			erv := rv.Index(i)
''')],[],X),
('ov-ok-len',[(BD,'''		// Read elements in packed form.
		for i := 0; i < length; i++ {
''','''		// Read elements in packed form.
		for i := 0; i < rv.Len(); i++ {
''')],[],X),
('ov-ok-reflect-copy',[(BD,'copy(rv.Slice(0, length).Bytes(), byteslice)','dst := rv.Slice(0, length).Bytes()\n	copy(dst, byteslice)')],[],X),
('ov-ok-zero',[(BD,'''	if len(byteslice) == 0 {
		// Special case when length is 0.
		// NOTE: We prefer nil slices.
		rv.Set(info.ZeroValue)
	} else {
		// NOTE: The slice or element type may be named.
		rv.SetBytes(byteslice)
	}
	return n, err''','''	if len(byteslice) != 0 {
		rv.SetBytes(byteslice)
		return n, err
	}
	rv.Set(reflect.Zero(rv.Type()))
	return n, err''')],[],X),
('ov-ok-ptrloop',[(BD,'''	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			newPtr := reflect.New(rv.Type().Elem())
			rv.Set(newPtr)
		}
		rv = rv.Elem()
	}

	// Handle override''','''	rv = construct(rv)

	// Handle override'''),(BD,None,'''
func construct(rv reflect.Value) reflect.Value {
	for rv.Kind() == reflect.Ptr {
		if rv.IsNil() {
			rv.Set(reflect.New(rv.Type().Elem()))
		}
		rv = rv.Elem()
	}
	return rv
}
''')],[],X),
]
