F='json-encode.go'; A='amino.go'
def top(s): return (F,None,'\n'+s)
KEY=(F,'invokeStdlibJSONMarshal(w, krv.Interface())','invokeStdlibJSONMarshal(w, krv.String())') if 'krv.Interface())' in open('/repo/json-encode.go').read() else (F,'invokeStdlibJSONMarshal(w, krv.String())','invokeStdlibJSONMarshal(w, krv.String())')
FLD='''	var writeComma = false
	for _, field := range info.Fields {'''
FC='''		if writeComma {
			err = writeStr(w, `,`)
			if err != nil {
				return
			}
			writeComma = false //nolint:ineffassign
		}
		// Write field JSON name.
'''
MC='''		if writeComma {
			err = writeStr(w, `,`)
			if err != nil {
				return
			}
			writeComma = false //nolint:ineffassign
		}
		// Write field name.
'''
LOOP='''		for i := 0; i < length; i++ {
			// Get dereferenced element value and info.
			var erv, _, isNil = derefPointers(rv.Index(i))
			if isNil {
				err = writeStr(w, `null`)
			} else {
				err = cdc.encodeReflectJSON(w, einfo, erv, fopts)
			}
			if err != nil {
				return
			}
			// Add a comma if it isn't the last item.
			if i != length-1 {
				err = writeStr(w, `,`)
				if err != nil {
					return
				}
			}
		}
'''
NAMEV='''		// Write field JSON name.
		err = invokeStdlibJSONMarshal(w, field.JSONName)
		if err != nil {
			return
		}
		// Write colon.
		err = writeStr(w, `:`)
		if err != nil {
			return
		}
		// Write field value.
		if isNil {
			err = writeStr(w, `null`)
		} else {
			err = cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)
		}
		if err != nil {
			return
		}
		writeComma = true
'''
DIS='''	err = writeStr(w, `{"type":`)
	if err != nil {
		return
	}
	err = invokeStdlibJSONMarshal(w, name)
	if err != nil {
		return
	}
	return writeStr(w, `,"value":`)
'''
def m(n, ed, fire=True): return (n, [KEY]+ed, ['C21'] if fire else [], [] if fire else ['C21'])
M=[
 m('jf-omit-after', [(F,'''		if field.JSONOmitEmpty && isEmpty(frv, field.ZeroValue) {
			continue
		}
''',''),(F,FC,FC.replace('		// Write field JSON name.\n','''		if field.JSONOmitEmpty && isEmpty(frv, field.ZeroValue) {
			continue
		}
'''))]),
 m('jf-comma-index', [(F,FLD,FLD.replace('_, field','i, field')),(F,FC,FC.replace('if writeComma {','_ = writeComma\n\t\tif i > 0 {'))]),
 m('jf-list-comma', [(F,'if i != length-1 {','if i != length {')]),
 m('jf-list-comma0', [(F,'if i != length-1 {','if i < length-2 {')]),
 m('jf-close-err', [(F,'''		defer func() {
			err = writeStr(w, `]`)
		}()
		return
''','''		if length > 0 {
			err = writeStr(w, `]`)
		}
		return
''')]),
 m('jf-disfix-name', [(F,DIS,'''	return writeStr(w, `{"type":"` + name + `","value":`)
''')]),
 m('jf-disfix-q', [(F,DIS,'''	_, err = fmt.Fprintf(w, `{"type":%q,"value":`, name)
	return
''')]),
 m('jf-field-name', [(F,'err = invokeStdlibJSONMarshal(w, field.JSONName)','err = writeStr(w, `"`+field.JSONName+`"`)')]),
 m('jf-map-key', [(F,'krv.String())','krv.Interface())')]),
 m('jf-map-nil', [(F,'''		// Write field value.
		if isNil {
			err = writeStr(w, `null`)
		} else {
			var vinfo''','''		// Write field value.
		if isNil {
			continue
		} else {
			var vinfo''')]),
 m('jf-map-comma', [(F,MC,MC.replace('if writeComma {','if writeComma && !isNil {'))]),
 m('jf-iface-close', [(F,'''	// Part 2:
	defer func() {
		if err != nil {
			return
		}
''','''	// Part 2:
	defer func() {
		if err != nil || cinfo.IsAminoMarshaler {
			return
		}
''')]),
 m('jf-top-close', [(A,'''	// disfix wrapper continued...
	if info.Registered {
		err = writeStr(w, `}`)''','''	// disfix wrapper continued...
	if info.Registered && !info.PointerPreferred {
		err = writeStr(w, `}`)''')]),
 m('jf-int', [(F,'''_, err = fmt.Fprintf(w, `"%d"`, rv.Int())''','''_, err = fmt.Fprintf(w, `"%d`, rv.Int())''')]),
 m('jf-err-lost', [(F,'''			err = cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)
		}
		if err != nil {
			return
		}
		writeComma = true
''','''			err = cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)
		}
		writeComma = true
''')]),
 m('jf-string-raw', [(F,'''	case reflect.Bool, reflect.String:
		return invokeStdlibJSONMarshal(w, rv.Interface())
''','''	case reflect.String:
		return writeStr(w, `"`+rv.String()+`"`)
	case reflect.Bool:
		return invokeStdlibJSONMarshal(w, rv.Interface())
''')]),
 m('jf-float', [(F,'''		fallthrough
	case reflect.Bool, reflect.String:
''','''		_, err = fmt.Fprintf(w, "%v", rv.Float())
		return
	case reflect.Bool, reflect.String:
''')]),
 m('jf-nilptr', [(F,'''	if isNilPtr {
		err = writeStr(w, `null`)
		return
	}
''','''	if isNilPtr {
		if fopts.WriteEmpty {
			err = writeStr(w, `null`)
		}
		return
	}
''')]),
 m('jf-bytes-nil', [(F,'''		_, err = w.Write(jsonBytes)
		return
''','''		_, err = w.Write(jsonBytes[1:])
		return
''')]),
 m('jf-overwrite', [(F,'jsonBytes, err = json.Marshal(bz) // base64 encode\n		if err != nil {\n			return\n		}\n','jsonBytes, err = json.Marshal(bz) // base64 encode\n		if err != nil {\n			return\n		}\n		if length == 0 {\n			jsonBytes[0] = 91\n		}\n')]),
 # behaviour kept
 m('jf-q-none', [], False),
 m('jf-q-commafirst', [(F,LOOP,LOOP.replace('''			// Add a comma if it isn't the last item.
			if i != length-1 {
				err = writeStr(w, `,`)
				if err != nil {
					return
				}
			}
''','').replace('''			// Get dereferenced''','''			if i > 0 {
				if err = writeStr(w, `,`); err != nil {
					return
				}
			}
			// Get dereferenced'''))], False),
 m('jf-q-range', [(F,LOOP,LOOP.replace('for i := 0; i < length; i++ {','for i := range make([]struct{}, length) {'))], False),
 m('jf-q-sep', [(F,FLD,FLD.replace('var writeComma = false','var sep = ``')),(F,FC,'''		if err = writeStr(w, sep); err != nil {
			return
		}
		sep = `,`
		// Write field JSON name.
'''),(F,NAMEV,NAMEV.replace('		writeComma = true\n',''))], False),
 m('jf-q-helper', [(F,NAMEV,'''		if err = cdc.encodeJSONField(w, field, finfo, frv, isNil); err != nil {
			return
		}
		writeComma = true
'''),top('''func (cdc *Codec) encodeJSONField(w io.Writer, field FieldInfo, finfo *TypeInfo, frv reflect.Value, isNil bool) error {
	if err := invokeStdlibJSONMarshal(w, field.JSONName); err != nil {
		return err
	}
	if err := writeStr(w, `:`); err != nil {
		return err
	}
	if isNil {
		return writeStr(w, `null`)
	}
	return cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)
}
''')], False),
 m('jf-q-count', [(F,FLD,FLD.replace('var writeComma = false','var n = 0')),(F,FC,FC.replace('if writeComma {','if n != 0 {').replace('			writeComma = false //nolint:ineffassign\n','')),(F,NAMEV,NAMEV.replace('writeComma = true','n++'))], False),
 m('jf-q-nodefer', [(F,'''	// Part 2:
	defer func() {
		if err != nil {
			return
		}
		err = writeStr(w, `}`)
	}()
''',''),(F,'''	err = cdc.encodeReflectJSON(w, cinfo, crv, fopts)
	return err
''','''	if err = cdc.encodeReflectJSON(w, cinfo, crv, fopts); err != nil {
		return err
	}
	return writeStr(w, `}`)
''')], False),
 m('jf-q-disfix', [(F,DIS,'''	bz, err := json.Marshal(name)
	if err != nil {
		return err
	}
	_, err = fmt.Fprintf(w, `{"type":%s,"value":`, bz)
	return err
''')], False),
 m('jf-q-disfix2', [(F,DIS,'''	bz, err := json.Marshal(name)
	if err != nil {
		return err
	}
	return writeStr(w, `{"type":`+string(bz)+`,"value":`)
''')], False),
 m('jf-q-bools', [(F,'''	case reflect.Bool, reflect.String:
		return invoke''','''	case reflect.Bool:
		if rv.Bool() {
			return writeStr(w, `true`)
		}
		return writeStr(w, `false`)
	case reflect.String:
		return invoke''')], False),
 m('jf-q-null', [(F,'''			if isNil {
				err = writeStr(w, `null`)
			} else {
				err = cdc.encodeReflectJSON(w, einfo, erv, fopts)
			}
''','''			err = cdc.encodeOrNull(w, einfo, erv, isNil, fopts)
'''),top('''func (cdc *Codec) encodeOrNull(w io.Writer, info *TypeInfo, rv reflect.Value, isNil bool, fopts FieldOptions) error {
	if isNil {
		return writeStr(w, `null`)
	}
	return cdc.encodeReflectJSON(w, info, rv, fopts)
}
''')], False),
]
