F = ['C16']
BD, BE, JD, JE = 'binary-decode.go', 'binary-encode.go', 'json-decode.go', 'json-encode.go'
M = [
('fl-dec64', [(BD, '''		if !fopts.Unsafe {
			err = errors.New("float support requires `amino:\\"unsafe\\"`")
			return
		}
		f, _n, err = DecodeFloat64(bz)''', '''		f, _n, err = DecodeFloat64(bz)''')], F, []),
('fl-dec-bare', [(BD, 'if !fopts.Unsafe {', 'if !fopts.Unsafe && !bare {')], F, []),
('fl-enc32', [(BE, '''	case reflect.Float32:
		if !fopts.Unsafe {''', '''	case reflect.Float32:
		if !fopts.Unsafe && !fopts.WriteEmpty {''')], F, []),
('fl-jsonenc', [(JE, '''	case reflect.Float64, reflect.Float32:
		if !fopts.Unsafe {''', '''	case reflect.Float64, reflect.Float32:
		if !fopts.Unsafe && rv.Float() != 0 {''')], F, []),
('fl-jsondec', [(JD, '''	case reflect.Float32, reflect.Float64:
		if !fopts.Unsafe {
			return errors.New("amino:JSON float* support requires `amino:\\"unsafe\\"`")
		}
		fallthrough
	case reflect.Bool''', '''	case reflect.Float64:
		if !fopts.Unsafe {
			return errors.New("amino:JSON float* support requires `amino:\\"unsafe\\"`")
		}
		fallthrough
	case reflect.Float32, reflect.Bool''')], F, []),
('fl-structopts', [(BE, 'err = cdc.encodeReflectBinary(buf, finfo, derefedVal, fieldOpts, bare)', 'fieldOpts.Unsafe = fieldOpts.Unsafe || structsFopts.Unsafe\n\terr = cdc.encodeReflectBinary(buf, finfo, derefedVal, fieldOpts, bare)')], F, []),
('fl-decstruct', [(BD, '\t_ FieldOptions, bare bool) (n int, err error) {', '\tfopts FieldOptions, bare bool) (n int, err error) {'), (BD, '_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, false)', 'fo := field.FieldOptions\n\t\t\t\tfo.Unsafe = fo.Unsafe || fopts.Unsafe\n\t\t\t\t_n, err = cdc.decodeReflectBinary(bz, finfo, frv, fo, false)')], F, []),
('fl-jsonstruct', [(JE, 'rv reflect.Value, _ FieldOptions) (err error) {', 'rv reflect.Value, fopts FieldOptions) (err error) {'), (JE, 'err = cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)', 'err = cdc.encodeReflectJSON(w, finfo, frv, fopts)')], F, []),
('fl-entry', [('amino.go', 'if err = cdc.encodeReflectJSON(w, info, rv, FieldOptions{}); err != nil {', 'if err = cdc.encodeReflectJSON(w, info, rv, FieldOptions{Unsafe: true}); err != nil {')], F, []),
('fl-tag', [('codec.go', 'if aminoTag == "unsafe" {', 'if aminoTag == "unsafe" || aminoTag == "write_empty" {')], F, []),
('fl-tag2', [('codec.go', '			fopts.WriteEmpty = true\n', '			fopts.WriteEmpty = true\n			fopts.Unsafe = true\n')], F, []),
('fl-map', [(JE, 'err = cdc.encodeReflectJSON(w, vinfo, vrv, fopts) // pass', 'vopts := fopts\n\t\t\tvopts.Unsafe = true\n\t\t\terr = cdc.encodeReflectJSON(w, vinfo, vrv, vopts) // pass')], F, []),
('fl-slice', [(JD, '	case reflect.Uint8: // Special case: byte slice', '	case reflect.Uint8, reflect.Float64: // Special case: byte slice')], F, []),
# behaviour kept
('fl-ok-helper', [(BE, '''		if !fopts.Unsafe {
			err = errors.New("amino float* support requires `amino:\\"unsafe\\"`")
			return
		}
		err = EncodeFloat64''', '''		if err = floatsAllowed(fopts); err != nil {
			return err
		}
		err = EncodeFloat64'''), (BE, None, '''
func floatsAllowed(fopts FieldOptions) error {
	if fopts.Unsafe {
		return nil
	}
	return errors.New("amino float* support requires `amino:\\"unsafe\\"`")
}
''')], [], F),
('fl-ok-entry', [('amino.go', 'if err = cdc.encodeReflectJSON(w, info, rv, FieldOptions{}); err != nil {', 'var fopts FieldOptions\n\tif err = cdc.encodeReflectJSON(w, info, rv, fopts); err != nil {')], [], F),
('fl-ok-fo', [(BD, '_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, false)', 'fo := field.FieldOptions\n\t\t\t\tfo.EmptyElements = false\n\t\t\t\t_n, err = cdc.decodeReflectBinary(bz, finfo, frv, fo, false)')], [], F),
('fl-ok-tag', [('codec.go', '''		if aminoTag == "unsafe" {
			fopts.Unsafe = true
		}
		if aminoTag == "write_empty" {
			fopts.WriteEmpty = true
		}
''', '''		switch aminoTag {
		case "unsafe":
			fopts.Unsafe = true
		case "write_empty":
			fopts.WriteEmpty = true
		}
''')], [], F),
('fl-ok-tag2', [('codec.go', '''		if aminoTag == "unsafe" {
			fopts.Unsafe = true
		}
''', '''		fopts.Unsafe = fopts.Unsafe || aminoTag == "unsafe"
''')], [], F),
('fl-ok-ptr', [('codec.go', '''	// Parse amino tags.
	aminoTags := strings.Split(aminoTag, ",")
	for _, aminoTag := range aminoTags {
		if aminoTag == "unsafe" {
			fopts.Unsafe = true
		}
		if aminoTag == "write_empty" {
			fopts.WriteEmpty = true
		}
		if aminoTag == "empty_elements" {
			fopts.EmptyElements = true
		}
	}
''', '''	parseAminoTag(aminoTag, &fopts)
'''), ('codec.go', None, '''
func parseAminoTag(aminoTag string, fopts *FieldOptions) {
	for _, part := range strings.Split(aminoTag, ",") {
		if part == "unsafe" {
			fopts.Unsafe = true
		}
		if part == "write_empty" {
			fopts.WriteEmpty = true
		}
		if part == "empty_elements" {
			fopts.EmptyElements = true
		}
	}
}
''')], [], F),
('fl-ok-jfield', [(JE, 'rv reflect.Value, _ FieldOptions) (err error) {', 'rv reflect.Value, fopts FieldOptions) (err error) {'), (JE, 'err = cdc.encodeReflectJSON(w, finfo, frv, field.FieldOptions)', 'fopts = field.FieldOptions\n\t\t\terr = cdc.encodeReflectJSON(w, finfo, frv, fopts)')], [], F),
]
