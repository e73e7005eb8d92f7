# C28: the list of fields and its uses.
C='codec.go'; BD='binary-decode.go'; BE='binary-encode.go'; JE='json-encode.go'; JD='json-decode.go'
X=['C28']
SKIP='''		if !isExported(field) {
			continue // field is unexported
		}
'''
M=[
('fld-num-index',[(C,'uint32(len(infos) + 1)','uint32(i + 1)')],X,[]),
('fld-num-zero',[(C,'uint32(len(infos) + 1)','uint32(len(infos))')],X,[]),
('fld-embedded',[(C,'if !isExported(field) {','if !isExported(field) || field.Anonymous {')],X,[]),
('fld-func',[(C,SKIP,SKIP+'''		if ftype.Kind() == reflect.Chan && field.Tag != "" {
			continue
		}
''')],X,[]),
('fld-dash-name',[(C,'if jsonTag == "-" {','if jsonTag == "-" && binTag == "" {')],X,[]),
('fld-dash-prefix',[(C,'if jsonTag == "-" {','if strings.HasPrefix(jsonTag, "-") {')],X,[]),
('fld-reverse',[(C,'var field = rt.Field(i)','var field = rt.Field(rt.NumField() - 1 - i)')],X,[]),
('fld-first',[(C,'for i := 0; i < rt.NumField(); i++ {\n\t\tvar field','for i := 0; i < rt.NumField() && len(infos) < 64; i++ {\n\t\tvar field')],X,[]),
('fld-index',[(C,'Index:        i,','Index:        len(infos),')],X,[]),
('fld-type',[(C,'Type:         ftype,','Type:         rt.Field(len(infos)).Type,')],X,[]),
('fld-private',[(C,'	return unicode.IsUpper(first)','	return unicode.IsUpper(first) || first == \'_\'')],X,[]),
('fld-first-letter',[(C,'		first = c\n		break\n','		first = c\n')],X,[]),
('fld-json-tagname',[(C,'fopts.JSONName = jsonTagParts[0]','fopts.JSONName = binTag')],X,[]),
('fld-dec-break',[(BD,'''				frv.Set(defaultValue(frv.Type()))
				continue
			}

			if field.Unp''','''				frv.Set(defaultValue(frv.Type()))
				break
			}

			if field.Unp''')],X,[]),
('fld-dec-noset',[(BD,'''				if field.BinFieldNum < fnum {
					// Set zero field value.
					frv.Set(defaultValue(frv.Type()))
					continue''','''				if field.BinFieldNum < fnum {
					if frv.Kind() != reflect.Ptr || frv.IsNil() {
						frv.Set(defaultValue(frv.Type()))
					}
					continue''')],X,[]),
('fld-dec-anynum',[(BD,'if field.BinFieldNum != fnum {','if field.BinFieldNum != fnum && !field.WriteEmpty {')],X,[]),
('fld-dec-fopts',[(BD,'_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, false)','_n, err = cdc.decodeReflectBinary(bz, finfo, frv, FieldOptions{}, false)')],X,[]),
('fld-dec-listopts',[(BD,'_n, err = cdc.decodeReflectBinary(bz, finfo, frv, field.FieldOptions, true)','_n, err = cdc.decodeReflectBinary(bz, finfo, frv, FieldOptions{BinFieldNum: field.BinFieldNum}, true)')],X,[]),
('fld-enc-pos',[(BE,'for _, field := range info.Fields {','for i, field := range info.Fields {'),(BE,'frv = rv.Field(field.Index)','frv = rv.Field(i)')],X,[]),
('fld-enc-num',[(BE,'writeFieldIfNotEmpty(buf, field.BinFieldNum,','writeFieldIfNotEmpty(buf, uint32(field.Index+1),')],X,[]),
('fld-enc-unsafe',[(BE,'''			if isDefault && !field.WriteEmpty {''','''			if isDefault {''')],X,[]),
('fld-enc-skipkind',[(BE,'''			if isDefault && !field.WriteEmpty {''','''			if (isDefault || dfrv.Kind() == reflect.Interface && field.UnpackedList) && !field.WriteEmpty {''')],X,[]),
('fld-json-fieldname',[(JD,'rawMap[field.JSONName]','rawMap[field.Name]')],X,[]),
('fld-json-encname',[(JE,'invokeStdlibJSONMarshal(w, field.JSONName)','invokeStdlibJSONMarshal(w, field.Name)')],X,[]),
('fld-json-nil',[(JE,'''			err = writeStr(w, `null`)
		} else {
			err = cdc.encodeReflectJSON(w, finfo, frv, field''','''			err = writeStr(w, `null`)
		} else if frv.Kind() != reflect.Func {
			err = cdc.encodeReflectJSON(w, finfo, frv, field''')],X,[]),
('fld-json-empty',[(JE,'	case reflect.Slice, reflect.Array, reflect.String:\n		if rv.Len() == 0 {','	case reflect.Slice, reflect.Array, reflect.String:\n		if rv.Len() <= 1 {')],X,[]),
('fld-json-null',[(JE,'if field.JSONOmitEmpty && isEmpty','if (field.JSONOmitEmpty || isNil) && isEmpty')],X,[]),
('fld-json-keep',[(JD,'if !field.JSONOmitEmpty {','if !field.JSONOmitEmpty && !field.WriteEmpty {')],X,[]),
('fld-json-first',[(JD,'		if len(valueBytes) == 0 {\n','		if len(rawMap) == 0 {\n			return nil\n		}\n		if len(valueBytes) == 0 {\n')],X,[]),
# same behaviour
('fld-ok-index',[(BE,'for _, field := range info.Fields {','for i := range info.Fields {\n			field := info.Fields[i]')],[],X),
('fld-ok-ptr',[(JD,'for _, field := range info.Fields {','for i := 0; i < len(info.Fields); i++ {\n			field := &info.Fields[i]')],[],X),
('fld-ok-count',[(C,'uint32(len(infos) + 1)','num'),(C,'	var infos = make(','	var num uint32\n	_ = num\n	var infos = make('),(C,'		// NOTE: BinFieldNum starts with 1.\n','		num = uint32(len(infos)) + 1\n')],[],X),
('fld-ok-positive',[(C,SKIP,''),(C,'		skip, fopts := cdc.parseFieldOptions(field)\n		if skip {\n','		skip, fopts := cdc.parseFieldOptions(field)\n		if skip || !isExported(field) {\n')],[],X),
('fld-ok-helper',[(BD,'''			if len(bz) == 0 {
				frv.Set(defaultValue(frv.Type()))
				continue''','''			if len(bz) == 0 {
				setDefault(frv)
				continue'''),(BD,None,'\nfunc setDefault(rv reflect.Value) { rv.Set(defaultValue(rv.Type())) }\n')],[],X),
('fld-ok-exported',[(C,'''	var first rune
	for _, c := range field.Name {
		first = c
		break
	}
''','''	first := []rune(field.Name)[0]
''')],[],X),
('fld-ok-pkgpath',[(C,'	return unicode.IsUpper(first)','	_ = first\n	return true'),(C,'"unicode"\n',''),],[],[]),
('fld-ok-fieldhelper',[(BD,'''		for _, field := range info.Fields {
			// Get field rv and info.
			var frv = rv.Field(field.Index)
''','''		fields := info.Fields
		for _, field := range fields {
			// Get field rv and info.
			var frv = rv.Field(field.Index)
''')],[],X),
('fld-ok-empty',[(JE,'		if field.JSONOmitEmpty && isEmpty(frv, field.ZeroValue) {\n			continue\n		}\n','		if field.JSONOmitEmpty {\n			if isEmpty(frv, field.ZeroValue) {\n				continue\n			}\n		}\n')],[],X),
]
