# C17: values in interfaces.
BD='binary-decode.go'; BE='binary-encode.go'; JD='json-decode.go'; JE='json-encode.go'; C='codec.go'
X=['C17']
BIMP='''	if !irvSet.Type().Implements(rv.Type()) {
		err = fmt.Errorf("%v does not implement %v", irvSet.Type(), rv.Type())
		return
	}
'''
JIMP='''	if !irvSet.Type().Implements(rv.Type()) {
		err = errors.Errorf("%v does not implement %v", irvSet.Type(), rv.Type())
		return
	}
'''
M=[
 ('ifc-b-noimpl',[(BD,BIMP,'')],X,[]),
 ('ifc-j-noimpl',[(JD,JIMP,'')],X,[]),
 ('ifc-b-crv',[(BD,'if !irvSet.Type().Implements(rv.Type())','if !crv.Type().Implements(rv.Type()) && !crv.Addr().Type().Implements(rv.Type())')],X,[]),
 ('ifc-b-disamb-only',[(BD,'if !irvSet.Type().Implements(rv.Type())','if !hasDisamb && !irvSet.Type().Implements(rv.Type())')],X,[]),
 ('ifc-j-ptrto',[(JD,'if !irvSet.Type().Implements(rv.Type())','if !reflect.PtrTo(cinfo.Type).Implements(rv.Type())')],X,[]),
 ('ifc-j-empty',[(JD,'if !irvSet.Type().Implements(rv.Type())','if rv.NumMethod() > 1 && !irvSet.Type().Implements(rv.Type())')],X,[]),
 ('ifc-b-enc-noreg',[(BE,'''	if !cinfo.Registered {
		err = fmt.Errorf("cannot encode unregistered concrete type %v", crt)
		return
	}
''','')],X,[]),
 ('ifc-j-enc-noreg',[(JE,'''	if !cinfo.Registered {
		err = errors.Errorf("cannot encode unregistered concrete type %v", crt)
		return
	}
''','')],X,[]),
 ('ifc-j-enc-struct',[(JE,'if !cinfo.Registered {','if !cinfo.Registered && crt.Kind() != reflect.Struct {')],X,[]),
 ('ifc-b-enc-iinfo',[(BE,'if !cinfo.Registered {','if !cinfo.Registered && !iinfo.Registered {')],X,[]),
 ('ifc-name-any',[(C,'''		cdc.nameToTypeInfo[info.Name] = info
''',''),(C,'''	} else if info.Registered {
		cdc.concrete''','''	} else if cdc.nameToTypeInfo[info.Name] = info; info.Registered {
		cdc.concrete''')],X,[]),
 ('ifc-concrete-any',[(C,'''	} else if info.Registered {
		cdc.concreteInfos = append(cdc.concreteInfos, info)
''','''	} else if cdc.concreteInfos = append(cdc.concreteInfos, info); info.Registered {
''')],X,[]),
 ('ifc-name-typeinfos',[(C,'func (cdc *Codec) getTypeInfoFromNameRlock(name string) (info *TypeInfo, err error) {','''func (cdc *Codec) getTypeInfoFromNameRlock(name string) (info *TypeInfo, err error) {
	cdc.mtx.RLock()
	for _, ti := range cdc.typeInfos {
		if ti.Type.String() == name {
			cdc.mtx.RUnlock()
			return ti, nil
		}
	}
	cdc.mtx.RUnlock()''')],X,[]),
 ('ifc-j-lib',[(JD,'''	case reflect.Interface:
		err = cdc.decodeReflectJSONInterface(bz, info, rv, fopts)
''','''	case reflect.Interface:
		if bz[0] == '"' && rv.NumMethod() == 0 {
			err = json.Unmarshal(bz, rv.Addr().Interface())
			return
		}
		err = cdc.decodeReflectJSONInterface(bz, info, rv, fopts)
''')],X,[]),
 ('ifc-j-maplib',[(JD,'''	case reflect.Map:
		err = cdc.decodeReflectJSONMap(bz, info, rv, fopts)
''','''	case reflect.Map:
		if rv.Type().Key().Kind() == reflect.String {
			err = json.Unmarshal(bz, rv.Addr().Interface())
			return
		}
		err = cdc.decodeReflectJSONMap(bz, info, rv, fopts)
''')],X,[]),
 ('ifc-j-any',[(JD,'''	name, bz, err := decodeInterfaceJSON(bz)
''','''	if rv.NumMethod() == 0 && bz[0] == '"' {
		rv.Set(reflect.ValueOf(string(bz)))
		return
	}
	name, bz, err := decodeInterfaceJSON(bz)
''')],X,[]),
 # behaviour kept
 ('ifc-ok-var',[(BD,'''	if !irvSet.Type().Implements(rv.Type()) {
		err = fmt''','''	it := rv.Type()
	if ok := irvSet.Type().Implements(it); !ok {
		err = fmt''')],[],X),
 ('ifc-ok-helper',[(JD,JIMP,'''	if err = mustImplement(irvSet, rv.Type()); err != nil {
		return
	}
'''),(JD,None,'''
func mustImplement(v reflect.Value, it reflect.Type) error {
	if v.Type().Implements(it) {
		return nil
	}
	return errors.Errorf("%v does not implement %v", v.Type(), it)
}
''')],[],X),
 ('ifc-ok-reghelper',[(BE,'if !cinfo.Registered {','if unregistered(cinfo) {'),(BE,None,'''
func unregistered(info *TypeInfo) bool { return !info.Registered }
''')],[],X),
 ('ifc-ok-lookup',[(BD,'''	var cinfo *TypeInfo
	switch {
	case hasDisamb:
		cinfo, err = cdc.getTypeInfoFromDisfixRlock(toDisfix(disamb, prefix))
	case hasPrefix:
		cinfo, err = cdc.getTypeInfoFromPrefixRlock(iinfo, prefix)
	default:
		err = errors.New("expected disambiguation or prefix bytes")
	}
	if err''','''	cinfo, err := cdc.selectType(iinfo, disamb, hasDisamb, prefix, hasPrefix)
	if err'''),(BD,None,'''
func (cdc *Codec) selectType(iinfo *TypeInfo, db DisambBytes, hasDisamb bool, pb PrefixBytes, hasPrefix bool) (*TypeInfo, error) {
	if hasDisamb {
		return cdc.getTypeInfoFromDisfixRlock(toDisfix(db, pb))
	}
	if hasPrefix {
		return cdc.getTypeInfoFromPrefixRlock(iinfo, pb)
	}
	return nil, errors.New("expected disambiguation or prefix bytes")
}
''')],[],X),
 ('ifc-ok-set',[(C,'''	if info.Type.Kind() == reflect.Interface {
		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
	} else if info.Registered {
		cdc.concreteInfos''','''	switch {
	case info.Type.Kind() == reflect.Interface:
		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
	case info.Registered:
		cdc.concreteInfos''')],[],X),
]
