R = ['C04', 'C05']
M = [
('rg-order', [('codec.go', '''		cdc.checkTypeInfoNolock(info)
		cdc.addCheckConflictsWithConcreteNolock(info)
		cdc.setTypeInfoNolock(info)''', '''		cdc.addCheckConflictsWithConcreteNolock(info)
		cdc.setTypeInfoNolock(info)''')], ['C04'], ['C05']),
('rg-order2', [('codec.go', '''		cdc.checkTypeInfoNolock(info)
		cdc.addCheckConflictsWithConcreteNolock(info)
		cdc.setTypeInfoNolock(info)''', '''		cdc.setTypeInfoNolock(info)
		cdc.addCheckConflictsWithConcreteNolock(info)''')], ['C04'], ['C05']),
('rg-iface-order', [('codec.go', '''		cdc.collectImplementersNolock(info)
		err := cdc.checkConflictsInPrioNolock(info)
		if err != nil {
			panic(err)
		}
		cdc.setTypeInfoNolock(info)''', '''		cdc.collectImplementersNolock(info)
		cdc.setTypeInfoNolock(info)
		err := cdc.checkConflictsInPrioNolock(info)
		if err != nil {
			panic(err)
		}''')], ['C04'], ['C05']),
('rg-two-loops', [('codec.go', '''		iinfos = append(iinfos, iinfo)
	}
''', '''		iinfo.Implementers[cinfo.Prefix] = append(iinfo.Implementers[cinfo.Prefix], cinfo)
	}
''')], ['C04'], ['C05']),
('rg-noname-check', [('codec.go', '''		if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
			panic(fmt.Sprintf("name <%s> already registered for %v", info.Name, existing.Type))
		}
''', '')], ['C05'], ['C04']),
('rg-nodisfix-check', [('codec.go', '''		if existing, ok := cdc.disfixToTypeInfo[disfix]; ok {
			panic(fmt.Sprintf("disfix <%X> already registered for %v", disfix, existing.Type))
		}
''', '''		_ = disfix
''')], ['C05'], ['C04']),
('rg-check-samename', [('codec.go', '''existing, ok := cdc.disfixToTypeInfo[disfix]; ok {''', '''existing, ok := cdc.disfixToTypeInfo[disfix]; ok && existing.Name != info.Name {''')], ['C05'], ['C04']),
('rg-type-check-reg', [('codec.go', '''	if _, ok := cdc.typeInfos[info.Type]; ok {
		panic''', '''	if old, ok := cdc.typeInfos[info.Type]; ok && old.Registered {
		panic''')], ['C05'], ['C04']),
('rg-ptr-type', [('codec.go', '''	cdc.typeInfos[info.Type] = info
	if''', '''	cdc.typeInfos[info.Type] = info
	if info.PointerPreferred {
		cdc.typeInfos[info.PtrToType] = info
	}
	if''')], ['C05'], ['C04']),
('rg-no-name-entry', [('codec.go', '''		cdc.nameToTypeInfo[info.Name] = info
''', '''		if info.Type.Kind() == reflect.Struct {
			cdc.nameToTypeInfo[info.Name] = info
		}
''')], ['C05'], ['C04']),
('rg-wlock-gap', [('codec.go', '''	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()

	// Dereference pointer type.
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}

	info, ok := cdc.typeInfos[rt]
	if !ok {''', '''	cdc.mtx.RLock()
	// Dereference pointer type.
	for rt.Kind() == reflect.Ptr {
		rt = rt.Elem()
	}

	info, ok := cdc.typeInfos[rt]
	cdc.mtx.RUnlock()
	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
	if !ok {'''), ('codec.go', '''	cdc.checkTypeInfoNolock(info)

	cdc.typeInfos''', '''	if info.Registered {
		cdc.checkTypeInfoNolock(info)
	}

	cdc.typeInfos''')], ['C05'], ['C04', 'C01', 'C02']),
('rg-inline-check-ok', [('codec.go', '''	cdc.checkTypeInfoNolock(info)

	cdc.typeInfos''', '''	if _, ok := cdc.typeInfos[info.Type]; ok {
		panic(fmt.Sprintf("TypeInfo already exists for %v", info.Type))
	}
	if info.Registered {
		if cdc.nameTaken(info.Name) {
			panic(fmt.Sprintf("name <%s> already registered", info.Name))
		}
		df := toDisfix(info.Disamb, info.Prefix)
		if _, ok := cdc.disfixToTypeInfo[df]; ok {
			panic("disfix")
		}
	}

	cdc.typeInfos'''), ('codec.go', None, '''
func (cdc *Codec) nameTaken(name string) bool {
	_, ok := cdc.nameToTypeInfo[name]
	return ok
}
''')], [], R + ['C01', 'C02', 'C03']),
('rg-err-return-ok', [('codec.go', '''		cdc.checkTypeInfoNolock(info)
		cdc.addCheck''', '''		if err := cdc.conflict(info); err != nil {
			panic(err)
		}
		cdc.addCheck'''), ('codec.go', None, '''
func (cdc *Codec) conflict(info *TypeInfo) error {
	if info.Type.Kind() == reflect.Ptr {
		return errors.New("unexpected pointer type")
	}
	if _, ok := cdc.typeInfos[info.Type]; ok {
		return errors.Errorf("TypeInfo already exists for %v", info.Type)
	}
	if !info.Registered {
		return nil
	}
	if existing, ok := cdc.nameToTypeInfo[info.Name]; ok {
		return errors.Errorf("name <%s> already registered for %v", info.Name, existing.Type)
	}
	if existing, ok := cdc.disfixToTypeInfo[info.GetDisfix()]; ok {
		return errors.Errorf("already registered for %v", existing.Type)
	}
	return nil
}
''')], [], R + ['C03']),
('rg-order-writes-ok', [('codec.go', '''	cdc.typeInfos[info.Type] = info
	if info.Type.Kind() == reflect.Interface {
		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
	} else if info.Registered {
		cdc.concreteInfos = append(cdc.concreteInfos, info)
		cdc.disfixToTypeInfo[info.GetDisfix()] = info
		cdc.nameToTypeInfo[info.Name] = info
''', '''	switch isIface := info.Type.Kind() == reflect.Interface; {
	case isIface:
		cdc.interfaceInfos = append(cdc.interfaceInfos, info)
	case info.Registered:
		cdc.nameToTypeInfo[info.Name] = info
		cdc.disfixToTypeInfo[info.GetDisfix()] = info
		cdc.concreteInfos = append(cdc.concreteInfos, info)
'''), ('codec.go', '''		//	append(cdc.prefixToTypeInfos[prefix], info)
	}
''', '''		//	append(cdc.prefixToTypeInfos[prefix], info)
	}
	cdc.typeInfos[info.Type] = info
''')], [], R + ['C03', 'C01']),
('rg-single-loop-ok', [('codec.go', '''	for _, cinfos := range iinfo.Implementers {
		err := cdc.checkConflictInPrioNolock(iinfo, cinfos)
		if err != nil {
			return err
		}
	}
	return nil''', '''	var first error
	for _, cinfos := range iinfo.Implementers {
		if err := cdc.checkConflictInPrioNolock(iinfo, cinfos); err != nil && first == nil {
			first = err
		}
	}
	return first''')], [], R),
]
