L = ['C01', 'C02', 'C03']
M = [
('lk-rlock-name', [('codec.go', '''	cdc.mtx.RLock()

	info, ok := cdc.nameToTypeInfo[name]
	if !ok {
		err = fmt.Errorf("unrecognized concrete type name %s", name)
		cdc.mtx.RUnlock()
		return
	}
	cdc.mtx.RUnlock()
''', '''	cdc.mtx.RLock()
	infos := cdc.nameToTypeInfo
	cdc.mtx.RUnlock()

	info, ok := infos[name]
	if !ok {
		err = fmt.Errorf("unrecognized concrete type name %s", name)
		return
	}
''')], ['C01'], ['C02', 'C03']),
('lk-missing-unlock', [('codec.go', '''		err = fmt.Errorf("unrecognized concrete type name %s", name)
		cdc.mtx.RUnlock()
''', '''		err = fmt.Errorf("unrecognized concrete type name %s", name)
''')], ['C02'], ['C01', 'C03']),
('lk-upgrade', [('codec.go', '''	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
''', '''	cdc.mtx.RLock()
	defer cdc.mtx.RUnlock()
''')], ['C01'], ['C02']),
('lk-dcl', [('codec.go', '''	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
''', '''	if info, ok := cdc.typeInfos[rt]; ok {
		return info, nil
	}
	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
''')], ['C01'], ['C02', 'C03']),
('lk-fastpath-ok', [('codec.go', '''	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
''', '''	cdc.mtx.RLock()
	info, found := cdc.typeInfos[rt]
	cdc.mtx.RUnlock()
	if found {
		return info, nil
	}
	cdc.mtx.Lock() // requires wlock because we might set.
	defer cdc.mtx.Unlock()
''')], [], L),
('lk-print-nolock', [('codec.go', '''	cdc.mtx.RLock()
	defer cdc.mtx.RUnlock()
	// print header''', '''	// print header''')], ['C01'], ['C02', 'C03']),
('lk-print-manual', [('codec.go', '''	cdc.mtx.RLock()
	defer cdc.mtx.RUnlock()
	// print header''', '''	cdc.mtx.RLock()
	infos := append([]*TypeInfo(nil), cdc.concreteInfos...)
	cdc.mtx.RUnlock()
	// print header'''), ('codec.go', 'for _, i := range cdc.concreteInfos {\n\t\tif _, err := io.W', 'for _, i := range infos {\n\t\tif _, err := io.W')], [], L),
('lk-print-recursive', [('codec.go', '''io.WriteString(out, getLengthStr(i))''', '''io.WriteString(out, func() string { x, _ := cdc.getTypeInfoFromNameRlock(i.Name); return getLengthStr(x) }())''')], ['C02'], ['C01', 'C03']),
('lk-seal-nolock', [('codec.go', '''	cdc.mtx.Lock()
	defer cdc.mtx.Unlock()

	cdc.sealed = true''', '''	cdc.sealed = true''')], ['C01'], []),
('lk-seal-cond', [('codec.go', '''	cdc.sealed = true
	return cdc''', '''	if len(cdc.concreteInfos) > 0 {
		cdc.sealed = true
	}
	return cdc''')], ['C03'], ['C01', 'C02']),
('lk-check-outside', [('codec.go', '''	// Construct ConcreteInfo.
	var info''', '''	cdc.mtx.RLock()
	cdc.assertNotSealedNolock()
	cdc.mtx.RUnlock()
	// Construct ConcreteInfo.
	var info'''), ('codec.go', '''		cdc.assertNotSealedNolock()
		cdc.checkTypeInfoNolock(info)''', '''		cdc.checkTypeInfoNolock(info)''')], ['C03'], ['C01']),
('lk-iface-after', [('codec.go', '''		cdc.assertNotSealedNolock()
		cdc.collectImplementersNolock(info)''', '''		cdc.collectImplementersNolock(info)'''), ('codec.go', '''			panic(err)
		}
		cdc.setTypeInfoNolock(info)
	}()
	/*''', '''			panic(err)
		}
		cdc.setTypeInfoNolock(info)
		cdc.assertNotSealedNolock()
	}()
	/*''')], ['C03'], ['C01', 'C02']),
('lk-reg-silent', [('codec.go', '''func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOptions) {
''', '''func (cdc *Codec) RegisterConcrete(o interface{}, name string, copts *ConcreteOptions) {
	if existing, err := cdc.getTypeInfoFromNameRlock(name); err == nil && existing.Type == reflect.TypeOf(o) {
		return
	}
''')], ['C03'], ['C01', 'C02']),
('lk-lazy-field', [('codec.go', '''	IsAminoMarshaler       bool ''', '''	nuse int
	IsAminoMarshaler       bool '''), ('binary-encode.go', '''	// Write disambiguation bytes if needed.
	needDisamb := false''', '''	cinfo.nuse++
	// Write disambiguation bytes if needed.
	needDisamb := false''')], ['C01'], ['C02', 'C03']),
('lk-global-cache', [('codec.go', '''func toDisfix(''', '''var lenCache = map[string]string{}

func toDisfix('''), ('codec.go', '''	switch info.Type.Kind() {
	case reflect.Array,''', '''	lenCache[info.Name] = info.Name
	switch info.Type.Kind() {
	case reflect.Array,''')], ['C01'], ['C02', 'C03']),
('lk-sort-print', [('codec.go', '''	for _, i := range cdc.concreteInfos {
		if _, err := io.W''', '''	sort.Slice(cdc.concreteInfos, func(a, b int) bool { return cdc.concreteInfos[a].Name < cdc.concreteInfos[b].Name })
	for _, i := range cdc.concreteInfos {
		if _, err := io.W'''), ('codec.go', '"reflect"\n', '"reflect"\n\t"sort"\n')], ['C01'], ['C02', 'C03']),
('lk-helper-ok', [('codec.go', '''	func() {
		cdc.mtx.Lock()
		defer cdc.mtx.Unlock()

		cdc.assertNotSealedNolock()
		cdc.checkTypeInfoNolock(info)
		cdc.addCheckConflictsWithConcreteNolock(info)
		cdc.setTypeInfoNolock(info)
	}()
''', '''	cdc.withLock(func() {
		if err := cdc.sealErr(); err != nil {
			panic(err)
		}
		cdc.checkTypeInfoNolock(info)
		cdc.addCheckConflictsWithConcreteNolock(info)
		cdc.setTypeInfoNolock(info)
	})
'''), ('codec.go', None, '''
func (cdc *Codec) withLock(f func()) {
	cdc.mtx.Lock()
	defer cdc.mtx.Unlock()
	f()
}
func (cdc *Codec) isSealed() bool { return cdc.sealed }
func (cdc *Codec) sealErr() error {
	if !cdc.isSealed() {
		return nil
	}
	return errors.New("codec sealed")
}
''')], [], L),
('lk-lockret-ok', [('codec.go', '''	cdc.mtx.RLock()
	defer cdc.mtx.RUnlock()
	// print header''', '''	defer cdc.rlock()()
	// print header'''), ('codec.go', None, '''
func (cdc *Codec) rlock() func() {
	cdc.mtx.RLock()
	return cdc.mtx.RUnlock
}
''')], [], L),
('lk-info-builder-ok', [('codec.go', '''	info.Type = rt
	info.PtrToType = reflect.PtrTo(rt)
	info.ZeroValue = reflect.Zero(rt)
	info.ZeroProto = reflect.Zero(rt).Interface()
	if rt.Kind() == reflect.Struct {''', '''	initInfo(info, rt)
	if rt.Kind() == reflect.Struct {'''), ('codec.go', None, '''
func initInfo(info *TypeInfo, rt reflect.Type) {
	info.Type = rt
	info.PtrToType = reflect.PtrTo(rt)
	info.ZeroValue = reflect.Zero(rt)
	info.ZeroProto = reflect.Zero(rt).Interface()
}
''')], [], L),
('lk-seal-idempotent-ok', [('codec.go', '''	cdc.sealed = true
	return cdc''', '''	if !cdc.sealed {
		cdc.sealed = true
	}
	return cdc''')], [], L),
('lk-inline-unlock-ok', [('codec.go', '''	defer cdc.mtx.RUnlock()

	return len(iinfo.Implementers[pb]) > 1''', '''	n := len(iinfo.Implementers[pb])
	cdc.mtx.RUnlock()
	return n > 1''')], [], L),

('lk-scratch', [('encoder.go', """	var buf [10]byte
	n := binary.PutUvarint(buf[:], u)
	_, err = w.Write(buf[0:n])""", """	n := binary.PutUvarint(scratch[:], u)
	_, err = w.Write(scratch[0:n])"""), ('encoder.go', None, """
var scratch [10]byte
""")], ['C01'], ['C02']),
('lk-hasher', [('codec.go', "	hasher := sha256.New()\n", "	hasher.Reset()\n"), ('codec.go', None, """
var hasher = sha256.New()
""")], ['C01'], ['C02']),
]
