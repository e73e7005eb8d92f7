F='deep_copy.go'
def top(x): return (F, None, '\n'+x)
PR='''			reflect.Uint32, reflect.Uint16, reflect.Uint8,
			reflect.Uint, reflect.Bool, reflect.Float64,
			reflect.Float32, reflect.String:

			cpy :='''
PLAINF='''func isPlain(k reflect.Kind) bool {
	switch k {
	case reflect.Int64, reflect.Int32, reflect.Int16,
		reflect.Int8, reflect.Int, reflect.Uint64,
		reflect.Uint32, reflect.Uint16, reflect.Uint8,
		reflect.Uint, reflect.Bool, reflect.Float64,
		reflect.Float32, reflect.String:
		return true
	}
	return false
}
'''
SL='''		switch src.Type().Elem().Kind() {
		case reflect.Int64, reflect.Int32, reflect.Int16,
			reflect.Int8, reflect.Int, reflect.Uint64,
			reflect.Uint32, reflect.Uint16, reflect.Uint8,
			reflect.Uint, reflect.Bool, reflect.Float64,
			reflect.Float32, reflect.String:

			cpy := reflect.MakeSlice(
				src.Type(), src.Len(), src.Len())
			reflect.Copy(cpy, src)
			dst.Set(cpy)
			return
		default:
			cpy := reflect.MakeSlice(
				src.Type(), src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				esrc := src.Index(i)
				ecpy := cpy.Index(i)
				deepCopy(esrc, ecpy)
			}
			dst.Set(cpy)
			return
		}
'''
PTR='''		cpy := reflect.New(src.Type().Elem())
		deepCopy(src.Elem(), cpy.Elem())
		dst.Set(cpy)
		return

	case reflect.Interface:'''
IFC='''		cpy := reflect.New(src.Elem().Type())
		deepCopy(src.Elem(), cpy.Elem())
		dst.Set(cpy.Elem())
'''
MAP='''			val := reflect.New(src.Type().Elem()).Elem()
			deepCopy(src.MapIndex(key), val)
			cpy.SetMapIndex(key, val)
'''
STR='''			for i := 0; i < src.NumField(); i++ {
				if !isExported'''
TOP='''	src := reflect.ValueOf(o)
	dst := reflect.New(src.Type()).Elem()
'''
M=[
 ('cp-slice-struct', [(F,PR,PR.replace('reflect.String:','reflect.String, reflect.Struct:'))], ['C19'], []),
 ('cp-slice-array', [(F,PR,PR.replace('reflect.String:','reflect.String, reflect.Array:'))], ['C19'], []),
 ('cp-iface', [(F,IFC,'''		if src.Elem().Kind() != reflect.Ptr {
			// Boxed values are never changed.
			dst.Set(src.Elem())
			return
		}
'''+IFC)], ['C19'], []),
 ('cp-map', [(F,MAP,'''			if src.Type().Elem().Kind() == reflect.Struct {
				cpy.SetMapIndex(key, src.MapIndex(key))
				continue
			}
'''+MAP)], ['C19'], []),
 ('cp-struct', [(F,STR,'			dst.Set(src)\n'+STR)], ['C19'], []),
 ('cp-bytes', [(F,TOP,'''	if bz, ok := o.([]byte); ok {
		return bz[:len(bz):len(bz)]
	}
'''+TOP)], ['C19'], []),
 ('cp-empty', [(F,SL,'''		if src.Len() == 0 {
			dst.Set(src)
			return
		}
'''+SL)], ['C19'], []),
 ('cp-append', [(F,SL,SL.replace('''			cpy := reflect.MakeSlice(
				src.Type(), src.Len(), src.Len())
			reflect.Copy(cpy, src)
''','''			cpy := reflect.AppendSlice(src.Slice(0, 0), src)
'''))], ['C19'], []),
 ('cp-ptr', [(F,PTR,'''		if src.Elem().Kind() == reflect.String {
			dst.Set(src)
			return
		}
'''+PTR)], ['C19'], []),
 ('cp-fill', [(F,SL,SL.replace('''			for i := 0; i < src.Len(); i++ {
				esrc''','''			reflect.Copy(cpy, src)
			for i := 0; i < src.Len(); i++ {
				if isNil(src.Index(i)) {
					continue
				}
				esrc'''))], ['C19'], []),
 ('cp-top', [(F,TOP,TOP.replace('	dst :=','''	if src.Kind() == reflect.Ptr && src.Elem().Kind() == reflect.String {
		return o
	}
	dst :='''))], ['C19'], []),
 # the same, written differently
 ('cp-q-plain', [(F,SL,'''		n := src.Len()
		cpy := reflect.MakeSlice(src.Type(), n, n)
		if isPlain(src.Type().Elem().Kind()) {
			reflect.Copy(cpy, src)
		} else {
			for i := n - 1; i >= 0; i-- {
				deepCopy(src.Index(i), cpy.Index(i))
			}
		}
		dst.Set(cpy)
		return
'''),top(PLAINF)], [], ['C19']),
 ('cp-q-helper', [(F,SL,'		copySlice(src, dst)\n		return\n'),top('func copySlice(src, dst reflect.Value) {\n'+SL+'}\n')], [], ['C19']),
 ('cp-q-set', [(F,'	case reflect.Bool:\n		dst.SetBool(src.Bool())\n','	case reflect.Bool:\n		dst.Set(src)\n')], [], ['C19']),
 ('cp-q-early', [(F,TOP,TOP.replace('	dst :=','''	if isPlain(src.Kind()) {
		return o
	}
	dst :=''')),top(PLAINF)], [], ['C19']),
 ('cp-q-bytes', [(F,TOP,'''	if bz, ok := o.([]byte); ok && bz != nil {
		return append([]byte{}, bz...)
	}
'''+TOP)], [], ['C19']),
 ('cp-q-maprange', [(F,'''		keys := src.MapKeys()
		for _, key := range keys {
''','''		for iter := src.MapRange(); iter.Next(); {
			key := iter.Key()
'''),(F,'deepCopy(src.MapIndex(key), val)','deepCopy(iter.Value(), val)')], [], ['C19']),
 ('cp-q-newfn', [(F,IFC,'''		dst.Set(copyOf(src.Elem()))
'''),top('''func copyOf(src reflect.Value) reflect.Value {
	dst := reflect.New(src.Type()).Elem()
	deepCopy(src, dst)
	return dst
}
''')], [], ['C19']),
]
M += [
 ('cp-newfn-bad', [(F,IFC,"""		dst.Set(copyOf(src.Elem()))
"""),top("""func copyOf(src reflect.Value) reflect.Value {
	dst := reflect.New(src.Type()).Elem()
	deepCopy(src, dst)
	if src.Kind() == reflect.Struct {
		return src
	}
	return dst
}
""")], ['C19'], []),
]
