J='json-encode.go'
SORT='''	var keys = rv.MapKeys()
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
'''
def s(new): return [(J, SORT, new)]
LOOP='''	for _, krv := range keys {
		// Get dereferenced object value and info.
'''
FN='func (cdc *Codec) encodeReflectJSONMap('
def top(x): return (J, None, '\n'+x)
M=[
 ('det-nosort', [(J,SORT,'	var keys = rv.MapKeys()\n	_ = sort.Strings\n')], ['C13'], []),
 ('det-len', s(SORT.replace('keys[i].String() < keys[j].String()','len(keys[i].String()) < len(keys[j].String())')), ['C13'], []),
 ('det-many', s('''	var keys = rv.MapKeys()
	if len(keys) > 12 {
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	}
'''), ['C13'], []),
 ('det-fold', s(SORT.replace('keys[i].String() < keys[j].String()','strings.ToLower(keys[i].String()) < strings.ToLower(keys[j].String())'))+[(J,'	"sort"\n','	"sort"\n	"strings"\n')], ['C13'], []),
 ('det-prefix', s(SORT.replace('keys[i].String() < keys[j].String()','keys[i].String()[0] < keys[j].String()[0]')), ['C13'], []),
 ('det-ii', s(SORT.replace('keys[i].String() < keys[j].String()','keys[i].String() < keys[0].String()')), ['C13'], []),
 ('det-sortother', s('''	var keys = rv.MapKeys()
	var sorted = append([]reflect.Value(nil), keys...)
	sort.Slice(sorted, func(i, j int) bool { return sorted[i].String() < sorted[j].String() })
	_ = sorted
'''), ['C13'], []),
 ('det-nokind', [(J,'rv.Type().Key().Kind() != reflect.String','rv.Type().Key().Kind() == reflect.Struct')], ['C13'], []),
 ('det-iter', [(J,SORT,'	_ = sort.Strings\n'),(J,LOOP,'''	for it := rv.MapRange(); it.Next(); {
		krv := it.Key()
''')], ['C13'], []),
 ('det-clock', [(J,FN,'var started = time.Now()\n\n'+FN),(J,SORT,SORT+'	if time.Since(started) < 0 {\n		return nil\n	}\n')], ['C13'], []),
 ('det-print', [(J,'''		_, err = fmt.Fprintf(w, `"%d"`, rv.Uint()) // JS can't handle uint64''','''		_, err = fmt.Fprintf(w, `"%v"`, rv.Interface()) // JS can't handle uint64''')], ['C13'], []),
 ('det-count', [(J,FN,'var mapsWritten int\n\n'+FN),(J,SORT,SORT+'	mapsWritten++\n')], ['C13'], []),
 ('det-gomap', [(J,SORT,'''	_ = sort.Strings
	var byName = make(map[string]reflect.Value)
	for _, k := range rv.MapKeys() {
		byName[k.String()] = k
	}
	var keys []reflect.Value
	for _, k := range byName {
		keys = append(keys, k)
	}
''')], ['C13'], []),
 # the same behaviour, written differently
 ('det-q-stable', s(SORT.replace('sort.Slice','sort.SliceStable')), [], ['C13']),
 ('det-q-guard', s('''	var keys = rv.MapKeys()
	if len(keys) > 1 {
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	}
'''), [], ['C13']),
 ('det-q-helper', s('	var keys = sortedKeys(rv)\n')+[top('''func sortedKeys(rv reflect.Value) []reflect.Value {
	keys := rv.MapKeys()
	sort.Slice(keys, func(i, j int) bool {
		a, b := keys[i].String(), keys[j].String()
		return a < b
	})
	return keys
}
''')], [], ['C13']),
 ('det-q-sorter', s('	var keys = rv.MapKeys()\n	sortKeys(keys)\n')+[top('''func sortKeys(ks []reflect.Value) {
	sort.Slice(ks, func(a, b int) bool { return ks[b].String() > ks[a].String() })
}
''')], [], ['C13']),
 ('det-q-type', s('	var keys = rv.MapKeys()\n	sort.Sort(byText(keys))\n')+[top('''type byText []reflect.Value

func (b byText) Len() int           { return len(b) }
func (b byText) Less(i, j int) bool { return b[i].String() < b[j].String() }
func (b byText) Swap(i, j int)      { b[i], b[j] = b[j], b[i] }
''')], [], ['C13']),
 ('det-q-names', [(J,SORT,'''	var names []string
	for _, k := range rv.MapKeys() {
		names = append(names, k.String())
	}
	sort.Strings(names)
'''),(J,LOOP,'''	for _, name := range names {
		krv := reflect.ValueOf(name).Convert(rv.Type().Key())
''')], [], ['C13']),
 ('det-q-range', [(J,SORT,'''	var keys = make([]reflect.Value, 0, rv.Len())
	for it := rv.MapRange(); it.Next(); {
		keys = append(keys, it.Key())
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
''')], [], ['C13']),
 ('det-q-index', [(J,LOOP,'''	for i := 0; i < len(keys); i++ {
		krv := keys[i]
''')], [], ['C13']),
 ('det-q-pairs', [(J,SORT,'''	type entry struct {
		name string
		key  reflect.Value
	}
	var keys []entry
	for _, k := range rv.MapKeys() {
		keys = append(keys, entry{k.String(), k})
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].name < keys[j].name })
'''),(J,LOOP,'''	for _, ent := range keys {
		krv := ent.key
''')], [], ['C13']),
 ('det-q-body', [(J,SORT,SORT+'''	err = cdc.writeEntries(w, rv, keys, fopts)
	return err
}

func (cdc *Codec) writeEntries(w io.Writer, rv reflect.Value, keys []reflect.Value, fopts FieldOptions) (err error) {
	var writeComma = false
'''),(J,'''	var writeComma = false
	// Sort the keys, since map''','''	// Sort the keys, since map''')], [], ['C13']),
]
