# C22: scalars in JSON.
JD='json-decode.go'; JE='json-encode.go'
X=['C22']
EI='''	case reflect.Int64, reflect.Int:
		_, err = fmt.Fprintf(w, `"%d"`, rv.Int()) // JS can't handle int64
		return
'''
EU='''	case reflect.Uint64, reflect.Uint:
		_, err = fmt.Fprintf(w, `"%d"`, rv.Uint()) // JS can't handle uint64
		return
'''
DQ='''		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {'''
M=[
 ('jsc-int-plain',[(JE,EI,''),(JE,'case reflect.Int32, reflect.Int16, reflect.Int8,\n		reflect.Uint32','case reflect.Int64, reflect.Int, reflect.Int32, reflect.Int16, reflect.Int8,\n		reflect.Uint32')],X,[]),
 ('jsc-int-hex',[(JE,'`"%d"`, rv.Int()','`"%x"`, rv.Int()')],X,[]),
 ('jsc-uint-asint',[(JE,'`"%d"`, rv.Uint()','`"%d"`, int64(rv.Uint())')],X,[]),
 ('jsc-int32-quoted',[(JE,'case reflect.Int64, reflect.Int:','case reflect.Int64, reflect.Int, reflect.Int32:'),(JE,'	case reflect.Int32, reflect.Int16, reflect.Int8,\n		reflect.Uint32','	case reflect.Int16, reflect.Int8,\n		reflect.Uint32')],X,[]),
 ('jsc-small-plain',[(JE,EI,'''	case reflect.Int64, reflect.Int:
		if x := rv.Int(); x > -1<<53 && x < 1<<53 {
			_, err = fmt.Fprintf(w, `%d`, x)
			return
		}
		_, err = fmt.Fprintf(w, `"%d"`, rv.Int()) // JS can't handle int64
		return
''')],X,[]),
 ('jsc-dec-noend',[(JD,DQ,'''		if len(bz) < 2 || bz[0] != '"' {''')],X,[]),
 ('jsc-dec-nostart',[(JD,DQ,'''		if len(bz) < 2 || bz[len(bz)-1] != '"' {''')],X,[]),
 ('jsc-dec-opt',[(JD,'		bz = bz[1 : len(bz)-1]\n		fallthrough','		if len(bz) > 2 {\n			bz = bz[1 : len(bz)-1]\n		}\n		fallthrough')],X,[]),
 ('jsc-dec-limit',[(JD,DQ,'''		if len(bz) < 2 || len(bz) > 20 || bz[0] != '"' || bz[len(bz)-1] != '"' {''')],X,[]),
 ('jsc-dec-unquoted',[(JD,DQ,'''		if bz[0] >= '0' && bz[0] <= '9' {
			return invokeStdlibJSONUnmarshal(bz, rv, fopts)
		}
		if len(bz) < 2 || bz[0] != '"' || bz[len(bz)-1] != '"' {''')],X,[]),
 ('jsc-dec-uint32-quoted',[(JD,'	case reflect.Uint64, reflect.Uint:\n','	case reflect.Uint64, reflect.Uint, reflect.Uint32:\n'),(JD,'reflect.Uint32, reflect.Uint16, reflect.Uint8:\n		err','reflect.Uint16, reflect.Uint8:\n		err')],X,[]),
 ('jsc-dec-uint-plain',[(JD,'	case reflect.Uint64, reflect.Uint:\n','	case reflect.Uint64:\n'),(JD,'reflect.Uint32, reflect.Uint16, reflect.Uint8:\n		err','reflect.Uint32, reflect.Uint16, reflect.Uint8, reflect.Uint:\n		err')],X,[]),
 ('jsc-dec-trim',[(JD,'		bz = bz[1 : len(bz)-1]\n		fallthrough','		bz = bz[1:]\n		fallthrough')],X,[]),
 ('jsc-dec-nostore',[(JD,'	rv.Set(rrv.Elem())\n	return nil','	if bz[0] != \'0\' {\n		rv.Set(rrv.Elem())\n	}\n	return nil')],X,[]),
 ('jsc-dec-zero',[(JD,'	if nullBytes(bz) {','	if nullBytes(bz) || bytes.Equal(bz, []byte("0")) {')],X,[]),
 ('jsc-dec-long',[(JD,'	// Dereference-and-construct pointers all the way.','	if len(bz) > 1<<20 {\n		return errors.New("too long")\n	}\n	// Dereference-and-construct pointers all the way.')],X,[]),
 ('jsc-enc-string',[(JE,'	case reflect.Bool, reflect.String:\n		return','	case reflect.String:\n		_, err = fmt.Fprintf(w, "%q", rv.String())\n		return\n	case reflect.Bool:\n		return')],X,[]),
 ('jsc-enc-int8-char',[(JE,'	case reflect.Int32, reflect.Int16, reflect.Int8,\n		reflect.Uint32, reflect.Uint16, reflect.Uint8:\n','	case reflect.Uint8:\n		return invokeStdlibJSONMarshal(w, int8(rv.Uint()))\n	case reflect.Int32, reflect.Int16, reflect.Int8,\n		reflect.Uint32, reflect.Uint16:\n')],X,[]),
 # kept
 ('jsc-ok-conv',[(JE,EI,'''	case reflect.Int64, reflect.Int:
		return writeStr(w, `"`+strconv.FormatInt(rv.Int(), 10)+`"`)
'''),(JE,'	"sort"\n','	"sort"\n	"strconv"\n')],[],X),
 ('jsc-ok-parts',[(JE,EU,'''	case reflect.Uint64, reflect.Uint:
		return writeQuoted(w, rv.Uint())
'''),(JE,None,'''
func writeQuoted(w io.Writer, u uint64) error {
	if err := writeStr(w, `"`); err != nil {
		return err
	}
	if _, err := fmt.Fprint(w, u); err != nil {
		return err
	}
	return writeStr(w, `"`)
}
''')],[],X),
 ('jsc-ok-helper',[(JD,DQ,'''		if !isQuoted(bz) {'''),(JD,None,'''
func isQuoted(bz []byte) bool {
	n := len(bz)
	return n > 1 && bz[0] == '"' && bz[n-1] == '"'
}
''')],[],X),
 ('jsc-ok-addr',[(JD,'''	rrv := rv
	if rv.Kind() != reflect.Ptr {
		rrv = reflect.New(rv.Type())
	}

	if err := json.Unmarshal(bz, rrv.Interface()); err != nil {
		return err
	}
	rv.Set(rrv.Elem())
	return nil''','''	target := rv
	if rv.Kind() != reflect.Ptr {
		target = reflect.New(rv.Type())
	}
	err := json.Unmarshal(bz, target.Interface())
	if err == nil {
		rv.Set(target.Elem())
	}
	return err''')],[],X),
]
