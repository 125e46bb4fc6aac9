CORE='tdt/core.go';EPC='scheme/epc.go';ISO='scheme/iso.go';GEN='scheme/generate.go'
TD='''
func translate(t *testing.T, pc []byte, id []byte) string {
	t.Helper()
	s, err := NewCore().Translate(pc, id)
	if err != nil {
		return "error"
	}
	return s
}
'''
HELP['tdt']=dict(package='tdt',imports=['testing','github.com/iomz/gosstrak/scheme'],helpers='var _ = scheme.Sixenc2bin\n'+TD)
seed('t01-extension-top-bits','T01',[(CORE,"""			ext := make([]byte, 4) // 31 bits
			remainder = id[5] & 127""","""			ext := make([]byte, 4) // 31 bits
			remainder = id[5] & 31""")],
'an SSCC with an eight-digit company prefix and an extension above 536870911',
'The highest bits of the extension are lost when an SSCC with an eight-digit company prefix is decoded.',pkg='tdt',demo="""
func TestDemo(t *testing.T) {
	id, _, _, err := scheme.MakeSSCC96(false, "3", "12345678", "999999999")
	if err != nil {
		t.Fatal(err)
	}
	if got := translate(t, []byte{0x30, 0}, id); got != "urn:epc:id:sscc:12345678.999999999" {
		t.Error(got)
	}
}""")
seed('t01-giai-short-reference','T01',[(EPC,'''	11: {PValue: 1, CPBits: 37, IARBits: 45, IARDigits: 14},''','''	11: {PValue: 1, CPBits: 37, IARBits: 44, IARDigits: 14},''')],
'a GIAI with an eleven-digit company prefix and an asset reference that is padded',
'The generator pads asset references after an eleven-digit company prefix one bit short and cannot encode them.',pkg='tdt',demo='''
func TestDemo(t *testing.T) {
	id, _, _, err := scheme.MakeGIAI96(false, "3", "02283922192", "45325")
	if err != nil {
		t.Fatal(err)
	}
	if got := translate(t, []byte{0x30, 0}, id); got != "urn:epc:id:giai:02283922192.45325" {
		t.Error(got)
	}
}''')
seed('t02-family','T02',[(CORE,'''	case 167:
		urn += "17365h:"''','''	case 167:
		urn += "17365:"''')],'a tag of the hazardous transport-unit family A7',
'A transport unit with hazardous content is named like one without.',pkg='tdt',demo='''
func TestDemo(t *testing.T) {
	id, n, _, _, err := scheme.MakeISO17365(false, "25S", "UN", "ABC", "XYZ")
	if err != nil {
		t.Fatal(err)
	}
	if got := translate(t, scheme.MakeISOPC(n, "A7"), id); got != "urn:epc:id:iso17365h:25SUNABCXYZ" {
		t.Error(got)
	}
}''')
seed('t02-one-word-less','T02',[(GEN,'''	l := []rune(fmt.Sprintf("%.5b", length/16))''','''	l := []rune(fmt.Sprintf("%.5b", length/16&15))''')],
'an ISO identifier of 16 words or more (more than 40 characters)',
'The length field of the protocol-control word wraps at 16 words.',pkg='scheme',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	_, n, _, _, err := MakeISO17365(false, "25S", "UN", "043325711", strings.Repeat("MH8031200000000001", 2))
	if err != nil {
		t.Fatal(err)
	}
	if pc := MakeISOPC(n, "A2"); int(pc[0]>>3) != n/16 {
		t.Errorf("%d words, but the length field says %d", n/16, pc[0]>>3)
	}
}''')
seed('t03-long-pc','T03',[(CORE,'''	if len(pc) != 2 {''','''	if len(pc) < 2 {''')],'protocol-control bits of three bytes or more',
'Protocol-control bits of the wrong length are accepted if there are too many.',pkg='tdt',demo='''
func TestDemo(t *testing.T) {
	id, _, _, _ := scheme.MakeSSCC96(false, "3", "123456789", "00000001")
	if got := translate(t, []byte{0x30, 0, 0}, id); got != "error" {
		t.Error(got)
	}
}''')
seed('t03-default-family','T03',[(CORE,'''	case 170:
		urn += "17363h:"
	default:
		return "", errors.New("invalid afi")''','''	case 170:
		urn += "17363h:"
	default:
		if afi < 161 || afi > 171 {
			return "", errors.New("invalid afi")
		}
		urn += "17367h:"''')],'an ISO tag of the one family next to the assigned ones',
'The unassigned family AB is given an identity.',pkg='tdt',demo='''
func TestDemo(t *testing.T) {
	id, _, _, _, _ := scheme.MakeISO17365(false, "25S", "UN", "ABC", "XYZ")
	if got := translate(t, []byte{0x31, 0xAB}, id); got != "error" {
		t.Error(got)
	}
}''')
seed('t04-zero-reference','T04',[('tdt/epc.go','''	if ir != "" {
		itemReference = binutil''','''	if strings.Trim(ir, "0") != "" {
		itemReference = binutil'''),('tdt/epc.go','''	"strconv"
''','''	"strconv"
	"strings"
''')],'a pattern whose item reference is all zeros',
'An item reference of zero in a pattern is taken for one not given, and a random one is matched instead.',pkg='tdt',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	_, want, _, _ := scheme.MakeSGTIN96(true, "3", "0614141", "000000", "")
	got, err := MakePrefixFilterString("sgtin-96", strings.Split("3.0614141.000000", "."))
	if err != nil || got != want {
		t.Errorf("got %q, %v, want %q", got, err, want)
	}
}''')
seed('t06-ten','T06',[(ISO,'''	return (int(n) - int(n/11)*11) % 10, nil''','''	return int(n) - int(n/11)*11, nil''')],'a container number whose weighted sum leaves ten when divided by eleven',
'The check digit of some containers becomes the two digits 10.',pkg='scheme',imports=['fmt'],demo='''
func TestDemo(t *testing.T) {
	for i := 0; i < 100; i++ {
		if d, err := GetISO6346CD(fmt.Sprintf("CSQU%06d", i)); err != nil || d > 9 {
			t.Fatal(i, d, err)
		}
	}
}''')
seed('t06-letter-values','T06',[('tdt/iso.go','"0123456789A?BCDEFGHIJK?LMNOPQRSTU?VWXYZ"','"0123456789A?BCDEFGHIJK?LMNOPQRSTUV?WXYZ"')],
'an owner code with the letter V','The letter V counts 33 instead of 34 in the check digit of container patterns.',pkg='tdt',demo='''
func TestDemo(t *testing.T) {
	_, _, want, _, err := scheme.MakeISO17363(true, "VVV", "U", "305438")
	if err != nil {
		t.Fatal(err)
	}
	got, err := MakePrefixFilterString("iso17363", []string{"7B", "VVV", "U", "305438"})
	if err != nil || got != want {
		t.Errorf("got %q, %v, want %q", got, err, want)
	}
}''')
seed('t07-record-without-tag','T07',[(GEN,'''	if len(bs) == 0 {
		return ""
	}
	return opt + "," + bs''','''	if len(opt) == 0 {
		return ""
	}
	return opt + "," + bs''')],'a tag that cannot be encoded','A record without identifier is printed for a tag that cannot be encoded.',pkg='scheme',demo='''
func TestDemo(t *testing.T) {
	if got := PrintID(MakeEPC(false, "SGTIN-96", "3", "06141412345678", "1", "", "7", "", "")); got != "" {
		t.Error(got)
	}
}''')
seed('t07-container-family','T07',[(GEN,'''		afi := "A9" // 0xA9 ISO 17363 freight containers''','''		afi := "A9" // 0xA9 ISO 17363 freight containers
		if ei == "J" || ei == "Z" { // not the container itself
			afi = "AA"
		}''')],'a container record for detachable equipment (J) or a trailer (Z)',
'Equipment and trailers are printed under the family of hazardous containers.',pkg='scheme',imports=['strings'],demo='''
func TestDemo(t *testing.T) {
	for _, ei := range []string{"U", "J", "Z"} {
		if got := PrintID(MakeISO(false, "17363", "CSQ", ei, "305438", "", "", "", "")); !strings.HasPrefix(got, "29a9,") {
			t.Error(ei, got)
		}
	}
}''')

seed('t05-owner-with-digits','T05',[(ISO,"oc = binutil.GenerateNLengthAlphabetString(3)","oc = binutil.GenerateNLengthAlphanumericString(3)")],
'a container generated without an owner code','Generated owner codes contain digits.',pkg='scheme',imports=['github.com/iomz/go-llrp/binutil'],demo="""
func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		id, _, _, _, err := MakeISO17363(false, "", "U", "305438")
		if err != nil {
			t.Fatal(err)
		}
		bits := binutil.ParseByteSliceToBinString(id)
		for j := 12; j < 30; j += 6 {
			if bits[j] != '0' { // 6-bit letters are 000001 to 011010
				t.Fatalf("owner code with a character %s", bits[j:j+6])
			}
		}
	}
}""")

seed('t04-one-zero-short','T04',[('tdt/epc.go',"""		if pr[IARBits] > len(indivisualAssetReference) {""","""		if pr[IARBits] > len(indivisualAssetReference)+1 {""")],
'a GIAI pattern whose asset reference needs exactly one leading zero bit',
'An asset reference one bit shorter than its field is not padded in patterns.',pkg='tdt',imports=['strings'],demo="""
func TestDemo(t *testing.T) {
	_, want, _, _ := scheme.MakeGIAI96(true, "3", "0614141", "72057594037927937")
	got, err := MakePrefixFilterString("giai-96", strings.Split("3.0614141.72057594037927937", "."))
	if err != nil || got != want {
		t.Errorf("got %q, %v, want %q", got, err, want)
	}
}""")
